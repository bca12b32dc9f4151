package checks

import (
	"context"
	"errors"
	"fmt"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"time"

	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/known/wrapperspb"
	"pgregory.net/rapid"

	"github.com/livekit/psrpc"
	"github.com/livekit/psrpc/internal"
	"github.com/livekit/psrpc/internal/bus"
	"github.com/livekit/psrpc/pkg/client"
	"github.com/livekit/psrpc/pkg/metadata"
	"github.com/livekit/psrpc/pkg/server"
	"github.com/livekit/psrpc/testutils"
	"github.com/livekit/psrpc/verif/engine"
)

var c15Methods = []Method{{Name: "Do"}, {Name: "Cl", Claim: true}, {Name: "Aff", Claim: true, Affinity: true},
	{Name: "All", Multi: true}, {Name: "St"}, {Name: "CSt", Claim: true}, {Name: "Sub"}}

// ---------------------------------------------------------------- schedule

type c15Call struct {
	At, Work, Timeout int
	How               string // Do Cl Aff All St CSt
}

type c15Case struct {
	Bus   string
	Chan  int
	Lat   map[string]int
	Calls []c15Call
	Close int // not a multiple of ten
	Times int // how many goroutines close it
	Again int // closed once more, after this time; 0: not
	Cut   int // 1-3: instead of being closed it loses that subscription of its own
}

// c15Cut ends subscriptions without their being closed, as a lost bus does.
type c15Cut struct {
	mu sync.Mutex
	at []chan struct{} // in the order of subscribing
}

func (k *c15Cut) Wrap(b psrpc.MessageBus) psrpc.MessageBus {
	return testutils.NewTestBus(b, testutils.WithSubscribeInterceptor(
		func(ctx context.Context, channel testutils.Channel, next testutils.ReadHandler) testutils.ReadHandler {
			type msg struct {
				b  []byte
				ok bool
			}
			cut, msgs := make(chan struct{}), make(chan msg)
			k.mu.Lock()
			k.at = append(k.at, cut)
			k.mu.Unlock()
			go func() {
				for {
					b, ok := next()
					select {
					case msgs <- msg{b, ok}:
					case <-cut:
					}
					if !ok {
						return
					}
				}
			}()
			return func() ([]byte, bool) {
				select {
				case m := <-msgs:
					return m.b, m.ok
				case <-cut:
					return nil, false
				}
			}
		}))
}

func genC15(t *rapid.T) c15Case {
	c := c15Case{Bus: genBus(t, 4), Lat: map[string]int{}, Chan: rapid.SampledFrom([]int{1, 2, 100}).Draw(t, "chan")}
	for _, k := range []string{"REQ", "RES", "CLAIM", "RCLAIM", "OPEN", "ACK", "CLOSE"} {
		if v := rapid.SampledFrom([]int{0, 0, 0, 10, 60, 250}).Draw(t, "lat"+k); v > 0 {
			c.Lat[k] = v
		}
	}
	if c.Lat["CLOSE"] > 100 {
		c.Lat["CLOSE"] = 100 // or it expires on the way
	}
	least, most := 1, 10
	hows := []string{"Do", "Do", "Cl", "Aff", "All", "St", "CSt"}
	if rapid.IntRange(0, 4).Draw(t, "many") == 0 {
		least, most = rapid.SampledFrom([]int{5, 20, 50}).Draw(t, "least"), 60
		if rapid.Bool().Draw(t, "streams") {
			hows = []string{"St", "CSt"}
		}
	}
	c.Calls = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) c15Call {
		return c15Call{
			At:      10 * rapid.IntRange(0, 60).Draw(t, "at"),
			Work:    rapid.SampledFrom([]int{0, 10, 100, 500, 1500}).Draw(t, "work"),
			How:     rapid.SampledFrom(hows).Draw(t, "how"),
			Timeout: rapid.SampledFrom([]int{200, 1000, 3000}).Draw(t, "timeout"),
		}
	}), least, most).Draw(t, "calls")
	c.Close = 10*rapid.IntRange(0, 60).Draw(t, "close") + 5
	c.Times = rapid.IntRange(1, 3).Draw(t, "times")
	if rapid.Bool().Draw(t, "again") {
		c.Again = rapid.IntRange(1, 500).Draw(t, "againat")
	}
	if rapid.IntRange(0, 4).Draw(t, "cuts") == 0 {
		c.Cut = rapid.IntRange(1, 3).Draw(t, "cut")
	}
	return c
}

func runC15(e *engine.Env, c c15Case) {
	fab := NewFabric(c.Bus)
	if fab.Kind == "local" {
		e.NoLeaks()
	}
	net, snet := NewNet(nil, c.Lat), NewNet(nil, c.Lat)
	subs := &SubLog{}
	s := server.NewRPCServer(define("Svc", "srv", c15Methods...), snet.Wrap(fab.Bus()))
	var mu sync.Mutex
	var open int
	h := func(ctx context.Context, q Str) (Str, error) {
		if i, err := strconv.Atoi(q.GetValue()); err == nil {
			time.Sleep(msd(c.Calls[i].Work))
		}
		return q, nil
	}
	sh := func(ss psrpc.ServerStream[Str, Str]) error {
		mu.Lock()
		open++
		mu.Unlock()
		<-ss.Context().Done()
		mu.Lock()
		open--
		mu.Unlock()
		return nil
	}
	for _, m := range c15Methods {
		if strings.HasSuffix(m.Name, "St") {
			must(e, server.RegisterStreamHandler[Str, Str](s, m.Name, nil, sh, nil), "register")
		} else {
			must(e, server.RegisterHandler(s, m.Name, nil, h, nil), "register")
		}
	}
	hooked := 0
	cut := &c15Cut{}
	b := net.Wrap(fab.Bus())
	if c.Cut > 0 {
		b = cut.Wrap(b)
	}
	cl, err := client.NewRPCClientWithStreams(define("Svc", "cli", c15Methods...), subs.Wrap(b),
		psrpc.WithClientChannelSize(c.Chan),
		psrpc.WithClientRequestHooks(func(ctx context.Context, req proto.Message, i psrpc.RPCInfo) {
			mu.Lock()
			hooked++
			mu.Unlock()
		}))
	must(e, err, "new client")
	other, err := client.NewRPCClientWithStreams(define("Svc", "other", c15Methods...), fab.Bus())
	must(e, err, "new client")
	time.Sleep(time.Second)
	t0 := time.Now()
	x := t0.Add(msd(c.Close))

	type outcome struct {
		err        error
		start, end time.Time
		n          int
		streamEnd  time.Time
		sendErr    error
	}
	outs := make([]outcome, len(c.Calls))
	var wg sync.WaitGroup
	call := func(i int, q c15Call) (out outcome) {
		ctx := metadata.NewContextWithOutgoingMetadata(context.Background(), metadata.Metadata{"call": strconv.Itoa(i)})
		o := psrpc.WithRequestTimeout(msd(q.Timeout))
		req := S(strconv.Itoa(i))
		out.start = time.Now()
		switch q.How {
		case "Do", "Cl", "Aff":
			_, out.err = client.RequestSingle[Str](ctx, cl, q.How, nil, req, o)
		case "All":
			var ch <-chan *psrpc.Response[Str]
			ch, out.err = client.RequestMulti[Str](ctx, cl, q.How, nil, req, o)
			if out.err == nil {
				for r := range ch {
					if r.Err == nil {
						out.n++
					}
				}
			}
		default:
			var cs psrpc.ClientStream[Str, Str]
			cs, out.err = client.OpenStream[*wrapperspb.StringValue, *wrapperspb.StringValue](ctx, cl, q.How, nil, o)
			if out.err == nil {
				out.end = time.Now()
				<-cs.Context().Done()
				out.streamEnd = time.Now()
				if _, ok := <-cs.Channel(); ok {
					e.Failf("call %d: a message came out of an ended stream", i)
				}
				out.sendErr = cs.Send(S("x"))
				if out.sendErr == nil || time.Now().After(out.streamEnd) {
					e.Failf("call %d: sending on a stream of a closed client gave %v after %v", i, out.sendErr, time.Since(out.streamEnd))
				}
			}
		}
		if out.end.IsZero() {
			out.end = time.Now()
		}
		return
	}
	for i, q := range c.Calls {
		wg.Add(1)
		go func() {
			defer wg.Done()
			time.Sleep(msd(q.At))
			out := call(i, q)
			mu.Lock()
			outs[i] = out
			mu.Unlock()
		}()
	}
	for range c.Times {
		wg.Add(1)
		go func() {
			defer wg.Done()
			time.Sleep(msd(c.Close))
			if c.Cut > 0 {
				cut.mu.Lock()
				defer cut.mu.Unlock()
				if ch := cut.at[c.Cut-1]; ch != nil {
					close(ch)
					cut.at[c.Cut-1] = nil
				}
				return
			}
			cl.Close()
			if time.Now().After(x) {
				e.Failf("closing the client took %v", time.Since(x))
			}
		}()
	}
	if c.Again > 0 {
		wg.Add(1)
		go func() {
			defer wg.Done()
			time.Sleep(msd(c.Close + c.Again))
			cl.Close()
		}()
	}
	// the other client is not concerned
	for _, d := range []int{0, 4, 6, 300} {
		wg.Add(1)
		go func() {
			defer wg.Done()
			time.Sleep(msd(max(0, c.Close-5) + d))
			if _, err := client.RequestSingle[Str](context.Background(), other, "Cl", nil, S("other")); err != nil {
				e.Failf("a call of another client, %d ms from the close, failed with %v", d-5, err)
			}
		}()
	}
	wg.Add(1)
	go func() {
		defer wg.Done()
		time.Sleep(msd(c.Close) + ms)
		if left := subs.Open(); len(left) > 0 {
			e.Failf("the closed client still has the subscriptions %v", left)
		}
		mu.Lock()
		was := hooked
		mu.Unlock()
		made := subs.Made()
		b := time.Now()
		for _, m := range c15Methods {
			out := call(0, c15Call{How: m.Name, Timeout: 1000})
			if !errors.Is(out.err, psrpc.ErrClientClosed) {
				e.Failf("%s through a closed client gave %v, want client closed", m.Name, out.err)
			}
		}
		if s, err := client.Join[Str](context.Background(), cl, "Do", nil); !errors.Is(err, psrpc.ErrClientClosed) || s != nil {
			e.Failf("subscribing through a closed client gave %v, want client closed", err)
		}
		if s, err := client.JoinQueue[Str](context.Background(), cl, "Do", nil); !errors.Is(err, psrpc.ErrClientClosed) || s != nil {
			e.Failf("subscribing to the queue through a closed client gave %v, want client closed", err)
		}
		if d := time.Since(b); d > 0 {
			e.Failf("calls through a closed client took %v", d)
		}
		if subs.Made() != made {
			e.Failf("subscribing through a closed client reached the bus")
		}
		mu.Lock()
		if hooked != was {
			e.Failf("a request hook ran for a call through a closed client")
		}
		mu.Unlock()
	}()
	if !within(time.Minute, wg.Wait) {
		e.Fatalf("a call had not returned after a minute")
	}
	time.Sleep(5 * time.Second)

	type trip struct{ res *Sent }
	trips := make([]trip, len(c.Calls))
	ids := map[string]int{}
	sent := map[string]bool{}
	for _, sn := range net.Log() {
		switch m := sn.Msg.(type) {
		case *internal.Request:
			v, _ := bus.DeserializePayload[Str](m.RawRequest)
			if i, err := strconv.Atoi(v.GetValue()); err == nil {
				ids[m.RequestId] = i
			}
		case *internal.Stream:
			if o := m.GetOpen(); o != nil {
				i, _ := strconv.Atoi(o.Metadata["call"])
				ids[m.RequestId] = i
			}
		}
		sent[sn.Kind] = true
		if sn.At.After(x) && (sn.Kind == "REQ" || sn.Kind == "OPEN" || sn.Kind == "MSG") {
			e.Failf("%v after it was closed the client sent a %s", sn.At.Sub(x), sn.Kind)
		}
	}
	for _, sn := range snet.Log() {
		switch m := sn.Msg.(type) {
		case *internal.Response:
			if i, ok := ids[m.RequestId]; ok {
				trips[i].res = sn
			}
		case *internal.Stream:
			if i, ok := ids[m.RequestId]; ok && m.GetAck() != nil {
				trips[i].res = sn
			}
		}
	}
	mu.Lock()
	inflight := 0
	for i, q := range c.Calls {
		o, name := outs[i], fmt.Sprintf("call %d (%s)", i, q.How)
		if o.start.IsZero() {
			continue
		}
		limit := o.start.Add(msd(q.Timeout))
		if o.start.After(x) {
			if !errors.Is(o.err, psrpc.ErrClientClosed) || o.end.After(o.start) {
				e.Failf("%s through a closed client gave %v after %v", name, o.err, o.end.Sub(o.start))
			}
			continue
		}
		if o.end.After(x) || o.streamEnd.After(x.Add(-ms)) {
			inflight++
		}
		if o.end.After(limit) {
			e.Failf("%s returned %v after its timeout", name, o.end.Sub(limit))
		}
		var arr time.Time
		if r := trips[i].res; r != nil {
			arr = r.Out
		}
		answered := !arr.IsZero() && arr.Before(x) && arr.Before(limit)
		if q.How == "All" {
			want := 0
			if answered {
				want = 1
			}
			if o.err != nil || o.n != want {
				e.Failf("%s had %d results and the error %v, want %d results", name, o.n, o.err, want)
			}
			continue
		}
		if answered && o.err != nil {
			e.Failf("%s was answered %v before the client was closed, and failed with %v", name, x.Sub(arr), o.err)
		}
		if !answered && o.err == nil && !arr.Equal(limit) {
			e.Failf("%s succeeded without an answer before the close", name)
		}
		if !o.streamEnd.IsZero() && (o.streamEnd.After(x) || o.streamEnd.Before(x)) {
			e.Failf("%s: the stream ended %v after the client was closed", name, o.streamEnd.Sub(x))
		}
	}
	if open > 0 {
		e.Failf("%d streams of the closed client are still open on the server", open)
	}
	mu.Unlock()
	e.Class("bus: %s", c.Bus)
	e.Class("in progress at the close: %s", bucket(inflight))
	if inflight > 0 {
		e.NonTrivial()
	}
	other.Close()
	s.Close(true)
	time.Sleep(time.Second)
	fab.Close()
}

// ---------------------------------------------------------------- churn

type c15Op struct {
	Do    string // Do Cl Aff All St CSt join joinq close
	Yield int
	Sleep int
}

type c15Churn struct {
	Chan  int
	Procs [][]c15Op
	In    string // where else the client is closed
	Nth   int
}

func genC15Churn(t *rapid.T) c15Churn {
	op := rapid.Custom(func(t *rapid.T) c15Op {
		o := c15Op{
			Do:    rapid.SampledFrom([]string{"Do", "Cl", "Aff", "All", "St", "CSt", "join", "joinq", "Do", "close"}).Draw(t, "do"),
			Yield: rapid.IntRange(0, 6).Draw(t, "yield"),
		}
		if rapid.IntRange(0, 4).Draw(t, "sleeps") == 0 {
			o.Sleep = rapid.IntRange(1, 300).Draw(t, "sleep")
		}
		return o
	})
	return c15Churn{
		Chan:  rapid.SampledFrom([]int{0, 1, 100}).Draw(t, "chan"),
		Procs: rapid.SliceOfN(rapid.SliceOfN(op, 1, 5), 1, 5).Draw(t, "procs"),
		In:    rapid.SampledFrom([]string{"", "", "request hook", "response hook", "interceptor", "handler", "stream handler"}).Draw(t, "in"),
		Nth:   rapid.IntRange(0, 2).Draw(t, "nth"),
	}
}

func runC15Churn(e *engine.Env, c c15Churn) {
	e.NoLeaks()
	b := psrpc.NewLocalMessageBus()
	subs := &SubLog{}
	s := server.NewRPCServer(define("Svc", "srv", c15Methods...), b)
	var mu sync.Mutex
	closed, hit := false, 0
	var cl *client.RPCClient
	shut := func() {
		cl.Close()
		mu.Lock()
		closed = true
		mu.Unlock()
	}
	trap := func(where string) {
		if where != c.In {
			return
		}
		mu.Lock()
		n := hit
		hit++
		mu.Unlock()
		if n == c.Nth {
			shut()
		}
	}
	h := func(ctx context.Context, q Str) (Str, error) { trap("handler"); return q, nil }
	sh := func(ss psrpc.ServerStream[Str, Str]) error {
		trap("stream handler")
		for m := range ss.Channel() {
			_ = ss.Send(m)
		}
		return nil
	}
	for _, m := range c15Methods {
		if strings.HasSuffix(m.Name, "St") {
			must(e, server.RegisterStreamHandler[Str, Str](s, m.Name, nil, sh, nil), "register")
		} else {
			must(e, server.RegisterHandler(s, m.Name, nil, h, nil), "register")
		}
	}
	var err error
	cl, err = client.NewRPCClientWithStreams(define("Svc", "cli", c15Methods...), subs.Wrap(b),
		psrpc.WithClientChannelSize(max(c.Chan, 1)),
		psrpc.WithClientTimeout(time.Second),
		psrpc.WithClientRequestHooks(func(context.Context, proto.Message, psrpc.RPCInfo) { trap("request hook") }),
		psrpc.WithClientResponseHooks(func(context.Context, proto.Message, psrpc.RPCInfo, proto.Message, error) { trap("response hook") }),
		psrpc.WithClientRPCInterceptors(func(_ psrpc.RPCInfo, next psrpc.ClientRPCHandler) psrpc.ClientRPCHandler {
			return func(ctx context.Context, r proto.Message, o ...psrpc.RequestOption) (proto.Message, error) {
				trap("interceptor")
				return next(ctx, r, o...)
			}
		}))
	must(e, err, "new client")
	time.Sleep(ms)
	var wg sync.WaitGroup
	during := 0
	for _, p := range c.Procs {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for _, o := range p {
				for range o.Yield {
					runtime.Gosched()
				}
				if o.Sleep > 0 {
					time.Sleep(msd(o.Sleep))
				}
				mu.Lock()
				was := closed
				mu.Unlock()
				start := time.Now()
				var err error
				switch o.Do {
				case "close":
					shut()
				case "join", "joinq":
					join := client.Join[Str]
					if o.Do == "joinq" {
						join = client.JoinQueue[Str]
					}
					var sub bus.Subscription[Str]
					if sub, err = join(context.Background(), cl, "Sub", nil); err == nil {
						_ = sub.Close()
					}
				case "All":
					var ch <-chan *psrpc.Response[Str]
					if ch, err = client.RequestMulti[Str](context.Background(), cl, o.Do, nil, S("x")); err == nil {
						for range ch {
						}
					}
				case "St", "CSt":
					var cs psrpc.ClientStream[Str, Str]
					if cs, err = client.OpenStream[*wrapperspb.StringValue, *wrapperspb.StringValue](context.Background(), cl, o.Do, nil); err == nil {
						if cs.Send(S("x")) == nil {
							<-cs.Channel()
						}
						_ = cs.Close(nil)
					}
				default:
					_, err = client.RequestSingle[Str](context.Background(), cl, o.Do, nil, S("x"))
				}
				if took := time.Since(start); took > 2*time.Second {
					e.Failf("%s took %v, its timeout is a second", o.Do, took)
				}
				mu.Lock()
				is := closed
				mu.Unlock()
				if was && o.Do != "close" && (!errors.Is(err, psrpc.ErrClientClosed) || time.Since(start) > 0) {
					e.Failf("%s through a closed client gave %v after %v", o.Do, err, time.Since(start))
				}
				if !is && errors.Is(err, psrpc.ErrClientClosed) && c.In == "" && !hasClose(c) {
					e.Failf("%s through an open client gave %v", o.Do, err)
				}
				if !was && is {
					mu.Lock()
					during++
					mu.Unlock()
				}
			}
		}()
	}
	if !within(time.Minute, wg.Wait) {
		e.Fatalf("an operation had not returned after a minute")
	}
	shut()
	time.Sleep(ms)
	if left := subs.Open(); len(left) > 0 {
		e.Failf("the closed client still has the subscriptions %v", left)
	}
	s.Close(false)
	time.Sleep(5 * time.Second)
	if during > 0 {
		e.NonTrivial()
		e.Class("closed in: %s", c.In)
	}
}

func hasClose(c c15Churn) bool {
	for _, p := range c.Procs {
		for _, o := range p {
			if o.Do == "close" {
				return true
			}
		}
	}
	return false
}

// ---------------------------------------------------------------- construction

type c15New struct {
	Streams bool
	Fail    int  // which subscription fails
	Inner   bool // below the interceptors
	Kind    string
}

type failingBus struct {
	psrpc.MessageBus
	mu   sync.Mutex
	n    int
	fail int
}

func (b *failingBus) fails() bool {
	b.mu.Lock()
	defer b.mu.Unlock()
	b.n++
	return b.n-1 == b.fail
}

func (b *failingBus) Subscribe(ctx context.Context, ch bus.Channel, n int) (bus.Reader, error) {
	if b.fails() {
		return nil, errPublish
	}
	return b.MessageBus.Subscribe(ctx, ch, n)
}

func (b *failingBus) SubscribeQueue(ctx context.Context, ch bus.Channel, n int) (bus.Reader, error) {
	if b.fails() {
		return nil, errPublish
	}
	return b.MessageBus.SubscribeQueue(ctx, ch, n)
}

func runC15New(e *engine.Env, c c15New) {
	fab := NewFabric(c.Kind)
	if fab.Kind == "local" {
		e.NoLeaks()
	}
	subs := &SubLog{}
	var fb psrpc.MessageBus = &failingBus{MessageBus: subs.Wrap(fab.Bus()), fail: c.Fail}
	if c.Inner {
		fb = subs.Wrap(&failingBus{MessageBus: fab.Bus(), fail: c.Fail})
	}
	mk := client.NewRPCClient
	n := 2
	if c.Streams {
		mk, n = client.NewRPCClientWithStreams, 3
	}
	cl, err := mk(define("Svc", "cli", c15Methods...), fb)
	time.Sleep(ms)
	if c.Fail < n {
		if err == nil || cl != nil {
			e.Failf("subscription %d failed, and a client was made (error: %v)", c.Fail, err)
		} else if !errors.Is(err, errPublish) {
			e.Failf("subscription %d failed, and the error is %v", c.Fail, err)
		}
	} else {
		if err != nil {
			e.Fatalf("no client: %v", err)
		}
		want := 2
		if c.Streams {
			want = 3
		}
		if got := len(subs.Open()); got != want {
			e.Failf("the client has %d subscriptions, want %d", got, want)
		}
		for i := range 4 {
			join := client.Join[Str]
			if i%2 == 1 {
				join = client.JoinQueue[Str]
			}
			sub, err := join(context.Background(), cl, "Sub", []string{fmt.Sprint(i)})
			if want+i == c.Fail {
				if err == nil || code(err) != psrpc.Internal || !errors.Is(err, errPublish) || sub != nil {
					e.Failf("subscription %d failed, and the result is %v, %v", c.Fail, sub, err)
				}
			} else if err != nil {
				e.Failf("subscribing failed: %v", err)
			} else {
				time.Sleep(ms)
				_ = sub.Close()
			}
		}
		cl.Close()
		time.Sleep(ms)
	}
	if left := subs.Open(); len(left) > 0 {
		e.Failf("the subscriptions %v are left", left)
	}
	e.NonTrivial()
	time.Sleep(time.Second)
	fab.Close()
}

func init() {
	engine.Add("C15", "schedule", "something was in progress when the client was closed",
		2000, 30000, genC15, runC15)
	engine.Add("C15", "churn", "the client was closed during some operation",
		3000, 50000, genC15Churn, runC15Churn)
	engine.Add("C15", "construct", "every case",
		120, 400, func(t *rapid.T) c15New {
			return c15New{rapid.Bool().Draw(t, "streams"), rapid.IntRange(0, 7).Draw(t, "fail"), rapid.Bool().Draw(t, "inner"), genBus(t, 1)}
		}, runC15New)
}
