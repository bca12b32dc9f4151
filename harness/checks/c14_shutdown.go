package checks

import (
	"context"
	"errors"
	"fmt"
	"runtime"
	"strconv"
	"sync"
	"testing/synctest"
	"time"

	"google.golang.org/protobuf/types/known/wrapperspb"
	"pgregory.net/rapid"

	"github.com/livekit/psrpc"
	"github.com/livekit/psrpc/internal"
	"github.com/livekit/psrpc/internal/bus"
	"github.com/livekit/psrpc/pkg/client"
	"github.com/livekit/psrpc/pkg/info"
	"github.com/livekit/psrpc/pkg/metadata"
	"github.com/livekit/psrpc/pkg/server"
	"github.com/livekit/psrpc/verif/engine"
)

// ---------------------------------------------------------------- schedule
//
// All times of calls and delays are multiples of ten, those of the shutdown end
// in another digit: nothing happens at the instant of a shutdown.

type c14Call struct {
	At, Work int
	How      string // Do Qu Cl All St CSt
	Topic    string
	Timeout  int
	Ignore   bool // the handler does not look at its context
}

type c14Case struct {
	Bus    string
	Lat    map[string]int
	Faults []Fault
	Calls  []c14Call
	Dereg  int // Do with topic "b" is deregistered then, 0: never
	G      int
	Force  bool
	Kill   int // after G, 0: never
	Again  bool
	Slow   int // building the interceptors of a stream takes so long
	Extra  int // so many more topics Do is registered with
}

func genC14(t *rapid.T) c14Case {
	c := c14Case{Bus: genBus(t, 4), Lat: map[string]int{}}
	for _, k := range []string{"REQ", "RES", "CLAIM", "RCLAIM", "OPEN"} {
		if v := rapid.SampledFrom([]int{0, 0, 0, 10, 60, 250}).Draw(t, "lat"+k); v > 0 {
			c.Lat[k] = v
		}
	}
	c.Faults = genFaults(t, []string{"REQ", "RES", "RCLAIM", "OPEN"}, []string{"delay", "drop"}, 3, 8, 60)
	for i := range c.Faults {
		c.Faults[i].Ms *= 10
	}
	least, most := 1, 10
	topics := []string{"a", "a", "b"}
	if rapid.IntRange(0, 3).Draw(t, "many") == 0 {
		least, most = rapid.SampledFrom([]int{1, 12, 24}).Draw(t, "least"), 30
		c.Extra = rapid.IntRange(1, 40).Draw(t, "extra")
		for i := range c.Extra {
			topics = append(topics, fmt.Sprint("x", i))
		}
	}
	c.Calls = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) c14Call {
		x := c14Call{
			At:      10 * rapid.IntRange(0, 40).Draw(t, "at"),
			Work:    rapid.SampledFrom([]int{0, 10, 100, 500, 1500, 4000}).Draw(t, "work"),
			How:     rapid.SampledFrom([]string{"Do", "Do", "Qu", "Cl", "Cl", "All", "St", "CSt"}).Draw(t, "how"),
			Topic:   rapid.SampledFrom(topics).Draw(t, "topic"),
			Timeout: rapid.SampledFrom([]int{200, 1000, 3000}).Draw(t, "timeout"),
			Ignore:  rapid.Bool().Draw(t, "ignore"),
		}
		if x.Topic[0] == 'x' {
			x.How = "Do"
		}
		return x
	}), least, most).Draw(t, "calls")
	c.G = 10*rapid.IntRange(0, 60).Draw(t, "g") + 3
	c.Force = rapid.IntRange(0, 3).Draw(t, "force") == 0
	if rapid.IntRange(0, 3).Draw(t, "dereg") == 0 {
		// deregistering a handler during the shutdown abandons its requests like a kill
		if d := 10*rapid.IntRange(0, 60).Draw(t, "deregat") + 6; d < c.G {
			c.Dereg = d
		}
	}
	if rapid.Bool().Draw(t, "kill") {
		c.Kill = c.G + 10*rapid.IntRange(0, 60).Draw(t, "killat") + 4
	}
	c.Again = rapid.Bool().Draw(t, "again")
	if rapid.Bool().Draw(t, "slowopen") {
		c.Slow = 10 * rapid.IntRange(1, 30).Draw(t, "slow")
	}
	return c
}

type c14Run struct {
	start, end time.Time
	over       bool
}

func runC14(e *engine.Env, c c14Case) {
	fab := NewFabric(c.Bus)
	if fab.Kind == "local" {
		e.NoLeaks() // the other buses have workers of their own
	}
	net := NewNet(c.Faults, c.Lat)
	subs := &SubLog{}
	methods := []Method{{Name: "Do"}, {Name: "Qu", Queue: true}, {Name: "Cl", Claim: true}, {Name: "All", Multi: true},
		{Name: "St"}, {Name: "CSt", Claim: true}}
	s := server.NewRPCServer(define("Svc", "srv", methods...), subs.Wrap(net.Wrap(fab.Bus())),
		psrpc.WithServerStreamInterceptors(func(_ psrpc.RPCInfo, next psrpc.StreamHandler) psrpc.StreamHandler {
			time.Sleep(msd(c.Slow))
			return next
		}))

	var mu sync.Mutex
	runs := map[int]*c14Run{}
	begin := func(v string) (int, *c14Run) {
		i, err := strconv.Atoi(v)
		if err != nil || i >= len(c.Calls) {
			e.Failf("a handler got the request %q", v)
			return 0, &c14Run{}
		}
		mu.Lock()
		defer mu.Unlock()
		if runs[i] != nil {
			e.Failf("call %d was executed twice", i)
		}
		r := &c14Run{start: time.Now()}
		runs[i] = r
		return i, r
	}
	end := func(r *c14Run) {
		mu.Lock()
		r.end, r.over = time.Now(), true
		mu.Unlock()
	}
	h := func(ctx context.Context, q Str) (Str, error) {
		i, r := begin(q.GetValue())
		tm := time.NewTimer(msd(c.Calls[i].Work))
		defer tm.Stop()
		if c.Calls[i].Ignore {
			<-tm.C
		} else {
			select {
			case <-tm.C:
			case <-ctx.Done():
			}
		}
		end(r)
		return q, nil
	}
	sh := func(ss psrpc.ServerStream[Str, Str]) error {
		_, r := begin(metadata.IncomingHeader(ss.Context()).Metadata["call"])
		<-ss.Context().Done()
		end(r)
		return nil
	}
	register := func() []error {
		var errs []error
		for i := range c.Extra {
			errs = append(errs, server.RegisterHandler(s, "Do", []string{fmt.Sprint("x", i)}, h, nil))
		}
		return append(errs,
			server.RegisterHandler(s, "Do", []string{"a"}, h, nil),
			server.RegisterHandler(s, "Do", []string{"b"}, h, nil),
			server.RegisterHandler(s, "Qu", []string{"a"}, h, nil),
			server.RegisterHandler(s, "Qu", []string{"b"}, h, nil),
			server.RegisterHandler(s, "Cl", nil, h, nil),
			server.RegisterHandler(s, "All", nil, h, nil),
			server.RegisterStreamHandler[Str, Str](s, "St", nil, sh, nil),
			server.RegisterStreamHandler[Str, Str](s, "CSt", nil, sh, nil),
		)
	}
	for _, err := range register() {
		must(e, err, "register")
	}
	cl, err := client.NewRPCClientWithStreams(define("Svc", "cli", methods...), net.Wrap(fab.Bus()))
	must(e, err, "new client")
	time.Sleep(time.Second)
	t0 := time.Now()
	at := func(ms int) time.Time { return t0.Add(msd(ms)) }

	type outcome struct {
		err error
		end time.Time
		n   int
	}
	outs := make([]outcome, len(c.Calls))
	var wg sync.WaitGroup
	for i, x := range c.Calls {
		wg.Add(1)
		go func() {
			defer wg.Done()
			time.Sleep(msd(x.At))
			ctx := metadata.NewContextWithOutgoingMetadata(context.Background(), metadata.Metadata{"call": strconv.Itoa(i)})
			o := psrpc.WithRequestTimeout(msd(x.Timeout))
			q := S(strconv.Itoa(i))
			var out outcome
			switch x.How {
			case "Do", "Qu":
				_, out.err = client.RequestSingle[Str](ctx, cl, x.How, []string{x.Topic}, q, o)
			case "Cl":
				_, out.err = client.RequestSingle[Str](ctx, cl, x.How, nil, q, o)
			case "All":
				ch, err := client.RequestMulti[Str](ctx, cl, x.How, nil, q, o)
				if err != nil {
					e.Failf("call %d: %v", i, err)
					return
				}
				for r := range ch {
					if r.Err == nil {
						out.n++
					}
				}
			default:
				cs, err := client.OpenStream[*wrapperspb.StringValue, *wrapperspb.StringValue](ctx, cl, x.How, nil, o)
				out.err = err
				if err == nil {
					select {
					case <-cs.Context().Done():
					case <-time.After(10 * time.Second):
						_ = cs.Close(nil)
					}
				}
			}
			out.end = time.Now()
			mu.Lock()
			outs[i] = out
			mu.Unlock()
		}()
	}
	dereg := at(1 << 30)
	if c.Dereg > 0 {
		wg.Add(1)
		go func() {
			defer wg.Done()
			time.Sleep(msd(c.Dereg))
			dereg = time.Now()
			s.DeregisterHandler("Do", []string{"b"})
			if took := time.Since(dereg); took > ms {
				e.Failf("deregistering a handler took %v", took)
			}
		}()
	}
	var ret time.Time
	wg.Add(1)
	go func() {
		defer wg.Done()
		time.Sleep(msd(c.G))
		s.Close(c.Force)
		ret = time.Now()
		check := func(when string) {
			for i, err := range register() {
				if !errors.Is(err, psrpc.ErrServerClosed) {
					e.Failf("%s registration %d gave %v, want server closed", when, i, err)
				}
			}
		}
		check("after the shutdown")
		time.Sleep(ms)
		if left := subs.Open(); len(left) > 0 {
			e.Failf("after the shutdown the server still has the subscriptions %v", left)
		}
		if c.Again {
			b := time.Now()
			s.Close(!c.Force)
			s.Close(c.Force)
			s.DeregisterHandler("Do", []string{"a"})
			if time.Since(b) > 0 {
				e.Failf("closing a closed server took %v", time.Since(b))
			}
			check("after closing again")
			time.Sleep(ms)
			if left := subs.Open(); len(left) > 0 {
				e.Failf("after closing again the server has the subscriptions %v", left)
			}
		}
	}()
	g := at(c.G)
	// registering while it shuts down fails too
	wg.Add(1)
	go func() {
		defer wg.Done()
		time.Sleep(msd(c.G) + ms)
		for i, err := range register() {
			if !errors.Is(err, psrpc.ErrServerClosed) {
				e.Failf("while the server shuts down registration %d gave %v, want server closed", i, err)
			}
		}
	}()
	kill := at(1 << 30)
	if c.Force {
		kill = g
	}
	if c.Kill > 0 {
		wg.Add(1)
		go func() {
			defer wg.Done()
			time.Sleep(msd(c.Kill))
			b := time.Now()
			s.Close(true)
			if time.Since(b) > ms {
				e.Failf("a kill took %v", time.Since(b))
			}
		}()
		if !c.Force {
			kill = at(c.Kill)
		}
	}
	if !within(time.Minute, wg.Wait) {
		e.Fatalf("a call or the shutdown had not returned after a minute")
	}
	time.Sleep(20 * time.Second)

	// what was sent for which call
	type trip struct {
		req, claim, grant, res *Sent
		expiry                 time.Time
	}
	trips := make([]trip, len(c.Calls))
	ids := map[string]int{}
	for _, sn := range net.Log() {
		switch m := sn.Msg.(type) {
		case *internal.Request:
			v, err := bus.DeserializePayload[Str](m.RawRequest)
			if i, err2 := strconv.Atoi(v.GetValue()); err == nil && err2 == nil && i < len(trips) {
				ids[m.RequestId] = i
				trips[i].req, trips[i].expiry = sn, time.Unix(0, m.Expiry)
			}
		case *internal.Response:
			if i, ok := ids[m.RequestId]; ok {
				if trips[i].res != nil {
					e.Failf("call %d was answered twice", i)
				}
				trips[i].res = sn
			}
		case *internal.ClaimRequest:
			if i, ok := ids[m.RequestId]; ok {
				trips[i].claim = sn
			}
		case *internal.ClaimResponse:
			if i, ok := ids[m.RequestId]; ok {
				trips[i].grant = sn
			}
		case *internal.Stream:
			if o := m.GetOpen(); o != nil {
				if i, err := strconv.Atoi(o.Metadata["call"]); err == nil && i < len(trips) {
					ids[m.RequestId] = i
					trips[i].req, trips[i].expiry = sn, time.Unix(0, m.Expiry)
				}
			}
		}
	}
	mu.Lock()
	defer mu.Unlock()
	need := g // when a graceful shutdown may return
	inflight, drained := 0, 0
	for i, x := range c.Calls {
		tr, r, o := trips[i], runs[i], outs[i]
		stream := x.How == "St" || x.How == "CSt"
		claim := x.How == "Cl" || x.How == "CSt"
		name := fmt.Sprintf("call %d (%s)", i, x.How)
		closes := g
		if x.How == "Do" && x.Topic == "b" && dereg.Before(g) {
			closes = dereg
		}
		arrived := tr.req != nil && !tr.req.Out.IsZero() && tr.req.Out.Before(tr.expiry)
		received := arrived && tr.req.Out.Before(closes)
		// when the execution has to start, if it has to
		var due time.Time
		// a claim granted at the very deadline may count or not
		limit := tr.expiry
		if r != nil {
			limit = limit.Add(1)
		}
		if received {
			switch {
			case !claim:
				due = tr.req.Out
			case tr.grant != nil && !tr.grant.Out.IsZero() && tr.grant.Out.Before(limit) &&
				(tr.grant.Out.Before(g) || !stream && tr.grant.Out.Before(kill)):
				due = tr.grant.Out
			}
			if stream && !due.IsZero() {
				if due = due.Add(msd(c.Slow)); !due.Before(g) {
					due = time.Time{}
				}
			}
		}
		switch {
		case r == nil && !due.IsZero() && !stream:
			e.Failf("%s was received by the server %v before it stopped taking requests, and never executed", name, closes.Sub(tr.req.Out))
		case r != nil && due.IsZero():
			e.Failf("%s was executed, although the server should not have taken it: started %v after the shutdown, arrived %v after it, granted %v", name, r.start.Sub(g), tr.req.Out.Sub(closes), tr.grant != nil)
		case r != nil && !r.start.Equal(due):
			e.Failf("%s was executed %v after it could be", name, r.start.Sub(due))
		}
		if r != nil && !r.over {
			e.Failf("%s: its handler never ended", name)
			continue
		}
		if stream {
			if r != nil && r.end.After(g.Add(ms)) {
				e.Failf("%s: the stream was open until %v after the shutdown", name, r.end.Sub(g))
			}
			if r != nil && !r.end.Before(g) {
				inflight++
			}
			continue
		}
		if r != nil {
			if tr.res == nil || tr.res.At.Before(r.end) {
				e.Failf("%s was executed and not answered", name)
			} else if !tr.res.Out.IsZero() && tr.res.Out.Before(tr.expiry) && x.How != "All" && o.err != nil {
				e.Failf("%s was answered in time and failed with %v", name, o.err)
			}
			if closes.Equal(g) { // a deregistered handler is not waited for
				if r.end.After(need) {
					need = r.end
				}
				if !r.end.Before(g) {
					inflight++
				}
				if !r.start.Before(g) {
					drained++
				}
			}
		} else if received && claim {
			// waited for the outcome of the claim
			w := tr.expiry
			if tr.grant != nil && !tr.grant.Out.IsZero() && tr.grant.Out.Before(w) {
				w = tr.grant.Out
			}
			if w.After(need) {
				need = w
			}
		}
	}
	switch {
	case c.Force:
		if ret.After(g.Add(ms)) {
			e.Failf("a kill took %v", ret.Sub(g))
		}
	default:
		if kill.Before(need) {
			if ret.After(kill.Add(ms)) {
				e.Failf("a graceful shutdown was killed after %v and returned %v later", kill.Sub(g), ret.Sub(kill))
			}
			e.Class("killed while draining")
			break
		}
		if ret.Before(need) {
			e.Failf("a graceful shutdown returned %v before the last accepted request was done", need.Sub(ret))
		}
		if ret.After(need.Add(msd(100))) {
			e.Failf("a graceful shutdown returned %v after everything was done", ret.Sub(need))
		}
		for i := range c.Calls {
			if r, tr := runs[i], trips[i]; r != nil && tr.res != nil && c.Calls[i].Topic != "b" && tr.res.At.After(ret) {
				e.Failf("a graceful shutdown returned %v before the response to call %d was sent", tr.res.At.Sub(ret), i)
			}
		}
	}
	e.Class("bus: %s", c.Bus)
	e.Class("in progress at the shutdown: %s", bucket(inflight))
	if drained > 0 {
		e.Class("granted while draining")
	}
	if inflight > 0 || need.After(g) {
		e.NonTrivial()
	}
	cl.Close()
	time.Sleep(time.Second)
	fab.Close()
}

// ---------------------------------------------------------------- churn

type c14Op struct {
	Do    string // reg dereg close kill
	Key   int
	Yield int
}

type c14Churn struct {
	Procs  [][]c14Op
	Gated  int // requests whose handlers wait
	Closes []bool
}

func genC14Churn(t *rapid.T) c14Churn {
	op := rapid.Custom(func(t *rapid.T) c14Op {
		return c14Op{
			Do:    rapid.SampledFrom([]string{"reg", "reg", "reg", "sreg", "dereg", "dereg", "close", "kill"}).Draw(t, "do"),
			Key:   rapid.IntRange(0, 2).Draw(t, "key"),
			Yield: rapid.IntRange(0, 4).Draw(t, "yield"),
		}
	})
	return c14Churn{
		Procs:  rapid.SliceOfN(rapid.SliceOfN(op, 1, 6), 1, 4).Draw(t, "procs"),
		Gated:  rapid.IntRange(0, 3).Draw(t, "gated"),
		Closes: rapid.SliceOfN(rapid.Bool(), 1, 4).Draw(t, "closes"),
	}
}

func runC14Churn(e *engine.Env, c c14Churn) {
	e.NoLeaks()
	// nothing here takes fake time, except the rests at the start and the end
	fab := NewFabric("local")
	subs := &SubLog{}
	methods := []Method{{Name: "Do"}, {Name: "Gate"}, {Name: "St"}}
	s := server.NewRPCServer(define("Svc", "srv", methods...), subs.Wrap(fab.Bus()))
	cl, err := client.NewRPCClient(define("Svc", "cli", methods...), fab.Bus())
	must(e, err, "new client")

	gate := make(chan struct{})
	started := make(chan struct{}, 10)
	must(e, server.RegisterHandler(s, "Gate", nil, func(ctx context.Context, q Str) (Str, error) {
		started <- struct{}{}
		<-gate
		return q, nil
	}, nil), "register")
	var calls sync.WaitGroup
	for range c.Gated {
		calls.Add(1)
		go func() {
			defer calls.Done()
			if _, err := client.RequestSingle[Str](context.Background(), cl, "Gate", nil, S("x")); err != nil {
				e.Failf("a request received before the shutdown was answered with %v", err)
			}
		}()
	}
	for range c.Gated {
		<-started
	}

	var mu sync.Mutex
	closed, clash := false, 0
	kills := 0
	h := func(ctx context.Context, q Str) (Str, error) { return q, nil }
	sh := func(ss psrpc.ServerStream[Str, Str]) error { return nil }
	var wg, graceful sync.WaitGroup
	shut := func(force bool) {
		s.Close(force)
		mu.Lock()
		closed = true
		mu.Unlock()
	}
	hasKill := false
	for _, f := range c.Closes {
		hasKill = hasKill || f
	}
	for _, p := range c.Procs {
		for _, o := range p {
			hasKill = hasKill || o.Do == "kill"
		}
	}
	for _, p := range c.Procs {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for _, o := range p {
				for range o.Yield {
					runtime.Gosched()
				}
				topic := []string{fmt.Sprint("t", o.Key)}
				mu.Lock()
				was := closed
				mu.Unlock()
				var err error
				switch o.Do {
				case "reg":
					err = server.RegisterHandler(s, "Do", topic, h, nil)
				case "sreg":
					err = server.RegisterStreamHandler[Str, Str](s, "St", topic, sh, nil)
				case "dereg":
					s.DeregisterHandler("Do", topic)
					s.DeregisterHandler("St", topic)
				case "close":
					graceful.Add(1)
					go func() {
						defer graceful.Done()
						shut(false)
					}()
				case "kill":
					mu.Lock()
					kills++
					mu.Unlock()
					shut(true)
				}
				if o.Do == "reg" || o.Do == "sreg" {
					if was && !errors.Is(err, psrpc.ErrServerClosed) {
						e.Failf("registering after the shutdown gave %v", err)
					}
					if err != nil && !errors.Is(err, psrpc.ErrServerClosed) {
						mu.Lock()
						clash++
						mu.Unlock()
					}
				}
			}
		}()
	}
	for _, force := range c.Closes {
		f := force
		if f {
			wg.Add(1)
			go func() { defer wg.Done(); shut(true) }()
		} else {
			graceful.Add(1)
			go func() { defer graceful.Done(); shut(false) }()
		}
	}
	// kills, registration and deregistration do not wait for the handlers
	wg.Wait()
	if hasKill {
		// nor does a graceful shutdown that is killed
		graceful.Wait()
	} else if c.Gated > 0 {
		for range 50 {
			runtime.Gosched()
		}
		mu.Lock()
		if closed {
			e.Failf("a graceful shutdown returned while requests were being handled")
		}
		mu.Unlock()
	}
	close(gate)
	graceful.Wait()
	calls.Wait()
	for k := range 3 {
		if err := server.RegisterHandler(s, "Do", []string{fmt.Sprint("t", k)}, h, nil); !errors.Is(err, psrpc.ErrServerClosed) {
			e.Failf("registering after the shutdown gave %v", err)
		}
	}
	time.Sleep(ms)
	if left := subs.Open(); len(left) > 0 {
		e.Failf("after the shutdown the server still has the subscriptions %v", left)
	}
	cl.Close()
	time.Sleep(time.Second)
	e.Class("gated %s, killed %v", bucket(c.Gated), hasKill)
	if len(c.Procs) > 1 || c.Gated > 0 {
		e.NonTrivial()
	}
	if clash > 0 {
		e.Class("registrations clashed")
	}
}

// ---------------------------------------------------------------- burst

type c14Burst struct {
	Chan  int
	Reqs  []int // work of each request, in ms
	Kinds []int // Do Qu All
	Yield int
	Force bool
}

func genC14Burst(t *rapid.T) c14Burst {
	c := c14Burst{
		Chan:  rapid.SampledFrom([]int{0, 1, 2, 100}).Draw(t, "chan"),
		Reqs:  rapid.SliceOfN(rapid.SampledFrom([]int{0, 0, 0, 5, 50}), 1, 30).Draw(t, "reqs"),
		Yield: rapid.IntRange(0, 30).Draw(t, "yield"),
		Force: rapid.IntRange(0, 3).Draw(t, "force") == 0,
	}
	for range c.Reqs {
		c.Kinds = append(c.Kinds, rapid.IntRange(0, 2).Draw(t, "kind"))
	}
	return c
}

// runC14Burst publishes requests on the local bus, which has put them into the
// server's buffers when Publish returns, and shuts the server down gracefully.
func runC14Burst(e *engine.Env, c c14Burst) {
	e.NoLeaks()
	b := psrpc.NewLocalMessageBus()
	methods := []Method{{Name: "Do"}, {Name: "Qu", Queue: true}, {Name: "All", Multi: true}}
	sd := define("Svc", "srv", methods...)
	var opts []psrpc.ServerOption
	if c.Chan > 0 {
		opts = append(opts, psrpc.WithServerChannelSize(c.Chan))
	}
	s := server.NewRPCServer(sd, b, opts...)
	var mu sync.Mutex
	ran := map[string]int{}
	h := func(ctx context.Context, q Str) (Str, error) {
		i, _ := strconv.Atoi(q.GetValue())
		time.Sleep(msd(c.Reqs[i]))
		mu.Lock()
		ran[q.GetValue()]++
		mu.Unlock()
		return q, nil
	}
	for _, m := range methods {
		must(e, server.RegisterHandler(s, m.Name, nil, h, nil), "register")
	}
	responses, err := bus.Subscribe[*internal.Response](context.Background(), b, info.GetResponseChannel("Svc", "cli"), 1000)
	must(e, err, "subscribe")
	synctest.Wait()
	for i := range c.Reqs {
		p, err := bus.SerializePayload(S(strconv.Itoa(i)))
		must(e, err, "serialize")
		now := time.Now()
		must(e, b.Publish(context.Background(), sd.GetInfo(methods[c.Kinds[i]].Name, nil).GetRPCChannel(), &internal.Request{
			RequestId: fmt.Sprint("r", i), ClientId: "cli", SentAt: now.UnixNano(), Expiry: now.Add(time.Minute).UnixNano(), RawRequest: p,
			Multi: c.Kinds[i] == 2,
		}), "publish")
	}
	for range c.Yield {
		runtime.Gosched()
	}
	if c.Force {
		// whatever is left behind, it must not stay
		s.Close(true)
		time.Sleep(time.Second)
		e.Class("killed")
		_ = responses.Close()
		return
	}
	if !within(time.Minute, func() { s.Close(false) }) {
		e.Fatalf("the graceful shutdown had not returned after a minute")
	}
	mu.Lock()
	n := len(ran)
	for i := range c.Reqs {
		if ran[strconv.Itoa(i)] != 1 {
			e.Failf("request %d of %d had been received when the server was shut down, and was executed %d times before the shutdown returned", i, len(c.Reqs), ran[strconv.Itoa(i)])
		}
	}
	mu.Unlock()
	synctest.Wait()
	if got := len(responses.Channel()); got != n {
		e.Failf("%d requests were executed, %d were answered when the shutdown returned", n, got)
	}
	e.Class("requests: %s", bucket(len(c.Reqs)))
	if len(c.Reqs) > 1 {
		e.NonTrivial()
	}
	_ = responses.Close()
}

func init() {
	engine.Add("C14", "burst", "more than one request was in the server's hands",
		1500, 25000, genC14Burst, runC14Burst)
	engine.Add("C14", "schedule", "something was in progress, or awaiting its claim, when the server was shut down",
		2500, 40000, genC14, runC14)
	engine.Add("C14", "churn", "operations ran concurrently, or requests were being handled",
		4000, 60000, genC14Churn, runC14Churn)
}
