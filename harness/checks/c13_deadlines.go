package checks

import (
	"context"
	"errors"
	"fmt"
	"strconv"
	"sync"
	"time"

	"google.golang.org/protobuf/types/known/wrapperspb"
	"pgregory.net/rapid"

	"github.com/livekit/psrpc"
	"github.com/livekit/psrpc/internal"
	"github.com/livekit/psrpc/internal/bus"
	"github.com/livekit/psrpc/pkg/client"
	"github.com/livekit/psrpc/pkg/metadata"
	"github.com/livekit/psrpc/pkg/server"
	"github.com/livekit/psrpc/verif/engine"
)

type c13Call struct {
	How     string // single multi open
	At      int
	Timeout int // request option, 0: none
	Frac    int // µs, added to it
	DeadFr  int // µs, added to CtxDead if there is one
	CtxDead int // relative to the start of the call, may be negative; 0: none
	Cancel  int // 0: never
	Work    int
	Aware   bool // the handler stops when its context is done
}

type c13Case struct {
	Bus      string
	Claim    bool
	CliTime  int
	SelTime  int
	Servers  int
	Lat      map[string]int
	Faults   []Fault
	Calls    []c13Call
	Affinity bool
}

var c13Times = []int{0, 0, 40, 100, 250, 700, 1500, 4000, 9000}

func genC13(t *rapid.T) c13Case {
	c := c13Case{
		Bus:      genBus(t, 4),
		Claim:    rapid.Bool().Draw(t, "claim"),
		Affinity: rapid.Bool().Draw(t, "affinity"),
		CliTime:  rapid.SampledFrom(c13Times).Draw(t, "clitime"),
		SelTime:  rapid.SampledFrom([]int{0, 0, 50, 5000}).Draw(t, "seltime"),
		Servers:  rapid.IntRange(0, 2).Draw(t, "servers"),
		Lat:      map[string]int{},
	}
	if !c.Claim {
		c.Affinity = false
	}
	for _, k := range []string{"REQ", "RES", "OPEN", "ACK", "CLAIM", "RCLAIM"} {
		if v := rapid.SampledFrom([]int{0, 0, 0, 3, 99, 300}).Draw(t, "lat"+k); v > 0 {
			c.Lat[k] = v
		}
	}
	c.Faults = genFaults(t, []string{"REQ", "RES", "OPEN", "ACK", "RCLAIM"}, []string{"delay", "delay", "drop"}, 3, 6, 5000)
	c.Calls = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) c13Call {
		x := c13Call{
			How:     rapid.SampledFrom([]string{"single", "single", "multi", "open"}).Draw(t, "how"),
			At:      rapid.SampledFrom([]int{0, 0, 7, 300}).Draw(t, "at"),
			Timeout: rapid.SampledFrom(c13Times).Draw(t, "timeout"),
			CtxDead: rapid.SampledFrom([]int{0, 0, 0, 30, 100, 699, 3500, 9500, -1, -500}).Draw(t, "ctxdead"),
			Cancel:  rapid.SampledFrom([]int{0, 0, 0, 20, 99, 301, 2900}).Draw(t, "cancel"),
			Work:    rapid.SampledFrom([]int{0, 0, 1, 50, 400, 2990, 3010, 6000}).Draw(t, "work"),
			Aware:   rapid.Bool().Draw(t, "aware"),
		}
		if rapid.IntRange(0, 3).Draw(t, "fractions") == 0 {
			x.Frac = rapid.SampledFrom([]int{0, 1, 300, 999}).Draw(t, "frac")
			x.DeadFr = rapid.SampledFrom([]int{0, 1, 400, 999}).Draw(t, "deadfrac")
		}
		return x
	}), 1, 6).Draw(t, "calls")
	return c
}

// deadline is when the call has to be over, relative to its start.
func (x c13Call) deadline(cliTime int) time.Duration {
	t := x.timeout()
	if t == 0 {
		t = msd(cliTime)
	}
	d := x.ctxDead()
	switch {
	case t == 0 && d == 0:
		return 3 * time.Second
	case t == 0 || d != 0 && d < t:
		return d
	}
	return t
}

func (x c13Call) timeout() time.Duration {
	return msd(x.Timeout) + time.Duration(x.Frac)*time.Microsecond
}

func (x c13Call) ctxDead() time.Duration {
	if x.CtxDead == 0 {
		return 0
	}
	return msd(x.CtxDead) + time.Duration(x.DeadFr)*time.Microsecond
}

type c13Run struct {
	start       time.Time
	ctxDeadline time.Time
	done        time.Time // when the handler saw its context end
}

func isCode(err error, c psrpc.ErrorCode) bool {
	switch c {
	case psrpc.Canceled:
		return errors.Is(err, context.Canceled) || code(err) == c
	case psrpc.DeadlineExceeded:
		return errors.Is(err, context.DeadlineExceeded) || code(err) == c
	}
	return code(err) == c
}

func runC13(e *engine.Env, c c13Case) {
	fab := NewFabric(c.Bus)
	net := NewNet(c.Faults, c.Lat)
	methods := []Method{{Name: "Do", Claim: c.Claim, Affinity: c.Affinity}, {Name: "All", Multi: true}, {Name: "St", Claim: c.Claim, Affinity: c.Affinity}}
	var mu sync.Mutex
	runs := map[int][]*c13Run{}
	begin := func(ctx context.Context, s string) (int, *c13Run) {
		i, err := strconv.Atoi(s)
		if err != nil || i >= len(c.Calls) {
			e.Failf("a handler got the request %q", s)
			return -1, nil
		}
		r := &c13Run{start: time.Now()}
		r.ctxDeadline, _ = ctx.Deadline()
		mu.Lock()
		runs[i] = append(runs[i], r)
		mu.Unlock()
		return i, r
	}
	asks := map[int][]time.Time{} // deadlines of the contexts of affinity functions
	asked := func(ctx context.Context, s string) {
		i, err := strconv.Atoi(s)
		if err != nil || i >= len(c.Calls) {
			e.Failf("an affinity function got the request %q", s)
			return
		}
		d, _ := ctx.Deadline()
		mu.Lock()
		asks[i] = append(asks[i], d)
		mu.Unlock()
	}
	var servers []*server.RPCServer
	for k := range c.Servers {
		s := server.NewRPCServer(define("Svc", fmt.Sprint("srv", k), methods...), net.Wrap(fab.Bus()))
		servers = append(servers, s)
		h := func(ctx context.Context, q Str) (Str, error) {
			i, r := begin(ctx, q.GetValue())
			if r == nil {
				return q, nil
			}
			watch := time.NewTimer(20 * time.Second)
			defer watch.Stop()
			saw := make(chan struct{})
			go func() {
				defer close(saw)
				<-ctx.Done()
				mu.Lock()
				r.done = time.Now()
				mu.Unlock()
			}()
			work := time.NewTimer(msd(c.Calls[i].Work))
			defer work.Stop()
			if c.Calls[i].Aware {
				select {
				case <-work.C:
				case <-saw:
				}
			} else {
				<-work.C
			}
			return q, nil
		}
		must(e, server.RegisterHandler(s, "All", nil, h, nil), "register")
		if k > 0 && !c.Claim {
			continue
		}
		var aff server.AffinityFunc[Str]
		var saff server.StreamAffinityFunc
		if c.Affinity {
			aff = func(ctx context.Context, q Str) float32 { asked(ctx, q.GetValue()); return 1 }
			saff = func(ctx context.Context) float32 {
				asked(ctx, metadata.IncomingHeader(ctx).Metadata["call"])
				return 1
			}
		}
		must(e, server.RegisterHandler(s, "Do", nil, h, aff), "register")
		must(e, server.RegisterStreamHandler[Str, Str](s, "St", nil, func(ss psrpc.ServerStream[Str, Str]) error {
			begin(ss.Context(), metadata.IncomingHeader(ss.Context()).Metadata["call"])
			<-ss.Context().Done()
			return nil
		}, saff), "register")
	}
	var opts []psrpc.ClientOption
	if c.CliTime > 0 {
		opts = append(opts, psrpc.WithClientTimeout(msd(c.CliTime)))
	}
	if c.SelTime > 0 {
		opts = append(opts, psrpc.WithClientSelectTimeout(msd(c.SelTime)))
	}
	cl, err := client.NewRPCClientWithStreams(define("Svc", "cli", methods...), net.Wrap(fab.Bus()), opts...)
	must(e, err, "new client")
	time.Sleep(time.Second)

	type outcome struct {
		start, end time.Time
		err        error
		results    int
		ret        bool
	}
	outs := make([]outcome, len(c.Calls))
	var wg sync.WaitGroup
	for i, x := range c.Calls {
		wg.Add(1)
		go func() {
			defer wg.Done()
			time.Sleep(msd(x.At))
			ctx := metadata.NewContextWithOutgoingMetadata(context.Background(), metadata.Metadata{"call": strconv.Itoa(i)})
			if x.CtxDead != 0 {
				var cancel context.CancelFunc
				ctx, cancel = context.WithDeadline(ctx, time.Now().Add(x.ctxDead()))
				defer cancel()
			}
			ctx, cancel := context.WithCancel(ctx)
			defer cancel()
			if x.Cancel > 0 {
				tm := time.AfterFunc(msd(x.Cancel), cancel)
				defer tm.Stop()
			}
			var o []psrpc.RequestOption
			if x.timeout() > 0 {
				o = append(o, psrpc.WithRequestTimeout(x.timeout()))
			}
			out := outcome{start: time.Now()}
			req := S(strconv.Itoa(i))
			switch x.How {
			case "single":
				_, out.err = client.RequestSingle[Str](ctx, cl, "Do", nil, req, o...)
			case "multi":
				var ch <-chan *psrpc.Response[Str]
				if ch, out.err = client.RequestMulti[Str](ctx, cl, "All", nil, req, o...); out.err == nil {
					if !time.Now().Equal(out.start) {
						e.Failf("call %d: opening a multi call took %v", i, time.Since(out.start))
					}
					for r := range ch {
						if r.Err == nil {
							out.results++
						}
					}
				}
			case "open":
				var cs psrpc.ClientStream[Str, Str]
				cs, out.err = client.OpenStream[*wrapperspb.StringValue, *wrapperspb.StringValue](ctx, cl, "St", nil, o...)
				if out.err == nil {
					out.end = time.Now()
					_ = cs.Close(nil)
				}
			}
			if out.end.IsZero() {
				out.end = time.Now()
			}
			out.ret = true
			mu.Lock()
			outs[i] = out
			mu.Unlock()
		}()
	}
	if !within(time.Minute, wg.Wait) {
		e.Failf("a call had not returned after a minute")
	}
	time.Sleep(20 * time.Second)

	// what was sent for which call
	type trip struct {
		req, res *Sent
		expiry   int64
		chosen   bool
	}
	trips := make([]trip, len(c.Calls))
	ids := map[string]int{}
	for _, s := range net.Log() {
		switch m := s.Msg.(type) {
		case *internal.Request:
			v, err := bus.DeserializePayload[Str](m.RawRequest)
			if i, err2 := strconv.Atoi(v.GetValue()); err == nil && err2 == nil && i < len(trips) {
				ids[m.RequestId] = i
				trips[i].req, trips[i].expiry = s, m.Expiry
			}
		case *internal.Response:
			if i, ok := ids[m.RequestId]; ok && trips[i].res == nil {
				trips[i].res = s
			}
		case *internal.ClaimResponse:
			if i, ok := ids[m.RequestId]; ok {
				trips[i].chosen = true
			}
		case *internal.Stream:
			if o := m.GetOpen(); o != nil {
				if i, err := strconv.Atoi(o.Metadata["call"]); err == nil && i < len(trips) {
					ids[m.RequestId] = i
					trips[i].req, trips[i].expiry = s, m.Expiry
				}
			} else if m.GetAck() != nil {
				if i, ok := ids[m.RequestId]; ok && trips[i].res == nil {
					trips[i].res = s
				}
			}
		}
	}
	mu.Lock()
	defer mu.Unlock()
	late := 0
	for i, x := range c.Calls {
		o, tr := outs[i], trips[i]
		if !o.ret {
			continue
		}
		name := fmt.Sprintf("call %d (%s)", i, x.How)
		limit := o.start.Add(max(0, x.deadline(c.CliTime)))
		why := psrpc.DeadlineExceeded
		end := limit
		tie := false
		if x.Cancel > 0 {
			switch at := o.start.Add(msd(x.Cancel)); {
			case at.Before(end):
				end, why = at, psrpc.Canceled
			case at.Equal(end):
				tie = true
			}
		}
		took := o.end.Sub(o.start)
		if o.end.After(end) {
			e.Failf("%s returned after %v, although it should have ended after %v (%s); its error: %v", name, took, end.Sub(o.start), why, o.err)
			continue
		}
		wantExpiry := o.start.Add(x.deadline(c.CliTime))
		if tr.req != nil && tr.expiry != wantExpiry.UnixNano() {
			e.Failf("%s was sent with a deadline %v after its start, want %v", name, time.Unix(0, tr.expiry).Sub(o.start), wantExpiry.Sub(o.start))
		}
		for _, d := range asks[i] {
			if d.IsZero() || d.After(wantExpiry) {
				e.Failf("%s: an affinity function's deadline is %v, the caller's %v after the start", name, d.Sub(o.start), wantExpiry.Sub(o.start))
			}
		}
		var arrives time.Time
		if tr.req != nil {
			arrives = tr.req.Out
		}
		switch rs := runs[i]; {
		case len(rs) > 0 && !arrives.IsZero() && !arrives.Before(wantExpiry):
			e.Failf("%s was executed, although it arrived %v after its deadline", name, arrives.Sub(wantExpiry))
		case len(rs) == 0 && (!c.Claim || x.How == "multi") && c.Servers > 0 && !arrives.IsZero() && arrives.Before(wantExpiry):
			if x.How != "open" { // an abandoned open may be dropped
				e.Failf("%s was not executed, although it arrived %v before its deadline", name, wantExpiry.Sub(arrives))
			}
		default:
			for _, r := range rs {
				if x.How == "open" {
					if r.start.After(wantExpiry) { // a claim may be granted at the very deadline
						e.Failf("%s was executed %v after its deadline", name, r.start.Sub(wantExpiry))
					}
					continue
				}
				if r.start.After(wantExpiry) { // a claim may be granted at the very deadline
					e.Failf("%s was executed %v after its deadline", name, r.start.Sub(wantExpiry))
				}
				if r.ctxDeadline.IsZero() || r.ctxDeadline.After(wantExpiry) {
					e.Failf("%s: the handler's deadline is %v, the caller's %v after the start", name, r.ctxDeadline.Sub(o.start), wantExpiry.Sub(o.start))
				}
				if r.done.IsZero() || r.done.After(wantExpiry) {
					e.Failf("%s: the handler's context ended %v after the caller's deadline", name, r.done.Sub(wantExpiry))
				}
				if arrives.IsZero() || r.start.Before(arrives) {
					e.Failf("%s was executed before it arrived", name)
				}
			}
		}
		if !arrives.IsZero() && !arrives.Before(wantExpiry) {
			late++
		}
		if x.How == "multi" {
			if o.err != nil {
				e.Failf("%s failed with %v", name, o.err)
			} else if !o.end.Equal(end) {
				e.Failf("%s: its channel was closed after %v, want %v", name, took, end.Sub(o.start))
			}
			continue
		}
		var answer time.Time
		if tr.res != nil {
			answer = tr.res.Out
		}
		e.Class("%s: %v", x.How, code(o.err))
		if pe := psrpc.Error(nil); o.err != nil && !errors.As(o.err, &pe) {
			e.Failf("%s failed with %v (%T), which is not an error of psrpc", name, o.err, o.err)
		}
		switch {
		case o.err == nil:
			if answer.IsZero() || !o.end.Equal(answer) {
				e.Failf("%s succeeded after %v, its answer arrived %v after the start", name, took, answer.Sub(o.start))
			}
		case !answer.IsZero() && answer.Before(end) && (!c.Claim || tr.chosen && o.end.After(answer)):
			e.Failf("%s failed with %v, although its answer arrived after %v", name, o.err, answer.Sub(o.start))
		case c.Claim && !tr.chosen:
			// no server was chosen: unavailable at any time, or the right error
			if !isCode(o.err, psrpc.Unavailable) && !(o.end.Equal(end) && (isCode(o.err, why) || tie && isCode(o.err, psrpc.Canceled))) {
				e.Failf("%s failed with %v after %v", name, o.err, took)
			}
		default:
			if !o.end.Equal(end) {
				e.Failf("%s failed with %v after %v, before its end at %v", name, o.err, took, end.Sub(o.start))
			} else if !isCode(o.err, why) && !(tie && isCode(o.err, psrpc.Canceled)) {
				e.Failf("%s failed with %v (%s) after %v, want %s", name, o.err, code(o.err), took, why)
			}
		}
	}
	e.Class("bus: %s", c.Bus)
	if late > 0 {
		e.Class("arrived late")
	}
	for i, x := range c.Calls {
		if outs[i].err != nil || x.How == "multi" && outs[i].results > 0 || late > 0 {
			e.NonTrivial()
		}
	}
	cl.Close()
	for _, s := range servers {
		s.Close(true)
	}
	time.Sleep(time.Second)
	fab.Close()
	time.Sleep(time.Minute)
}

func genC13Sends(t *rapid.T) stCase {
	c := genStBase(t)
	c.Chan = 500
	c.CliTimeout = rapid.SampledFrom([]int{100, 1000, 3000}).Draw(t, "clit")
	c.SrvTimeout = rapid.SampledFrom([]int{100, 1000, 3000}).Draw(t, "srvt")
	c.Faults = genFaults(t, []string{"MSG", "ACK", "MSG", "ACK", "CLOSE"}, []string{"delay", "drop", "drop"}, 6, 12, 1500)
	for range rapid.IntRange(1, 3).Draw(t, "streams") {
		s := stStream{
			Client:  rapid.IntRange(0, 1).Draw(t, "client"),
			Senders: rapid.SliceOfN(rapid.Custom(genStSender), 1, 4).Draw(t, "senders"),
		}
		if rapid.IntRange(0, 3).Draw(t, "deadline") == 3 {
			s.Deadline = rapid.IntRange(1, 250).Draw(t, "deadlinems")
		}
		if rapid.IntRange(0, 3).Draw(t, "cancel") == 3 {
			s.Events = []stEvent{{At: rapid.IntRange(1, 250).Draw(t, "cancelms"), Do: "cancel"}}
		}
		c.Streams = append(c.Streams, s)
	}
	return c
}

func runC13Sends(e *engine.Env, c stCase) {
	w := newStWorld(e, c)
	w.run(60000)
	acks, ids := map[string]time.Time{}, map[string]string{}
	for _, s := range w.net.Log() {
		m, ok := s.Msg.(*internal.Stream)
		if !ok {
			continue
		}
		if x := m.GetMessage(); x != nil {
			if v, err := bus.DeserializePayload[Str](x.RawMessage); err == nil {
				ids[v.GetValue()] = m.RequestId
			}
		} else if m.GetAck() != nil && s.Fate == "" {
			acks[m.RequestId] = s.Out
		}
	}
	enders := w.enders()
	failed := 0
	for _, r := range w.runs {
		for side := range 2 {
			if side == 0 && !r.opens {
				continue
			}
			var over time.Time // of this end of the stream
			for _, x := range enders[r.i][side] {
				if over.IsZero() || x.at.Before(over) {
					over = x.at
				}
			}
			for _, x := range r.sends[side] {
				if !x.over {
					e.Failf("stream %d: Send of %.20q never returned", r.i, x.id)
					continue
				}
				timeout := x.timeout
				if side == 0 && r.c.Deadline > 0 && r.c.Senders[x.sender].Timeout == 0 {
					timeout = min(timeout, msd(r.c.Deadline))
				}
				end, why := x.start.Add(timeout), "timeout"
				if !over.IsZero() && !over.After(end) {
					end, why = later(over, x.start), "end of the stream"
				}
				ack := acks[ids[x.id]]
				took := x.end.Sub(x.start)
				name := fmt.Sprintf("stream %d: Send of %.20q", r.i, x.id)
				switch {
				case x.err == nil:
					if ack.IsZero() || !x.end.Equal(ack) || ack.After(end) {
						e.Failf("%s succeeded after %v; its acknowledgement arrived after %v, its limit is %v (%s)", name, took, ack.Sub(x.start), end.Sub(x.start), why)
					}
				case !ack.IsZero() && ack.Before(end):
					e.Failf("%s failed with %v, although it was acknowledged after %v", name, x.err, ack.Sub(x.start))
				case !x.end.Equal(end):
					e.Failf("%s failed with %v after %v, want %v (%s)", name, x.err, took, end.Sub(x.start), why)
				default:
					failed++
					tie := !over.IsZero() && over.Equal(x.start.Add(timeout))
					if why == "timeout" && !isCode(x.err, psrpc.DeadlineExceeded) {
						e.Failf("%s failed with %v at its timeout", name, x.err)
					}
					if err := r.ends[side].s.Err(); why != "timeout" && !(tie && isCode(x.err, psrpc.DeadlineExceeded)) && (err == nil || x.err != err) {
						e.Failf("%s failed with %v when its stream ended with %v", name, x.err, err)
					}
				}
			}
		}
	}
	w.finish()
	e.Class("bus: %s", c.Bus)
	e.Class("failed sends: %s", bucket(failed))
	if failed > 0 {
		e.NonTrivial()
	}
}

func init() {
	engine.Add("C13", "calls", "some call failed, a multi call had results, or a request arrived after its deadline",
		1500, 25000, genC13, runC13)
	engine.Add("C13", "sends", "some send failed at its timeout or with its stream",
		800, 12000, genC13Sends, runC13Sends)
}
