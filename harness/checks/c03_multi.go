package checks

import (
	"context"
	"fmt"
	"sort"
	"strings"
	"sync"
	"time"

	"pgregory.net/rapid"

	"github.com/livekit/psrpc"
	"github.com/livekit/psrpc/internal"
	"github.com/livekit/psrpc/internal/bus"
	"github.com/livekit/psrpc/pkg/client"
	"github.com/livekit/psrpc/pkg/server"
	"github.com/livekit/psrpc/verif/engine"
)

type c03Answer struct {
	Work int // ms, multiple of 10; server i answers after Work+i+1
	Err  bool
	Nil  bool // answers with a nil message
	Pad  int  // bytes more
}

type c03Call struct {
	Client  int
	Topic   int
	At      int // ms, multiple of 10
	Timeout int // request timeout ms (multiple of 10), 0 = none
	CtxDead int // context deadline ms (multiple of 10 plus 8), 0 = none
	Cancel  int // ms (multiple of 10 plus 9), 0 = never
	Read    string
	Answers []c03Answer // per server
}

type c03Case struct {
	Bus     string
	CliTime int // client timeout, 0 = default
	Chan    int // channel size, -1 = default
	Topics  int
	Clients int
	Regs    [][]bool // server x topic
	Calls   []c03Call
	Faults  []Fault // of RES
}

func genC03(t *rapid.T) c03Case {
	c := c03Case{
		Bus:     genBus(t, 6),
		CliTime: rapid.SampledFrom([]int{0, 0, 200, 1000, 5000}).Draw(t, "clitime"),
		Chan:    rapid.SampledFrom([]int{-1, -1, 0, 1, 2, 3}).Draw(t, "chan"),
		Topics:  rapid.IntRange(0, 2).Draw(t, "topics"),
		Clients: rapid.IntRange(1, 2).Draw(t, "clients"),
	}
	nt := max(1, c.Topics)
	n := rapid.IntRange(0, 6).Draw(t, "servers")
	for range n {
		var r []bool
		for range nt {
			r = append(r, rapid.IntRange(0, 5).Draw(t, "reg") > 0)
		}
		c.Regs = append(c.Regs, r)
	}
	for range rapid.IntRange(1, 5).Draw(t, "calls") {
		call := c03Call{
			Client:  rapid.IntRange(0, c.Clients-1).Draw(t, "client"),
			Topic:   rapid.IntRange(0, nt-1).Draw(t, "topic"),
			At:      rapid.SampledFrom([]int{0, 0, 10, 50, 500}).Draw(t, "at"),
			Timeout: rapid.SampledFrom([]int{0, 0, 50, 100, 1000, 4000}).Draw(t, "timeout"),
			CtxDead: rapid.SampledFrom([]int{0, 0, 0, 58, 508, 9008}).Draw(t, "ctxdead"),
			Cancel:  rapid.SampledFrom([]int{0, 0, 0, 9, 109, 2509}).Draw(t, "cancel"),
			Read:    rapid.SampledFrom([]string{"eager", "eager", "eager", "slow", "rest", "late", "never"}).Draw(t, "read"),
		}
		for range n {
			a := c03Answer{
				Work: rapid.SampledFrom([]int{0, 0, 0, 10, 40, 50, 90, 100, 190, 490, 990, 1000, 2900, 3000, 5000}).Draw(t, "work"),
			}
			switch rapid.IntRange(0, 5).Draw(t, "kind") {
			case 4:
				a.Err = true
			case 5:
				a.Nil = true
			case 3:
				a.Pad = rapid.SampledFrom([]int{1, 500, 5000, 40000, 200000}).Draw(t, "pad")
			}
			call.Answers = append(call.Answers, a)
		}
		c.Calls = append(c.Calls, call)
	}
	if rapid.IntRange(0, 2).Draw(t, "lossy") == 0 {
		c.Faults = genFaults(t, []string{"RES"}, []string{"drop"}, 3, 8, 0)
	}
	if rapid.IntRange(0, 2).Draw(t, "linger") == 0 {
		// below the first deadline
		c.Faults = append(c.Faults, Fault{Kind: "REQ", Nth: rapid.IntRange(0, 4).Draw(t, "lingers"), Do: "linger", Ms: 7})
	}
	return c
}

func runC03(e *engine.Env, c c03Case) {
	fab := NewFabric(c.Bus)
	net := NewNet(c.Faults, nil)
	m := Method{Name: "Do", Multi: true}
	topic := func(k int) []string {
		if c.Topics == 0 {
			return nil
		}
		return []string{fmt.Sprintf("t%d", k)}
	}
	var mu sync.Mutex
	runs := map[string]int{}
	var servers []*server.RPCServer
	for si, regs := range c.Regs {
		s := server.NewRPCServer(define("Svc", "", m), net.Wrap(fab.Bus()), psrpc.WithServerID(fmt.Sprintf("srv%d", si)))
		servers = append(servers, s)
		for k, reg := range regs {
			if !reg {
				continue
			}
			must(e, server.RegisterHandler(s, "Do", topic(k), func(ctx context.Context, r Str) (Str, error) {
				var i int
				if _, err := fmt.Sscanf(r.GetValue(), "call-%d", &i); err != nil || i >= len(c.Calls) || c.Calls[i].Topic != k {
					e.Failf("server %d topic %d got the request %q", si, k, r.GetValue())
					return nil, err
				}
				tag := fmt.Sprintf("c%d-s%d", i, si)
				mu.Lock()
				runs[tag]++
				mu.Unlock()
				a := c.Calls[i].Answers[si]
				time.Sleep(msd(a.Work + si + 1))
				if a.Err {
					return nil, psrpc.NewErrorf(psrpc.NotFound, "%s", tag)
				}
				if a.Nil {
					return S(""), nil
				}
				return S(tag + strings.Repeat("r", a.Pad)), nil
			}, nil), "register")
		}
	}
	var clients []*client.RPCClient
	for i := range c.Clients {
		var opts []psrpc.ClientOption
		if c.CliTime > 0 {
			opts = append(opts, psrpc.WithClientTimeout(msd(c.CliTime)))
		}
		if c.Chan >= 0 {
			opts = append(opts, psrpc.WithClientChannelSize(c.Chan))
		}
		cl, err := client.NewRPCClient(define("Svc", "", m), net.Wrap(fab.Bus()), append(opts, psrpc.WithClientID(fmt.Sprintf("cli%d", i)))...)
		must(e, err, "new client")
		clients = append(clients, cl)
	}
	time.Sleep(time.Second)

	type got struct {
		at  time.Duration
		tag string
	}
	type outcome struct {
		start  time.Time
		sent   time.Duration // when RequestMulti returned
		closed time.Duration
		got    []got
		done   bool
		failed error
	}
	outs := make([]outcome, len(c.Calls))
	ends := make([]int, len(c.Calls))
	for i, call := range c.Calls {
		end := c.CliTime
		if end == 0 {
			end = 3000
		}
		if call.CtxDead > 0 {
			end = call.CtxDead
			if c.CliTime > 0 {
				end = min(c.CliTime, call.CtxDead)
			}
		}
		if call.Timeout > 0 {
			end = call.Timeout
		}
		for _, x := range []int{call.CtxDead, call.Cancel} {
			if x > 0 {
				end = min(end, x)
			}
		}
		ends[i] = end
	}
	var wg sync.WaitGroup
	for i, call := range c.Calls {
		wg.Add(1)
		go func() {
			defer wg.Done()
			time.Sleep(msd(call.At))
			ctx := context.Background()
			if call.CtxDead > 0 {
				var cancel context.CancelFunc
				ctx, cancel = context.WithTimeout(ctx, msd(call.CtxDead))
				defer cancel()
			}
			if call.Cancel > 0 {
				var cancel context.CancelFunc
				ctx, cancel = context.WithCancel(ctx)
				defer cancel()
				tm := time.AfterFunc(msd(call.Cancel), cancel)
				defer tm.Stop()
			} else {
				defer time.Sleep(time.Minute) // the contexts stay as they are
			}
			var opts []psrpc.RequestOption
			if call.Timeout > 0 {
				opts = append(opts, psrpc.WithRequestTimeout(msd(call.Timeout)))
			}
			o := &outs[i]
			o.start = time.Now()
			ch, err := client.RequestMulti[Str](ctx, clients[call.Client], "Do", topic(call.Topic), S(fmt.Sprintf("call-%d", i)), opts...)
			o.sent = time.Since(o.start)
			if err != nil {
				o.failed = err
				return
			}
			switch call.Read {
			case "late":
				time.Sleep(msd(ends[i]) + 5*time.Second)
			case "rest":
				time.Sleep(time.Until(o.start.Add(msd(ends[i]) / 2)))
			case "never":
				time.Sleep(time.Minute)
			}
			for r := range ch {
				tag := r.Result.GetValue()
				if r.Err != nil {
					if r.Result != nil || code(r.Err) != psrpc.NotFound {
						e.Failf("call %d got the result %q with the error %v (%s)", i, tag, r.Err, code(r.Err))
					}
					tag = "err:" + r.Err.Error()
				}
				o.got = append(o.got, got{time.Since(o.start), tag})
				if call.Read == "slow" {
					time.Sleep(msd(33))
				}
			}
			o.closed = time.Since(o.start)
			o.done = true
		}()
	}
	if !within(4*time.Minute, wg.Wait) {
		for i := range outs {
			if !outs[i].done && outs[i].failed == nil {
				e.Failf("the channel of call %d (to be closed after %dms) was never closed", i, ends[i])
			}
		}
		return
	}

	// which answers were lost on the way, and the arrival of the others
	lost := map[string]bool{}
	for _, s := range net.Log() {
		if r, ok := s.Msg.(*internal.Response); ok && s.Fate != "" {
			lost[r.RequestId+"/"+r.ServerId] = true
		}
	}
	reqID := map[string]string{}
	for _, s := range net.Log() {
		if r, ok := s.Msg.(*internal.Request); ok {
			if v, err := bus.DeserializePayload[Str](r.RawRequest); err == nil {
				reqID[v.GetValue()] = r.RequestId
			}
		}
	}
	mu.Lock()
	defer mu.Unlock()
	for i, call := range c.Calls {
		o := &outs[i]
		if o.failed != nil {
			e.Failf("call %d failed with %v", i, o.failed)
			continue
		}
		type want struct {
			at  int
			tag string
		}
		var wants []want
		for si, a := range call.Answers {
			tag := fmt.Sprintf("c%d-s%d", i, si)
			if !c.Regs[si][call.Topic] {
				if runs[tag] != 0 {
					e.Failf("call %d ran on server %d, which has no such topic", i, si)
				}
				continue
			}
			if runs[tag] != 1 {
				e.Failf("call %d ran %d times on server %d", i, runs[tag], si)
			}
			if a.Work+si+1 > ends[i] || lost[fmt.Sprintf("%s/srv%d", reqID[fmt.Sprintf("call-%d", i)], si)] {
				e.Class("late or lost answer")
				continue
			}
			if a.Err {
				tag = "err:" + tag
			} else if a.Nil {
				tag = ""
			} else {
				tag += strings.Repeat("r", a.Pad)
			}
			wants = append(wants, want{a.Work + si + 1, tag})
		}
		sort.Slice(wants, func(a, b int) bool { return wants[a].at < wants[b].at })
		if len(wants) >= 2 {
			e.NonTrivial()
		}
		room := c.Chan
		if room < 0 {
			room = 100
		}
		e.Class("reader %s", call.Read)
		full := false
		switch call.Read {
		case "late", "never":
			if len(wants) > room {
				wants = wants[:room]
				e.Class("full channel")
			}
		case "slow":
			// unless there is time to read them all
			full = len(wants) > room && wants[len(wants)-1].at+33*(len(wants)+1) >= ends[i]
		}
		var ws, gs []string
		for _, w := range wants {
			ws = append(ws, w.tag)
		}
		for _, g := range o.got {
			gs = append(gs, g.tag)
		}
		describe := func() string {
			return fmt.Sprintf("expected [%s] by %dms, received [%s]", strings.Join(ws, " "), ends[i], strings.Join(gs, " "))
		}
		if full {
			// a slow reader may miss some, but none twice and none that is not there
			e.Class("full channel")
			left := map[string]int{}
			for _, w := range ws {
				left[w]++
			}
			for _, g := range gs {
				if left[g]--; left[g] < 0 {
					e.Failf("call %d with a slow reader: %s", i, describe())
					break
				}
			}
			if len(gs) < room {
				e.Failf("call %d with a slow reader and room for %d: %s", i, room, describe())
			}
		} else {
			a, b := append([]string(nil), ws...), append([]string(nil), gs...)
			sort.Strings(a)
			sort.Strings(b)
			if strings.Join(a, "|") != strings.Join(b, "|") {
				e.Failf("call %d: %s", i, describe())
				continue
			}
		}
		if call.Read == "eager" {
			for k, g := range o.got {
				if g.at != max(o.sent, msd(wants[k].at)) {
					e.Failf("call %d: result %q received after %v, it arrived after %dms", i, g.tag, g.at, wants[k].at)
				}
			}
			if o.closed != msd(ends[i]) {
				e.Failf("call %d: the channel was closed after %v instead of %dms", i, o.closed, ends[i])
			}
		}
	}
	e.Class("bus %s", c.Bus)
	for _, cl := range clients {
		cl.Close()
	}
	for _, s := range servers {
		s.Close(true)
	}
	time.Sleep(20 * time.Second)
	fab.Close()
	time.Sleep(time.Minute)
}

func init() {
	engine.Add("C03", "calls",
		"1-5 overlapping multi calls of 1-2 clients to 0-6 servers over 0-2 topics, drawn handler times around drawn timeouts, context deadlines and cancellations, readers of all speeds, channel sizes from 0, dropped responses; results and closing time compared exactly; non-trivial: a call with at least two expected results",
		1500, 30000, genC03, runC03)
}
