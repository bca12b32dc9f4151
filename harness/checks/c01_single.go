package checks

import (
	"context"
	"fmt"
	"sync"
	"time"

	"pgregory.net/rapid"

	"github.com/livekit/psrpc"
	"github.com/livekit/psrpc/pkg/client"
	"github.com/livekit/psrpc/pkg/server"
	"github.com/livekit/psrpc/verif/engine"
)

type c01Call struct {
	Client, Topic int
	At            int // ms after the start
	Work          int // ms the handler takes
	Err           bool
	Timeout       int    // ms, 0 = default (3s)
	Cancel        int    // ms after the call starts, 0 = never
	Pad           int    // bytes of payload
	Pick          string // how the caller chooses: "" as by default, window last first error none unknown
}

type c01Case struct {
	Bus     string
	Mode    string  // claim affinity queue single
	Topics  int     // 0 = method without topics
	Servers [][]int // topics (indices) each server registers; without topics: non-empty = registered
	Procs   bool    // every client and server has its own bus connection
	Clients int
	Calls   []c01Call
	Lat     map[string]int
	Faults  []Fault
	IDs     int // see c02ID
}

func genC01(t *rapid.T) c01Case {
	c := c01Case{
		Bus:     genBus(t, 5),
		Mode:    rapid.SampledFrom([]string{"claim", "affinity", "queue", "single"}).Draw(t, "mode"),
		Topics:  rapid.IntRange(0, 3).Draw(t, "topics"),
		Clients: rapid.IntRange(1, 3).Draw(t, "clients"),
		Procs:   rapid.Bool().Draw(t, "procs"),
		Lat:     map[string]int{},
		IDs:     rapid.IntRange(0, 3).Draw(t, "ids"),
	}
	ns := rapid.IntRange(1, 4).Draw(t, "servers")
	least, most := 1, 12
	if rapid.IntRange(0, 11).Draw(t, "many") == 0 {
		c.Topics = rapid.IntRange(0, 12).Draw(t, "many topics")
		c.Clients = rapid.IntRange(1, 8).Draw(t, "many clients")
		ns = rapid.IntRange(1, 20).Draw(t, "many servers")
		least, most = 20, 80
	}
	nt := max(1, c.Topics)
	owner := map[int]bool{}
	for range ns {
		var ts []int
		for k := range nt {
			if rapid.IntRange(0, 3).Draw(t, "reg") > 0 {
				if c.Mode == "single" {
					if owner[k] {
						continue
					}
					owner[k] = true
				}
				ts = append(ts, k)
			}
		}
		c.Servers = append(c.Servers, ts)
	}
	c.Calls = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) c01Call {
		return c01Call{
			Client:  rapid.IntRange(0, c.Clients-1).Draw(t, "client"),
			Topic:   rapid.IntRange(0, nt-1).Draw(t, "topic"),
			At:      rapid.SampledFrom([]int{0, 0, 0, 1, 5, 50, 300}).Draw(t, "at"),
			Work:    rapid.SampledFrom([]int{0, 0, 1, 10, 100, 900, 2500}).Draw(t, "work"),
			Err:     rapid.IntRange(0, 4).Draw(t, "err") == 4,
			Timeout: rapid.SampledFrom([]int{0, 0, 0, 95, 950, 9000}).Draw(t, "timeout"),
			Cancel:  rapid.SampledFrom([]int{0, 0, 0, 0, 0, 3, 60, 500}).Draw(t, "cancel"),
			Pad:     rapid.SampledFrom([]int{0, 0, 1, 300, 70000}).Draw(t, "pad"),
			Pick:    rapid.SampledFrom([]string{"", "", "", "", "window", "last", "first", "error", "none", "unknown"}).Draw(t, "pick"),
		}
	}), least, most).Draw(t, "calls")
	if rapid.Bool().Draw(t, "lat") {
		for _, k := range []string{"REQ", "RES", "CLAIM", "RCLAIM"} {
			c.Lat[k] = rapid.SampledFrom([]int{0, 1, 20, 130}).Draw(t, "lat"+k)
		}
	}
	acts := []string{"delay", "slow", "linger"}
	if rapid.Bool().Draw(t, "lossy") {
		acts = []string{"delay", "slow", "linger", "drop", "drop", "err"}
	}
	c.Faults = genFaults(t, []string{"REQ", "RES", "CLAIM", "RCLAIM"}, acts, 4, 14, 600)
	return c
}

const c01Window = 250 // ms for claims, where the caller says how to choose

type c01Exec struct {
	call, server int
	resp         string
}

func runC01(e *engine.Env, c c01Case) {
	fab := NewFabric(c.Bus)
	net := NewNet(c.Faults, c.Lat)
	shared := net.Wrap(fab.Bus())
	bus := func() psrpc.MessageBus {
		if c.Procs && c.Bus != "local" {
			return net.Wrap(fab.Bus())
		}
		return shared
	}
	m := Method{Name: "Do", Affinity: c.Mode == "affinity", Claim: c.Mode == "claim" || c.Mode == "affinity", Queue: c.Mode == "queue"}
	topic := func(k int) []string {
		if c.Topics == 0 {
			return nil
		}
		return []string{fmt.Sprintf("t%d", k)}
	}

	reqs := make([]string, len(c.Calls))
	for i, call := range c.Calls {
		b := make([]byte, call.Pad)
		for j := range b {
			b[j] = byte('a' + (i*7+j*3)%26)
		}
		reqs[i] = fmt.Sprintf("call-%d-%s", i, b)
	}
	byReq := map[string]int{}
	for i, r := range reqs {
		byReq[r] = i
	}

	var mu sync.Mutex
	var execs []c01Exec
	registered := map[int]int{}
	var servers []*server.RPCServer
	for si, ts := range c.Servers {
		s := server.NewRPCServer(define("Svc", c02ID(c.IDs, si), m), bus())
		servers = append(servers, s)
		for _, k := range ts {
			registered[k]++
			var aff server.AffinityFunc[Str]
			if c.Mode == "affinity" {
				aff = func(context.Context, Str) float32 { return float32(si+1) / 8 }
			}
			err := server.RegisterHandler(s, "Do", topic(k), func(ctx context.Context, r Str) (Str, error) {
				i, ok := byReq[r.GetValue()]
				if !ok {
					e.Failf("server %d executed a request no caller sent: %.60q", si, r.GetValue())
					return nil, psrpc.NewErrorf(psrpc.Internal, "unexpected")
				}
				mu.Lock()
				resp := fmt.Sprintf("resp-%d-%d-%d", i, si, len(execs))
				execs = append(execs, c01Exec{i, si, resp})
				mu.Unlock()
				if c.Topics > 0 && c.Calls[i].Topic != k {
					e.Failf("request %d for topic %d executed by handler of topic %d", i, c.Calls[i].Topic, k)
				}
				time.Sleep(msd(c.Calls[i].Work))
				if c.Calls[i].Err {
					return nil, psrpc.NewErrorf(psrpc.FailedPrecondition, "%s", resp)
				}
				return S(resp), nil
			}, aff)
			must(e, err, "register")
		}
	}
	var clients []*client.RPCClient
	for i := range c.Clients {
		cl, err := client.NewRPCClient(define("Svc", fmt.Sprintf("cli%d", i), m), bus())
		must(e, err, "new client")
		clients = append(clients, cl)
	}
	time.Sleep(time.Second)

	type outcome struct {
		res  Str
		err  error
		took time.Duration
		ret  bool
	}
	outs := make([]outcome, len(c.Calls))
	var wg sync.WaitGroup
	for i, call := range c.Calls {
		wg.Add(1)
		go func() {
			defer wg.Done()
			time.Sleep(msd(call.At))
			ctx := context.Background()
			if call.Cancel > 0 {
				var cancel context.CancelFunc
				ctx, cancel = context.WithCancel(ctx)
				defer cancel()
				tm := time.AfterFunc(msd(call.Cancel), cancel)
				defer tm.Stop()
			}
			var opts []psrpc.RequestOption
			if call.Timeout > 0 {
				opts = append(opts, psrpc.WithRequestTimeout(msd(call.Timeout)))
			}
			if call.Pick != "" {
				o := psrpc.SelectionOpts{AffinityTimeout: msd(c01Window)}
				if call.Pick != "window" {
					o.SelectionFunc = func(cs []*psrpc.Claim) (string, error) {
						switch {
						case call.Pick == "none":
							return "", nil
						case call.Pick == "unknown":
							return "nobody", nil
						case call.Pick == "error" || len(cs) == 0:
							return "", psrpc.NewErrorf(psrpc.ResourceExhausted, "picky")
						case call.Pick == "first":
							return cs[0].ServerID, nil
						}
						return cs[len(cs)-1].ServerID, nil
					}
				}
				opts = append(opts, psrpc.WithSelectionOpts(o))
			}
			start := time.Now()
			res, err := client.RequestSingle[Str](ctx, clients[call.Client%len(clients)], "Do", topic(call.Topic), S(reqs[i]), opts...)
			mu.Lock()
			outs[i] = outcome{res, err, time.Since(start), true}
			mu.Unlock()
		}()
	}
	wg.Wait()
	time.Sleep(20 * time.Second) // later executions are also counted

	mu.Lock()
	defer mu.Unlock()
	count := map[int][]c01Exec{}
	for _, x := range execs {
		count[x.call] = append(count[x.call], x)
	}
	slack := sumMs(c.Faults)
	for _, k := range []string{"REQ", "RES", "CLAIM", "RCLAIM"} {
		slack += c.Lat[k]
	}
	lossless := !hasAct(c.Faults, "drop", "err")
	if lossless {
		e.Class("lossless")
	}
	for i, call := range c.Calls {
		o, xs := outs[i], count[i]
		if len(xs) > 1 {
			e.Failf("request %d was executed %d times: %v", i, len(xs), xs)
			continue
		}
		if o.err == nil {
			e.Class("success")
			if len(xs) != 1 || call.Err || o.res.GetValue() != xs[0].resp {
				e.Failf("request %d succeeded with %q; executions of it: %v (handler fails: %v)", i, o.res.GetValue(), xs, call.Err)
			}
			continue
		}
		if o.res != nil {
			e.Failf("request %d failed with %v and also returned %q", i, o.err, o.res.GetValue())
		}
		switch code(o.err) {
		case psrpc.FailedPrecondition:
			e.Class("handler error")
			if len(xs) != 1 || !call.Err || o.err.Error() != xs[0].resp {
				e.Failf("request %d failed with %q; executions of it: %v (handler fails: %v)", i, o.err, xs, call.Err)
			}
			continue
		case psrpc.DeadlineExceeded, psrpc.Canceled, psrpc.Unavailable:
			e.Class("infrastructure error")
		case psrpc.ResourceExhausted:
			e.Class("picky")
			if (call.Pick != "error" && call.Pick != "first" && call.Pick != "last") || !m.Claim {
				e.Failf("request %d failed with %v, which is another call's", i, o.err)
			}
		case psrpc.Internal:
			if lossless {
				e.Failf("request %d failed with %v although every publish succeeded", i, o.err)
			}
		default:
			e.Failf("request %d failed with %v (%s), an error nobody made", i, o.err, code(o.err))
		}
		timeout := call.Timeout
		if timeout == 0 {
			timeout = 3000
		}
		needed := slack + call.Work
		if m.Affinity {
			needed += 200
		}
		choice := true
		if call.Pick != "" && m.Claim {
			needed += c01Window
			// claims that come too late are not to choose from
			choice = slack < c01Window-20 && (call.Pick == "window" || call.Pick == "first" || call.Pick == "last")
		}
		if lossless && choice && call.Cancel == 0 && registered[call.Topic] > 0 && slack < 900 && needed < timeout-20 {
			e.Failf("request %d (timeout %dms) failed with %v after %v although a server was available and nothing was lost or later than %dms; executions: %v",
				i, timeout, o.err, o.took, needed, xs)
		}
	}
	if len(execs) >= 2 && len(c.Calls) >= 2 {
		e.NonTrivial()
	}
	e.Class("mode %s", c.Mode)
	e.Class("bus %s", c.Bus)

	for _, cl := range clients {
		cl.Close()
	}
	for _, s := range servers {
		s.Close(true)
	}
	time.Sleep(time.Second)
	fab.Close()
	time.Sleep(time.Minute)
}

func init() {
	engine.Add("C01", "calls",
		"1-12 concurrent calls, 1-3 clients, 1-4 servers, 0-3 topics, drawn work times, timeouts, cancellations, per-kind latencies and per-message faults; non-trivial: at least two calls and two executions",
		1500, 25000, genC01, runC01)
}
