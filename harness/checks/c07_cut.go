package checks

import (
	"context"
	"time"

	"pgregory.net/rapid"

	"github.com/livekit/psrpc"
	"github.com/livekit/psrpc/internal/bus"
	"github.com/livekit/psrpc/pkg/client"
	"github.com/livekit/psrpc/pkg/server"
	"github.com/livekit/psrpc/verif/engine"
)

// A connection that is closed for good: what needs it says so.

var c07CutMethods = []Method{{Name: "Do"}, {Name: "Cl", Claim: true}, {Name: "Qu", Queue: true}, {Name: "All", Multi: true}, {Name: "Sub", Multi: true},
	{Name: "Upd"}, {Name: "St"}, {Name: "Do2"}, {Name: "St2"}}

type c07CutCase struct {
	Srv bool // the server's connection, not the client's
	Ops []string
}

var (
	c07CutCli = []string{"Do", "Cl", "All", "open", "send", "join", "joinqueue", "new"}
	c07CutSrv = []string{"send", "register", "regst", "publish"}
)

func genC07Cut(t *rapid.T) c07CutCase {
	c := c07CutCase{Srv: rapid.Bool().Draw(t, "srv")}
	from := c07CutCli
	if c.Srv {
		from = c07CutSrv
	}
	c.Ops = rapid.SliceOfN(rapid.SampledFrom(from), 1, 5).Draw(t, "ops")
	return c
}

func runC07Cut(e *engine.Env, c c07CutCase) {
	f := NewFabric("nats")
	defer f.Close()
	bs, bc := f.Bus(), f.Bus()
	s := server.NewRPCServer(define("Svc", "srv", c07CutMethods...), bs)
	h := func(_ context.Context, r Str) (Str, error) { return r, nil }
	for _, m := range []string{"Do", "Cl", "All"} {
		must(e, server.RegisterHandler(s, m, nil, h, nil), "register")
	}
	var sst psrpc.ServerStream[Str, Str]
	must(e, server.RegisterStreamHandler[Str, Str](s, "St", nil, func(st psrpc.ServerStream[Str, Str]) error {
		sst = st
		st.Hijack()
		return nil
	}, nil), "register")
	cl, err := client.NewRPCClientWithStreams(define("Svc", "cli", c07CutMethods...), bc)
	must(e, err, "client")
	time.Sleep(ms)
	st, err := client.OpenStream[Str, Str](context.Background(), cl, "St", nil)
	must(e, err, "open")
	time.Sleep(ms)
	e.Sync()

	if c.Srv {
		f.ncs[0].Close()
	} else {
		f.ncs[1].Close()
	}
	for _, op := range c.Ops {
		from := time.Now()
		var err error
		what, want := "", psrpc.Internal
		switch op {
		case "Do", "Cl":
			var r Str
			r, err = client.RequestSingle[Str](context.Background(), cl, op, nil, S("x"))
			if r != nil {
				what = "a response"
			}
		case "All":
			var ch <-chan *psrpc.Response[Str]
			ch, err = client.RequestMulti[Str](context.Background(), cl, op, nil, S("x"))
			if err == nil && ch != nil {
				for r := range ch {
					if r.Result != nil {
						what = "a result"
					}
				}
			}
		case "open":
			var x psrpc.ClientStream[Str, Str]
			x, err = client.OpenStream[Str, Str](context.Background(), cl, "St", nil)
			if x != nil {
				what = "a stream"
			}
		case "send":
			if c.Srv {
				err = sst.Send(S("x"))
			} else {
				err = st.Send(S("x"))
			}
		case "join", "joinqueue":
			join, m := client.Join[Str], "Sub"
			if op == "joinqueue" {
				join, m = client.JoinQueue[Str], "Qu"
			}
			var sub bus.Subscription[Str]
			sub, err = join(context.Background(), cl, m, []string{"t"})
			if sub != nil {
				what = "a subscription"
			}
		case "new":
			want = ""
			var x *client.RPCClient
			x, err = client.NewRPCClientWithStreams(define("Svc", "c3", c07CutMethods...), bc)
			if x != nil {
				what = "a client"
			}
		case "register":
			want = ""
			err = server.RegisterHandler(s, "Do2", []string{"t"}, h, nil)
		case "regst":
			want = ""
			err = server.RegisterStreamHandler[Str, Str](s, "St2", []string{"t"}, func(psrpc.ServerStream[Str, Str]) error { return nil }, nil)
		case "publish":
			want = ""
			err = s.Publish(context.Background(), "Upd", []string{"t"}, S("x"))
		}
		if what != "" {
			e.Failf("%s on a connection that is closed returned %s (error: %v)", op, what, err)
		}
		switch {
		case err == nil:
			e.Failf("%s on a connection that is closed did not fail", op)
		case want != "" && code(err) != want:
			e.Failf("%s on a connection that is closed failed with %v (%v), not %v", op, code(err), err, want)
		}
		if d := time.Since(from); d > 100*ms {
			e.Failf("%s on a connection that is closed took %v to fail", op, d)
		}
		e.Class("%s", op)
	}
	e.NonTrivial()
	_ = st.Close(nil)
	_ = sst.Close(nil)
	cl.Close()
	s.Close(true)
	time.Sleep(time.Minute)
}

func init() {
	engine.Add("C07", "cut", "every case", 60, 400, genC07Cut, runC07Cut)
}
