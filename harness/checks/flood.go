package checks

import (
	"context"
	"runtime"
	"sync"
	"time"

	"google.golang.org/protobuf/proto"
	"pgregory.net/rapid"

	"github.com/livekit/psrpc"
	"github.com/livekit/psrpc/internal"
	"github.com/livekit/psrpc/internal/bus"
	"github.com/livekit/psrpc/pkg/client"
	"github.com/livekit/psrpc/pkg/info"
	"github.com/livekit/psrpc/pkg/server"
	"github.com/livekit/psrpc/verif/engine"
)

// Something is closed while messages to each of its subscriptions pour in over the connection
// that it shares with others. Whatever is in the way, the close completes and the others go on.

type floodBurst struct {
	Kind string // RES CLAIM STR for a client; REQ RCLAIM OPEN for a server
	N    int
	At   int // 0: at the close, in ms before it otherwise
}

type floodCase struct {
	Bus    string
	Chan   int
	Bursts []floodBurst
	How    string // client; server, forced, handler
	Yield  int
	Again  bool // closed from two goroutines
}

func genFlood(server bool) func(t *rapid.T) floodCase {
	return func(t *rapid.T) floodCase {
		c := floodCase{Bus: genBus(t, 3), How: "client"}
		kinds := []string{"RES", "CLAIM", "STR"}
		if server {
			c.How = rapid.SampledFrom([]string{"server", "forced", "handler"}).Draw(t, "how")
			kinds = []string{"REQ", "RCLAIM", "OPEN", "SCLAIM"}
		}
		c.Chan = rapid.SampledFrom([]int{0, 0, 1, 2, 5}).Draw(t, "chan")
		c.Bursts = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) floodBurst {
			return floodBurst{
				Kind: rapid.SampledFrom(kinds).Draw(t, "kind"),
				N:    rapid.IntRange(1, 25).Draw(t, "n"),
				At:   rapid.SampledFrom([]int{0, 0, 0, 1}).Draw(t, "at"),
			}
		}), 1, 6).Draw(t, "bursts")
		c.Yield = rapid.IntRange(0, 60).Draw(t, "yield")
		c.Again = rapid.Bool().Draw(t, "again")
		return c
	}
}

func runFlood(e *engine.Env, c floodCase) {
	fab := NewFabric(c.Bus)
	b, raw := fab.Bus(), fab.Bus()
	methods := []Method{{Name: "Do"}, {Name: "Cl", Claim: true}, {Name: "CSt", Claim: true}}
	h := func(ctx context.Context, q Str) (Str, error) { return q, nil }
	sh := func(ss psrpc.ServerStream[Str, Str]) error {
		<-ss.Context().Done()
		return nil
	}
	mk := func(svc, id string, opts ...psrpc.ServerOption) *server.RPCServer {
		s := server.NewRPCServer(define(svc, id, methods...), b, opts...)
		must(e, server.RegisterHandler(s, "Do", nil, h, nil), "register")
		must(e, server.RegisterHandler(s, "Cl", nil, h, nil), "register")
		must(e, server.RegisterStreamHandler[Str, Str](s, "CSt", nil, sh, nil), "register")
		return s
	}
	s := mk("Svc", "srv", psrpc.WithServerChannelSize(c.Chan))
	cl, err := client.NewRPCClientWithStreams(define("Svc", "cli", methods...), b, psrpc.WithClientChannelSize(c.Chan))
	must(e, err, "new client")
	otherS := mk("Other", "other")
	other, err := client.NewRPCClientWithStreams(define("Other", "other", methods...), b)
	must(e, err, "new client")
	time.Sleep(time.Second)

	do, st := define("Svc", "x", methods...).GetInfo("Cl", nil), define("Svc", "x", methods...).GetInfo("CSt", nil)
	var wg sync.WaitGroup
	const lead = 20
	for _, x := range c.Bursts {
		e.Class("burst of %s", x.Kind)
		wg.Add(1)
		go func() {
			defer wg.Done()
			time.Sleep(msd(lead - x.At))
			far := time.Now().Add(time.Minute).UnixNano()
			var ch bus.Channel
			var msg proto.Message
			switch x.Kind {
			case "RES":
				ch, msg = info.GetResponseChannel("Svc", "cli"), &internal.Response{RequestId: "RQ_unknown", ServerId: "srvX"}
			case "CLAIM":
				ch, msg = info.GetClaimRequestChannel("Svc", "cli"), &internal.ClaimRequest{RequestId: "RQ_unknown", ServerId: "srvX"}
			case "STR":
				ch, msg = info.GetStreamChannel("Svc", "cli"), &internal.Stream{StreamId: "STR_unknown", RequestId: "RQ_unknown", Expiry: far,
					Body: &internal.Stream_Ack{Ack: &internal.StreamAck{}}}
			case "REQ":
				ch, msg = do.GetRPCChannel(), &internal.Request{RequestId: "RQ_past", ClientId: "nobody", Expiry: 1}
			case "RCLAIM":
				ch, msg = do.GetClaimResponseChannel(), &internal.ClaimResponse{RequestId: "RQ_unknown", ServerId: "srvX"}
			case "SCLAIM":
				ch, msg = st.GetClaimResponseChannel(), &internal.ClaimResponse{RequestId: "RQ_unknown", ServerId: "srvX"}
			case "OPEN":
				ch, msg = st.GetStreamServerChannel(), &internal.Stream{StreamId: "STR_unknown", RequestId: "RQ_unknown", Expiry: far,
					Body: &internal.Stream_Ack{Ack: &internal.StreamAck{}}}
			}
			for range x.N {
				_ = raw.Publish(context.Background(), ch, msg)
			}
		}()
	}
	n := 1
	if c.Again {
		n = 2
	}
	for range n {
		wg.Add(1)
		go func() {
			defer wg.Done()
			time.Sleep(msd(lead))
			for range c.Yield {
				runtime.Gosched()
			}
			b := time.Now()
			switch c.How {
			case "client":
				cl.Close()
			case "handler":
				s.DeregisterHandler("Cl", nil)
				s.DeregisterHandler("CSt", nil)
			default:
				s.Close(c.How == "forced")
			}
			if d := time.Since(b); d > time.Second {
				e.Failf("closing took %v", d)
			}
		}()
	}
	if !within(time.Minute, wg.Wait) {
		e.Fatalf("a close or a publisher has not returned after a minute")
	}
	time.Sleep(ms)
	for _, m := range []string{"Do", "Cl"} {
		if _, err := client.RequestSingle[Str](context.Background(), other, m, nil, S("other")); err != nil {
			e.Failf("a call of others on the same connection failed with %v after the close", err)
		}
	}
	if cs, err := client.OpenStream[Str, Str](context.Background(), other, "CSt", nil); err != nil {
		e.Failf("a stream of others on the same connection could not be opened after the close: %v", err)
	} else {
		_ = cs.Close(nil)
	}
	if c.How == "handler" {
		if _, err := client.RequestSingle[Str](context.Background(), cl, "Do", nil, S("x")); err != nil {
			e.Failf("a call to another handler of the server failed with %v after handlers were deregistered", err)
		}
	}
	if len(c.Bursts) > 1 {
		e.NonTrivial()
	}
	e.Class("close of the %s, bus %s", c.How, c.Bus)
	cl.Close()
	other.Close()
	s.Close(true)
	otherS.Close(true)
	time.Sleep(time.Second)
	fab.Close()
}

func init() {
	engine.Add("C15", "flood", "messages to at least two of its subscriptions poured in at the close",
		3000, 60000, genFlood(false), runFlood)
	engine.Add("C14", "flood", "messages to at least two of its subscriptions poured in at the close",
		3000, 60000, genFlood(true), runFlood)
}
