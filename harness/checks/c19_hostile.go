package checks

import (
	"context"
	"fmt"
	"math"
	"sync"
	"time"

	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/known/anypb"
	"pgregory.net/rapid"

	"github.com/livekit/psrpc"
	"github.com/livekit/psrpc/internal"
	"github.com/livekit/psrpc/internal/bus"
	"github.com/livekit/psrpc/pkg/client"
	"github.com/livekit/psrpc/pkg/info"
	"github.com/livekit/psrpc/pkg/server"
	"github.com/livekit/psrpc/verif/engine"
)

// Noise is put on the channels of running clients, servers, streams and
// subscriptions; whatever it does to the calls of the moment, they end, nothing
// crashes, and calls made after it work as if it had never been there.

type c19Noise struct {
	At      int
	Chan    int
	Type    string // Request Response ClaimRequest ClaimResponse open message ack close nobody Str opaque raw
	ID      int    // >= 0: the Nth id seen on the wire; < 0: made up
	SID     int
	Node    int
	Expiry  int // 0 none, 1 past, 2 soon, 3 end of time, 4 beginning of time, 5 normal
	Payload hexBytes
	Valid   bool
	Code    string
	Text    string
	Aff     int
	Times   int
}

type c19HostCase struct {
	Bus   string
	Chan  int
	Noise []c19Noise
	Calls []c19Step // Do: call all claim stream cstream, Arg: when
	Lat   int
}

var c19Nodes = []string{"cli", "cli", "", "evil", "a b", "x\r\nPUB y 0\r\n\r\n", ">", "*", "cli.RES", "é", "|"}

func genC19Host(t *rapid.T) c19HostCase {
	c := c19HostCase{
		Bus:  genBus(t, 3),
		Chan: rapid.SampledFrom([]int{0, 1, 3, 100}).Draw(t, "chan"),
		Lat:  rapid.SampledFrom([]int{0, 0, 3, 20}).Draw(t, "lat"),
	}
	types := []string{"Request", "Request", "Response", "Response", "ClaimRequest", "ClaimResponse", "open", "message", "ack", "close", "nobody", "Str", "opaque"}
	if c.Bus != "local" {
		types = append(types, "raw", "raw")
	}
	for range rapid.IntRange(1, 25).Draw(t, "n") {
		c.Noise = append(c.Noise, c19Noise{
			At:      rapid.SampledFrom([]int{0, 0, 1, 2, 5, 10, 25, 60, 200, 1000}).Draw(t, "at"),
			Chan:    rapid.IntRange(0, 14).Draw(t, "ch"),
			Type:    rapid.SampledFrom(types).Draw(t, "type"),
			ID:      rapid.IntRange(-2, 12).Draw(t, "id"),
			SID:     rapid.IntRange(-2, 12).Draw(t, "sid"),
			Node:    rapid.IntRange(0, len(c19Nodes)-1).Draw(t, "node"),
			Expiry:  rapid.IntRange(0, 7).Draw(t, "expiry"),
			Payload: rapid.SliceOfN(rapid.Byte(), 0, 10).Draw(t, "payload"),
			Valid:   rapid.Bool().Draw(t, "valid"),
			Code:    rapid.SampledFrom([]string{"", "", "not_found", "weird"}).Draw(t, "code"),
			Text:    rapid.SampledFrom([]string{"", "", "text"}).Draw(t, "text"),
			Aff:     rapid.IntRange(-2, 5).Draw(t, "aff"),
			Times:   rapid.SampledFrom([]int{1, 1, 1, 2, 10}).Draw(t, "times"),
		})
	}
	for range rapid.IntRange(0, 6).Draw(t, "calls") {
		c.Calls = append(c.Calls, c19Step{rapid.SampledFrom([]string{"call", "all", "claim", "stream", "cstream"}).Draw(t, "call"),
			rapid.SampledFrom([]int{0, 0, 1, 5, 30, 300}).Draw(t, "when")})
	}
	return c
}

func runC19Host(e *engine.Env, c c19HostCase) {
	f := NewFabric(c.Bus)
	defer f.Close()
	net := NewNet(nil, map[string]int{"": c.Lat})
	tap := newC19Tap(f)
	ctx := context.Background()
	var copts []psrpc.ClientOption
	var sopts []psrpc.ServerOption
	if c.Chan > 0 {
		copts = append(copts, psrpc.WithClientChannelSize(c.Chan))
		sopts = append(sopts, psrpc.WithServerChannelSize(c.Chan))
	}
	for n := range 2 {
		s := server.NewRPCServer(define("Svc", fmt.Sprint("srv", n), c19Methods...), net.Wrap(f.Bus()), sopts...)
		defer s.Close(true)
		for _, m := range []string{"Call", "All", "Claim"} {
			must(e, server.RegisterHandler(s, m, nil, func(ctx context.Context, q Str) (Str, error) {
				time.Sleep(2 * ms)
				return S("re:" + q.GetValue()), nil
			}, nil), "register")
		}
		for _, m := range []string{"Stream", "ClaimStream"} {
			must(e, server.RegisterStreamHandler(s, m, []string{fmt.Sprint("t", n)}, func(ss psrpc.ServerStream[Str, Str]) error {
				for q := range ss.Channel() {
					if err := ss.Send(S("re:" + q.GetValue())); err != nil {
						return err
					}
				}
				return nil
			}, nil), "register")
		}
	}
	cl, err := client.NewRPCClientWithStreams(define("Svc", "cli", c19Methods...), net.Wrap(f.Bus()), copts...)
	must(e, err, "new client")
	defer cl.Close()
	sd := define("Svc", "", c19Methods...)
	user := sd.GetInfo("Call", []string{"user"}).GetRPCChannel()
	sub, err := bus.Subscribe[Str](ctx, f.Bus(), user, 100)
	must(e, err, "subscribe")
	defer sub.Close()
	var mu sync.Mutex
	var updates []string
	go func() {
		for m := range sub.Channel() {
			mu.Lock()
			updates = append(updates, m.GetValue())
			mu.Unlock()
		}
	}()
	time.Sleep(50 * ms)

	t0 := []string{"t0"}
	chans := []psrpc.Channel{
		sd.GetInfo("Call", nil).GetRPCChannel(), sd.GetInfo("All", nil).GetRPCChannel(), sd.GetInfo("Claim", nil).GetRPCChannel(),
		sd.GetInfo("Claim", nil).GetClaimResponseChannel(), sd.GetInfo("ClaimStream", t0).GetClaimResponseChannel(),
		sd.GetInfo("Stream", t0).GetStreamServerChannel(), sd.GetInfo("ClaimStream", t0).GetStreamServerChannel(),
		info.GetResponseChannel("Svc", "cli"), info.GetClaimRequestChannel("Svc", "cli"), info.GetStreamChannel("Svc", "cli"),
		user, info.GetResponseChannel("Svc", "cli"), sd.GetInfo("Call", nil).GetRPCChannel(),
		sd.GetInfo("Stream", t0).GetStreamServerChannel(), info.GetStreamChannel("Svc", "cli"),
	}
	// ids seen on the wire so far
	seen := func(streams bool, n int) string {
		if n < 0 {
			return []string{"", "MADEUP"}[-n-1]
		}
		var ids []string
		for _, s := range net.Log() {
			switch m := s.Msg.(type) {
			case *internal.Request:
				if !streams {
					ids = append(ids, m.RequestId)
				}
			case *internal.Stream:
				if streams {
					ids = append(ids, m.StreamId)
				} else {
					ids = append(ids, m.RequestId)
				}
			}
		}
		if len(ids) == 0 {
			return ""
		}
		return ids[n%len(ids)]
	}
	build := func(x c19Noise) proto.Message {
		pay := []byte(x.Payload)
		if x.Valid {
			pay = must1(proto.Marshal(S("noise")))
		}
		now := time.Now()
		exp := now.Add(3 * time.Second).UnixNano()
		switch x.Expiry {
		case 0:
			exp = 0
		case 1:
			exp = now.UnixNano() - 1
		case 2:
			exp = now.Add(3 * ms).UnixNano()
		case 3:
			exp = math.MaxInt64
		case 4:
			exp = math.MinInt64
		}
		id, sid := seen(false, x.ID), seen(true, x.SID)
		det := []*anypb.Any{{TypeUrl: "nope", Value: pay}, nil}[:x.Aff&1]
		str := &internal.Stream{StreamId: sid, RequestId: id, SentAt: exp, Expiry: exp}
		switch x.Type {
		case "Request":
			return &internal.Request{RequestId: id, ClientId: c19Nodes[x.Node], SentAt: exp, Expiry: exp, Multi: x.Aff&1 == 0, RawRequest: pay, Metadata: map[string]string{"": x.Text}}
		case "Response":
			return &internal.Response{RequestId: id, ServerId: c19Nodes[x.Node], SentAt: exp, Error: x.Text, Code: x.Code, RawResponse: pay, ErrorDetails: det}
		case "ClaimRequest":
			return &internal.ClaimRequest{RequestId: id, ServerId: []string{"srv0", "srv1", c19Nodes[x.Node]}[x.Node%3], Affinity: []float32{float32(math.NaN()), float32(math.Inf(1)), -1, 0, 1, 0.5, 2, 3}[x.Aff+2]}
		case "ClaimResponse":
			return &internal.ClaimResponse{RequestId: id, ServerId: []string{"srv0", "srv1", c19Nodes[x.Node]}[x.Node%3]}
		case "open":
			str.Body = &internal.Stream_Open{Open: &internal.StreamOpen{NodeId: c19Nodes[x.Node], Metadata: map[string]string{x.Text: ""}}}
			return str
		case "message":
			str.Body = &internal.Stream_Message{Message: &internal.StreamMessage{RawMessage: pay}}
			return str
		case "ack":
			str.Body = &internal.Stream_Ack{Ack: &internal.StreamAck{}}
			return str
		case "close":
			str.Body = &internal.Stream_Close{Close: &internal.StreamClose{Error: x.Text, Code: x.Code}}
			return str
		case "nobody":
			return str
		case "Str":
			return S("noise")
		}
		return c19Opaque([]string{"internal.Request", "internal.Response", "internal.Stream", "internal.ClaimRequest", "internal.ClaimResponse", "google.protobuf.StringValue", "no.Such"}[x.Node%7], pay)
	}

	var calls sync.WaitGroup
	do := func(k int, kind string, probe bool) {
		text := fmt.Sprint("q", k)
		limit := 7 * time.Second
		fail := func(format string, args ...any) {
			if probe {
				e.Failf("after the noise, "+format, args...)
			}
		}
		if !within(limit, func() {
			// server selection alone may take a second
			opt := psrpc.WithRequestTimeout(2 * time.Second)
			switch kind {
			case "call", "claim":
				r, err := client.RequestSingle[Str](ctx, cl, c19Name[kind], nil, S(text), opt)
				if err != nil || r.GetValue() != "re:"+text {
					fail("%s returned %v, %v", kind, r, err)
				}
			case "all":
				ch, err := client.RequestMulti[Str](ctx, cl, "All", nil, S(text), opt)
				if err != nil {
					fail("a multi call failed: %v", err)
					return
				}
				n := 0
				for r := range ch {
					if r.Err != nil || r.Result.GetValue() != "re:"+text {
						fail("a multi call got %v, %v", r.Result, r.Err)
					}
					n++
				}
				if n != 2 {
					fail("a multi call got %d of 2 responses", n)
				}
			default:
				s, err := client.OpenStream[Str, Str](ctx, cl, c19Name[kind], t0, opt)
				if err != nil {
					fail("%s did not open: %v", kind, err)
					return
				}
				defer s.Close(nil)
				for j := range 3 {
					if err := s.Send(S(fmt.Sprint(text, "-", j))); err != nil {
						fail("a send on %s failed: %v", kind, err)
						return
					}
					select {
					case m := <-s.Channel():
						if m.GetValue() != fmt.Sprint("re:", text, "-", j) {
							fail("%s got %v for message %d", kind, m, j)
						}
					case <-time.After(time.Second):
						fail("%s got no echo of message %d", kind, j)
						return
					}
				}
			}
		}) {
			e.Failf("call %d (%s, after the noise: %t) did not end in %v", k, kind, probe, limit)
		}
	}
	for k, x := range c.Calls {
		calls.Add(1)
		go func() {
			defer calls.Done()
			time.Sleep(msd(x.Arg))
			do(k, x.Do, false)
		}()
	}
	for k, x := range c.Noise {
		time.Sleep(msd(x.At))
		ch := chans[x.Chan]
		for range x.Times {
			if !within(5*time.Second, func() {
				if tap.bus != nil {
					_ = tap.bus.Publish(ctx, ch, build(x))
				} else if x.Type == "raw" {
					tap.raw(ch, append([]byte(x.Payload), byte(k)))
				} else {
					m := build(x)
					b, err := proto.Marshal(m)
					if err != nil {
						e.Fatalf("harness: %v", err)
					}
					tap.raw(ch, c19Envelope("type.googleapis.com/"+string(m.ProtoReflect().Descriptor().FullName()), b, ch.Local))
				}
			}) {
				e.Failf("the noise %d (%s) blocks its sender for 5 seconds", k, x.Type)
			}
		}
		e.Class("%s", x.Type)
	}
	if !within(20*time.Second, calls.Wait) {
		e.Fatalf("calls made during the noise did not end in 20 seconds")
	}
	time.Sleep(6 * time.Second)
	mu.Lock()
	updates = nil
	mu.Unlock()
	for k, kind := range []string{"call", "claim", "all", "stream", "cstream"} {
		do(100+k, kind, true)
	}
	pub := f.Bus()
	time.Sleep(20 * ms)
	must(e, pub.Publish(ctx, user, S("update")), "publish")
	time.Sleep(100 * ms)
	mu.Lock()
	if fmt.Sprint(updates) != "[update]" {
		e.Failf("after the noise, the subscription got %q instead of one update", updates)
	}
	mu.Unlock()
	if len(c.Noise) >= 3 && len(c.Calls) > 0 {
		e.NonTrivial()
	}
	e.Class("bus: %s", c.Bus)
}

func init() {
	engine.Add("C19", "hostile", "at least three pieces of noise among at least one call", 600, 15000, genC19Host, runC19Host)
}
