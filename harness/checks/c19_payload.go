package checks

import (
	"context"
	"fmt"
	"strings"
	"time"

	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/known/structpb"
	"pgregory.net/rapid"

	"github.com/livekit/psrpc"
	"github.com/livekit/psrpc/internal/bus"
	"github.com/livekit/psrpc/pkg/client"
	"github.com/livekit/psrpc/pkg/server"
	"github.com/livekit/psrpc/verif/engine"
)

// Messages of any shape and size come back from calls, multi calls, streams
// and subscriptions as they were sent.

type plMsg struct {
	Depth int // lists in lists, or structs in structs
	Width int // neighbours at the innermost level
	Size  int // bytes of each
	Kind  string
}

type plCase struct {
	Bus  string
	Msgs []plMsg
}

func (m plMsg) build() *structpb.Value {
	var l []*structpb.Value
	for i := range m.Width {
		switch m.Kind {
		case "text":
			l = append(l, structpb.NewStringValue(fmt.Sprint(i, strings.Repeat("é", m.Size/2))))
		case "number":
			l = append(l, structpb.NewNumberValue(float64(m.Size)/float64(i+3)))
		case "null":
			l = append(l, structpb.NewNullValue())
		default:
			l = append(l, structpb.NewBoolValue(i%2 == 0))
		}
	}
	v := structpb.NewListValue(&structpb.ListValue{Values: l})
	for i := range m.Depth {
		if i%2 == 0 {
			v = structpb.NewListValue(&structpb.ListValue{Values: []*structpb.Value{v}})
		} else {
			v = structpb.NewStructValue(&structpb.Struct{Fields: map[string]*structpb.Value{fmt.Sprint("f", i): v, "": structpb.NewNullValue()}})
		}
	}
	return v
}

func genPayload(t *rapid.T) plCase {
	c := plCase{Bus: genBus(t, 4)}
	c.Msgs = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) plMsg {
		m := plMsg{
			Depth: rapid.OneOf(rapid.IntRange(0, 5), rapid.IntRange(0, 60), rapid.IntRange(0, 900)).Draw(t, "depth"),
			Width: rapid.OneOf(rapid.IntRange(0, 3), rapid.IntRange(0, 300)).Draw(t, "width"),
			Size:  rapid.OneOf(rapid.IntRange(0, 20), rapid.IntRange(0, 2000), rapid.IntRange(0, 300000)).Draw(t, "size"),
			Kind:  rapid.SampledFrom([]string{"text", "number", "null", "bool"}).Draw(t, "kind"),
		}
		if m.Kind == "text" && m.Width*m.Size > 500000 {
			m.Width = 500000 / m.Size
		}
		return m
	}), 1, 6).Draw(t, "msgs")
	return c
}

func runPayload(e *engine.Env, c plCase) {
	fab := NewFabric(c.Bus)
	ms := []Method{{Name: "Do"}, {Name: "Each", Multi: true}, {Name: "St"}, {Name: "Up"}}
	type V = *structpb.Value
	s := server.NewRPCServer(define("Svc", "srv", ms...), fab.Bus())
	echo := func(_ context.Context, v V) (V, error) { return v, nil }
	must(e, server.RegisterHandler(s, "Do", nil, echo, nil), "register")
	must(e, server.RegisterHandler(s, "Each", nil, echo, nil), "register")
	must(e, server.RegisterStreamHandler(s, "St", nil, func(st psrpc.ServerStream[V, V]) error {
		for v := range st.Channel() {
			if err := st.Send(v); err != nil {
				e.Failf("stream: sending back failed: %v", err)
			}
		}
		return nil
	}, nil), "register stream")
	cl, err := client.NewRPCClientWithStreams(define("Svc", "cli", ms...), fab.Bus())
	must(e, err, "client")
	sub, err := client.Join[V](context.Background(), cl, "Up", nil)
	must(e, err, "subscribe")
	defer func() {
		cl.Close()
		s.Close(true)
		_ = sub.Close()
		go bus.Drain[V](sub)
		time.Sleep(time.Minute)
		fab.Close()
		time.Sleep(time.Minute)
	}()
	time.Sleep(time.Second)
	st, err := client.OpenStream[V, V](context.Background(), cl, "St", nil)
	must(e, err, "open a stream")
	show := func(v proto.Message) string {
		x := fmt.Sprint(v)
		if len(x) > 80 {
			x = x[:80] + "…"
		}
		return fmt.Sprintf("%d bytes: %s", proto.Size(v), x)
	}
	get := func(what string, ch <-chan V, want V) {
		select {
		case v, ok := <-ch:
			if !ok || !proto.Equal(v, want) {
				e.Failf("%s: sent %s, received %s", what, show(want), show(v))
			}
		case <-time.After(10 * time.Second):
			e.Failf("%s: sent %s, received nothing", what, show(want))
		}
	}
	big := false
	for _, m := range c.Msgs {
		v := m.build()
		big = big || m.Depth > 40 || proto.Size(v) > 1<<16
		res, err := client.RequestSingle[V](context.Background(), cl, "Do", nil, v)
		if err != nil || !proto.Equal(res, v) {
			e.Failf("call: sent %s, received %s, %v", show(v), show(res), err)
		}
		if err := s.Publish(context.Background(), "Up", nil, v); err != nil {
			e.Failf("publishing %s failed: %v", show(v), err)
		}
		get("subscription", sub.Channel(), v)
		rs, err := client.RequestMulti[V](context.Background(), cl, "Each", nil, v)
		if err != nil {
			e.Failf("multi call with %s failed: %v", show(v), err)
		} else if r := <-rs; r == nil || r.Err != nil || !proto.Equal(r.Result, v) {
			e.Failf("multi call: sent %s, received %v", show(v), r != nil && r.Err == nil)
		}
		if err := st.Send(v); err != nil {
			e.Failf("stream: sending %s failed: %v", show(v), err)
		}
		get("stream", st.Channel(), v)
	}
	time.Sleep(msd(1)) // the last acknowledgement is still on its way
	_ = st.Close(nil)
	if big {
		e.NonTrivial()
	}
	e.Class("bus: %s", c.Bus)
}

func init() {
	engine.Add("C19", "payload", "a message nested more than 40 levels deep or larger than 64 KiB", 300, 5000, genPayload, runPayload)
}
