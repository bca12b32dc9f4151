package checks

import (
	"context"
	"fmt"
	"sync"
	"time"
	"unicode/utf8"

	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/known/wrapperspb"
	"pgregory.net/rapid"

	"github.com/livekit/psrpc"
	"github.com/livekit/psrpc/pkg/client"
	"github.com/livekit/psrpc/pkg/server"
	"github.com/livekit/psrpc/verif/engine"
)

// Clients and servers which do not agree on the types of messages: what one
// holds for bytes another holds for text, and cannot decode when it is none.

type c19vServer struct {
	In, Out string // text bytes
	Aff     int
	Backs   []string // by call
}

type c19vCall struct {
	At      int
	How     string // claim queue affinity multi
	In, Out string
	Text    string
	Work    int
	Timeout int
}

type c19vCase struct {
	Bus     string
	Servers []c19vServer
	Calls   []c19vCall
}

func genC19v(t *rapid.T) c19vCase {
	kind := rapid.SampledFrom([]string{"text", "bytes"})
	text := rapid.SampledFrom([]string{"", "a", "é€", "\xff", "a\xc3", "\xed\xa0\x80"})
	c := c19vCase{Bus: genBus(t, 3)}
	for range rapid.IntRange(1, 5).Draw(t, "calls") {
		x := c19vCall{
			At:      rapid.SampledFrom([]int{0, 0, 5, 300}).Draw(t, "at"),
			How:     rapid.SampledFrom([]string{"claim", "queue", "affinity", "multi"}).Draw(t, "how"),
			In:      kind.Draw(t, "in"),
			Out:     kind.Draw(t, "out"),
			Text:    text.Draw(t, "request"),
			Work:    rapid.SampledFrom([]int{0, 0, 20}).Draw(t, "work"),
			Timeout: rapid.SampledFrom([]int{0, 0, 605}).Draw(t, "timeout"),
		}
		if !utf8.ValidString(x.Text) {
			x.In = "bytes" // the rest is the subject of another part
		}
		c.Calls = append(c.Calls, x)
	}
	for range rapid.IntRange(1, 4).Draw(t, "servers") {
		s := c19vServer{In: kind.Draw(t, "in"), Out: kind.Draw(t, "out"), Aff: rapid.SampledFrom([]int{-1, 1, 2, 3}).Draw(t, "affinity")}
		for range c.Calls {
			s.Backs = append(s.Backs, text.Draw(t, "response"))
		}
		c.Servers = append(c.Servers, s)
	}
	return c
}

func c19vText(m proto.Message) string {
	switch v := m.(type) {
	case *wrapperspb.StringValue:
		return v.GetValue()
	case *wrapperspb.BytesValue:
		return string(v.GetValue())
	}
	return "?"
}

func c19vMake[M proto.Message](s string) M {
	var m M
	switch any(m).(type) {
	case *wrapperspb.StringValue:
		return proto.Message(wrapperspb.String(s)).(M)
	default:
		return proto.Message(wrapperspb.Bytes([]byte(s))).(M)
	}
}

func c19vRegister[I, O proto.Message](e *engine.Env, s *server.RPCServer, h func(m string, q string) string, aff func() float32) {
	for _, m := range []string{"Do", "Q", "Aff", "All"} {
		var a func(context.Context, I) float32
		if m == "Aff" {
			a = func(context.Context, I) float32 { return aff() }
		}
		must(e, server.RegisterHandler(s, m, nil, func(_ context.Context, q I) (O, error) {
			return c19vMake[O](h(m, c19vText(q))), nil
		}, a), "register")
	}
}

func c19vSingle[O proto.Message](ctx context.Context, cl *client.RPCClient, m string, q proto.Message, o ...psrpc.RequestOption) (string, error) {
	v, err := client.RequestSingle[O](ctx, cl, m, nil, q, o...)
	return c19vText(v), err
}

func c19vMulti[O proto.Message](ctx context.Context, cl *client.RPCClient, q proto.Message, o ...psrpc.RequestOption) (func() (string, error, bool), error) {
	ch, err := client.RequestMulti[O](ctx, cl, "All", nil, q, o...)
	return func() (string, error, bool) {
		r, ok := <-ch
		if !ok {
			return "", nil, false
		}
		return c19vText(r.Result), r.Err, true
	}, err
}

func runC19v(e *engine.Env, c c19vCase) {
	fab := NewFabric(c.Bus)
	methods := []Method{{Name: "Do", Claim: true}, {Name: "Q", Queue: true}, {Name: "Aff", Claim: true, Affinity: true}, {Name: "All", Multi: true}}
	var mu sync.Mutex
	cur := 0
	var ran []string
	var servers []*server.RPCServer
	for si, x := range c.Servers {
		s := server.NewRPCServer(define("Svc", fmt.Sprint("srv", si), methods...), fab.Bus())
		servers = append(servers, s)
		h := func(m, q string) string {
			mu.Lock()
			k := cur
			ran = append(ran, fmt.Sprintf("%d got %q", si, q))
			mu.Unlock()
			time.Sleep(msd(c.Calls[k].Work))
			return x.Backs[k]
		}
		aff := func() float32 { return float32(x.Aff) }
		switch x.In + x.Out {
		case "texttext":
			c19vRegister[*wrapperspb.StringValue, *wrapperspb.StringValue](e, s, h, aff)
		case "textbytes":
			c19vRegister[*wrapperspb.StringValue, *wrapperspb.BytesValue](e, s, h, aff)
		case "bytestext":
			c19vRegister[*wrapperspb.BytesValue, *wrapperspb.StringValue](e, s, h, aff)
		default:
			c19vRegister[*wrapperspb.BytesValue, *wrapperspb.BytesValue](e, s, h, aff)
		}
	}
	cl, err := client.NewRPCClient(define("Svc", "cli", methods...), fab.Bus())
	must(e, err, "new client")
	time.Sleep(time.Second)

	mixed := false
	for k, x := range c.Calls {
		time.Sleep(msd(x.At))
		mu.Lock()
		cur, ran = k, nil
		mu.Unlock()
		accepts := func(si int) bool { return c.Servers[si].In == "bytes" || utf8.ValidString(x.Text) }
		outcome := func(si int) string {
			s := c.Servers[si]
			switch {
			case !accepts(si):
				return "error " + string(psrpc.MalformedRequest)
			case !utf8.ValidString(s.Backs[k]) && (s.Out == "text" || x.Out == "text"):
				return "error " + string(psrpc.MalformedResponse)
			}
			return fmt.Sprintf("%q", s.Backs[k])
		}
		show := func(v string, err error) string {
			if err != nil {
				return "error " + string(code(err))
			}
			return fmt.Sprintf("%q", v)
		}
		yes, no := 0, 0
		for si := range c.Servers {
			if accepts(si) {
				yes++
			} else {
				no++
			}
		}
		if no > 0 {
			mixed = true
		}
		q := c19vMake[proto.Message](x.Text)
		if x.In == "text" {
			q = wrapperspb.String(x.Text)
		}
		var o []psrpc.RequestOption
		selection, end := 1000, 3000
		if x.Timeout > 0 {
			o = append(o, psrpc.WithRequestTimeout(msd(x.Timeout)))
			selection, end = min(selection, x.Timeout), x.Timeout
		}
		single, multi := c19vSingle[*wrapperspb.BytesValue], c19vMulti[*wrapperspb.BytesValue]
		if x.Out == "text" {
			single, multi = c19vSingle[*wrapperspb.StringValue], c19vMulti[*wrapperspb.StringValue]
		}
		start := time.Now()
		want := map[string]bool{} // acceptable answers
		var wantRuns []string     // acceptable executions, "" for none
		took := x.Work
		runs := func(si int) string { return fmt.Sprintf("%d got %q", si, x.Text) }
		add := func(si int) {
			want[outcome(si)] = true
			if accepts(si) {
				wantRuns = append(wantRuns, runs(si))
			} else {
				wantRuns = append(wantRuns, "")
			}
		}
		switch x.How {
		case "claim", "affinity":
			best := -1
			for si, s := range c.Servers {
				if accepts(si) && (x.How == "claim" || s.Aff > 0) {
					if x.How == "claim" {
						add(si)
					} else if best < 0 || s.Aff > c.Servers[best].Aff {
						best = si
					}
				}
			}
			if best >= 0 {
				for si, s := range c.Servers {
					if accepts(si) && s.Aff == c.Servers[best].Aff {
						add(si) // one of several that claim alike
					}
				}
				took += 200
			}
			if len(want) == 0 {
				took = selection
				if no > 0 {
					want["error "+string(psrpc.MalformedRequest)] = true
				} else {
					want["error "+string(code(psrpc.ErrNoResponse))] = true
				}
				wantRuns = []string{""}
			}
		case "queue":
			took = -1
			for si := range c.Servers {
				add(si)
			}
		}
		if x.How != "multi" {
			v, err := single(context.Background(), cl, map[string]string{"claim": "Do", "queue": "Q", "affinity": "Aff"}[x.How], q, o...)
			got, d := show(v, err), time.Since(start)
			if !want[got] {
				e.Failf("call %d (%s) gives %s (%v), want one of %v", k, x.How, got, err, want)
			}
			if took >= 0 && d != msd(took) || took < 0 && d != 0 && d != msd(x.Work) {
				e.Failf("call %d (%s) took %v, want %v", k, x.How, d, msd(took))
			}
			time.Sleep(100 * time.Millisecond)
			mu.Lock()
			all := ""
			for _, r := range ran {
				all += r
			}
			mu.Unlock()
			ok := false
			for _, r := range wantRuns {
				ok = ok || r == all
			}
			if !ok {
				e.Failf("call %d (%s): %q, want one of %q", k, x.How, all, wantRuns)
			}
		} else {
			next, err := multi(context.Background(), cl, q, o...)
			if err != nil {
				e.Fatalf("call %d: %v", k, err)
			}
			var got, wants, wr []string
			for si := range c.Servers {
				wants = append(wants, outcome(si))
				if accepts(si) {
					wr = append(wr, runs(si))
				}
			}
			for {
				v, err, ok := next()
				if !ok {
					break
				}
				got = append(got, show(v, err))
			}
			c18Same(e, fmt.Sprintf("call %d: results", k), got, wants)
			mu.Lock()
			c18Same(e, fmt.Sprintf("call %d: executions", k), append([]string(nil), ran...), wr)
			mu.Unlock()
			if d := time.Since(start); d != msd(end) {
				e.Failf("call %d took %v, want %v", k, d, msd(end))
			}
		}
		e.Class("%s: %t %t", x.How, yes > 0, no > 0)
	}
	if mixed {
		e.NonTrivial()
	}
	cl.Close()
	for _, s := range servers {
		s.Close(false)
	}
	time.Sleep(time.Second)
	fab.Close()
}

func init() {
	engine.Add("C19", "versions", "a server cannot decode a request", 800, 15000, genC19v, runC19v)
}
