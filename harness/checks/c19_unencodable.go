package checks

import (
	"context"
	"fmt"
	"strings"
	"sync"
	"time"
	"unicode/utf8"

	"google.golang.org/protobuf/proto"
	"pgregory.net/rapid"

	"github.com/livekit/psrpc"
	"github.com/livekit/psrpc/pkg/client"
	"github.com/livekit/psrpc/pkg/metadata"
	"github.com/livekit/psrpc/pkg/server"
	"github.com/livekit/psrpc/testutils"
	"github.com/livekit/psrpc/verif/engine"
)

// Messages that cannot be encoded (strings which are not valid UTF-8), among others that can.

type c19uSend struct {
	Text string // what is sent
	Back string // what the receiver answers with
}

type c19uStep struct {
	How  string // single multi stream update
	At   int
	Text string   // of the request
	MD   string   // of a metadata value
	Outs []string // what each server answers
	Msgs []c19uSend
	Work int
}

type c19uCase struct {
	Bus     string
	Servers int
	Claim   bool
	Through bool // interceptors that pass everything on
	Steps   []c19uStep
}

var c19uBad = []string{"\xff", "a\xc3", "\xed\xa0\x80", "ok\x80ok", "\xc0\xaf", "\xf4\x90\x80\x80", "é\xe2\x82"}

func genC19u(t *rapid.T) c19uCase {
	text := func(label string, odds int) string {
		if rapid.IntRange(0, odds).Draw(t, label+" bad") == 0 {
			return rapid.SampledFrom(c19uBad).Draw(t, label)
		}
		return rapid.SampledFrom([]string{"", "a", "é€𝄞", "\uFFFD", strings.Repeat("b", 2000)}).Draw(t, label)
	}
	c := c19uCase{
		Bus:     genBus(t, 3),
		Servers: rapid.IntRange(1, 3).Draw(t, "servers"),
		Claim:   rapid.Bool().Draw(t, "claim"),
		Through: rapid.Bool().Draw(t, "through"),
	}
	for range rapid.IntRange(1, 6).Draw(t, "n") {
		x := c19uStep{
			How:  rapid.SampledFrom([]string{"single", "multi", "stream", "update"}).Draw(t, "how"),
			At:   rapid.SampledFrom([]int{0, 0, 10, 700}).Draw(t, "at"),
			Text: text("request", 2),
			MD:   text("metadata", 5),
			Work: rapid.SampledFrom([]int{0, 0, 30}).Draw(t, "work"),
		}
		for range c.Servers {
			x.Outs = append(x.Outs, text("response", 2))
		}
		if x.How == "stream" {
			for range rapid.IntRange(1, 6).Draw(t, "msgs") {
				x.Msgs = append(x.Msgs, c19uSend{text("msg", 2), text("answer", 2)})
			}
		}
		c.Steps = append(c.Steps, x)
	}
	return c
}

func runC19u(e *engine.Env, c c19uCase) {
	fab := NewFabric(c.Bus)
	var mu sync.Mutex
	sent := map[string]int{} // what the buses accepted, by kind
	wrap := func() psrpc.MessageBus {
		return testutils.NewTestBus(fab.Bus(), testutils.WithPublishInterceptor(func(next testutils.PublishHandler) testutils.PublishHandler {
			return func(ctx context.Context, ch testutils.Channel, m proto.Message) error {
				err := next(ctx, ch, m)
				if err == nil {
					mu.Lock()
					sent[msgKind(m)]++
					mu.Unlock()
				}
				return err
			}
		}))
	}
	methods := []Method{{Name: "Do", Claim: c.Claim, Queue: !c.Claim}, {Name: "All", Multi: true}, {Name: "St", Claim: true}, {Name: "Up", Multi: true}}
	ran := make([]int, len(c.Steps))
	got := make([][]string, len(c.Steps)) // by the stream handlers
	bad := false
	valid := func(s string) bool {
		if !utf8.ValidString(s) {
			bad = true
		}
		return utf8.ValidString(s)
	}
	var servers []*server.RPCServer
	for si := range c.Servers {
		var opts []psrpc.ServerOption
		if c.Through {
			opts = append(opts, psrpc.WithServerRPCInterceptors(func(ctx context.Context, r proto.Message, _ psrpc.RPCInfo, h psrpc.ServerRPCHandler) (proto.Message, error) {
				return h(ctx, r)
			}))
		}
		s := server.NewRPCServer(define("Svc", fmt.Sprint("srv", si), methods...), wrap(), opts...)
		servers = append(servers, s)
		do := func(all bool) func(context.Context, Str) (Str, error) {
			return func(ctx context.Context, q Str) (Str, error) {
				var k int
				_, _ = fmt.Sscanf(q.GetValue(), "%d|", &k)
				mu.Lock()
				ran[k]++
				mu.Unlock()
				x := c.Steps[k]
				time.Sleep(msd(x.Work))
				out := x.Outs[0]
				if all {
					out = x.Outs[si]
				}
				return S(fmt.Sprint(k, "|", out)), nil
			}
		}
		must(e, server.RegisterHandler(s, "Do", nil, do(false), nil), "register")
		must(e, server.RegisterHandler(s, "All", nil, do(true), nil), "register")
		must(e, server.RegisterStreamHandler(s, "St", nil, func(st psrpc.ServerStream[Str, Str]) error {
			k := -1
			n := 0
			for m := range st.Channel() {
				var j int
				_, _ = fmt.Sscanf(m.GetValue(), "%d|%d|", &k, &j)
				mu.Lock()
				got[k] = append(got[k], m.GetValue())
				if n == 0 {
					ran[k]++
				}
				mu.Unlock()
				n++
				back := c.Steps[k].Msgs[j].Back
				start := time.Now()
				err := st.Send(S(fmt.Sprint(k, "|", j, "|", back)))
				if utf8.ValidString(back) {
					if err != nil {
						e.Failf("step %d: sending answer %d failed: %v", k, j, err)
					}
				} else if code(err) != psrpc.MalformedRequest || time.Since(start) > 0 {
					e.Failf("step %d: sending answer %d, which cannot be encoded, gives %v after %v", k, j, err, time.Since(start))
				}
			}
			return nil
		}, nil), "register stream")
	}
	cl, err := client.NewRPCClientWithStreams(define("Svc", "cli", methods...), wrap())
	must(e, err, "new client")
	sub, err := client.Join[Str](context.Background(), cl, "Up", nil)
	must(e, err, "subscribe")
	var updates, wantUpdates []string
	done := make(chan struct{})
	go func() {
		defer close(done)
		for m := range sub.Channel() {
			updates = append(updates, m.GetValue())
		}
	}()
	time.Sleep(time.Second)

	for k, x := range c.Steps {
		time.Sleep(msd(x.At))
		mu.Lock()
		before := sent["REQ"] + sent["OPEN"] + sent["PUB"]
		mu.Unlock()
		start := time.Now()
		text := fmt.Sprint(k, "|", x.Text)
		ctx := context.Background()
		if x.MD != "" {
			ctx = metadata.NewContextWithOutgoingMetadata(ctx, metadata.Metadata{"k": x.MD})
		}
		wantRuns := 0
		// refused checks a call which cannot be sent
		refused := func(err error, code1 psrpc.ErrorCode) {
			if err == nil || code(err) != code1 {
				e.Failf("step %d (%s): a request that cannot be encoded gives %v, want code %s", k, x.How, err, code1)
			}
			if d := time.Since(start); d > 0 {
				e.Failf("step %d (%s): it took %v to refuse a request that cannot be encoded", k, x.How, d)
			}
			time.Sleep(time.Second)
			mu.Lock()
			defer mu.Unlock()
			if n := sent["REQ"] + sent["OPEN"] + sent["PUB"]; n != before {
				e.Failf("step %d (%s): a message was published though it could not be encoded", k, x.How)
			}
		}
		check := func(what string, v Str, err error, out string) {
			want := fmt.Sprint(k, "|", out)
			if valid(out) {
				if err != nil || v.GetValue() != want {
					e.Failf("step %d: %s gives %q %v, want %q", k, what, v.GetValue(), err, want)
				}
			} else if err == nil || code(err) != psrpc.MalformedResponse || v != nil {
				e.Failf("step %d: %s, whose response cannot be encoded, gives %v %v, want code %s", k, what, v, err, psrpc.MalformedResponse)
			}
		}
		switch x.How {
		case "single":
			v, err := client.RequestSingle[Str](ctx, cl, "Do", nil, S(text))
			switch {
			case !valid(text):
				refused(err, psrpc.MalformedRequest)
			case !valid(x.MD):
				refused(err, psrpc.Internal)
			default:
				wantRuns = 1
				check("call", v, err, x.Outs[0])
				if d := time.Since(start); d != msd(x.Work) {
					e.Failf("step %d: the call took %v, its handler %v", k, d, msd(x.Work))
				}
			}
		case "multi":
			ch, err := client.RequestMulti[Str](ctx, cl, "All", nil, S(text))
			switch {
			case !valid(text):
				refused(err, psrpc.MalformedRequest)
			case !valid(x.MD):
				refused(err, psrpc.Internal)
			case err != nil:
				e.Failf("step %d: the multi call failed: %v", k, err)
			default:
				wantRuns = c.Servers
				// which response is whose cannot be told: values first, then errors
				want := map[string]int{}
				for _, o := range x.Outs {
					if valid(o) {
						want[fmt.Sprint(k, "|", o)]++
					} else {
						want[string(psrpc.MalformedResponse)]++
					}
				}
				for r := range ch {
					key := r.Result.GetValue()
					if r.Err != nil {
						key = string(code(r.Err))
					}
					want[key]--
				}
				for key, n := range want {
					if n != 0 {
						e.Failf("step %d: %d more results %q wanted of the multi call than came", k, n, key)
					}
				}
			}
		case "update":
			s := servers[k%len(servers)]
			err := s.Publish(ctx, "Up", nil, S(text))
			if !valid(text) {
				if err == nil {
					e.Failf("step %d: an update that cannot be encoded was published without an error", k)
				}
				time.Sleep(time.Second)
			} else {
				if err != nil {
					e.Failf("step %d: publishing an update failed: %v", k, err)
				}
				wantUpdates = append(wantUpdates, text)
			}
		case "stream":
			st, err := client.OpenStream[Str, Str](ctx, cl, "St", nil)
			if !valid(x.MD) {
				refused(err, psrpc.Internal)
				break
			}
			if err != nil {
				e.Failf("step %d: opening a stream failed: %v", k, err)
				break
			}
			var want, answers, back []string
			stop := make(chan struct{})
			go func() {
				defer close(stop)
				for m := range st.Channel() {
					back = append(back, m.GetValue())
				}
			}()
			for j, m := range x.Msgs {
				t := fmt.Sprint(k, "|", j, "|", m.Text)
				start := time.Now()
				err := st.Send(S(t))
				if !valid(m.Text) {
					if code(err) != psrpc.MalformedRequest || time.Since(start) > 0 {
						e.Failf("step %d: sending message %d, which cannot be encoded, gives %v after %v", k, j, err, time.Since(start))
					}
					continue
				}
				if err != nil {
					e.Failf("step %d: sending message %d failed: %v", k, j, err)
				}
				want = append(want, t)
				if valid(m.Back) {
					answers = append(answers, fmt.Sprint(k, "|", j, "|", m.Back))
				}
			}
			time.Sleep(time.Second)
			if err := st.Err(); err != nil {
				e.Failf("step %d: the stream ended: %v", k, err)
			}
			_ = st.Close(nil)
			<-stop
			time.Sleep(time.Second)
			if len(want) > 0 {
				wantRuns = 1
			}
			mu.Lock()
			if fmt.Sprint(got[k]) != fmt.Sprint(want) {
				e.Failf("step %d: the server received %q, want %q", k, got[k], want)
			}
			mu.Unlock()
			if fmt.Sprint(back) != fmt.Sprint(answers) {
				e.Failf("step %d: the client received %q, want %q", k, back, answers)
			}
		}
		time.Sleep(100 * time.Millisecond)
		mu.Lock()
		if ran[k] != wantRuns {
			e.Failf("step %d (%s): handled %d times, want %d", k, x.How, ran[k], wantRuns)
		}
		mu.Unlock()
	}
	time.Sleep(10 * time.Second)
	_ = sub.Close()
	<-done
	if fmt.Sprint(updates) != fmt.Sprint(wantUpdates) {
		e.Failf("the subscription received %q, want %q", updates, wantUpdates)
	}
	if bad {
		e.NonTrivial()
	}
	e.Class("bus: %s", c.Bus)
	cl.Close()
	for _, s := range servers {
		s.Close(false)
	}
	fab.Close()
}

func init() {
	engine.Add("C19", "unencodable", "a message or metadata that cannot be encoded is sent", 600, 12000, genC19u, runC19u)
}
