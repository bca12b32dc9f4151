package checks

import (
	"context"
	"errors"
	"fmt"
	"maps"
	"strings"
	"sync"
	"time"

	"go.opentelemetry.io/otel/trace"
	"go.opentelemetry.io/otel/trace/noop"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/known/durationpb"
	"google.golang.org/protobuf/types/known/wrapperspb"
	"pgregory.net/rapid"

	"github.com/livekit/psrpc"
	"github.com/livekit/psrpc/pkg/client"
	"github.com/livekit/psrpc/pkg/metadata"
	"github.com/livekit/psrpc/pkg/middleware"
	"github.com/livekit/psrpc/pkg/middleware/otelpsrpc"
	"github.com/livekit/psrpc/pkg/server"
	"github.com/livekit/psrpc/verif/engine"
)

// Here goroutines use everything at once, with as little as possible of the check's
// own to synchronise them: nothing is recorded except by the goroutine it concerns.
// The binary is built with the race detector for it, whose reports check.py judges;
// what the part says itself is about values that are shared or change hands.

var c26Methods = []Method{{Name: "Do"}, {Name: "Qu", Queue: true}, {Name: "Cl", Claim: true}, {Name: "All", Multi: true},
	{Name: "St"}, {Name: "CSt", Claim: true}, {Name: "Sub", Multi: true}, {Name: "Err", Queue: true}, {Name: "Tmp"}, {Name: "TmpSt"}}

type c26Op struct {
	Do    string // call multi stream sub reg regst err meta new
	M     string
	N     int // how many messages, subscribers, ...
	Gap   int // waits so long before, ms
	Hold  int // what the handler takes, ms
	Own   bool
	Topic int
}

type c26Case struct {
	Bus     string
	Servers int
	Clients int
	Mw      bool
	Pass    int // further interceptors, with Mw
	Size    int // of the buffers; 0: as usual
	End     string
	EndMs   int
	Workers [][]c26Op
}

func genC26(t *rapid.T) c26Case {
	c := c26Case{
		Bus:     genBus(t, 6),
		Servers: rapid.IntRange(1, 2).Draw(t, "servers"),
		Clients: rapid.IntRange(1, 2).Draw(t, "clients"),
		Mw:      rapid.Bool().Draw(t, "mw"),
		End:     rapid.SampledFrom([]string{"", "", "server", "force", "client", "both"}).Draw(t, "end"),
	}
	c.Pass = rapid.IntRange(0, 3).Draw(t, "pass")
	if rapid.IntRange(0, 3).Draw(t, "small") == 0 {
		c.Size = rapid.SampledFrom([]int{20, 40}).Draw(t, "size")
	}
	if c.End != "" {
		c.EndMs = rapid.IntRange(0, 4).Draw(t, "end ms")
	}
	op := rapid.Custom(func(t *rapid.T) c26Op {
		o := c26Op{
			Do: rapid.SampledFrom([]string{"call", "call", "call", "multi", "stream", "stream", "sub", "reg", "regst", "err", "meta", "new"}).Draw(t, "do"),
			N:  rapid.IntRange(1, 3).Draw(t, "n"),
		}
		o.Gap = rapid.SampledFrom([]int{0, 0, 0, 1, 2}).Draw(t, "gap")
		o.Hold = rapid.SampledFrom([]int{0, 0, 0, 1, 2}).Draw(t, "hold")
		o.Own = rapid.Bool().Draw(t, "own")
		o.Topic = rapid.IntRange(0, 1).Draw(t, "topic")
		switch o.Do {
		case "call":
			o.M = rapid.SampledFrom([]string{"Do", "Qu", "Cl"}).Draw(t, "m")
		case "stream":
			o.M = rapid.SampledFrom([]string{"St", "CSt"}).Draw(t, "m")
		}
		return o
	})
	c.Workers = rapid.SliceOfN(rapid.SliceOfN(op, 1, 4), 2, 6).Draw(t, "workers")
	return c
}

// c26Use changes a value that was handed out for good, as its owner may. Whoever
// else still reads or writes it is at fault.
//
//go:noinline
func c26Use(m Str, with string) string {
	if m == nil {
		return ""
	}
	was := m.Value
	m.Value = with
	return was
}

//go:noinline
func c26UseMap(m map[string]string, with string) {
	if m != nil {
		m["used"] = with
	}
}

type c26Obs struct{}

func (c26Obs) OnUnaryRequest(middleware.MetricRole, psrpc.RPCInfo, time.Duration, error, int, int) {
}
func (c26Obs) OnMultiRequest(middleware.MetricRole, psrpc.RPCInfo, time.Duration, int, int, int, int) {
}
func (c26Obs) OnStreamSend(middleware.MetricRole, psrpc.RPCInfo, time.Duration, error, int) {}
func (c26Obs) OnStreamRecv(middleware.MetricRole, psrpc.RPCInfo, error, int)                {}
func (c26Obs) OnStreamOpen(middleware.MetricRole, psrpc.RPCInfo)                            {}
func (c26Obs) OnStreamClose(middleware.MetricRole, psrpc.RPCInfo)                           {}

func runC26(e *engine.Env, c c26Case) {
	f := NewFabric(c.Bus)
	defer f.Close()

	topics := [][]string{{"one"}, {"two", "parts"}}
	sharedMD := metadata.Metadata{"shared": "yes", "lang": "C"}
	sharedErr := psrpc.NewError(psrpc.ResourceExhausted, errors.New("shared"), durationpb.New(time.Second), wrapperspb.String("d"))
	sharedRes := S("shared response")
	sharedReq := S("shared request")
	ended := c.End != ""

	var sopts []psrpc.ServerOption
	copts := make([]psrpc.ClientOption, 0, 16)
	copts = append(copts, psrpc.WithClientTimeout(3*time.Second))
	if c.Mw {
		otc := otelpsrpc.Config{TracerProvider: trace.TracerProvider(noop.NewTracerProvider())}
		sopts = append(sopts, middleware.WithServerMetrics(c26Obs{}), otelpsrpc.ServerOptions(otc),
			psrpc.WithServerRPCInterceptors(middleware.WithServerRecovery()))
		ro := middleware.RetryOptions{MaxAttempts: 2, Timeout: time.Second, Backoff: time.Millisecond}
		pass := func(_ psrpc.RPCInfo, next psrpc.ClientRPCHandler) psrpc.ClientRPCHandler { return next }
		for range c.Pass {
			copts = append(copts, psrpc.WithClientRPCInterceptors(pass))
		}
		copts = append(copts, middleware.WithClientMetrics(c26Obs{}), otelpsrpc.ClientOptions(otc),
			middleware.WithRPCRetries(ro), middleware.WithStreamRetries(ro),
			psrpc.WithClientRequestHooks(func(context.Context, proto.Message, psrpc.RPCInfo) {}),
			psrpc.WithClientResponseHooks(func(context.Context, proto.Message, psrpc.RPCInfo, proto.Message, error) {}))
	}

	// the handlers
	hold := func(v string) {
		if i := strings.Index(v, "hold="); i >= 0 {
			time.Sleep(msd(int(v[i+5] - '0')))
		}
	}
	md := func(ctx context.Context) string {
		h := metadata.IncomingHeader(ctx)
		if h == nil {
			return "no header"
		}
		s := h.Metadata["shared"] + h.Metadata["lang"] + "/" + h.Metadata["who"]
		c26UseMap(h.Metadata, "by the handler")
		if _, ok := h.Metadata["used"]; !ok {
			s += "?"
		}
		if h2 := metadata.IncomingHeader(ctx); h2.Metadata["used"] != "" {
			s += " (used by another)"
		}
		return s
	}
	echo := func(ctx context.Context, r Str) (Str, error) {
		hold(r.Value)
		v := c26Use(r, "used by the handler")
		return S(v + "|" + md(ctx)), nil
	}
	same := func(ctx context.Context, r Str) (Str, error) {
		hold(r.Value)
		return sharedRes, nil
	}
	fail := func(ctx context.Context, r Str) (Str, error) {
		hold(r.Value)
		return nil, sharedErr
	}
	var serve func(st psrpc.ServerStream[Str, Str]) error
	str := func(st psrpc.ServerStream[Str, Str]) error {
		if metadata.IncomingHeader(st.Context()).Metadata["hijack"] != "" {
			st.Hijack()
			go st.Hijack()
			go func() { _ = serve(st) }()
			return nil
		}
		return serve(st)
	}
	serve = func(st psrpc.ServerStream[Str, Str]) error {
		for m := range st.Channel() {
			v := c26Use(m, "used by the stream handler")
			if err := st.Send(S(v + "|" + md(st.Context()))); err != nil {
				return nil
			}
		}
		return nil
	}
	aff := func(context.Context, Str) float32 { return 1 }

	type srv struct {
		s *server.RPCServer
	}
	var servers []srv
	var clients []*client.RPCClient
	if c.Size > 0 {
		copts = append(copts, psrpc.WithClientChannelSize(c.Size))
		sopts = append(sopts, psrpc.WithServerChannelSize(c.Size))
	}
	b := f.Bus()
	for i := range c.Servers {
		s := server.NewRPCServer(define("Svc", fmt.Sprintf("s%d", i), c26Methods...), b, sopts...)
		for _, tp := range topics {
			for _, m := range []string{"Do", "Cl"} {
				if m == "Do" && i > 0 {
					continue // has one server only
				}
				var a server.AffinityFunc[Str]
				if m == "Cl" {
					a = aff
				}
				must(e, server.RegisterHandler(s, m, tp, echo, a), "register")
			}
			must(e, server.RegisterHandler(s, "Qu", tp, same, nil), "register")
			must(e, server.RegisterHandler(s, "Err", tp, fail, nil), "register")
			must(e, server.RegisterHandler(s, "All", tp, echo, nil), "register")
			must(e, server.RegisterStreamHandler[Str, Str](s, "CSt", tp, str, nil), "register")
			if i == 0 {
				must(e, server.RegisterStreamHandler[Str, Str](s, "St", tp, str, nil), "register")
			}
		}
		servers = append(servers, srv{s})
	}
	for i := range c.Clients {
		cl, err := client.NewRPCClientWithStreams(define("Svc", fmt.Sprintf("c%d", i), c26Methods...), b, copts...)
		must(e, err, "client")
		clients = append(clients, cl)
	}
	Settle()

	base := metadata.NewContextWithOutgoingMetadata(context.Background(), sharedMD)
	// with room at the end, into which nobody else may write
	opts := make([]psrpc.RequestOption, 1, 6)
	opts[0] = psrpc.WithRequestTimeout(2 * time.Second)

	gate := make(chan struct{})
	var wg sync.WaitGroup
	spawn := func(g *sync.WaitGroup, fn func()) {
		g.Add(1)
		go func() {
			defer g.Done()
			fn()
		}()
	}
	for w, ops := range c.Workers {
		spawn(&wg, func() {
			<-gate
			who := fmt.Sprintf("w%d", w)
			for k, o := range ops {
				time.Sleep(msd(o.Gap))
				cl := clients[(w+k)%len(clients)]
				s := servers[w%len(servers)].s
				tp := topics[o.Topic]
				ctx := base
				if o.Own {
					ctx = metadata.AppendMetadataToOutgoingContext(ctx, "who", who)
				}
				wantMD := "yesC/"
				if o.Own {
					wantMD += who
				}
				val := fmt.Sprintf("%s-%d hold=%d", who, k, o.Hold)
				switch o.Do {
				case "call":
					req := S(val)
					if o.N == 3 {
						req = sharedReq
					}
					v := req.Value
					mine := opts
					passed := 0 // through an interceptor of this call only
					if o.Own {
						mine = append(opts[:1:1], psrpc.WithRequestInterceptors(psrpc.ClientRPCInterceptor(
							func(_ psrpc.RPCInfo, next psrpc.ClientRPCHandler) psrpc.ClientRPCHandler {
								return func(ctx context.Context, r proto.Message, opts ...psrpc.RequestOption) (proto.Message, error) {
									passed++
									return next(ctx, r, opts...)
								}
							})))
					}
					res, err := client.RequestSingle[Str](ctx, cl, o.M, tp, req, mine...)
					if o.Own && (passed == 0 || passed > 2) && !ended {
						e.Failf("%s: call %d went through its own interceptor %d times", who, k, passed)
					}
					if err != nil {
						if !ended {
							e.Failf("%s: call %d of %s failed: %v", who, k, o.M, err)
						}
						continue
					}
					got := c26Use(res, "used by the caller")
					want := v + "|" + wantMD
					if o.M == "Qu" {
						want = "shared response"
					}
					if got != want {
						e.Failf("%s: call %d of %s returned %q, not %q", who, k, o.M, got, want)
					}
					if o.N < 3 {
						c26Use(req, "used again by the caller")
					}
				case "multi":
					ch, err := client.RequestMulti[Str](ctx, cl, "All", tp, S(val), append(opts[:1:1], psrpc.WithRequestTimeout(msd(20)))...)
					if err != nil {
						if !ended {
							e.Failf("%s: multi call failed: %v", who, err)
						}
						continue
					}
					n := 0
					for r := range ch {
						if r.Err != nil {
							if !ended {
								e.Failf("%s: a multi call's result is %v", who, r.Err)
							}
							continue
						}
						n++
						if got := c26Use(r.Result, "used by the caller"); got != val+"|"+wantMD {
							e.Failf("%s: a result of a multi call is %q, not %q", who, got, val+"|"+wantMD)
						}
					}
					if n != c.Servers && !ended {
						e.Failf("%s: multi call got %d results from %d servers", who, n, c.Servers)
					}
				case "err":
					_, err := client.RequestSingle[Str](ctx, cl, "Err", tp, S(val), opts...)
					var pe psrpc.Error
					if errors.As(err, &pe) && pe.Code() == psrpc.ResourceExhausted {
						if len(pe.DetailsProto()) != 2 || pe.Error() != "shared" {
							e.Failf("%s: the shared error arrived as %v %v", who, pe, pe.Details())
						}
					} else if !ended {
						e.Failf("%s: the shared error arrived as %v", who, err)
					}
					// and of the shared one itself
					if d := sharedErr.Details(); len(d) != 2 || sharedErr.GRPCStatus().Message() != "shared" || sharedErr.ToHttp() != 429 {
						e.Failf("%s: the shared error has become %v %v", who, sharedErr, d)
					}
					_ = psrpc.NewError(psrpc.Internal, sharedErr, wrapperspb.String("more"))
				case "meta":
					m := metadata.OutgoingContextMetadata(ctx)
					c26UseMap(m, who)
					c2 := metadata.WithOutgoingMetadata(ctx, metadata.Metadata{"more": who})
					c3 := metadata.AppendMetadataToOutgoingContext(c2, "x", who, "shared", "no")
					if o := metadata.OutgoingContextMetadata(c3); o["more"] != who || o["x"] != who || o["shared"] != "no" || o["used"] != "" {
						e.Failf("%s: metadata is %v", who, o)
					}
				case "stream":
					if o.N == 3 {
						ctx = metadata.AppendMetadataToOutgoingContext(ctx, "hijack", "yes")
					}
					st, err := client.OpenStream[Str, Str](ctx, cl, o.M, tp, opts...)
					if err != nil {
						if !ended {
							e.Failf("%s: opening a stream failed: %v", who, err)
						}
						continue
					}
					var g sync.WaitGroup
					for j := range o.N {
						spawn(&g, func() {
							for x := range 2 {
								m := S(fmt.Sprintf("%s.%d.%d", val, j, x))
								if err := st.Send(m); err != nil && !ended {
									e.Failf("%s: send failed: %v", who, err)
								}
								c26Use(m, "used again by the sender")
							}
							_ = st.Err()
							_ = st.Context().Err()
						})
					}
					n := 0
					tm := time.NewTimer(10 * time.Second)
					for n < 2*o.N {
						select {
						case m, ok := <-st.Channel():
							if !ok {
								if !ended {
									e.Failf("%s: a stream ended early: %v", who, st.Err())
								}
								n = 2 * o.N
								break
							}
							if got := c26Use(m, "used by the receiver"); !strings.HasPrefix(got, val) || !strings.HasSuffix(got, "|"+wantMD) {
								e.Failf("%s: a stream delivered %q to %q", who, got, val)
							}
							n++
						case <-tm.C:
							if !ended {
								e.Failf("%s: a stream delivered only %d of %d", who, n, 2*o.N)
							}
							n = 2 * o.N
						}
					}
					tm.Stop()
					for range o.N {
						spawn(&g, func() { _ = st.Close(nil) })
					}
					g.Wait()
				case "sub":
					var g sync.WaitGroup
					for j := range o.N {
						spawn(&g, func() {
							join := client.Join[Str]
							if o.Own && j > 0 && f.Kind != "nats" { // see the known findings
								join = client.JoinQueue[Str]
							}
							sub, err := join(context.Background(), cl, "Sub", tp)
							if err != nil {
								if !ended {
									e.Failf("%s: join failed: %v", who, err)
								}
								return
							}
							time.Sleep(msd(o.Hold))
							_ = s.Publish(context.Background(), "Sub", tp, sharedRes)
							time.Sleep(msd(o.Hold + 1))
							for range 2 {
								select {
								case m, ok := <-sub.Channel():
									if ok {
										if got := c26Use(m, who); got != "shared response" {
											e.Failf("%s: a subscription delivered %q", who, got)
										}
									}
								default:
								}
							}
							var h sync.WaitGroup
							for range 2 {
								spawn(&h, func() { _ = sub.Close() })
							}
							h.Wait()
						})
					}
					g.Wait()
				case "reg", "regst":
					var g sync.WaitGroup
					own := []string{"tmp"}
					if o.Own {
						own = []string{"tmp", who}
					}
					for j := range o.N {
						spawn(&g, func() {
							m, own, val := "Tmp", own, who
							var err error
							if o.Do == "regst" {
								// not the same one twice: who deregisters it second waits for the first, on
								// a lock, and meanwhile the fake clock would stand still
								own = []string{"tmp", who, fmt.Sprint(j)}
								m = "TmpSt"
								err = server.RegisterStreamHandler[Str, Str](s, m, own, str, nil)
							} else {
								err = server.RegisterHandler(s, m, own, echo, nil)
							}
							_ = err // another goroutine's may be there
							if o.Do == "reg" {
								_, _ = client.RequestSingle[Str](ctx, cl, m, own, S(val), psrpc.WithRequestTimeout(msd(3)))
							} else if st, err := client.OpenStream[Str, Str](ctx, cl, m, own, psrpc.WithRequestTimeout(msd(3))); err == nil {
								_ = st.Send(S(val), psrpc.WithTimeout(msd(2)))
								_ = st.Close(nil)
							}
							if o.Do == "reg" || !ended {
								s.DeregisterHandler(m, own)
							}
						})
					}
					g.Wait()
				case "new":
					sd := cl.ServiceDefinition
					c2, err := client.NewRPCClientWithStreams(sd, b, copts...)
					if err != nil {
						e.Failf("%s: new client: %v", who, err)
						continue
					}
					_, _ = client.RequestSingle[Str](ctx, c2, "Qu", tp, sharedReq, opts...)
					s2 := server.NewRPCServer(s.ServiceDefinition, b, sopts...)
					_ = s2.Publish(ctx, "Sub", tp, sharedRes)
					s2.Close(true)
					c2.Close()
				}
			}
		})
	}
	if ended {
		spawn(&wg, func() {
			<-gate
			time.Sleep(msd(c.EndMs))
			if c.End == "client" || c.End == "both" {
				for _, cl := range clients {
					go cl.Close()
					cl.Close()
				}
			}
			if c.End != "client" {
				for _, s := range servers {
					s.s.Close(c.End != "server")
				}
			}
		})
	}
	if len(c.Workers) > 1 {
		e.NonTrivial()
	}
	kinds := map[string]bool{}
	for _, ops := range c.Workers {
		for _, o := range ops {
			kinds[o.Do+" "+o.M] = true
		}
	}
	for k := range kinds {
		e.Class("op %s", k)
	}
	e.Class("bus %s", f.Kind)
	e.Class("end %s", c.End)

	done := make(chan struct{})
	go func() {
		wg.Wait()
		close(done)
	}()
	close(gate)
	select {
	case <-done:
	case <-time.After(20 * time.Minute):
		e.Fatalf("the goroutines had not ended after twenty minutes")
	}
	for _, cl := range clients {
		cl.Close()
	}
	for _, s := range servers {
		s.s.Close(true)
	}
	time.Sleep(time.Minute)
	e.Sync()

	if !maps.Equal(sharedMD, metadata.Metadata{"shared": "yes", "lang": "C"}) {
		e.Failf("the shared metadata has become %v", sharedMD)
	}
	if sharedReq.Value != "shared request" || sharedRes.Value != "shared response" {
		e.Failf("shared messages have become %v, %v", sharedReq, sharedRes)
	}
	for _, o := range opts[:cap(opts)][len(opts):] {
		if o != nil {
			e.Failf("something was written behind the end of the caller's request options")
		}
	}
	for _, o := range copts[:cap(copts)][len(copts):] {
		if o != nil {
			e.Failf("something was written behind the end of the caller's client options")
		}
	}
	if len(sharedErr.DetailsProto()) != 2 {
		e.Failf("the shared error has become %v", sharedErr.DetailsProto())
	}
}

func init() {
	engine.Add("C26", "shared", "at least two goroutines use the same clients and servers at once", 1200, 12000, genC26, runC26)
}
