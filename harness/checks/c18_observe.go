package checks

import (
	"context"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"reflect"
	"sort"
	"strings"
	"sync"
	"time"

	otelapi "go.opentelemetry.io/otel"
	"go.opentelemetry.io/otel/attribute"
	otelcodes "go.opentelemetry.io/otel/codes"
	"go.opentelemetry.io/otel/propagation"
	"go.opentelemetry.io/otel/trace"
	"go.opentelemetry.io/otel/trace/embedded"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/known/wrapperspb"
	"pgregory.net/rapid"

	"github.com/livekit/psrpc"
	"github.com/livekit/psrpc/internal"
	"github.com/livekit/psrpc/pkg/client"
	"github.com/livekit/psrpc/pkg/metadata"
	"github.com/livekit/psrpc/pkg/middleware"
	"github.com/livekit/psrpc/pkg/middleware/otelpsrpc"
	"github.com/livekit/psrpc/pkg/server"
	"github.com/livekit/psrpc/verif/engine"
)

// ---------------------------------------------------------------- a recording tracer

type c18Span struct {
	embedded.Span
	p      *c18Tracer
	name   string
	kind   trace.SpanKind
	sc     trace.SpanContext
	parent trace.SpanContext
	mu     sync.Mutex
	ended  int
	late   string // what was done to it after its end
	status otelcodes.Code
	desc   string
	errs   int
	attrs  map[attribute.Key]attribute.Value
}

type c18Tracer struct {
	embedded.TracerProvider
	mu    sync.Mutex
	spans []*c18Span
}

type c18TracerImpl struct {
	embedded.Tracer
	p *c18Tracer
}

func (p *c18Tracer) Tracer(string, ...trace.TracerOption) trace.Tracer { return c18TracerImpl{p: p} }

func (t c18TracerImpl) Start(ctx context.Context, name string, opts ...trace.SpanStartOption) (context.Context, trace.Span) {
	return t.p.start(ctx, name, opts...)
}

func (p *c18Tracer) start(ctx context.Context, name string, opts ...trace.SpanStartOption) (context.Context, *c18Span) {
	cfg := trace.NewSpanStartConfig(opts...)
	p.mu.Lock()
	defer p.mu.Unlock()
	s := &c18Span{p: p, name: name, kind: cfg.SpanKind(), parent: trace.SpanContextFromContext(ctx), attrs: map[attribute.Key]attribute.Value{}}
	if cfg.NewRoot() {
		s.parent = trace.SpanContext{}
	}
	var sid trace.SpanID
	binary.BigEndian.PutUint64(sid[:], uint64(len(p.spans)+1))
	tid := s.parent.TraceID()
	if !tid.IsValid() {
		binary.BigEndian.PutUint64(tid[8:], uint64(len(p.spans)+1000))
	}
	s.sc = trace.NewSpanContext(trace.SpanContextConfig{TraceID: tid, SpanID: sid, TraceFlags: trace.FlagsSampled})
	p.spans = append(p.spans, s)
	return trace.ContextWithSpan(ctx, s), s
}

func (s *c18Span) do(what string, f func()) {
	s.mu.Lock()
	defer s.mu.Unlock()
	if s.ended > 0 {
		s.late = what
	}
	f()
}

func (s *c18Span) End(...trace.SpanEndOption)              { s.do("End", func() { s.ended++ }) }
func (s *c18Span) AddEvent(string, ...trace.EventOption)   { s.do("AddEvent", func() {}) }
func (s *c18Span) AddLink(trace.Link)                      { s.do("AddLink", func() {}) }
func (s *c18Span) IsRecording() bool                       { return true }
func (s *c18Span) RecordError(error, ...trace.EventOption) { s.do("RecordError", func() { s.errs++ }) }
func (s *c18Span) SpanContext() trace.SpanContext          { return s.sc }
func (s *c18Span) SetName(n string)                        { s.do("SetName", func() { s.name = n }) }
func (s *c18Span) TracerProvider() trace.TracerProvider    { return s.p }
func (s *c18Span) SetStatus(c otelcodes.Code, d string) {
	s.do("SetStatus", func() { s.status, s.desc = c, d })
}
func (s *c18Span) SetAttributes(kv ...attribute.KeyValue) {
	s.do("SetAttributes", func() {
		for _, a := range kv {
			s.attrs[a.Key] = a.Value
		}
	})
}

// ---------------------------------------------------------------- a recording observer

type c18Observer struct {
	side string
	mu   sync.Mutex
	evs  []string
}

func (o *c18Observer) add(format string, args ...any) {
	o.mu.Lock()
	o.evs = append(o.evs, fmt.Sprintf(format, args...))
	o.mu.Unlock()
}

func c18Info(i psrpc.RPCInfo) string {
	return fmt.Sprintf("%s.%s%v multi=%t", i.Service, i.Method, i.Topic, i.Multi)
}

func c18Err(err error) string {
	if err == nil {
		return "ok"
	}
	m := err.Error()
	if strings.HasPrefix(m, "Caught server panic") {
		m = "panic"
	}
	return string(gcode(err)) + "|" + m
}

func c18Unary(role middleware.MetricRole, i psrpc.RPCInfo, d time.Duration, err error, rx, tx int) string {
	return fmt.Sprintf("%s unary %s %v %s rx=%d tx=%d", role, c18Info(i), d, c18Err(err), rx, tx)
}

func c18Multi(role middleware.MetricRole, i psrpc.RPCInfo, d time.Duration, res, errs, rx, tx int) string {
	return fmt.Sprintf("%s multi %s %v res=%d err=%d rx=%d tx=%d", role, c18Info(i), d, res, errs, rx, tx)
}

func (o *c18Observer) OnUnaryRequest(role middleware.MetricRole, i psrpc.RPCInfo, d time.Duration, err error, rx, tx int) {
	o.add("%s", c18Unary(role, i, d, err, rx, tx))
}
func (o *c18Observer) OnMultiRequest(role middleware.MetricRole, i psrpc.RPCInfo, d time.Duration, res, errs, rx, tx int) {
	o.add("%s", c18Multi(role, i, d, res, errs, rx, tx))
}
func (o *c18Observer) OnStreamSend(role middleware.MetricRole, i psrpc.RPCInfo, d time.Duration, err error, n int) {
	o.add("%s send %s %v %s %d", role, c18Info(i), d, c18Err(err), n)
}
func (o *c18Observer) OnStreamRecv(role middleware.MetricRole, i psrpc.RPCInfo, err error, n int) {
	o.add("%s recv %s %s %d", role, c18Info(i), c18Err(err), n)
}
func (o *c18Observer) OnStreamOpen(role middleware.MetricRole, i psrpc.RPCInfo) {
	o.add("%s open %s", role, c18Info(i))
}
func (o *c18Observer) OnStreamClose(role middleware.MetricRole, i psrpc.RPCInfo) {
	o.add("%s close %s", role, c18Info(i))
}

func (o *c18Observer) count(kind string) int {
	o.mu.Lock()
	defer o.mu.Unlock()
	n := 0
	for _, ev := range o.evs {
		if strings.HasPrefix(ev, o.side+" "+kind+" ") {
			n++
		}
	}
	return n
}

func c18Same(e *engine.Env, what string, got, want []string) {
	sort.Strings(got)
	sort.Strings(want)
	if !reflect.DeepEqual(got, want) && len(got)+len(want) > 0 {
		e.Failf("%s:\n got  %s\n want %s", what, strings.Join(got, "\n      "), strings.Join(want, "\n      "))
	}
}

// ---------------------------------------------------------------- calls

type c18Out struct {
	Kind string // ok nil perr gerr plain wrap panic
	Pad  int
	Arg  int
}

type c18Call struct {
	At      int
	Multi   bool
	Work    int
	Outs    []c18Out // per server; a single call has the outcome of the first
	Pad     int
	Timeout int // 0 = default
	Cancel  int
	Parent  bool
}

type c18Case struct {
	Bus      string
	Claim    bool
	Servers  int
	Topic    []string
	Lat      int
	Cli      []string // of "metrics" "otel"
	Srv      []string
	Recovery bool
	Prop     string // "" the default, else the key of a propagator of its own
	Global   bool   // the tracer is the process's, not the configuration's
	MD       int    // further pairs of metadata
	Calls    []c18Call
}

// c18Prop is a propagator which writes the trace context under a key of its own.
type c18Prop struct {
	key   string
	inner propagation.TraceContext
}

func (p c18Prop) Fields() []string { return []string{p.key} }

func (p c18Prop) Inject(ctx context.Context, m propagation.TextMapCarrier) {
	x := propagation.MapCarrier{}
	p.inner.Inject(ctx, x)
	if v := x["traceparent"]; v != "" {
		m.Set(p.key, v)
	}
}

func (p c18Prop) Extract(ctx context.Context, m propagation.TextMapCarrier) context.Context {
	return p.inner.Extract(ctx, propagation.MapCarrier{"traceparent": m.Get(p.key)})
}

func genC18(t *rapid.T) c18Case {
	pick := func(label string) []string {
		return rapid.SampledFrom([][]string{{"metrics", "otel"}, {"otel", "metrics"}, {"metrics"}, {"otel"}, nil}).Draw(t, label)
	}
	c := c18Case{
		Bus:      genBus(t, 6),
		Claim:    rapid.Bool().Draw(t, "claim"),
		Servers:  rapid.IntRange(1, 3).Draw(t, "servers"),
		Topic:    rapid.SliceOfN(rapid.SampledFrom([]string{"a", "b"}), 0, 2).Draw(t, "topic"),
		Lat:      rapid.SampledFrom([]int{0, 0, 2, 20}).Draw(t, "lat"),
		Cli:      pick("cli"),
		Srv:      pick("srv"),
		Recovery: rapid.Bool().Draw(t, "recovery"),
		Prop:     rapid.SampledFrom([]string{"", "", "trace", "k2"}).Draw(t, "propagator"),
		Global:   rapid.IntRange(0, 3).Draw(t, "global") == 0,
		MD:       rapid.SampledFrom([]int{0, 0, 1, 5, 40}).Draw(t, "metadata"),
	}
	kinds := []string{"ok", "ok", "nil", "perr", "gerr", "plain", "wrap"}
	if c.Recovery {
		kinds = append(kinds, "panic", "panic")
	}
	for range rapid.IntRange(1, 6).Draw(t, "n") {
		x := c18Call{
			At:      rapid.SampledFrom([]int{0, 0, 5, 100, 600}).Draw(t, "at"),
			Multi:   rapid.IntRange(0, 2).Draw(t, "multi") == 0,
			Work:    rapid.SampledFrom([]int{0, 0, 3, 10, 90, 700}).Draw(t, "work"),
			Pad:     rapid.SampledFrom([]int{0, 1, 300, 20000}).Draw(t, "pad"),
			Timeout: rapid.SampledFrom([]int{0, 0, 0, 56, 506}).Draw(t, "timeout"),
			Cancel:  rapid.SampledFrom([]int{0, 0, 0, 0, 207}).Draw(t, "cancel"),
			Parent:  rapid.Bool().Draw(t, "parent"),
		}
		for range c.Servers {
			o := c18Out{
				Kind: rapid.SampledFrom(kinds).Draw(t, "kind"),
				Pad:  rapid.SampledFrom([]int{0, 1, 200}).Draw(t, "outpad"),
				Arg:  rapid.IntRange(0, 3).Draw(t, "arg"),
			}
			if o.Kind == "panic" {
				o.Arg = rapid.IntRange(0, 5).Draw(t, "with")
			}
			x.Outs = append(x.Outs, o)
		}
		c.Calls = append(c.Calls, x)
	}
	return c
}

type c18Custom struct{ s string }

func (e *c18Custom) Error() string { return e.s }

// result is what the handler does, or for a panic what the recovery makes of it.
func (o c18Out) result(k int) (Str, error) {
	switch o.Kind {
	case "ok":
		return S(fmt.Sprint("r", k) + strings.Repeat("y", o.Pad)), nil
	case "nil":
		return nil, nil
	case "perr":
		return nil, psrpc.NewErrorf([]psrpc.ErrorCode{psrpc.NotFound, psrpc.Internal, psrpc.UpstreamServerError, psrpc.UnprocessableEntity}[o.Arg], "call %d", k)
	case "gerr":
		return nil, status.Errorf([]codes.Code{codes.Aborted, codes.Unavailable, codes.DataLoss, codes.Unknown}[o.Arg], "call %d", k)
	case "plain":
		return nil, &c18Custom{fmt.Sprint("call ", k)}
	case "wrap":
		return nil, fmt.Errorf("wrapped: %w", psrpc.NewError(psrpc.PermissionDenied, io.ErrUnexpectedEOF))
	case "panic":
		return nil, psrpc.NewErrorf(psrpc.Internal, "Caught server panic")
	}
	panic(o.Kind)
}

// arrives is what the caller gets for it.
func (o c18Out) arrives(k int) (string, error) {
	r, err := o.result(k)
	if err == nil {
		return r.GetValue(), nil
	}
	var pe psrpc.Error
	if errors.As(err, &pe) {
		return "", psrpc.NewErrorf(pe.Code(), "%s", pe.Error())
	}
	if st, ok := status.FromError(err); ok {
		return "", psrpc.NewErrorf(psrpc.ErrorCodeFromGRPC(st.Code()), "%s", st.Message())
	}
	return "", psrpc.NewErrorf(psrpc.Unknown, "%s", err.Error())
}

func (o c18Out) do(k int) (Str, error) {
	if o.Kind == "panic" {
		switch o.Arg {
		case 0:
			panic("text")
		case 1:
			panic(io.EOF)
		case 2:
			var m map[string]int
			m["x"] = 1
		case 3:
			var v any
			panic(v)
		case 4:
			panic(psrpc.NewErrorf(psrpc.NotFound, "panics"))
		default:
			panic(status.Error(codes.Aborted, "panics"))
		}
	}
	return o.result(k)
}

func runC18(e *engine.Env, c c18Case) {
	fab := NewFabric(c.Bus)
	net := NewNet(nil, map[string]int{"REQ": c.Lat, "RES": c.Lat})
	otelKey := "traceparent"
	otel := otelpsrpc.Config{}
	if c.Prop != "" {
		otelKey = c.Prop
		otel.TextMapPropagator = c18Prop{key: c.Prop}
	}
	methods := []Method{{Name: "Do", Claim: c.Claim, Queue: !c.Claim}, {Name: "All", Multi: true}}
	tracer := &c18Tracer{}
	if c.Global {
		before := otelapi.GetTracerProvider()
		otelapi.SetTracerProvider(tracer)
		defer otelapi.SetTracerProvider(before)
	} else {
		otel.TracerProvider = tracer
	}
	cobs, sobs := &c18Observer{side: "client"}, &c18Observer{side: "server"}
	has := func(list []string, x string) bool {
		for _, y := range list {
			if x == y {
				return true
			}
		}
		return false
	}
	type seen struct {
		call, server int
		sc           trace.SpanContext
		md           metadata.Metadata
	}
	var mu sync.Mutex
	var runs []seen
	for si := range c.Servers {
		var opts []psrpc.ServerOption
		for _, m := range c.Srv {
			if m == "metrics" {
				opts = append(opts, middleware.WithServerMetrics(sobs))
			} else {
				opts = append(opts, otelpsrpc.ServerOptions(otel))
			}
		}
		if c.Recovery {
			opts = append(opts, psrpc.WithServerRPCInterceptors(middleware.WithServerRecovery()))
		}
		s := server.NewRPCServer(define("Svc", fmt.Sprint("srv", si), methods...), net.Wrap(fab.Bus()), opts...)
		h := func(ctx context.Context, q Str) (Str, error) {
			var k int
			_, _ = fmt.Sscanf(q.GetValue(), "%d|", &k)
			mu.Lock()
			runs = append(runs, seen{k, si, trace.SpanContextFromContext(ctx), metadata.IncomingHeader(ctx).Metadata})
			mu.Unlock()
			x := c.Calls[k]
			time.Sleep(msd(x.Work))
			out := x.Outs[0]
			if x.Multi {
				out = x.Outs[si]
			}
			return out.do(k)
		}
		for _, m := range methods {
			must(e, server.RegisterHandler(s, m.Name, c.Topic, h, nil), "register")
		}
	}
	var opts []psrpc.ClientOption
	for _, m := range c.Cli {
		if m == "metrics" {
			opts = append(opts, middleware.WithClientMetrics(cobs))
		} else {
			opts = append(opts, otelpsrpc.ClientOptions(otel))
		}
	}
	cl, err := client.NewRPCClient(define("Svc", "cli", methods...), net.Wrap(fab.Bus()), opts...)
	must(e, err, "new client")
	time.Sleep(time.Second)

	var wantCli, wantSrv []string
	parents := make([]*c18Span, len(c.Calls))
	type span struct {
		call   int
		server bool
	}
	var wg sync.WaitGroup
	for k, x := range c.Calls {
		req := S(fmt.Sprint(k, "|") + strings.Repeat("x", x.Pad))
		timeout := 3000
		if x.Timeout > 0 {
			timeout = x.Timeout
		}
		end, endErr := timeout, error(psrpc.ErrRequestTimedOut)
		if x.Cancel > 0 && x.Cancel < end {
			end, endErr = x.Cancel, psrpc.ErrRequestCanceled
		}
		took := x.Work + 2*c.Lat
		inTime := took < end
		if !x.Multi {
			i := psrpc.RPCInfo{Service: "Svc", Method: "Do", Topic: c.Topic}
			res, err := x.Outs[0].result(k)
			wantSrv = append(wantSrv, c18Unary(middleware.ServerRole, i, msd(x.Work), err, proto.Size(req), proto.Size(res)))
			v, err := x.Outs[0].arrives(k)
			if !inTime {
				v, err, took = "", endErr, end
			}
			rx := 0
			if err == nil {
				rx = proto.Size(S(v))
			}
			wantCli = append(wantCli, c18Unary(middleware.ClientRole, i, msd(took), err, rx, proto.Size(req)))
		} else {
			i := psrpc.RPCInfo{Service: "Svc", Method: "All", Topic: c.Topic, Multi: true}
			n, ne, rx := 0, 0, 0
			for _, o := range x.Outs {
				res, err := o.result(k)
				sn, sne := 1, 0
				if err != nil {
					sn, sne = 0, 1
				}
				wantSrv = append(wantSrv, c18Multi(middleware.ServerRole, i, msd(x.Work), sn, sne, proto.Size(req), proto.Size(res)))
				if inTime {
					n, ne = n+sn, ne+sne
					rx += proto.Size(res)
				}
			}
			wantCli = append(wantCli, c18Multi(middleware.ClientRole, i, msd(end), n, ne, rx, proto.Size(req)))
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			time.Sleep(msd(x.At))
			md := metadata.Metadata{"k": fmt.Sprint(k)}
			for j := range c.MD {
				md[fmt.Sprint("m", j)] = fmt.Sprint(k, "/", j)
			}
			ctx := metadata.NewContextWithOutgoingMetadata(context.Background(), md)
			if x.Parent {
				ctx, parents[k] = tracer.start(ctx, "parent")
				defer parents[k].End()
			}
			ctx, cancel := context.WithCancel(ctx)
			defer cancel()
			if x.Cancel > 0 {
				tm := time.AfterFunc(msd(x.Cancel), cancel)
				defer tm.Stop()
			}
			var ro []psrpc.RequestOption
			if x.Timeout > 0 {
				ro = append(ro, psrpc.WithRequestTimeout(msd(x.Timeout)))
			}
			start := time.Now()
			if !x.Multi {
				res, err := client.RequestSingle[Str](ctx, cl, "Do", c.Topic, req, ro...)
				v, want := x.Outs[0].arrives(k)
				d := msd(x.Work + 2*c.Lat)
				if !inTime {
					v, want, d = "", endErr, msd(end)
				}
				if c18Err(err) != c18Err(want) || res.GetValue() != v {
					e.Failf("call %d gives %q %s, want %q %s", k, res.GetValue(), c18Err(err), v, c18Err(want))
				}
				if time.Since(start) != d {
					e.Failf("call %d took %v, want %v", k, time.Since(start), d)
				}
				return
			}
			ch, err := client.RequestMulti[Str](ctx, cl, "All", c.Topic, req, ro...)
			if err != nil {
				e.Failf("call %d: %v", k, err)
				return
			}
			var got, want []string
			for r := range ch {
				got = append(got, r.Result.GetValue()+" "+c18Err(r.Err))
			}
			if inTime {
				for _, o := range x.Outs {
					v, err := o.arrives(k)
					want = append(want, v+" "+c18Err(err))
				}
			}
			c18Same(e, fmt.Sprintf("results of call %d", k), got, want)
			if time.Since(start) != msd(end) {
				e.Failf("call %d took %v, want %v", k, time.Since(start), msd(end))
			}
		}()
	}
	if !within(20*time.Minute, wg.Wait) {
		e.Fatalf("a call had not returned after twenty minutes")
	}
	time.Sleep(time.Minute)
	e.Sync()

	if !has(c.Cli, "metrics") {
		wantCli = nil
	}
	if !has(c.Srv, "metrics") {
		wantSrv = nil
	}
	c18Same(e, "what the client's observer was told", cobs.evs, wantCli)
	c18Same(e, "what the servers' observer was told", sobs.evs, wantSrv)

	// executions
	mu.Lock()
	defer mu.Unlock()
	n := map[int]int{}
	for _, r := range runs {
		n[r.call]++
		md := r.md
		if md["k"] != fmt.Sprint(r.call) {
			e.Failf("the handler of call %d sees the metadata %v", r.call, md)
		}
		size := 1 + c.MD
		for j := range c.MD {
			if md[fmt.Sprint("m", j)] != fmt.Sprint(r.call, "/", j) {
				e.Failf("the handler of call %d sees the metadata %v", r.call, md)
			}
		}
		if has(c.Cli, "otel") && !c.Calls[r.call].Multi {
			size++
			if md[otelKey] == "" {
				e.Failf("the handler of call %d sees no trace under %s: %v", r.call, otelKey, md)
			}
		}
		if len(md) != size {
			e.Failf("the handler of call %d sees the metadata %v", r.call, md)
		}
	}
	for k, x := range c.Calls {
		want := 1
		if x.Multi {
			want = c.Servers
		}
		if n[k] != want {
			e.Failf("call %d was executed %d times, want %d", k, n[k], want)
		}
	}

	// spans
	tracer.mu.Lock()
	defer tracer.mu.Unlock()
	byID := map[trace.SpanID]*c18Span{}
	for _, s := range tracer.spans {
		byID[s.sc.SpanID()] = s
		if s.ended != 1 || s.late != "" {
			e.Failf("span %q was ended %d times (and then: %s)", s.name, s.ended, s.late)
		}
	}
	describe := func(s *c18Span, err error) string {
		return fmt.Sprintf("%s %s %s %q psrpc=%v grpc=%v errs=%d", s.name, s.kind, s.status, s.desc, s.attrs["rpc.psrpc.status_code"].Emit(), s.attrs["rpc.grpc.status_code"].Emit(), s.errs)
	}
	check := func(s *c18Span, name string, kind trace.SpanKind, err error) {
		want := fmt.Sprintf("%s %s", name, kind)
		desc := s.desc
		if strings.HasPrefix(desc, "Caught server panic") {
			desc = "Caught server panic"
		}
		ps, gs, errs := attribute.Value{}, attribute.IntValue(0), 0
		st, msg := otelcodes.Ok, ""
		if err != nil {
			st, msg, errs = otelcodes.Error, err.Error(), 1
			gs = attribute.Value{}
			var pe psrpc.Error
			if errors.As(err, &pe) {
				ps = attribute.StringValue(string(pe.Code()))
			}
			if g, ok := status.FromError(err); ok {
				gs = attribute.IntValue(int(g.Code()))
			}
		}
		if s.name != name || s.kind != kind || s.status != st || desc != msg || s.errs != errs ||
			s.attrs["rpc.psrpc.status_code"] != ps || s.attrs["rpc.grpc.status_code"] != gs {
			e.Failf("the span is %s, want %s for the outcome %v", describe(s, err), want, err)
		}
	}
	used := map[*c18Span]bool{}
	clientSpan := map[int]*c18Span{}
	if has(c.Srv, "otel") {
		for _, r := range runs {
			s := byID[r.sc.SpanID()]
			if s == nil || used[s] {
				e.Failf("the handler of call %d does not run in a span of its own", r.call)
				continue
			}
			used[s] = true
			x := c.Calls[r.call]
			out, name := x.Outs[0], "Recv.Svc.Do"
			if x.Multi {
				out, name = x.Outs[r.server], "Recv.Svc.All"
			}
			_, err := out.result(r.call)
			check(s, name, trace.SpanKindServer, err)
			if has(c.Cli, "otel") && !x.Multi {
				p := byID[s.parent.SpanID()]
				if p == nil || s.sc.TraceID() != p.sc.TraceID() || p.kind != trace.SpanKindClient {
					e.Failf("the server span of call %d is not a child of its client span", r.call)
				} else if clientSpan[r.call] != nil {
					e.Failf("two server spans for call %d", r.call)
				} else {
					clientSpan[r.call] = p
				}
			} else if s.parent.IsValid() {
				e.Failf("the server span of call %d has a parent, no trace was sent", r.call)
			}
		}
	} else if has(c.Cli, "otel") {
		for _, r := range runs {
			if r.sc.IsValid() {
				e.Failf("the handler of call %d runs in a span", r.call)
			}
		}
	}
	if has(c.Cli, "otel") {
		for k, x := range c.Calls {
			if x.Multi {
				continue
			}
			var tp string
			for _, r := range runs {
				if r.call == k {
					tp = r.md[otelKey]
				}
			}
			var s *c18Span
			for _, y := range tracer.spans {
				if tp == fmt.Sprintf("00-%s-%s-01", y.sc.TraceID(), y.sc.SpanID()) {
					s = y
				}
			}
			if s == nil || used[s] {
				e.Failf("call %d was sent with the traceparent %q", k, tp)
				continue
			}
			used[s] = true
			if p := clientSpan[k]; p != nil && p != s {
				e.Failf("the server span of call %d belongs to another call", k)
			}
			_, err := x.Outs[0].arrives(k)
			end := 3000
			if x.Timeout > 0 {
				end = x.Timeout
			}
			if x.Cancel > 0 && x.Cancel < end {
				if x.Work+2*c.Lat >= x.Cancel {
					err = psrpc.ErrRequestCanceled
				}
			} else if x.Work+2*c.Lat >= end {
				err = psrpc.ErrRequestTimedOut
			}
			check(s, "Sent.Svc.Do", trace.SpanKindClient, err)
			if x.Parent && (s.parent.SpanID() != parents[k].sc.SpanID() || s.sc.TraceID() != parents[k].sc.TraceID()) || !x.Parent && s.parent.IsValid() {
				e.Failf("the client span of call %d has the parent %v", k, s.parent)
			}
		}
	}
	for _, s := range tracer.spans {
		if !used[s] && s.name != "parent" {
			e.Failf("there is one more span: %s", describe(s, nil))
		}
	}
	if len(c.Cli)+len(c.Srv) > 0 || c.Recovery {
		e.NonTrivial()
	}
	for _, x := range c.Calls {
		e.Class("outcome %s", x.Outs[0].Kind)
	}
	e.Class("bus %s", c.Bus)
	fab.Close()
}

// ---------------------------------------------------------------- streams

type c18StOp struct {
	Side    int // 0 client 1 server
	Gap     int
	Pad     int
	Timeout int
}

type c18Stream struct {
	At     int
	End    string // client server return ctx
	EndAt  int    // after the open, ms
	Reject bool   // opened while no server can take it (negative affinity)
	Drain  [2]bool
	Ops    []c18StOp
	Cancel int // while opening, 0 = never
}

type c18StCase struct {
	Bus     string
	Claim   bool
	Chan    int
	Lat     int
	Streams []c18Stream
	Final   string // what closes the rest: kill graceful client deregister
	FinalAt int
}

func genC18St(t *rapid.T) c18StCase {
	c := c18StCase{
		Bus:     genBus(t, 6),
		Claim:   rapid.Bool().Draw(t, "claim"),
		Chan:    rapid.SampledFrom([]int{-1, -1, 1, 2}).Draw(t, "chan"),
		Lat:     rapid.SampledFrom([]int{0, 3}).Draw(t, "lat"),
		Final:   rapid.SampledFrom([]string{"kill", "graceful", "client", "deregister"}).Draw(t, "final"),
		FinalAt: rapid.SampledFrom([]int{150, 600, 9000}).Draw(t, "finalat"),
	}
	if c.Bus == "local" && c.Chan > 0 {
		// a full buffer of the local bus holds up its publishers
		c.Chan = 60
	}
	for range rapid.IntRange(1, 3).Draw(t, "n") {
		s := c18Stream{
			At:     rapid.SampledFrom([]int{0, 0, 20}).Draw(t, "at"),
			End:    rapid.SampledFrom([]string{"client", "server", "return", "ctx", ""}).Draw(t, "end"),
			EndAt:  rapid.SampledFrom([]int{1, 45, 305}).Draw(t, "endat"),
			Reject: c.Claim && rapid.IntRange(0, 4).Draw(t, "reject") == 0,
			Drain:  [2]bool{rapid.Bool().Draw(t, "draincli"), rapid.Bool().Draw(t, "drainsrv")},
			Cancel: rapid.SampledFrom([]int{0, 0, 0, 1, 2, 4, 5, 7}).Draw(t, "cancel"),
		}
		s.Ops = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) c18StOp {
			return c18StOp{
				Side:    rapid.IntRange(0, 1).Draw(t, "side"),
				Gap:     rapid.SampledFrom([]int{0, 0, 10, 50}).Draw(t, "gap"),
				Pad:     rapid.SampledFrom([]int{0, 1, 200}).Draw(t, "pad"),
				Timeout: rapid.SampledFrom([]int{0, 0, 25}).Draw(t, "timeout"),
			}
		}), 0, 10).Draw(t, "ops")
		c.Streams = append(c.Streams, s)
	}
	return c
}

func runC18St(e *engine.Env, c c18StCase) {
	fab := NewFabric(c.Bus)
	lat := map[string]int{"OPEN": c.Lat, "MSG": c.Lat, "ACK": c.Lat, "CLAIM": c.Lat, "RCLAIM": c.Lat, "CLOSE": c.Lat}
	net := NewNet(nil, lat)
	m := Method{Name: "St", Claim: c.Claim, Affinity: c.Claim}
	cobs, sobs := &c18Observer{side: "client"}, &c18Observer{side: "server"}
	sopts := []psrpc.ServerOption{psrpc.WithServerTimeout(200 * time.Millisecond), middleware.WithServerMetrics(sobs)}
	copts := []psrpc.ClientOption{psrpc.WithClientTimeout(200 * time.Millisecond), psrpc.WithClientSelectTimeout(100 * time.Millisecond), middleware.WithClientMetrics(cobs)}
	if c.Chan > 0 {
		sopts = append(sopts, psrpc.WithServerChannelSize(c.Chan))
		copts = append(copts, psrpc.WithClientChannelSize(c.Chan))
	}
	s := server.NewRPCServer(define("Svc", "srv", m), net.Wrap(fab.Bus()), sopts...)
	var mu sync.Mutex
	var wantSend [2][]string // as the sends ended
	var read [2][]string
	info := c18Info(psrpc.RPCInfo{Service: "Svc", Method: "St"})
	var wg sync.WaitGroup
	send := func(side int, role string, st psrpc.Stream[Str, Str], k int) {
		x := c.Streams[k]
		for i, op := range x.Ops {
			time.Sleep(msd(op.Gap))
			if op.Side != side {
				continue
			}
			msg := S(fmt.Sprintf("%d/%d", k, i) + strings.Repeat("x", op.Pad))
			var opts []psrpc.StreamOption
			if op.Timeout > 0 {
				opts = append(opts, psrpc.WithTimeout(msd(op.Timeout)))
			}
			start := time.Now()
			err := st.Send(msg, opts...)
			mu.Lock()
			wantSend[side] = append(wantSend[side], fmt.Sprintf("%s send %s %v %s %d", role, info, time.Since(start), c18Err(err), proto.Size(msg)))
			mu.Unlock()
		}
	}
	drain := func(side int, ch <-chan Str, now bool) {
		if !now {
			time.Sleep(time.Minute)
		}
		for m := range ch {
			mu.Lock()
			read[side] = append(read[side], fmt.Sprintf("%s recv %s ok %d", []string{"client", "server"}[side], info, proto.Size(m)))
			mu.Unlock()
		}
	}
	entered := 0
	must(e, server.RegisterStreamHandler[Str, Str](s, "St", nil, func(ss psrpc.ServerStream[Str, Str]) error {
		var k int
		_, _ = fmt.Sscan(metadata.IncomingHeader(ss.Context()).Metadata["k"], &k)
		mu.Lock()
		entered++
		mu.Unlock()
		x := c.Streams[k]
		wg.Add(2)
		go func() { defer wg.Done(); drain(1, ss.Channel(), x.Drain[1]) }()
		go func() { defer wg.Done(); send(1, "server", ss, k) }()
		switch x.End {
		case "server":
			time.Sleep(msd(x.EndAt))
			_ = ss.Close(psrpc.NewErrorf(psrpc.Aborted, "enough"))
		case "return":
			time.Sleep(msd(x.EndAt))
			return nil
		}
		<-ss.Context().Done()
		return nil
	}, func(ctx context.Context) float32 {
		var k int
		_, _ = fmt.Sscan(metadata.IncomingHeader(ctx).Metadata["k"], &k)
		if c.Streams[k].Reject {
			return -1
		}
		return 1
	}), "register")
	cl, err := client.NewRPCClientWithStreams(define("Svc", "cli", m), net.Wrap(fab.Bus()), copts...)
	must(e, err, "new client")
	time.Sleep(time.Second)
	opened := 0
	for k, x := range c.Streams {
		wg.Add(1)
		go func() {
			defer wg.Done()
			time.Sleep(msd(x.At))
			ctx := metadata.NewContextWithOutgoingMetadata(context.Background(), metadata.Metadata{"k": fmt.Sprint(k)})
			ctx, cancel := context.WithCancel(ctx)
			defer cancel()
			if x.Cancel > 0 {
				tm := time.AfterFunc(time.Duration(x.Cancel)*time.Millisecond-time.Microsecond, cancel)
				defer tm.Stop()
			}
			st, err := client.OpenStream[Str, Str](ctx, cl, "St", nil)
			if err != nil {
				return
			}
			mu.Lock()
			opened++
			mu.Unlock()
			wg.Add(2)
			go func() { defer wg.Done(); drain(0, st.Channel(), x.Drain[0]) }()
			go func() { defer wg.Done(); send(0, "client", st, k) }()
			time.Sleep(msd(x.EndAt))
			switch x.End {
			case "client":
				_ = st.Close(nil)
			case "ctx":
				cancel()
			}
			<-st.Context().Done()
		}()
	}
	time.Sleep(time.Duration(c.FinalAt)*time.Millisecond + 333*time.Microsecond)
	switch c.Final {
	case "kill":
		s.Close(true)
	case "graceful":
		s.Close(false)
	case "deregister":
		s.DeregisterHandler("St", nil)
	case "client":
		cl.Close()
	}
	time.Sleep(time.Minute)
	e.Sync()
	// the other side too; what it does not know of is over now
	cl.Close()
	s.Close(true)
	if !within(20*time.Minute, wg.Wait) {
		e.Fatalf("a stream had not ended after twenty minutes")
	}
	time.Sleep(time.Minute)
	e.Sync()
	mu.Lock()
	defer mu.Unlock()
	if n, k := cobs.count("open"), len(c.Streams); n != k {
		e.Failf("the client's observer was told of %d streams, %d were asked for", n, k)
	}
	if n, k := cobs.count("close"), len(c.Streams); n != k {
		e.Failf("the client's observer was told of %d closings of %d streams", n, k)
	}
	if n, k := sobs.count("open"), sobs.count("close"); n != k || n < entered {
		e.Failf("the server's observer was told of %d openings and %d closings, %d streams were handled", n, k, entered)
	}
	for side, o := range []*c18Observer{cobs, sobs} {
		var sends, recvs []string
		for _, ev := range o.evs {
			if strings.HasPrefix(ev, o.side+" send ") {
				sends = append(sends, ev)
			} else if strings.HasPrefix(ev, o.side+" recv ") {
				if strings.Contains(ev, string(psrpc.ErrSlowConsumer.Code())+"|"+psrpc.ErrSlowConsumer.Error()) {
					e.Class("a full buffer")
				} else {
					recvs = append(recvs, ev)
				}
			}
		}
		c18Same(e, "the sends the "+o.side+"'s observer was told of", sends, wantSend[side])
		c18Same(e, "the receipts the "+o.side+"'s observer was told of", recvs, read[side])
	}
	if opened > 0 {
		e.NonTrivial()
	}
	e.Class("opened: %s", bucket(opened))
	e.Class("received: %s", bucket(len(read[0])+len(read[1])))
	fab.Close()
}

var _ = wrapperspb.String
var _ internal.Stream

func init() {
	engine.Add("C18", "calls",
		"1-6 single and multi calls to 1-3 servers with drawn subsets and orders of metrics, tracing and recovery on either side, outcomes of every kind including panics, sizes, latencies, timeouts, cancellations, parent spans; results, observer events and spans compared exactly; non-trivial: some middleware is installed",
		1500, 40000, genC18, runC18)
	engine.Add("C18", "streams",
		"1-3 metered streams with drawn sends, slow readers, refusals, cancelled openings and endings of every kind, closed by shutdown, deregistration or client close; observer events against what the ends saw; non-trivial: a stream was opened",
		1000, 25000, genC18St, runC18St)
}
