package checks

import (
	"context"
	"fmt"
	"reflect"
	"sort"
	"strings"
	"sync"
	"time"

	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/known/wrapperspb"
	"pgregory.net/rapid"

	"github.com/livekit/psrpc"
	"github.com/livekit/psrpc/pkg/client"
	"github.com/livekit/psrpc/pkg/metadata"
	"github.com/livekit/psrpc/pkg/server"
	"github.com/livekit/psrpc/verif/engine"
)

// Requests and responses are strings "call id|marks": whoever changes one
// appends a mark. What every interceptor sees is traced per call, and compared
// with the trace of a recursive model of the chain.

type c16Icpt struct {
	Do  string // pass req md opt res err2ok ok2err twice short shorterr (multi: drop)
	Arg int
	Per int // per-request interceptors: which calls use it, as a bit set
}

type c16Call struct {
	At   int
	How  string // single multi
	Fail bool   // the handler fails
	Work int
}

type c16Case struct {
	Bus      string
	Claim    bool
	Servers  int
	Topic    []string
	Srv, Cli []c16Icpt // server and client-wide
	Req      []c16Icpt // per request
	Mul      []c16Icpt // client-wide, multi
	MulReq   []c16Icpt
	Hooks    [2]int // request, response
	Calls    []c16Call
	Split    int  // how the client-wide ones are passed
	Slow     bool // the per-request ones take their time to be set up
	Prefix   int  // another client is given the first of the same options; 0: none
}

func genC16(t *rapid.T) c16Case {
	icpt := func(kinds ...string) *rapid.Generator[c16Icpt] {
		return rapid.Custom(func(t *rapid.T) c16Icpt {
			return c16Icpt{Do: rapid.SampledFrom(kinds).Draw(t, "do"), Arg: rapid.IntRange(1, 9).Draw(t, "arg"), Per: rapid.IntRange(0, 31).Draw(t, "per")}
		})
	}
	rpc := []string{"pass", "pass", "req", "md", "opt", "res", "err2ok", "ok2err", "twice", "short", "shorterr"}
	srv := []string{"pass", "pass", "req", "md", "res", "err2ok", "ok2err", "twice", "short", "shorterr"}
	mul := []string{"pass", "pass", "req", "md", "opt", "res", "err2ok", "ok2err", "drop", "shorterr"}
	c := c16Case{
		Bus:     genBus(t, 5),
		Claim:   rapid.Bool().Draw(t, "claim"),
		Servers: rapid.IntRange(1, 3).Draw(t, "servers"),
		Topic:   rapid.SliceOfN(rapid.SampledFrom([]string{"a", "b"}), 0, 2).Draw(t, "topic"),
		Srv:     rapid.SliceOfN(icpt(srv...), 0, 4).Draw(t, "srv"),
		Cli:     rapid.SliceOfN(icpt(rpc...), 0, 6).Draw(t, "cli"),
		Req:     rapid.SliceOfN(icpt(rpc...), 0, 3).Draw(t, "req"),
		Mul:     rapid.SliceOfN(icpt(mul...), 0, 6).Draw(t, "mul"),
		MulReq:  rapid.SliceOfN(icpt(mul...), 0, 2).Draw(t, "mulreq"),
		Hooks:   [2]int{rapid.IntRange(0, 2).Draw(t, "reqhooks"), rapid.IntRange(0, 2).Draw(t, "reshooks")},
		Split:   rapid.IntRange(0, 3).Draw(t, "split"),
		Slow:    rapid.Bool().Draw(t, "slow"),
		Prefix:  rapid.SampledFrom([]int{0, 0, 1, 2, 3}).Draw(t, "prefix"),
	}
	if rapid.IntRange(0, 9).Draw(t, "many") == 0 {
		// long chains, of those that call the next one once
		one := icpt("pass", "req", "md", "res")
		c.Srv = rapid.SliceOfN(one, 0, 20).Draw(t, "many srv")
		c.Cli = rapid.SliceOfN(one, 0, 20).Draw(t, "many cli")
		c.Req = rapid.SliceOfN(one, 0, 20).Draw(t, "many req")
		c.Mul = rapid.SliceOfN(one, 0, 20).Draw(t, "many mul")
		c.MulReq = rapid.SliceOfN(one, 0, 20).Draw(t, "many mulreq")
	}
	c.Calls = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) c16Call {
		return c16Call{
			At:   rapid.SampledFrom([]int{0, 0, 5, 20}).Draw(t, "at"),
			How:  rapid.SampledFrom([]string{"single", "single", "multi"}).Draw(t, "how"),
			Fail: rapid.IntRange(0, 3).Draw(t, "fail") == 0,
			Work: rapid.SampledFrom([]int{0, 0, 3, 10}).Draw(t, "work"),
		}
	}), 1, 5).Draw(t, "calls")
	return c
}

// c16Res is a result: a text or an error.
type c16Res struct {
	val string
	err string // code|message
}

func (r c16Res) String() string {
	if r.err != "" {
		return "err " + r.err
	}
	return r.val
}

func (r c16Res) out() (proto.Message, error) {
	if r.err != "" {
		code, msg, _ := strings.Cut(r.err, "|")
		return nil, psrpc.NewErrorf(psrpc.ErrorCode(code), "%s", msg)
	}
	return S(r.val), nil
}

func c16Of(m proto.Message, err error) c16Res {
	if err != nil {
		return c16Res{err: string(code(err)) + "|" + err.Error()}
	}
	if v, ok := m.(Str); ok {
		return c16Res{val: v.GetValue()}
	}
	return c16Res{val: fmt.Sprintf("%T", m)}
}

type c16World struct {
	e     *engine.Env
	mu    sync.Mutex
	trace map[string][]string
}

func (w *c16World) log(req, format string, args ...any) {
	id, _, _ := strings.Cut(req, "|")
	w.mu.Lock()
	w.trace[id] = append(w.trace[id], fmt.Sprintf(format, args...))
	w.mu.Unlock()
}

// c16Sim is the model's view of one call.
type c16Sim struct {
	log  []string
	c    c16Case
	call c16Call
	name string // of the call
}

func (s *c16Sim) add(format string, args ...any) { s.log = append(s.log, fmt.Sprintf(format, args...)) }

func (ic c16Icpt) transform(r c16Res, tag string) c16Res {
	switch ic.Do {
	case "res":
		if r.err == "" {
			r.val += "/" + tag
		}
	case "err2ok":
		if r.err != "" {
			return c16Res{val: r.err + "/" + tag}
		}
	case "ok2err":
		if r.err == "" {
			return c16Res{err: "aborted|" + r.val + "/" + tag}
		}
	}
	return r
}

// server is the server side of the chain.
func (s *c16Sim) server(chain []c16Icpt, i int, srv int, req, md string, timeout int) c16Res {
	if i == len(chain) {
		s.add("handler%d %s md=%s timeout=%d", srv, req, md, timeout)
		if s.call.Fail {
			return c16Res{err: "not_found|" + req}
		}
		return c16Res{val: req + "/h" + fmt.Sprint(srv)}
	}
	ic, tag := chain[i], fmt.Sprintf("S%d.%d", srv, i)
	s.add("%s in %s md=%s", tag, req, md)
	var r c16Res
	switch ic.Do {
	case "req":
		r = s.server(chain, i+1, srv, req+"/"+tag, md, timeout)
	case "md":
		r = s.server(chain, i+1, srv, req, md+"+"+tag, timeout)
	case "twice":
		s.server(chain, i+1, srv, req+"/"+tag+"a", md, timeout)
		r = s.server(chain, i+1, srv, req+"/"+tag+"b", md, timeout)
	case "short":
		r = c16Res{val: req + "/" + tag}
	case "shorterr":
		r = c16Res{err: "out_of_range|" + req + "/" + tag}
	default:
		r = s.server(chain, i+1, srv, req, md, timeout)
	}
	s.add("%s out %s", tag, r)
	return ic.transform(r, tag)
}

func (s *c16Sim) client(chain []c16Icpt, i int, req, md string, timeout int) c16Res {
	if i == len(chain) {
		return s.server(s.c.Srv, 0, 0, req, md, timeout)
	}
	ic, tag := chain[i], fmt.Sprintf("C%d", i)
	s.add("%s in %s md=%s", tag, req, md)
	var r c16Res
	switch ic.Do {
	case "req":
		r = s.client(chain, i+1, req+"/"+tag, md, timeout)
	case "md":
		r = s.client(chain, i+1, req, md+"+"+tag, timeout)
	case "opt":
		r = s.client(chain, i+1, req, md, 10000+1000*ic.Arg)
	case "twice":
		s.client(chain, i+1, req+"/"+tag+"a", md, timeout)
		r = s.client(chain, i+1, req+"/"+tag+"b", md, timeout)
	case "short":
		r = c16Res{val: req + "/" + tag}
	case "shorterr":
		r = c16Res{err: "out_of_range|" + req + "/" + tag}
	default:
		r = s.client(chain, i+1, req, md, timeout)
	}
	s.add("%s out %s", tag, r)
	return ic.transform(r, tag)
}

// chains of one call
func (c c16Case) rpcChain(k int) []c16Icpt { return c16Chain(c.Cli, c.Req, k) }
func (c c16Case) mulChain(k int) []c16Icpt { return c16Chain(c.Mul, c.MulReq, k) }

func c16Chain(all, req []c16Icpt, k int) []c16Icpt {
	out := append([]c16Icpt(nil), all...)
	for _, ic := range req {
		if ic.Per>>k&1 == 1 {
			out = append(out, ic)
		}
	}
	return out
}

func (w *c16World) info(i, want psrpc.RPCInfo, who string) {
	if i.Service != want.Service || i.Method != want.Method || i.Multi != want.Multi ||
		len(i.Topic) != len(want.Topic) || len(i.Topic) > 0 && !reflect.DeepEqual(i.Topic, want.Topic) {
		w.e.Failf("%s was given %+v, want %+v", who, i, want)
	}
}

type c16Key struct{}

func c16md(ctx context.Context) string {
	v, _ := ctx.Value(c16Key{}).(string)
	return v
}

func (w *c16World) serverIcpt(ic c16Icpt, srv, i int, want func(string) psrpc.RPCInfo) psrpc.ServerRPCInterceptor {
	tag := fmt.Sprintf("S%d.%d", srv, i)
	return func(ctx context.Context, m proto.Message, info psrpc.RPCInfo, next psrpc.ServerRPCHandler) (proto.Message, error) {
		req := m.(Str).GetValue()
		w.info(info, want(info.Method), tag)
		md := c16smd(ctx)
		w.log(req, "%s in %s md=%s", tag, req, md)
		var r c16Res
		switch ic.Do {
		case "req":
			r = c16Of(next(ctx, S(req+"/"+tag)))
		case "md":
			r = c16Of(next(context.WithValue(ctx, c16Key{}, c16md(ctx)+"+"+tag), m))
		case "twice":
			_, _ = next(ctx, S(req+"/"+tag+"a"))
			r = c16Of(next(ctx, S(req+"/"+tag+"b")))
		case "short":
			r = c16Res{val: req + "/" + tag}
		case "shorterr":
			r = c16Res{err: "out_of_range|" + req + "/" + tag}
		default:
			r = c16Of(next(ctx, m))
		}
		w.log(req, "%s out %s", tag, r)
		return ic.transform(r, tag).out()
	}
}

// c16smd is what the client's and the server's interceptors added to the context.
func c16smd(ctx context.Context) string {
	h := metadata.IncomingHeader(ctx)
	if h == nil {
		return "none"
	}
	return h.Metadata["md"] + c16md(ctx)
}

func c16add(ctx context.Context, tag string) context.Context {
	v := metadata.OutgoingContextMetadata(ctx)["md"]
	return metadata.AppendMetadataToOutgoingContext(ctx, "md", v+"+"+tag)
}

func (w *c16World) clientIcpt(c c16Case, call int, want psrpc.RPCInfo, ic c16Icpt, pos func(call int) int) psrpc.ClientRPCInterceptor {
	return func(info psrpc.RPCInfo, next psrpc.ClientRPCHandler) psrpc.ClientRPCHandler {
		w.info(info, want, "a client interceptor")
		if call >= 0 && c.Slow {
			time.Sleep(msd(ic.Arg))
		}
		return func(ctx context.Context, m proto.Message, opts ...psrpc.RequestOption) (proto.Message, error) {
			req := m.(Str).GetValue()
			var k int
			_, _ = fmt.Sscanf(req, "%d|", &k)
			if call >= 0 && k != call {
				w.e.Failf("call %d runs through an interceptor of call %d", k, call)
			}
			tag := fmt.Sprintf("C%d", pos(k))
			w.log(req, "%s in %s md=%s", tag, req, metadata.OutgoingContextMetadata(ctx)["md"])
			var r c16Res
			switch ic.Do {
			case "req":
				r = c16Of(next(ctx, S(req+"/"+tag), opts...))
			case "md":
				r = c16Of(next(c16add(ctx, tag), m, opts...))
			case "opt":
				r = c16Of(next(ctx, m, append(opts[:len(opts):len(opts)], psrpc.WithRequestTimeout(msd(10000+1000*ic.Arg)))...))
			case "twice":
				_, _ = next(ctx, S(req+"/"+tag+"a"), opts...)
				r = c16Of(next(ctx, S(req+"/"+tag+"b"), opts...))
			case "short":
				r = c16Res{val: req + "/" + tag}
			case "shorterr":
				r = c16Res{err: "out_of_range|" + req + "/" + tag}
			default:
				r = c16Of(next(ctx, m, opts...))
			}
			w.log(req, "%s out %s", tag, r)
			return ic.transform(r, tag).out()
		}
	}
}

type c16Multi struct {
	psrpc.ClientMultiRPCHandler
	w    *c16World
	ic   c16Icpt
	pos  func(int) int
	call int
	req  string
	tag  string
}

func (h *c16Multi) Send(ctx context.Context, m proto.Message, opts ...psrpc.RequestOption) error {
	h.req = m.(Str).GetValue()
	var k int
	_, _ = fmt.Sscanf(h.req, "%d|", &k)
	if h.call >= 0 && k != h.call {
		h.w.e.Failf("call %d runs through an interceptor of call %d", k, h.call)
	}
	h.tag = fmt.Sprintf("M%d", h.pos(k))
	h.w.log(h.req, "%s in %s md=%s", h.tag, h.req, metadata.OutgoingContextMetadata(ctx)["md"])
	switch h.ic.Do {
	case "req":
		m = S(h.req + "/" + h.tag)
	case "md":
		ctx = c16add(ctx, h.tag)
	case "opt":
		opts = append(opts[:len(opts):len(opts)], psrpc.WithRequestTimeout(msd(10000+1000*h.ic.Arg)))
	case "shorterr":
		return psrpc.NewErrorf(psrpc.OutOfRange, "%s/%s", h.req, h.tag)
	}
	return h.ClientMultiRPCHandler.Send(ctx, m, opts...)
}

func (h *c16Multi) Recv(m proto.Message, err error) {
	r := c16Of(m, err)
	h.w.log(h.req, "%s recv %s", h.tag, r)
	if h.ic.Do == "drop" {
		return
	}
	m, err = h.ic.transform(r, h.tag).out()
	if m == nil && h.call >= 0 {
		m = Str(nil) // as a failed response arrives; the client-wide ones pass a plain nil on
	}
	h.ClientMultiRPCHandler.Recv(m, err)
}

func (h *c16Multi) Close() {
	h.w.log(h.req, "%s close", h.tag)
	h.ClientMultiRPCHandler.Close()
}

func runC16(e *engine.Env, c c16Case) {
	w := &c16World{e: e, trace: map[string][]string{}}
	fab := NewFabric(c.Bus)
	methods := []Method{{Name: "Do", Claim: c.Claim}, {Name: "All", Multi: true}}
	want := func(method string) psrpc.RPCInfo {
		return psrpc.RPCInfo{Service: "Svc", Method: method, Topic: c.Topic, Multi: method == "All"}
	}
	for k := range c.Servers {
		var is []psrpc.ServerRPCInterceptor
		for i, ic := range c.Srv {
			is = append(is, w.serverIcpt(ic, k, i, want))
		}
		var opts []psrpc.ServerOption
		switch {
		case c.Split == 1:
			for _, i := range is {
				opts = append(opts, psrpc.WithServerRPCInterceptors(i))
			}
		case c.Split == 2 && len(is) > 1:
			opts = append(opts, psrpc.WithServerOptions(psrpc.WithServerRPCInterceptors(is[0]), psrpc.WithServerRPCInterceptors(is[1:]...)))
		default:
			opts = append(opts, psrpc.WithServerRPCInterceptors(append([]psrpc.ServerRPCInterceptor{nil}, is...)...))
		}
		s := server.NewRPCServer(define("Svc", fmt.Sprint("srv", k), methods...), fab.Bus(), opts...)
		h := func(ctx context.Context, q Str) (Str, error) {
			req := q.GetValue()
			d, _ := ctx.Deadline()
			timeout := int(d.Sub(metadata.IncomingHeader(ctx).SentAt) / ms)
			w.log(req, "handler%d %s md=%s timeout=%d", k, req, c16smd(ctx), timeout)
			var i int
			_, _ = fmt.Sscanf(req, "%d|", &i)
			if x := c.Calls[i].Work; x > 0 {
				time.Sleep(msd(x))
			}
			if c.Calls[i].Fail {
				return nil, psrpc.NewErrorf(psrpc.NotFound, "%s", req)
			}
			return S(req + "/h" + fmt.Sprint(k)), nil
		}
		if k == 0 {
			must(e, server.RegisterHandler(s, "Do", c.Topic, h, nil), "register")
		}
		must(e, server.RegisterHandler(s, "All", c.Topic, h, nil), "register")
	}
	var opts []psrpc.ClientOption
	for i, ic := range c.Cli {
		opts = append(opts, psrpc.WithClientRPCInterceptors(w.clientIcpt(c, -1, want("Do"), ic, func(int) int { return i })))
	}
	multi := func(call int, ic c16Icpt, pos func(int) int) psrpc.ClientMultiRPCInterceptor {
		return func(info psrpc.RPCInfo, next psrpc.ClientMultiRPCHandler) psrpc.ClientMultiRPCHandler {
			w.info(info, want("All"), "a multi interceptor")
			if call >= 0 && c.Slow {
				time.Sleep(msd(ic.Arg))
			}
			return &c16Multi{ClientMultiRPCHandler: next, w: w, ic: ic, pos: pos, call: call}
		}
	}
	var mis []psrpc.ClientMultiRPCInterceptor
	for i, ic := range c.Mul {
		mis = append(mis, multi(-1, ic, func(int) int { return i }))
	}
	if c.Split == 1 {
		for _, i := range mis {
			opts = append(opts, psrpc.WithClientMultiRPCInterceptors(i))
		}
	} else {
		opts = append(opts, psrpc.WithClientMultiRPCInterceptors(mis...))
	}
	for i := range c.Hooks[0] {
		opts = append(opts, psrpc.WithClientRequestHooks(func(ctx context.Context, m proto.Message, info psrpc.RPCInfo) {
			w.info(info, want(info.Method), "a request hook")
			w.log(m.(Str).GetValue(), "reqhook%d %s md=%s", i, m.(Str).GetValue(), metadata.OutgoingContextMetadata(ctx)["md"])
		}))
	}
	for i := range c.Hooks[1] {
		opts = append(opts, psrpc.WithClientResponseHooks(func(ctx context.Context, m proto.Message, info psrpc.RPCInfo, res proto.Message, err error) {
			w.info(info, want(info.Method), "a response hook")
			w.log(m.(Str).GetValue(), "reshook%d %s md=%s %s", i, m.(Str).GetValue(), metadata.OutgoingContextMetadata(ctx)["md"], c16Of(res, err))
		}))
	}
	if c.Split == 3 {
		opts = []psrpc.ClientOption{psrpc.WithClientOptions(opts...)}
	}
	if n := c.Prefix - 1; n >= 0 && n <= len(opts) {
		o, err := client.NewRPCClientWithStreams(define("Svc", "other", methods...), fab.Bus(), opts[:n]...)
		must(e, err, "new client")
		defer o.Close()
	}
	cl, err := client.NewRPCClient(define("Svc", "cli", methods...), fab.Bus(), opts...)
	must(e, err, "new client")
	time.Sleep(time.Second)

	var wg sync.WaitGroup
	results := make([][]string, len(c.Calls))
	for k, q := range c.Calls {
		wg.Add(1)
		go func() {
			defer wg.Done()
			time.Sleep(msd(q.At))
			ctx := metadata.NewContextWithOutgoingMetadata(context.Background(), metadata.Metadata{"md": fmt.Sprint("c", k)})
			req := S(fmt.Sprint(k, "|"))
			o := []psrpc.RequestOption{psrpc.WithRequestTimeout(5 * time.Second)}
			if q.How == "single" {
				n := len(c.Cli)
				for _, ic := range c.Req {
					if ic.Per>>k&1 == 1 {
						p := n
						o = append(o, psrpc.WithRequestInterceptors(w.clientIcpt(c, k, want("Do"), ic, func(int) int { return p })))
						n++
					}
				}
				res, err := client.RequestSingle[Str](ctx, cl, "Do", c.Topic, req, o...)
				results[k] = []string{c16Of(res, err).String()}
				w.log(req.GetValue(), "returned %s", c16Of(res, err))
				return
			}
			n := len(c.Mul)
			var is []psrpc.ClientMultiRPCInterceptor
			for _, ic := range c.MulReq {
				if ic.Per>>k&1 == 1 {
					p := n
					is = append(is, multi(k, ic, func(int) int { return p }))
					n++
				}
			}
			if len(is) > 0 {
				o = append(o, psrpc.WithRequestInterceptors(is...))
			}
			ch, err := client.RequestMulti[Str](ctx, cl, "All", c.Topic, req, o...)
			if err != nil {
				results[k] = []string{c16Of(nil, err).String()}
				w.log(req.GetValue(), "returned %s", c16Of(nil, err))
				return
			}
			for r := range ch {
				results[k] = append(results[k], c16Of(r.Result, r.Err).String())
			}
			w.log(req.GetValue(), "closed")
		}()
	}
	if !within(20*time.Minute, wg.Wait) {
		e.Fatalf("a call had not returned after twenty minutes")
	}
	time.Sleep(time.Minute)
	w.mu.Lock()
	defer w.mu.Unlock()
	changed := 0
	for k, q := range c.Calls {
		got := w.trace[fmt.Sprint(k)]
		s := &c16Sim{c: c, call: q, name: fmt.Sprint(k)}
		req, md := fmt.Sprint(k, "|"), fmt.Sprint("c", k)
		for i := range c.Hooks[0] {
			s.add("reqhook%d %s md=%s", i, req, md)
		}
		if q.How == "single" {
			chain := c.rpcChain(k)
			r := s.client(chain, 0, req, md, 5000)
			for i := range c.Hooks[1] {
				s.add("reshook%d %s md=%s %s", i, req, md, r)
			}
			s.add("returned %s", r)
			c16Diff(e, k, got, s.log)
			changed += len(chain) + len(c.Srv)
			continue
		}
		chain := c.mulChain(k)
		changed += len(chain) + len(c.Srv)
		timeout, failed := 5000, false
		mreq, mmd := req, md
		// what each interceptor hands on is what the next one traces
		var reqs []string
		for i, ic := range chain {
			tag := fmt.Sprintf("M%d", i)
			s.add("%s in %s md=%s", tag, mreq, mmd)
			reqs = append(reqs, mreq)
			switch ic.Do {
			case "req":
				mreq += "/" + tag
			case "md":
				mmd += "+" + tag
			case "opt":
				timeout = 10000 + 1000*ic.Arg
			case "shorterr":
				r := c16Res{err: "out_of_range|" + mreq + "/" + tag}
				for j := range c.Hooks[1] {
					s.add("reshook%d %s md=%s %s", j, req, md, r)
				}
				s.add("returned %s", r)
				failed = true
			}
			if failed {
				break
			}
		}
		if failed {
			c16Diff(e, k, got, s.log)
			continue
		}
		// then the servers, in any order, each in its own; then each response; then the close
		pre := len(s.log)
		if len(got) < pre {
			pre = len(got)
		}
		c16Diff(e, k, got[:pre], s.log)
		rest := got[pre:]
		var results0 []string
		bySrv := map[int][]string{}
		var tail []string
		for srv := range c.Servers {
			x := &c16Sim{c: c, call: q}
			r := x.server(c.Srv, 0, srv, mreq, mmd, timeout)
			mark := c16Res{val: r.val, err: r.err}.String()
			dropped := false
			for i := range c.Hooks[1] {
				x.add("reshook%d %s md=%s %s", i, mreq, mmd, r)
			}
			for i, ic := range chain {
				tag := fmt.Sprintf("M%d", i)
				x.add("%s recv %s", tag, r)
				if ic.Do == "drop" {
					dropped = true
					break
				}
				r = ic.transform(r, tag)
			}
			if !dropped {
				results0 = append(results0, r.String())
			}
			bySrv[srv] = x.log
			_ = mark
		}
		for i := range chain {
			tail = append(tail, fmt.Sprintf("M%d close", i))
		}
		tail = append(tail, "closed")
		if len(rest) < len(tail) {
			e.Failf("call %d (multi): trace %q, want it to end with %q", k, rest, tail)
			continue
		}
		c16Diff(e, k, rest[len(rest)-len(tail):], tail)
		rest = rest[:len(rest)-len(tail)]
		if left, ok := c16Merge(rest, bySrv, c.Servers); !ok {
			e.Failf("call %d (multi): trace\n  %s\nis not an interleaving of the servers'\n  %v\nat %q", k, strings.Join(rest, "\n  "), bySrv, left)
		}
		sort.Strings(results0)
		sort.Strings(results[k])
		if !reflect.DeepEqual(results0, results[k]) && len(results0)+len(results[k]) > 0 {
			e.Failf("call %d (multi): results %q, want %q", k, results[k], results0)
		}
	}
	e.Class("bus: %s", c.Bus)
	e.Class("chain: %s", bucket(changed))
	if changed > 0 {
		e.NonTrivial()
	}
	cl.Close()
	fab.Close()
}

// c16Merge says whether a trace is an interleaving of the servers' own.
func c16Merge(rest []string, by map[int][]string, n int) (string, bool) {
	type state [3]int
	states := map[state]bool{{}: true}
	for _, x := range rest {
		next := map[state]bool{}
		for s := range states {
			for k := range n {
				if s[k] < len(by[k]) && by[k][s[k]] == x {
					t := s
					t[k]++
					next[t] = true
				}
			}
		}
		if len(next) == 0 {
			return x, false
		}
		states = next
	}
	for s := range states {
		done := true
		for k := range n {
			done = done && s[k] == len(by[k])
		}
		if done {
			return "", true
		}
	}
	return "the end", false
}

func c16Diff(e *engine.Env, k int, got, want []string) {
	for i := range max(len(got), len(want)) {
		g, x := "nothing", "nothing"
		if i < len(got) {
			g = got[i]
		}
		if i < len(want) {
			x = want[i]
		}
		if g != x {
			e.Failf("call %d, step %d: got %q, want %q; trace:\n  %s", k, i, g, x, strings.Join(got, "\n  "))
			return
		}
	}
}

// ---------------------------------------------------------------- streams

type c16StIcpt struct {
	Do  string // pass send recv senderr recverr cause opt
	Arg int
}

type c16StOp struct {
	Side    int // 0 client 1 server
	Timeout int // 0: the stream's
}

type c16StCase struct {
	Bus         string
	Claim       bool
	Topic       []string
	Srv         []c16StIcpt
	Cli, Req    []c16StIcpt
	Ops         []c16StOp
	Closer      int // 0 client, 1 server, 2 the handler returns
	Cause       int
	Split       bool
	SecondClose bool
}

func genC16St(t *rapid.T) c16StCase {
	icpt := rapid.Custom(func(t *rapid.T) c16StIcpt {
		return c16StIcpt{
			Do:  rapid.SampledFrom([]string{"pass", "send", "recv", "cause", "opt", "send", "recv", "senderr", "recverr"}).Draw(t, "do"),
			Arg: rapid.IntRange(0, 4).Draw(t, "arg"),
		}
	})
	few := 1
	if rapid.IntRange(0, 9).Draw(t, "many") == 0 {
		few = 5
	}
	return c16StCase{
		Bus:   genBus(t, 5),
		Claim: rapid.Bool().Draw(t, "claim"),
		Topic: rapid.SliceOfN(rapid.SampledFrom([]string{"a", "b"}), 0, 2).Draw(t, "topic"),
		Srv:   rapid.SliceOfN(icpt, 0, 3*few).Draw(t, "srv"),
		Cli:   rapid.SliceOfN(icpt, 0, 3*few).Draw(t, "cli"),
		Req:   rapid.SliceOfN(icpt, 0, 2*few).Draw(t, "req"),
		Ops: rapid.SliceOfN(rapid.Custom(func(t *rapid.T) c16StOp {
			return c16StOp{rapid.IntRange(0, 1).Draw(t, "side"), rapid.SampledFrom([]int{0, 0, 20, 900}).Draw(t, "timeout")}
		}), 0, 6).Draw(t, "ops"),
		Closer:      rapid.IntRange(0, 2).Draw(t, "closer"),
		Cause:       rapid.IntRange(0, 4).Draw(t, "cause"),
		Split:       rapid.Bool().Draw(t, "split"),
		SecondClose: rapid.Bool().Draw(t, "second"),
	}
}

type c16StHandler struct {
	psrpc.StreamHandler
	ic  c16StIcpt
	tag string
	log func(side int, format string, args ...any)
	at  int
}

func (h *c16StHandler) Send(m proto.Message, opts ...psrpc.StreamOption) error {
	v := m.(Str).GetValue()
	h.log(h.at, "%s send %s", h.tag, v)
	switch h.ic.Do {
	case "send":
		m = S(v + "/" + h.tag)
	case "senderr":
		if h.ic.Arg == 0 || strings.HasPrefix(v, fmt.Sprint(h.ic.Arg)) {
			return psrpc.NewErrorf(psrpc.OutOfRange, "%s/%s", v, h.tag)
		}
	case "opt":
		opts = append(opts[:len(opts):len(opts)], psrpc.WithTimeout(msd(100*(h.ic.Arg+1))))
	}
	return h.StreamHandler.Send(m, opts...)
}

func (h *c16StHandler) Recv(m proto.Message) error {
	v := m.(Str).GetValue()
	h.log(h.at, "%s recv %s", h.tag, v)
	switch h.ic.Do {
	case "recv":
		m = S(v + "/" + h.tag)
	case "recverr":
		if h.ic.Arg == 0 || strings.HasPrefix(v, fmt.Sprint(h.ic.Arg)) {
			return psrpc.NewErrorf(psrpc.OutOfRange, "%s/%s", v, h.tag)
		}
	}
	return h.StreamHandler.Recv(m)
}

func (h *c16StHandler) Close(cause error) error {
	h.log(h.at, "%s close %s", h.tag, c16Cause(cause))
	if h.ic.Do == "cause" {
		cause = psrpc.NewErrorf(psrpc.DataLoss, "cause %d", h.ic.Arg)
	}
	return h.StreamHandler.Close(cause)
}

func c16Cause(err error) string {
	if err == nil {
		return "nil"
	}
	return err.Error()
}

func runC16St(e *engine.Env, c c16StCase) {
	fab := NewFabric(c.Bus)
	m := Method{Name: "St", Claim: c.Claim}
	want := psrpc.RPCInfo{Service: "Svc", Method: "St", Topic: c.Topic}
	w := &c16World{e: e}
	var mu sync.Mutex
	var traces [2][]string
	log := func(side int, format string, args ...any) {
		mu.Lock()
		traces[side] = append(traces[side], fmt.Sprintf(format, args...))
		mu.Unlock()
	}
	take := func(side int) []string {
		mu.Lock()
		defer mu.Unlock()
		t := traces[side]
		traces[side] = nil
		return t
	}
	chain := [2][]c16StIcpt{append(append([]c16StIcpt(nil), c.Cli...), c.Req...), c.Srv}
	wraps := [2]int{}
	make1 := func(side, i int) psrpc.StreamInterceptor {
		return func(info psrpc.RPCInfo, next psrpc.StreamHandler) psrpc.StreamHandler {
			w.info(info, want, "a stream interceptor")
			mu.Lock()
			wraps[side]++
			mu.Unlock()
			return &c16StHandler{StreamHandler: next, ic: chain[side][i], tag: fmt.Sprintf("%c%d", "KV"[side], i), log: log, at: side}
		}
	}
	var sis []psrpc.StreamInterceptor
	for i := range c.Srv {
		sis = append(sis, make1(1, i))
	}
	sopts := []psrpc.ServerOption{psrpc.WithServerTimeout(time.Second)}
	copts := []psrpc.ClientOption{psrpc.WithClientTimeout(time.Second)}
	if c.Split {
		for _, i := range sis {
			sopts = append(sopts, psrpc.WithServerStreamInterceptors(i))
		}
	} else {
		sopts = append(sopts, psrpc.WithServerStreamInterceptors(sis...))
	}
	for i := range c.Cli {
		copts = append(copts, psrpc.WithClientStreamInterceptors(make1(0, i)))
	}
	var reqs []psrpc.StreamInterceptor
	for i := range c.Req {
		reqs = append(reqs, make1(0, len(c.Cli)+i))
	}
	s := server.NewRPCServer(define("Svc", "srv", m), fab.Bus(), sopts...)
	served := make(chan psrpc.ServerStream[Str, Str], 1)
	ret := make(chan error, 1)
	must(e, server.RegisterStreamHandler[Str, Str](s, "St", c.Topic, func(ss psrpc.ServerStream[Str, Str]) error {
		served <- ss
		select {
		case err := <-ret:
			return err
		case <-ss.Context().Done():
			return nil
		}
	}, nil), "register")
	cl, err := client.NewRPCClientWithStreams(define("Svc", "cli", m), fab.Bus(), copts...)
	must(e, err, "new client")
	time.Sleep(time.Second)
	var ro []psrpc.RequestOption
	if len(reqs) > 0 {
		ro = append(ro, psrpc.WithRequestInterceptors(reqs...))
	}
	cs, err := client.OpenStream[*wrapperspb.StringValue, *wrapperspb.StringValue](context.Background(), cl, "St", c.Topic, ro...)
	must(e, err, "open")
	ss := <-served
	ends := [2]psrpc.ServerStream[Str, Str]{cs.(psrpc.ServerStream[Str, Str]), ss}
	time.Sleep(ms)
	if wraps != [2]int{len(chain[0]), len(chain[1])} {
		e.Failf("the stream made %v handlers from %d client and %d server interceptors", wraps, len(chain[0]), len(chain[1]))
	}
	recv := func(side int) string {
		select {
		case m := <-ends[side].Channel():
			return m.GetValue()
		default:
			return "nothing"
		}
	}
	for n, op := range c.Ops {
		v := fmt.Sprintf("%d", n)
		timeout := 1000
		var o []psrpc.StreamOption
		if op.Timeout > 0 {
			timeout = op.Timeout
			o = append(o, psrpc.WithTimeout(msd(op.Timeout)))
		}
		hit := func(ic c16StIcpt, v string) bool {
			return ic.Arg == 0 || strings.HasPrefix(v, fmt.Sprint(ic.Arg))
		}
		var want [2][]string
		x, wantErr, got := v, "", ""
		for i, ic := range chain[op.Side] {
			tag := fmt.Sprintf("%c%d", "KV"[op.Side], i)
			want[op.Side] = append(want[op.Side], tag+" send "+x)
			if ic.Do == "send" {
				x += "/" + tag
			}
			if ic.Do == "opt" {
				timeout = 100 * (ic.Arg + 1)
			}
			if ic.Do == "senderr" && hit(ic, v) {
				wantErr = fmt.Sprintf("%s/%s", x, tag)
				break
			}
		}
		dead := false
		if wantErr == "" {
			got = x
			for i, ic := range chain[1-op.Side] {
				tag := fmt.Sprintf("%c%d", "KV"[1-op.Side], i)
				want[1-op.Side] = append(want[1-op.Side], tag+" recv "+got)
				if ic.Do == "recv" {
					got += "/" + tag
				}
				if ic.Do == "recverr" && hit(ic, v) {
					dead = true
					break
				}
			}
		}
		start := time.Now()
		err := ends[op.Side].Send(S(v), o...)
		took := time.Since(start)
		time.Sleep(ms)
		r := recv(1 - op.Side)
		switch {
		case wantErr != "":
			if err == nil || err.Error() != wantErr || code(err) != psrpc.OutOfRange || r != "nothing" {
				e.Failf("send %d: %v (received: %s), want the interceptor's error %q", n, err, r, wantErr)
			}
		case dead:
			if code(err) != psrpc.DeadlineExceeded || took != msd(timeout) || r != "nothing" {
				e.Failf("send %d that was refused by the receiver's interceptor: %v after %v (received: %s), want a timeout after %d ms", n, err, took, r, timeout)
			}
		default:
			if err != nil || r != got {
				e.Failf("send %d: %v (received: %s), want %q received", n, err, r, got)
			}
		}
		for side := range 2 {
			if t := take(side); !(len(t) == 0 && len(want[side]) == 0) && !reflect.DeepEqual(t, want[side]) {
				e.Failf("send %d: the interceptors of side %d saw %q, want %q", n, side, t, want[side])
			}
		}
	}
	// the close
	side := min(c.Closer, 1)
	cause := stCause(c.Cause)
	switch c.Closer {
	case 2:
		ret <- cause
	default:
		_ = ends[side].Close(cause)
	}
	time.Sleep(10 * ms)
	if c.SecondClose {
		_ = ends[side].Close(stPlain)
		time.Sleep(ms)
	}
	var first []string
	x := cause
	for i, ic := range chain[side] {
		first = append(first, fmt.Sprintf("%c%d close %s", "KV"[side], i, c16Cause(x)))
		if ic.Do == "cause" {
			x = psrpc.NewErrorf(psrpc.DataLoss, "cause %d", ic.Arg)
		}
	}
	if x == nil {
		x = psrpc.ErrStreamClosed
	}
	if t := take(side); len(t) < len(first) || len(first) > 0 && !reflect.DeepEqual(t[:len(first)], first) {
		e.Failf("the interceptors of the closing side saw %q, want it to start with %q", t, first)
	} else {
		c16Whole(e, t, "KV"[side], len(chain[side]))
	}
	c16Whole(e, take(1-side), "KV"[1-side], len(chain[1-side]))
	for k, end := range ends {
		if end.Context().Err() == nil {
			e.Failf("end %d is open after the close", k)
		}
		if err := end.Err(); err == nil || err.Error() != x.Error() {
			e.Failf("end %d ended with %v, want %v", k, err, x)
		}
	}
	e.Class("bus: %s", c.Bus)
	e.Class("sends: %s", bucket(len(c.Ops)))
	if len(chain[0])+len(chain[1]) > 0 {
		e.NonTrivial()
	}
	cl.Close()
	s.Close(true)
	time.Sleep(time.Second)
	fab.Close()
}

// c16Whole checks that closes went through all n interceptors, in order.
func c16Whole(e *engine.Env, t []string, letter byte, n int) {
	for i, x := range t {
		if !strings.HasPrefix(x, fmt.Sprintf("%c%d close ", letter, i%n)) {
			e.Failf("the interceptors %c were closed out of order: %q", letter, t)
			return
		}
	}
	if n > 0 && len(t)%n != 0 {
		e.Failf("a close did not go through all interceptors: %q", t)
	}
}

func init() {
	engine.Add("C16", "streams", "some interceptor was in a chain",
		1500, 25000, genC16St, runC16St)
	engine.Add("C16", "rpc", "some interceptor was in the chain of some call",
		2000, 30000, genC16, runC16)
}
