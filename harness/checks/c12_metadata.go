package checks

import (
	"context"
	"fmt"
	"maps"
	"strconv"
	"strings"
	"sync"
	"time"

	"google.golang.org/protobuf/types/known/wrapperspb"
	"pgregory.net/rapid"

	"github.com/livekit/psrpc"
	"github.com/livekit/psrpc/pkg/client"
	"github.com/livekit/psrpc/pkg/metadata"
	"github.com/livekit/psrpc/pkg/server"
	"github.com/livekit/psrpc/verif/engine"
)

// mdOp derives a context from an earlier one, or changes a map.
type mdOp struct {
	Do   string // set merge append value cancel passed returned
	From int    // index of the context it starts from, modulo their number
	KV   []string
	Nil  bool // pass a nil map
}

func genMDOp(t *rapid.T) mdOp {
	return mdOp{
		Do:   rapid.SampledFrom([]string{"merge", "append", "set", "append", "merge", "value", "cancel", "passed", "returned"}).Draw(t, "do"),
		From: rapid.OneOf(rapid.IntRange(0, 3), rapid.IntRange(0, 20)).Draw(t, "from"),
		KV:   rapid.SliceOfN(rapid.OneOf(rapid.SampledFrom([]string{"a", "b", "c"}), rapid.SampledFrom([]string{"a", "b", "", "ü", "A b\n", "a", "b", "", "ü", mdLong, "a" + mdLong}), rapid.String()), 0, 7).Draw(t, "kv"),
		Nil:  rapid.IntRange(0, 9).Draw(t, "nil") == 9,
	}
}

// mdCtx is a context with the metadata it should have.
type mdCtx struct {
	ctx  context.Context
	want map[string]string
}

type mdWorld struct {
	e      *engine.Env
	ctxs   []mdCtx
	passed []metadata.Metadata
	cancel []context.CancelFunc
}

type mdKey struct{ i int }

var mdLong = strings.Repeat("long ", 300)

func (w *mdWorld) apply(ops []mdOp) {
	w.ctxs = []mdCtx{{context.Background(), nil}}
	for i, op := range ops {
		from := w.ctxs[op.From%len(w.ctxs)]
		var m metadata.Metadata
		if !op.Nil {
			m = metadata.Metadata{}
			for k := 1; k < len(op.KV); k += 2 {
				m[op.KV[k-1]] = op.KV[k]
			}
		}
		n := mdCtx{from.ctx, maps.Clone(from.want)}
		if n.want == nil {
			n.want = map[string]string{}
		}
		add := func() {
			for k := 1; k < len(op.KV); k += 2 {
				n.want[op.KV[k-1]] = op.KV[k]
			}
			w.ctxs = append(w.ctxs, n)
		}
		switch op.Do {
		case "set":
			n.ctx = metadata.NewContextWithOutgoingMetadata(from.ctx, m)
			n.want = maps.Clone(m)
			w.ctxs = append(w.ctxs, n)
			w.passed = append(w.passed, m)
		case "merge":
			n.ctx = metadata.WithOutgoingMetadata(from.ctx, m)
			maps.Copy(n.want, m)
			w.ctxs = append(w.ctxs, n)
			w.passed = append(w.passed, m)
		case "append":
			kv := append([]string(nil), op.KV...)
			n.ctx = metadata.AppendMetadataToOutgoingContext(from.ctx, kv...)
			add()
			for k := range kv {
				kv[k] = "changed later"
			}
		case "value":
			n.ctx = context.WithValue(from.ctx, mdKey{i}, i)
			w.ctxs = append(w.ctxs, n)
		case "cancel":
			var c context.CancelFunc
			n.ctx, c = context.WithCancel(from.ctx)
			w.cancel = append(w.cancel, c)
			w.ctxs = append(w.ctxs, n)
		case "passed":
			for _, p := range w.passed {
				if p != nil {
					p["a"] = "changed in the map passed in"
					p["new"] = "x"
				}
			}
		case "returned":
			if out := metadata.OutgoingContextMetadata(from.ctx); out != nil {
				out["a"] = "changed in the map handed out"
				out["new"] = "x"
			}
		}
		w.check(fmt.Sprintf("after operation %d", i))
	}
}

func sameMap(a, b map[string]string) bool {
	if len(a) != len(b) {
		return false
	}
	for k, v := range a {
		if w, ok := b[k]; !ok || w != v {
			return false
		}
	}
	return true
}

func (w *mdWorld) check(when string) {
	for i, c := range w.ctxs {
		if got := metadata.OutgoingContextMetadata(c.ctx); !sameMap(got, c.want) {
			w.e.Failf("%s: context %d has metadata %q, want %q", when, i, got, c.want)
		}
	}
}

type c12CtxCase struct {
	Ops   []mdOp
	Racer []mdOp // applied by several goroutines at once to the contexts made by Ops
}

func runC12Ctx(e *engine.Env, c c12CtxCase) {
	w := &mdWorld{e: e}
	w.apply(c.Ops)
	var wg sync.WaitGroup
	for g := range 3 {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i, op := range c.Racer {
				from := w.ctxs[(op.From+g)%len(w.ctxs)]
				k := fmt.Sprintf("racer-%d-%d", g, i)
				var ctx context.Context
				want := maps.Clone(from.want)
				if want == nil {
					want = map[string]string{}
				}
				want[k] = "v"
				if op.Do == "append" {
					ctx = metadata.AppendMetadataToOutgoingContext(from.ctx, k, "v")
				} else {
					ctx = metadata.WithOutgoingMetadata(from.ctx, metadata.Metadata{k: "v"})
				}
				if got := metadata.OutgoingContextMetadata(ctx); !sameMap(got, want) {
					e.Failf("a context derived while others were derived from the same one has metadata %q, want %q", got, want)
				}
			}
		}()
	}
	wg.Wait()
	w.check("after concurrent derivations")
	for _, c := range w.cancel {
		c()
	}
	kinds := map[string]bool{}
	for _, op := range c.Ops {
		kinds[op.Do] = true
	}
	e.Class("contexts: %s", bucket(len(w.ctxs)))
	if len(w.ctxs) > 3 && len(kinds) > 2 {
		e.NonTrivial()
	}
}

type c12Call struct {
	How    string // single multi stream nested
	Client int
	Ctx    int
	At     int
	Work   int
}

type c12Case struct {
	Bus     string
	Claim   bool
	IDs     []string // of the clients, "" is generated
	Servers int
	Ops     []mdOp
	Calls   []c12Call
	Lat     map[string]int
}

func genC12(t *rapid.T) c12Case {
	c := c12Case{
		Bus:     genBus(t, 3),
		Claim:   rapid.Bool().Draw(t, "claim"),
		Servers: rapid.IntRange(1, 2).Draw(t, "servers"),
		Ops:     rapid.SliceOfN(rapid.Custom(genMDOp), 0, 8).Draw(t, "ops"),
		Lat:     map[string]int{},
	}
	for i := range rapid.IntRange(1, 3).Draw(t, "clients") {
		c.IDs = append(c.IDs, rapid.SampledFrom([]string{"", fmt.Sprint("client", i), fmt.Sprint("my-client_", i)}).Draw(t, "id"))
	}
	for _, k := range []string{"REQ", "OPEN", "RCLAIM"} {
		if v := rapid.SampledFrom([]int{0, 0, 15}).Draw(t, "lat"+k); v > 0 {
			c.Lat[k] = v
		}
	}
	c.Calls = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) c12Call {
		return c12Call{
			How:    rapid.SampledFrom([]string{"single", "multi", "stream", "nested"}).Draw(t, "how"),
			Client: rapid.IntRange(0, len(c.IDs)-1).Draw(t, "client"),
			Ctx:    rapid.IntRange(0, 12).Draw(t, "ctx"),
			At:     rapid.SampledFrom([]int{0, 0, 3, 70}).Draw(t, "at"),
			Work:   rapid.SampledFrom([]int{0, 2, 30}).Draw(t, "work"),
		}
	}), 1, 8).Draw(t, "calls")
	return c
}

func runC12(e *engine.Env, c c12Case) {
	w := &mdWorld{e: e}
	w.apply(c.Ops)
	fab := NewFabric(c.Bus)
	net := NewNet(nil, c.Lat)
	methods := []Method{{Name: "Do", Claim: c.Claim, Affinity: c.Claim}, {Name: "All", Multi: true}, {Name: "St", Claim: c.Claim, Affinity: c.Claim}, {Name: "Hop", Claim: c.Claim}}

	type made struct {
		ctx  mdCtx
		at   time.Time
		id   string
		runs int
	}
	var mu sync.Mutex
	calls := make([]made, len(c.Calls))
	judge := func(where string, ctx context.Context, i int, inner bool) {
		mu.Lock()
		m := &calls[i]
		id, at, want := m.id, m.at, m.ctx.want
		mu.Unlock()
		if inner {
			id, want = "hop", nil
		}
		for n := range 2 {
			h := metadata.IncomingHeader(ctx)
			if h == nil {
				e.Failf("call %d: %s got no header", i, where)
				return
			}
			if !sameMap(h.Metadata, want) {
				e.Failf("call %d: %s got metadata %q, want %q (look %d)", i, where, h.Metadata, want, n)
			}
			if h.RemoteID != id {
				e.Failf("call %d: %s got the client id %q, want %q", i, where, h.RemoteID, id)
			}
			if !inner && !h.SentAt.Equal(at) {
				e.Failf("call %d: %s got the send time %v, want %v", i, where, h.SentAt, at)
			}
			if h.Metadata != nil {
				h.Metadata["a"] = "changed by the handler"
				h.Metadata["handler"] = "x"
			}
		}
		if out := metadata.OutgoingContextMetadata(ctx); len(out) > 0 {
			e.Failf("call %d: %s's context has outgoing metadata %q", i, where, out)
		}
	}
	index := func(s string) int {
		i, err := strconv.Atoi(s)
		if err != nil || i >= len(c.Calls) {
			e.Failf("a handler got the request %q", s)
			return -1
		}
		return i
	}
	hop, err := client.NewRPCClient(define("Svc", "hop", methods...), net.Wrap(fab.Bus()))
	must(e, err, "new client")
	var servers []*server.RPCServer
	for k := range c.Servers {
		s := server.NewRPCServer(define("Svc", fmt.Sprint("srv", k), methods...), net.Wrap(fab.Bus()))
		servers = append(servers, s)
		done := func(i int) {
			mu.Lock()
			calls[i].runs++
			mu.Unlock()
		}
		all := func(ctx context.Context, r Str) (Str, error) {
			if i := index(r.GetValue()); i >= 0 {
				judge("the handler", ctx, i, false)
				time.Sleep(msd(c.Calls[i].Work))
				judge("the handler", ctx, i, false)
				done(i)
			}
			return r, nil
		}
		must(e, server.RegisterHandler(s, "All", nil, all, nil), "register")
		if k > 0 && !c.Claim {
			continue
		}
		var aff server.AffinityFunc[Str]
		var saff server.StreamAffinityFunc
		if c.Claim {
			aff = func(ctx context.Context, r Str) float32 {
				if i := index(r.GetValue()); i >= 0 {
					judge("the affinity function", ctx, i, false)
				}
				return 1
			}
			saff = func(ctx context.Context) float32 {
				if h := metadata.IncomingHeader(ctx); h == nil || h.Metadata["call"] == "" {
					e.Failf("the affinity function of a stream got the header %v", h)
				} else if i := index(h.Metadata["call"]); i >= 0 {
					judge("the affinity function", ctx, i, false)
				}
				return 1
			}
		}
		must(e, server.RegisterHandler(s, "Do", nil, all, aff), "register")
		must(e, server.RegisterHandler(s, "Hop", nil, func(ctx context.Context, r Str) (Str, error) {
			i := index(r.GetValue())
			if i < 0 {
				return r, nil
			}
			h := metadata.IncomingHeader(ctx)
			if h != nil && h.RemoteID == "hop" {
				judge("the handler of a nested call", ctx, i, true)
				done(i)
				return r, nil
			}
			judge("the handler", ctx, i, false)
			res, err := client.RequestSingle[Str](ctx, hop, "Hop", nil, r)
			if err != nil {
				e.Failf("call %d: the nested call failed with %v", i, err)
			}
			judge("the handler", ctx, i, false)
			return res, err
		}, nil), "register")
		must(e, server.RegisterStreamHandler[Str, Str](s, "St", nil, func(ss psrpc.ServerStream[Str, Str]) error {
			h := metadata.IncomingHeader(ss.Context())
			if h == nil {
				e.Failf("a stream handler got no header")
				return nil
			}
			if i := index(h.Metadata["call"]); i >= 0 {
				judge("the stream handler", ss.Context(), i, false)
				time.Sleep(msd(c.Calls[i].Work))
				judge("the stream handler", ss.Context(), i, false)
				done(i)
			}
			return nil
		}, saff), "register")
	}
	var clients []*client.RPCClient
	var ids []string
	for i, id := range c.IDs {
		var opts []psrpc.ClientOption
		want := fmt.Sprint("cli", i)
		if id != "" {
			opts = append(opts, psrpc.WithClientID(id))
			want = id
		}
		cl, err := client.NewRPCClientWithStreams(define("Svc", fmt.Sprint("cli", i), methods...), net.Wrap(fab.Bus()), opts...)
		must(e, err, "new client")
		clients = append(clients, cl)
		ids = append(ids, want)
	}
	time.Sleep(time.Second)
	var wg sync.WaitGroup
	for i, x := range c.Calls {
		wg.Add(1)
		go func() {
			defer wg.Done()
			time.Sleep(msd(x.At))
			m := w.ctxs[x.Ctx%len(w.ctxs)]
			md := metadata.Metadata{"call": strconv.Itoa(i)}
			m = mdCtx{metadata.WithOutgoingMetadata(m.ctx, md), maps.Clone(m.want)}
			if m.want == nil {
				m.want = map[string]string{}
			}
			m.want["call"] = strconv.Itoa(i)
			mu.Lock()
			calls[i].ctx, calls[i].at, calls[i].id = m, time.Now(), ids[x.Client]
			mu.Unlock()
			md["call"] = "changed"
			cl, req := clients[x.Client], S(strconv.Itoa(i))
			var err error
			switch x.How {
			case "single":
				_, err = client.RequestSingle[Str](m.ctx, cl, "Do", nil, req)
			case "nested":
				_, err = client.RequestSingle[Str](m.ctx, cl, "Hop", nil, req)
			case "multi":
				var ch <-chan *psrpc.Response[Str]
				if ch, err = client.RequestMulti[Str](m.ctx, cl, "All", nil, req); err == nil {
					for range ch {
					}
				}
			case "stream":
				var cs psrpc.ClientStream[Str, Str]
				if cs, err = client.OpenStream[*wrapperspb.StringValue, *wrapperspb.StringValue](m.ctx, cl, "St", nil); err == nil {
					within(10*time.Second, func() { <-cs.Context().Done() })
				}
			}
			if err != nil {
				e.Failf("call %d (%s) failed with %v", i, x.How, err)
			}
		}()
	}
	wg.Wait()
	time.Sleep(5 * time.Second)
	mu.Lock()
	meta := 0
	for i, m := range calls {
		want := 1
		if c.Calls[i].How == "multi" {
			want = c.Servers
		}
		if m.runs != want && !e.Failed() {
			e.Failf("call %d (%s) was handled %d times, want %d", i, c.Calls[i].How, m.runs, want)
		}
		meta = max(meta, len(m.ctx.want))
		e.Class("how: %s", c.Calls[i].How)
	}
	mu.Unlock()
	w.check("after the calls")
	e.Class("bus: %s", c.Bus)
	if meta > 1 && len(c.Calls) > 1 {
		e.NonTrivial()
	}
	for _, c := range w.cancel {
		c()
	}
	for _, cl := range clients {
		cl.Close()
	}
	hop.Close()
	for _, s := range servers {
		s.Close(true)
	}
	time.Sleep(time.Second)
	fab.Close()
	time.Sleep(time.Minute)
}

func init() {
	engine.Add("C12", "contexts", "more than three contexts and more than two kinds of operations",
		4000, 60000, func(t *rapid.T) c12CtxCase {
			return c12CtxCase{
				Ops:   rapid.SliceOfN(rapid.Custom(genMDOp), 0, 16).Draw(t, "ops"),
				Racer: rapid.SliceOfN(rapid.Custom(genMDOp), 0, 5).Draw(t, "racer"),
			}
		}, runC12Ctx, engine.Real())
	engine.Add("C12", "delivery", "several calls, some of them with metadata besides its tag",
		1500, 25000, genC12, runC12)
}
