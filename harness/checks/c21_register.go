package checks

import (
	"context"
	"errors"
	"fmt"
	"slices"
	"sort"
	"strings"
	"sync"
	"time"

	"pgregory.net/rapid"

	"github.com/livekit/psrpc"
	"github.com/livekit/psrpc/internal/bus"
	"github.com/livekit/psrpc/pkg/client"
	"github.com/livekit/psrpc/pkg/server"
	"github.com/livekit/psrpc/verif/engine"
)

var c21Methods = []Method{{Name: "Do"}, {Name: "Qu", Queue: true}, {Name: "Cl", Claim: true}, {Name: "All", Multi: true},
	{Name: "St"}, {Name: "CSt", Claim: true}}

func c21Stream(m int) bool { return strings.HasSuffix(c21Methods[m].Name, "St") }

// c21Op is one registration or deregistration, alone or of a group. Several may
// run at once, unless one of them is of a group or may fail.
type c21Op struct {
	Do     string // reg dereg rereg greg gdereg
	Srv    int
	Topic  int
	Method int
	Group  []int // methods
}

type c21Phase struct {
	Ops  []c21Op
	Fail int // the Nth subscription of the phase fails; -1: none
	Slow int // how long every subscription takes, ms
	Hold []c21Hold
}

// c21Hold is a request or a stream which lasts from the end of a phase to the end
// of a later one.
type c21Hold struct {
	Method, Topic, Phases int
}

type c21Case struct {
	Bus     string
	Servers int
	Topics  [][]string
	Phases  []c21Phase
}

func genC21Op(t *rapid.T, c *c21Case, alone bool) c21Op {
	op := c21Op{
		Srv:   rapid.IntRange(0, c.Servers-1).Draw(t, "srv"),
		Topic: rapid.IntRange(0, len(c.Topics)-1).Draw(t, "topic"),
	}
	dos := []string{"reg", "reg", "dereg", "reg", "dereg", "rereg"}
	if alone {
		dos = []string{"reg", "dereg", "greg", "greg", "gdereg"}
	}
	op.Do = rapid.SampledFrom(dos).Draw(t, "do")
	if op.Do == "greg" || op.Do == "gdereg" {
		op.Group = rapid.SliceOfN(rapid.IntRange(0, len(c21Methods)-1), 1, 5).Draw(t, "group")
		if rapid.IntRange(0, 3).Draw(t, "dups") > 0 {
			// mostly without repetitions
			var g []int
			seen := map[int]bool{}
			for _, m := range op.Group {
				if !seen[m] {
					seen[m] = true
					g = append(g, m)
				}
			}
			op.Group = g
		}
	} else {
		op.Method = rapid.IntRange(0, len(c21Methods)-1).Draw(t, "method")
	}
	return op
}

func genC21(t *rapid.T) c21Case {
	c := c21Case{Bus: genBus(t, 4), Servers: rapid.SampledFrom([]int{1, 1, 2}).Draw(t, "servers")}
	c.Topics = rapid.SliceOfNDistinct(rapid.Custom(func(t *rapid.T) []string { return genTopic(t, c.Bus == "nats") }), 1, 3, func(s []string) string { return fmt.Sprintf("%q", s) }).Draw(t, "topics")
	if rapid.IntRange(0, 2).Draw(t, "alike") == 0 {
		// topics which are the same when joined without care
		p := rapid.SampledFrom([]string{".", "|", "-", "_", "u+002e", "/"}).Draw(t, "by")
		c.Topics = rapid.SampledFrom([][][]string{
			{{"a" + p + "b", "c"}, {"a", "b" + p + "c"}, {"a", "b", "c"}},
			{{"a" + p + "b"}, {"a", "b"}},
			{{p, "a"}, {p + p + "a"}, {"a"}},
		}).Draw(t, "alikes")
	}
	n := rapid.IntRange(1, 8).Draw(t, "phases")
	for range n {
		p := c21Phase{Fail: -1}
		if rapid.IntRange(0, 2).Draw(t, "several") > 0 {
			k := rapid.IntRange(2, 4).Draw(t, "ops")
			first := genC21Op(t, &c, false)
			for range k {
				op := genC21Op(t, &c, false)
				if rapid.IntRange(0, 2).Draw(t, "same") > 0 {
					op.Srv, op.Topic, op.Method = first.Srv, first.Topic, first.Method
				}
				p.Ops = append(p.Ops, op)
			}
		} else {
			p.Ops = []c21Op{genC21Op(t, &c, true)}
			if rapid.IntRange(0, 2).Draw(t, "fails") == 0 {
				p.Fail = rapid.IntRange(0, 5).Draw(t, "fail")
			}
		}
		p.Slow = rapid.SampledFrom([]int{0, 0, 5}).Draw(t, "slow")
		if rapid.Bool().Draw(t, "holds") {
			p.Hold = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) c21Hold {
				return c21Hold{
					Method: rapid.IntRange(0, len(c21Methods)-1).Draw(t, "method"),
					Topic:  rapid.IntRange(0, len(c.Topics)-1).Draw(t, "topic"),
					Phases: rapid.IntRange(1, 4).Draw(t, "phases"),
				}
			}), 1, 2).Draw(t, "hold")
		}
		c.Phases = append(c.Phases, p)
	}
	return c
}

// c21Bus fails or delays subscriptions.
type c21Bus struct {
	psrpc.MessageBus
	mu   sync.Mutex
	n    int
	fail int
	slow int
	hit  bool
}

func (b *c21Bus) set(fail, slow int) {
	b.mu.Lock()
	b.n, b.fail, b.slow, b.hit = 0, fail, slow, false
	b.mu.Unlock()
}

func (b *c21Bus) next() bool {
	b.mu.Lock()
	slow, fails := b.slow, b.n == b.fail
	b.n++
	if fails {
		b.hit = true
	}
	b.mu.Unlock()
	time.Sleep(msd(slow))
	return fails
}

func (b *c21Bus) Subscribe(ctx context.Context, ch bus.Channel, n int) (bus.Reader, error) {
	if b.next() {
		return nil, errPublish
	}
	return b.MessageBus.Subscribe(ctx, ch, n)
}

func (b *c21Bus) SubscribeQueue(ctx context.Context, ch bus.Channel, n int) (bus.Reader, error) {
	if b.next() {
		return nil, errPublish
	}
	return b.MessageBus.SubscribeQueue(ctx, ch, n)
}

// subscriptions a handler of a method makes
func c21Subs(m int) int {
	if c21Methods[m].Claim {
		return 2
	}
	return 1
}

type c21Key struct{ Srv, Method, Topic int }

type c21Srv struct {
	srv  *server.RPCServer
	bus  *c21Bus
	subs *SubLog
}

type c21World struct {
	e    *engine.Env
	c    c21Case
	srvs []*c21Srv
	cl   *client.RPCClient

	mu    sync.Mutex
	hits  map[string][]string  // labels of the handlers that got a request
	hold  map[string]chan bool // requests which wait
	model map[c21Key]string    // label of what is registered
}

func (w *c21World) hit(req, label string) {
	w.mu.Lock()
	defer w.mu.Unlock()
	w.hits[req] = append(w.hits[req], label)
}

func (w *c21World) got(req string) []string {
	w.mu.Lock()
	defer w.mu.Unlock()
	out := append([]string(nil), w.hits[req]...)
	sort.Strings(out)
	return out
}

func (w *c21World) register(s *c21Srv, m, topic int, label string) error {
	name, tp := c21Methods[m].Name, w.c.Topics[topic]
	if c21Stream(m) {
		return server.RegisterStreamHandler(s.srv, name, tp, func(ss psrpc.ServerStream[Str, Str]) error {
			for {
				select {
				case v, ok := <-ss.Channel():
					if !ok {
						<-ss.Context().Done()
						return nil
					}
					w.hit(v.GetValue(), label)
					if err := ss.Send(S(label)); err != nil {
						return nil
					}
				case <-ss.Context().Done():
					return nil
				}
			}
		}, nil)
	}
	return server.RegisterHandler(s.srv, name, tp, func(ctx context.Context, r Str) (Str, error) {
		w.hit(r.GetValue(), label)
		w.mu.Lock()
		ch := w.hold[r.GetValue()]
		w.mu.Unlock()
		if ch != nil {
			<-ch
		}
		return S(label), nil
	}, nil)
}

func (w *c21World) deregister(s *c21Srv, m, topic int) {
	s.srv.DeregisterHandler(c21Methods[m].Name, w.c.Topics[topic])
}

type c21Done struct {
	op    c21Op
	label string
	err   error
	took  time.Duration
	after string // label of the operation which was over before
}

func (w *c21World) group(s *c21Srv, op c21Op, label string) server.RegistererSlice {
	var rs server.RegistererSlice
	for i, m := range op.Group {
		rs = append(rs, server.NewRegisterer(
			func(topic int) error { return w.register(s, m, topic, fmt.Sprintf("%s.%d", label, i)) },
			func(topic int) { w.deregister(s, m, topic) }))
	}
	return rs
}

func (w *c21World) do(op c21Op, label string) c21Done {
	d := c21Done{op: op, label: label}
	s := w.srvs[op.Srv]
	t0 := time.Now()
	switch op.Do {
	case "reg":
		d.err = w.register(s, op.Method, op.Topic, label)
	case "dereg":
		w.deregister(s, op.Method, op.Topic)
	case "rereg":
		// both in turn; split again by runC21
		w.deregister(s, op.Method, op.Topic)
		d.err = w.register(s, op.Method, op.Topic, label)
	case "greg":
		d.err = w.group(s, op, label).Register(op.Topic)
	case "gdereg":
		w.group(s, op, label).Deregister(op.Topic)
	}
	d.took = time.Since(t0)
	return d
}

// outcomes are the labels that may be registered for a key after some concurrent
// operations on it, given what they returned; none if no order explains it.
func c21Outcomes(before string, ds []c21Done) map[string]bool {
	out := map[string]bool{}
	var rec func(cur string, rest []c21Done)
	rec = func(cur string, rest []c21Done) {
		if len(rest) == 0 {
			out[cur] = true
			return
		}
		for i, d := range rest {
			if d.after != "" && slices.ContainsFunc(rest, func(o c21Done) bool { return o.label == d.after }) {
				continue
			}
			next := cur
			if d.op.Do == "dereg" {
				next = ""
			} else if (cur == "") != (d.err == nil) {
				continue
			} else if cur == "" {
				next = d.label
			}
			left := append(append([]c21Done(nil), rest[:i]...), rest[i+1:]...)
			rec(next, left)
		}
	}
	rec(before, ds)
	return out
}

// probe sends a request to a method and topic and returns the labels of the
// handlers which got it.
func (w *c21World) probe(id string, m, topic int) []string {
	ctx := context.Background()
	name, tp := c21Methods[m].Name, w.c.Topics[topic]
	o := psrpc.WithRequestTimeout(500 * ms)
	var answers []string
	switch {
	case c21Methods[m].Multi:
		ch, err := client.RequestMulti[Str](ctx, w.cl, name, tp, S(id), psrpc.WithRequestTimeout(50*ms))
		if err != nil {
			w.e.Failf("probe %s: %v", id, err)
			return nil
		}
		for r := range ch {
			if r.Err != nil {
				w.e.Failf("probe %s: a handler answered %v", id, r.Err)
			}
			answers = append(answers, r.Result.GetValue())
		}
	case c21Stream(m):
		st, err := client.OpenStream[Str, Str](ctx, w.cl, name, tp, o)
		if err != nil {
			break
		}
		time.Sleep(ms) // every handler has it open
		if err := st.Send(S(id)); err != nil {
			w.e.Failf("probe %s: a new stream failed: %v", id, err)
		} else {
			select {
			case v, ok := <-st.Channel():
				if !ok {
					w.e.Failf("probe %s: a new stream ended: %v", id, st.Err())
				}
				answers = append(answers, v.GetValue())
			case <-time.After(time.Second):
				w.e.Failf("probe %s: no answer on a stream", id)
			}
		}
		_ = st.Close(nil)
	default:
		r, err := client.RequestSingle[Str](ctx, w.cl, name, tp, S(id), o)
		if err == nil {
			answers = append(answers, r.GetValue())
		}
	}
	time.Sleep(ms)
	hits := w.got(id)
	for _, a := range answers {
		if !c21Has(hits, a) {
			w.e.Failf("probe %s: answered by %q, handled by %q", id, a, hits)
		}
	}
	if len(answers) == 0 && len(hits) > 0 {
		w.e.Failf("probe %s: handled by %q, and no answer came", id, hits)
	}
	return hits
}

func c21Has(ls []string, l string) bool {
	for _, x := range ls {
		if x == l {
			return true
		}
	}
	return false
}

// expect is the labels of the handlers of a method and topic on all servers.
func (w *c21World) expect(m, topic int) []string {
	var out []string
	for s := range w.srvs {
		if l := w.model[c21Key{s, m, topic}]; l != "" {
			out = append(out, l)
		}
	}
	sort.Strings(out)
	return out
}

func (w *c21World) name(m, topic int) string {
	return fmt.Sprintf("%s%q", c21Methods[m].Name, w.c.Topics[topic])
}

// observe compares what answers with the model.
func (w *c21World) observe(phase int) {
	for m := range c21Methods {
		for topic := range w.c.Topics {
			want := w.expect(m, topic)
			got := w.probe(fmt.Sprintf("p%d.%d.%d", phase, m, topic), m, topic)
			one := c21Methods[m].Queue || c21Methods[m].Claim
			ok := false
			switch {
			case len(want) == 0:
				ok = len(got) == 0
			case one:
				ok = len(got) == 1 && c21Has(want, got[0])
			case c21Stream(m):
				// all of them open the stream, the client's messages reach all of them
				ok = fmt.Sprint(got) == fmt.Sprint(want)
			default:
				ok = fmt.Sprint(got) == fmt.Sprint(want)
			}
			if !ok {
				w.e.Failf("after phase %d, a request for %s was handled by %q; registered are %q", phase, w.name(m, topic), got, want)
			}
		}
	}
	for i, s := range w.srvs {
		want := 0
		for k := range w.model {
			if k.Srv == i {
				want += c21Subs(k.Method)
			}
		}
		n := 0
		open := s.subs.Open()
		for _, o := range open {
			var x int
			_, _ = fmt.Sscanf(o[strings.LastIndexByte(o, '('):], "(%d)", &x)
			n += x
		}
		if n != want {
			w.e.Failf("after phase %d, server %d has %d subscriptions, its handlers need %d: %q", phase, i, n, want, open)
		}
	}
}

type c21Held struct {
	h      c21Hold
	key    c21Key
	label  string
	until  int
	id     string
	finish func(alive bool)
}

// start begins what a hold asks for, if exactly one handler is there for it.
func (w *c21World) start(phase, i int, h c21Hold) *c21Held {
	want := w.expect(h.Method, h.Topic)
	if len(want) != 1 {
		return nil
	}
	x := &c21Held{h: h, label: want[0], until: phase + h.Phases, id: fmt.Sprintf("h%d.%d", phase, i)}
	for k, l := range w.model {
		if l == want[0] {
			x.key = k
		}
	}
	name, tp := c21Methods[h.Method].Name, w.c.Topics[h.Topic]
	ctx := context.Background()
	o := psrpc.WithRequestTimeout(time.Minute)
	if c21Stream(h.Method) {
		st, err := client.OpenStream[Str, Str](ctx, w.cl, name, tp, o)
		if err != nil {
			w.e.Failf("%s is registered and a stream to it could not be opened: %v", w.name(h.Method, h.Topic), err)
			return nil
		}
		x.finish = func(alive bool) {
			if !alive {
				time.Sleep(ms)
				if st.Context().Err() == nil {
					w.e.Failf("stream %s is open although its handler has been deregistered", x.id)
				}
				return
			}
			if err := st.Send(S(x.id)); err != nil {
				w.e.Failf("stream %s of the handler %q of %s failed though it is still registered: %v", x.id, x.label, w.name(h.Method, h.Topic), err)
			} else if v, ok := <-st.Channel(); !ok || v.GetValue() != x.label {
				w.e.Failf("stream %s of the handler %q of %s was answered %q (%v)", x.id, x.label, w.name(h.Method, h.Topic), v.GetValue(), ok)
			}
			_ = st.Close(nil)
		}
		return x
	}
	ch := make(chan bool)
	w.mu.Lock()
	w.hold[x.id] = ch
	w.mu.Unlock()
	type res struct {
		label string
		err   error
	}
	out := make(chan res, 1)
	go func() {
		if c21Methods[h.Method].Multi {
			rs, err := client.RequestMulti[Str](ctx, w.cl, name, tp, S(x.id), o)
			if err != nil {
				out <- res{err: err}
				return
			}
			r, ok := <-rs
			if !ok {
				out <- res{err: errors.New("no response")}
				return
			}
			out <- res{r.Result.GetValue(), r.Err}
			return
		}
		r, err := client.RequestSingle[Str](ctx, w.cl, name, tp, S(x.id), o)
		out <- res{r.GetValue(), err}
	}()
	time.Sleep(500 * ms) // a claim needs its time
	if got := w.got(x.id); len(got) != 1 || got[0] != x.label {
		w.e.Failf("request %s for %s was handled by %q, want %q", x.id, w.name(h.Method, h.Topic), got, x.label)
	}
	x.finish = func(alive bool) {
		close(ch)
		time.Sleep(ms)
		if !alive {
			return // abandoned
		}
		select {
		case r := <-out:
			if r.err != nil || r.label != x.label {
				w.e.Failf("request %s to the handler %q of %s, which is still registered, got %q, %v", x.id, x.label, w.name(h.Method, h.Topic), r.label, r.err)
			}
		default:
			w.e.Failf("request %s to the handler %q of %s, which is still registered, got no answer", x.id, x.label, w.name(h.Method, h.Topic))
		}
	}
	return x
}

func runC21(e *engine.Env, c c21Case) {
	fab := NewFabric(c.Bus)
	if fab.Kind == "local" {
		e.NoLeaks()
	}
	w := &c21World{e: e, c: c, hits: map[string][]string{}, hold: map[string]chan bool{}, model: map[c21Key]string{}}
	for i := range c.Servers {
		s := &c21Srv{subs: &SubLog{}}
		s.bus = &c21Bus{MessageBus: s.subs.Wrap(fab.Bus()), fail: -1}
		s.srv = server.NewRPCServer(define("Svc", fmt.Sprintf("srv%d", i), c21Methods...), s.bus)
		w.srvs = append(w.srvs, s)
	}
	cl, err := client.NewRPCClientWithStreams(define("Svc", "cli", c21Methods...), fab.Bus())
	must(e, err, "new client")
	w.cl = cl
	time.Sleep(ms)

	var held []*c21Held
	conflict, rolled, survived := false, false, false
	for pi, p := range c.Phases {
		for _, s := range w.srvs {
			s.bus.set(p.Fail, p.Slow)
		}
		ds := make([]c21Done, len(p.Ops))
		var wg sync.WaitGroup
		if !within(time.Minute, func() {
			for i, op := range p.Ops {
				wg.Add(1)
				go func() {
					defer wg.Done()
					ds[i] = w.do(op, fmt.Sprintf("r%d.%d", pi, i))
				}()
			}
			wg.Wait()
		}) {
			e.Fatalf("phase %d: an operation does not return", pi)
		}
		before := map[c21Key]string{}
		for k, v := range w.model {
			before[k] = v
		}
		failed := false
		for _, s := range w.srvs {
			s.bus.mu.Lock()
			failed = failed || s.bus.hit
			s.bus.mu.Unlock()
			s.bus.set(-1, 0)
		}

		if d := ds[0]; d.op.Group != nil || p.Fail >= 0 {
			// one operation, by its parts
			op := d.op
			group := op.Group
			if group == nil {
				group = []int{op.Method}
			}
			switch op.Do {
			case "dereg", "gdereg":
				for _, m := range group {
					delete(w.model, c21Key{op.Srv, m, op.Topic})
				}
			default:
				wantErr := ""
				nth := 0
				for i, m := range group {
					k := c21Key{op.Srv, m, op.Topic}
					if w.model[k] != "" {
						wantErr = "conflict"
						conflict = true
					} else if p.Fail >= nth && p.Fail < nth+c21Subs(m) {
						wantErr = "subscription"
					} else {
						nth += c21Subs(m)
						w.model[k] = d.label
						if op.Group != nil {
							w.model[k] = fmt.Sprintf("%s.%d", d.label, i)
						}
						continue
					}
					w.model = before
					rolled = rolled || i > 0
					break
				}
				switch {
				case wantErr == "" && d.err != nil:
					e.Failf("phase %d: %+v failed: %v", pi, op, d.err)
				case wantErr != "" && d.err == nil:
					e.Failf("phase %d: %+v succeeded in spite of a %s failure", pi, op, wantErr)
				case wantErr == "subscription" && !errors.Is(d.err, errPublish):
					e.Failf("phase %d: %+v returned %v instead of the error of the bus", pi, op, d.err)
				case (wantErr == "subscription") != failed && wantErr != "":
					e.Failf("phase %d: %+v: bus failure %v, want %s failure", pi, op, failed, wantErr)
				}
			}
		} else {
			byKey := map[c21Key][]c21Done{}
			for _, d := range ds {
				k := c21Key{d.op.Srv, d.op.Method, d.op.Topic}
				if d.op.Do == "rereg" {
					x := d
					x.op.Do, x.err, x.label = "dereg", nil, d.label+"-"
					byKey[k] = append(byKey[k], x)
					d.op.Do, d.after = "reg", x.label
				}
				byKey[k] = append(byKey[k], d)
			}
			open := map[c21Key]map[string]bool{}
			for k, kds := range byKey {
				outs := c21Outcomes(w.model[k], kds)
				nreg := 0
				for _, d := range kds {
					if d.op.Do == "reg" {
						nreg++
					}
				}
				if nreg > 1 || nreg == 1 && w.model[k] != "" {
					conflict = true
				}
				if len(outs) == 0 {
					var rs []string
					for _, d := range kds {
						rs = append(rs, fmt.Sprintf("%s: %v", d.op.Do, d.err))
					}
					e.Fatalf("phase %d: no order of the operations on %s explains their results, %q registered before: %s", pi, w.name(k.Method, k.Topic), w.model[k], strings.Join(rs, "; "))
				}
				if len(outs) == 1 {
					for l := range outs {
						if w.model[k] = l; l == "" {
							delete(w.model, k)
						}
					}
					continue
				}
				open[k] = outs
			}
			time.Sleep(10 * ms)
			for k := range open {
				// whichever of them it is, it has to answer from now on
				delete(w.model, k)
			}
			for k, outs := range open {
				alone := len(w.expect(k.Method, k.Topic)) == 0
				for o := range open {
					alone = alone && (o == k || o.Method != k.Method || o.Topic != k.Topic)
				}
				if !alone {
					// cannot be told apart from the others: start afresh
					w.deregister(w.srvs[k.Srv], k.Method, k.Topic)
					continue
				}
				got := w.probe(fmt.Sprintf("w%d.%d.%d.%d", pi, k.Srv, k.Method, k.Topic), k.Method, k.Topic)
				l := ""
				if len(got) > 0 {
					l = got[0]
				}
				if len(got) > 1 || !outs[l] {
					e.Failf("phase %d: %s is handled by %q, which none of the orders explains", pi, w.name(k.Method, k.Topic), got)
				} else if l != "" {
					w.model[k] = l
				}
			}
		}
		time.Sleep(10 * ms)
		w.observe(pi)
		if e.Failed() {
			break
		}
		rest := held[:0]
		for _, x := range held {
			alive := w.model[x.key] == x.label
			if x.until <= pi || !alive {
				if alive && pi > 0 {
					survived = true
				}
				if !within(time.Minute, func() { x.finish(alive) }) {
					e.Failf("%s does not end", x.id)
				}
			} else {
				rest = append(rest, x)
			}
		}
		held = rest
		for i, h := range p.Hold {
			if x := w.start(pi, i, h); x != nil {
				held = append(held, x)
			}
		}
	}
	for _, x := range held {
		if !within(time.Minute, func() { x.finish(w.model[x.key] == x.label) }) {
			e.Failf("%s does not end", x.id)
		}
	}
	if conflict {
		e.Class("conflict")
	}
	if rolled {
		e.Class("group rolled back")
	}
	if survived {
		e.Class("request or stream survived changes elsewhere")
	}
	if conflict || rolled || survived {
		e.NonTrivial()
	}
	if !e.Failed() {
		for i, s := range w.srvs {
			if !within(time.Minute, func() { s.srv.Close(false) }) {
				e.Failf("server %d does not close", i)
			}
		}
		time.Sleep(10 * ms)
		w.model = map[c21Key]string{}
		for i, s := range w.srvs {
			for m := range c21Methods {
				if err := w.register(s, m, 0, "late"); !errors.Is(err, psrpc.ErrServerClosed) {
					e.Failf("registering %s with closed server %d: %v", w.name(m, 0), i, err)
				}
				w.deregister(s, m, 0)
			}
		}
		w.observe(len(c.Phases))
	}
	for _, s := range w.srvs {
		s.srv.Close(true)
	}
	cl.Close()
	time.Sleep(2 * time.Minute)
	fab.Close()
}

func init() {
	engine.Add("C21", "history",
		"1-2 servers, 1-3 near-colliding topics, methods of all kinds, 1-8 phases of a group operation, a failing subscription or 2-4 concurrent operations; after every phase each method and topic is called and the open subscriptions are counted; non-trivial: a conflict, a rolled back group, or a request or stream in progress across changes elsewhere",
		1500, 30000, genC21, runC21)
}
