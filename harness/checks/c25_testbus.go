package checks

import (
	"context"
	"errors"
	"fmt"
	"slices"
	"sort"
	"strings"
	"sync"
	"time"

	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/known/anypb"
	"google.golang.org/protobuf/types/known/wrapperspb"
	"pgregory.net/rapid"

	"github.com/livekit/psrpc"
	"github.com/livekit/psrpc/internal/bus"
	"github.com/livekit/psrpc/testutils"
	"github.com/livekit/psrpc/verif/engine"
)

// ---------------------------------------------------------------- part chain

type c25Opt struct {
	Kind string // pub sub group
	Act  string // tag; pub: fail, twice, swallow, other; sub: drop
	In   []c25Opt
}

type c25Use struct {
	Chan  int
	Queue bool
	N     int // messages
}

type c25Chain struct {
	Bus    string
	Layers [][]c25Opt // test buses around each other, outermost first
	Uses   []c25Use
}

func genC25Opts(t *rapid.T, depth int) []c25Opt {
	var l []c25Opt
	for range rapid.IntRange(0, 4).Draw(t, "n") {
		o := c25Opt{Kind: rapid.SampledFrom([]string{"pub", "pub", "sub", "sub", "group"}).Draw(t, "kind"), Act: "tag"}
		switch o.Kind {
		case "pub":
			o.Act = rapid.SampledFrom([]string{"tag", "tag", "tag", "tag", "twice", "fail", "swallow", "other"}).Draw(t, "act")
		case "sub":
			o.Act = rapid.SampledFrom([]string{"tag", "tag", "tag", "drop"}).Draw(t, "act")
		default:
			if depth == 0 {
				continue
			}
			o.In = genC25Opts(t, depth-1)
		}
		l = append(l, o)
	}
	return l
}

func genC25Chain(t *rapid.T) c25Chain {
	c := c25Chain{Bus: genBus(t, 6)}
	for range rapid.IntRange(1, 3).Draw(t, "layers") {
		c.Layers = append(c.Layers, genC25Opts(t, 2))
	}
	for range rapid.IntRange(1, 4).Draw(t, "uses") {
		c.Uses = append(c.Uses, c25Use{rapid.IntRange(0, 2).Draw(t, "chan"), rapid.IntRange(0, 3).Draw(t, "queue") == 0, rapid.IntRange(0, 4).Draw(t, "n")})
	}
	return c
}

func c25Chan(i int) psrpc.Channel {
	return psrpc.Channel{Legacy: fmt.Sprint("legacy", i), Server: fmt.Sprint("srv", i), Local: []string{"", "loc"}[i%2]}
}

func c25Edit(b []byte, f func(string) string) []byte {
	a := &anypb.Any{}
	_ = proto.UnmarshalOptions{DiscardUnknown: true}.Unmarshal(b, a)
	s := S("")
	if err := a.UnmarshalTo(s); err != nil {
		panic("harness: " + err.Error())
	}
	return must1(proto.Marshal(must1(anypb.New(S(f(s.GetValue()))))))
}

func runC25Chain(e *engine.Env, c c25Chain) {
	f := NewFabric(c.Bus)
	defer f.Close()
	ctx := context.WithValue(context.Background(), c25Chain{}.Bus, "ctx")
	errFail := errors.New("interceptor refuses")
	var mu sync.Mutex
	var trace []string
	add := func(format string, args ...any) {
		mu.Lock()
		trace = append(trace, fmt.Sprintf(format, args...))
		mu.Unlock()
	}
	var pubs, subs []string // the acts of all interceptors, outermost first
	var build func(o c25Opt) testutils.TestBusOption
	build = func(o c25Opt) testutils.TestBusOption {
		switch o.Kind {
		case "pub":
			n := len(pubs)
			pubs = append(pubs, o.Act)
			return testutils.WithPublishInterceptor(func(next testutils.PublishHandler) testutils.PublishHandler {
				add("wrap %d", n)
				return func(ctx context.Context, ch testutils.Channel, m proto.Message) error {
					add("pub %d %s", n, ch.Legacy)
					if ctx.Value(c25Chain{}.Bus) != "ctx" {
						e.Failf("interceptor %d has lost the context", n)
					}
					next2 := func(ch testutils.Channel) error {
						return next(ctx, ch, S(fmt.Sprint(m.(Str).GetValue(), " p", n)))
					}
					switch o.Act {
					case "twice":
						_ = next2(ch)
					case "fail":
						return fmt.Errorf("%d: %w", n, errFail)
					case "swallow":
						return nil
					case "other":
						return next2(c25Chan(7))
					}
					return next2(ch)
				}
			})
		case "sub":
			n := len(subs)
			subs = append(subs, o.Act)
			return testutils.WithSubscribeInterceptor(func(ctx context.Context, ch testutils.Channel, next testutils.ReadHandler) testutils.ReadHandler {
				add("sub %d %s", n, ch.Legacy)
				return func() ([]byte, bool) {
					for {
						b, ok := next()
						if !ok {
							add("end %d %s", n, ch.Legacy)
							return b, ok
						}
						keep := true
						b = c25Edit(b, func(s string) string {
							keep = o.Act != "drop" || !strings.HasPrefix(s, "1:")
							return fmt.Sprint(s, " r", n)
						})
						if keep {
							return b, ok
						}
					}
				}
			})
		}
		var opts []testutils.TestBusOption
		for _, x := range o.In {
			opts = append(opts, build(x))
		}
		return testutils.WithBusOptions(opts...)
	}
	var layers [][]testutils.TestBusOption
	for _, l := range c.Layers {
		var opts []testutils.TestBusOption
		for _, o := range l {
			opts = append(opts, build(o))
		}
		layers = append(layers, opts)
	}
	b := f.Bus()
	for _, opts := range slices.Backward(layers) {
		b = testutils.NewTestBus(b, opts...)
	}
	var wantTrace []string
	for n := range pubs {
		wantTrace = append(wantTrace, fmt.Sprint("wrap ", n))
	}

	type rec struct {
		sub  bus.Subscription[Str]
		ch   int
		q    bool
		got  []string
		want []string
		end  bool
	}
	var recs []*rec
	for k, u := range c.Uses {
		if slices.ContainsFunc(recs, func(r *rec) bool { return r.ch == u.Chan && (r.q || u.Queue) }) {
			continue
		}
		var err error
		r := &rec{ch: u.Chan, q: u.Queue}
		if u.Queue {
			r.sub, err = bus.SubscribeQueue[Str](ctx, b, c25Chan(u.Chan), 100)
		} else {
			r.sub, err = bus.Subscribe[Str](ctx, b, c25Chan(u.Chan), 100)
		}
		must(e, err, "subscribe")
		recs = append(recs, r)
		for n := range subs {
			wantTrace = append(wantTrace, fmt.Sprintf("sub %d legacy%d", n, u.Chan), fmt.Sprintf("end %d legacy%d", n, u.Chan))
		}
		go func() {
			for m := range r.sub.Channel() {
				mu.Lock()
				r.got = append(r.got, m.GetValue())
				mu.Unlock()
			}
			mu.Lock()
			r.end = true
			mu.Unlock()
		}()
		time.Sleep(20 * ms)
		for j := range u.N {
			// what the interceptors make of it
			var wantErr string
			deliver := func(ch int, text string) {
				for _, r := range recs {
					if r.ch != ch {
						continue
					}
					text, keep := text, true
					for n, act := range slices.Backward(subs) {
						keep = keep && (act != "drop" || !strings.HasPrefix(text, "1:"))
						text = fmt.Sprint(text, " r", n)
					}
					if keep {
						r.want = append(r.want, text)
					}
				}
			}
			var walk func(n, ch int, text string) string
			walk = func(n, ch int, text string) string {
				if n == len(pubs) {
					deliver(ch, text)
					return ""
				}
				wantTrace = append(wantTrace, fmt.Sprintf("pub %d legacy%d", n, ch))
				text2 := fmt.Sprint(text, " p", n)
				switch pubs[n] {
				case "twice":
					walk(n+1, ch, text2)
				case "fail":
					return fmt.Sprintf("%d: %v", n, errFail)
				case "swallow":
					return ""
				case "other":
					return walk(n+1, 7, text2)
				}
				return walk(n+1, ch, text2)
			}
			text := fmt.Sprintf("%d:%d", j, k)
			wantErr = walk(0, u.Chan, text)
			err := b.Publish(ctx, c25Chan(u.Chan), S(text))
			if got := fmt.Sprint(err); (err == nil) != (wantErr == "") || (err != nil && (got != wantErr || !errors.Is(err, errFail))) {
				e.Failf("publishing returned %v, want %q", err, wantErr)
			}
			time.Sleep(5 * ms)
		}
	}
	for _, r := range recs {
		if err := r.sub.Close(); err != nil {
			e.Failf("close returned %v", err)
		}
	}
	time.Sleep(100 * ms)
	mu.Lock()
	defer mu.Unlock()
	for i, r := range recs {
		if fmt.Sprint(r.got) != fmt.Sprint(r.want) {
			e.Failf("subscription %d got %q, want %q", i, r.got, r.want)
		}
		if !r.end {
			e.Failf("subscription %d is not at its end after its close", i)
		}
	}
	sort.Strings(trace)
	sort.Strings(wantTrace)
	if !slices.Equal(trace, wantTrace) {
		e.Failf("the interceptors saw %q, want %q", trace, wantTrace)
	}
	if len(pubs)+len(subs) >= 3 {
		e.NonTrivial()
	}
	e.Class("bus: %s", c.Bus)
	e.Class("interceptors: %s", bucket(len(pubs)+len(subs)))
}

// ---------------------------------------------------------------- part laggy

type c25Msg struct{ At, Node, Chan, Pad, Burst int } // Burst more at the same instant

type c25Sub struct {
	At, Close, Node, Chan int
	Rate                  bool // under a failure rate of 0
	Slow                  int  // ms its reader takes over every message
}

type c25Laggy struct {
	Bus   string
	Names []string
	Lat   [][]int
	Net   int // ms each message takes on the bus below
	Msgs  []c25Msg
	Subs  []c25Sub
}

func genC25Laggy(t *rapid.T) c25Laggy {
	c := c25Laggy{Bus: genBus(t, 4)}
	n := rapid.IntRange(1, 4).Draw(t, "nodes")
	for i := range n {
		c.Names = append(c.Names, []string{"a", "b", "", "long name"}[i])
		var row []int
		for range n {
			row = append(row, rapid.SampledFrom([]int{0, 0, 1, 7, 40, 1000}).Draw(t, "lat"))
		}
		c.Lat = append(c.Lat, row)
	}
	for range rapid.IntRange(1, 5).Draw(t, "subs") {
		s := c25Sub{At: rapid.SampledFrom([]int{0, 0, 0, 30, 100}).Draw(t, "at"), Node: rapid.IntRange(0, n-1).Draw(t, "node"),
			Chan: rapid.IntRange(0, 1).Draw(t, "chan"), Rate: rapid.Bool().Draw(t, "rate")}
		s.Close = s.At + rapid.SampledFrom([]int{5000, 5000, 20, 60, 300}).Draw(t, "close")
		s.Slow = rapid.SampledFrom([]int{0, 0, 0, 1, 10}).Draw(t, "slow")
		c.Subs = append(c.Subs, s)
	}
	c.Net = rapid.SampledFrom([]int{0, 0, 0, 3, 20}).Draw(t, "net")
	msgs := rapid.IntRange(0, 25).Draw(t, "msgs")
	if rapid.IntRange(0, 7).Draw(t, "many") == 0 {
		msgs = rapid.IntRange(60, 250).Draw(t, "many msgs")
	}
	for range msgs {
		c.Msgs = append(c.Msgs, c25Msg{rapid.IntRange(0, 120).Draw(t, "at"), rapid.IntRange(0, n-1).Draw(t, "node"),
			rapid.IntRange(0, 1).Draw(t, "chan"), rapid.SampledFrom([]int{0, 0, 0, 5000}).Draw(t, "pad"), rapid.SampledFrom([]int{0, 0, 0, 1, 4}).Draw(t, "burst")})
	}
	return c
}

func runC25Laggy(e *engine.Env, c c25Laggy) {
	f := NewFabric(c.Bus)
	defer f.Close()
	ctx := context.Background()
	index := map[string]int{}
	for i, n := range c.Names {
		index[n] = i
	}
	lat := func(a, b string) time.Duration {
		i, ok := index[a]
		j, ok2 := index[b]
		if !ok || !ok2 {
			e.Failf("the latency between %q and %q was asked for", a, b)
			return 0
		}
		return msd(c.Lat[i][j])
	}
	// at a fine-grained offset of its own, so that nothing happens at once
	start := time.Now().Add(10 * ms)
	at := func(ms, kind, i int) time.Time {
		return start.Add(msd(ms) + time.Duration(kind*300+i)*time.Microsecond)
	}
	var buses, rated []psrpc.MessageBus
	net := NewNet(nil, map[string]int{"": c.Net})
	for _, n := range c.Names {
		b := net.Wrap(f.Bus())
		buses = append(buses, testutils.NewTestBus(b, testutils.WithLaggyBus(n, lat)))
		rated = append(rated, testutils.NewTestBus(b, testutils.WithUnreliableBus(testutils.NewAtomicFailureRate(0)), testutils.WithLaggyBus(n, lat)))
	}
	type got struct {
		v  string
		at time.Time
	}
	var mu sync.Mutex
	recs := make([][]got, len(c.Subs))
	var wg sync.WaitGroup
	for i, s := range c.Subs {
		wg.Add(1)
		go func() {
			defer wg.Done()
			time.Sleep(time.Until(at(s.At, 0, i)))
			b := buses[s.Node]
			if s.Rate {
				b = rated[s.Node]
			}
			if s.Slow > 0 {
				b = testutils.NewTestBus(b, testutils.WithSubscribeInterceptor(func(_ context.Context, _ testutils.Channel, next testutils.ReadHandler) testutils.ReadHandler {
					return func() ([]byte, bool) {
						b, ok := next()
						time.Sleep(msd(s.Slow))
						return b, ok
					}
				}))
			}
			sub, err := bus.Subscribe[Str](ctx, b, c25Chan(s.Chan), 1000)
			must(e, err, "subscribe")
			ended := make(chan struct{})
			go func() {
				defer close(ended)
				for m := range sub.Channel() {
					mu.Lock()
					recs[i] = append(recs[i], got{m.GetValue(), time.Now()})
					mu.Unlock()
				}
			}()
			time.Sleep(time.Until(at(s.Close, 2, i)))
			_ = sub.Close()
			// what is queued may still be read, as slowly as before
			queued := 0
			for _, m := range c.Msgs {
				queued += m.Burst + 1
			}
			if !within(2*time.Second+msd(s.Slow*queued), func() { <-ended }) {
				e.Failf("subscription %d is not at its end seconds after its close", i)
			}
		}()
	}
	value := func(k int) string { return fmt.Sprintf("%d:%s", k, strings.Repeat("x", c.Msgs[k].Pad)) }
	for k, m := range c.Msgs {
		wg.Add(1)
		go func() {
			defer wg.Done()
			time.Sleep(time.Until(at(m.At, 1, k)))
			for range m.Burst + 1 {
				must(e, buses[m.Node].Publish(ctx, c25Chan(m.Chan), S(value(k))), "publish")
			}
		}()
	}
	wg.Wait()
	time.Sleep(3 * time.Second)
	mu.Lock()
	defer mu.Unlock()
	n, delayed := 0, 0
	for i, s := range c.Subs {
		type due struct {
			v  string
			at time.Time
		}
		var want []due
		for k, m := range c.Msgs {
			sent := at(m.At, 1, k)
			// the latency counts from when it was sent
			out := sent.Add(msd(c.Net))
			d := sent.Add(msd(max(c.Net, c.Lat[m.Node][s.Node])))
			// a subscription of a broker takes a moment to be in place
			if m.Chan == s.Chan && out.After(at(s.At, 0, i)) && d.Before(at(s.Close, 2, i)) {
				for range m.Burst + 1 {
					want = append(want, due{value(k), d})
				}
			}
		}
		sort.Slice(want, func(a, b int) bool { return want[a].at.Before(want[b].at) })
		var g, w []string
		for _, x := range recs[i] {
			if s.Slow == 0 && x.at.After(at(s.Close, 2, i)) {
				continue // on the way when it was closed
			}
			if s.Slow > 0 {
				g = append(g, x.v)
				continue
			}
			g = append(g, fmt.Sprintf("%.8s at %v", x.v, x.at.Sub(start)))
		}
		for _, x := range want {
			if s.Slow > 0 {
				w = append(w, x.v)
			} else {
				w = append(w, fmt.Sprintf("%.8s at %v", x.v, x.at.Sub(start)))
			}
			n++
			if x.at.After(start.Add(0)) {
				delayed++
			}
		}
		if s.Slow > 0 {
			// behind a slow reader only what arrives is certain, and that it
			// does if there is the time for it
			slices.Sort(g)
			slices.Sort(w)
			if s.Close-s.At >= 5000 && !slices.Equal(g, w) {
				e.Failf("slow subscription %d (%s, channel %d, %dms to %dms) got\n  %.2000q\nwant\n  %.2000q", i, c.Names[s.Node], s.Chan, s.At, s.Close, g, w)
			}
			sent := map[string]int{}
			for k, m := range c.Msgs {
				if m.Chan == s.Chan {
					sent[value(k)] += m.Burst + 1
				}
			}
			for _, v := range g {
				if sent[v]--; sent[v] < 0 {
					e.Failf("slow subscription %d got %.20q, which was not sent to it as often", i, v)
				}
			}
		} else if !slices.Equal(g, w) {
			e.Failf("subscription %d (%s, channel %d, %dms to %dms) got\n  %s\nwant\n  %s", i, c.Names[s.Node], s.Chan, s.At, s.Close, strings.Join(g, "\n  "), strings.Join(w, "\n  "))
		}
		for _, x := range recs[i] {
			var k int
			if must1(fmt.Sscanf(x.v, "%d:", &k)); x.v != value(k) {
				e.Failf("message %d was altered", k)
			}
		}
	}
	if n >= 3 {
		e.NonTrivial()
	}
	e.Class("bus: %s", c.Bus)
	e.Class("due deliveries: %s", bucket(n))
}

// ---------------------------------------------------------------- part unreliable

type c25Phase struct {
	Rate int // percent
	N    int
}

type c25Unrel struct {
	Bus    string
	Filter string // "" all, else a channel
	Layers int    // the same rate, that many times
	Phases []c25Phase
	Subs   []int
	Queue  bool
}

func genC25Unrel(t *rapid.T) c25Unrel {
	c := c25Unrel{
		Bus:    genBus(t, 4),
		Filter: rapid.SampledFrom([]string{"", "legacy0", "legacy1", "other"}).Draw(t, "filter"),
		Layers: rapid.SampledFrom([]int{1, 1, 1, 2}).Draw(t, "layers"),
		Subs:   rapid.SliceOfN(rapid.IntRange(0, 1), 1, 3).Draw(t, "subs"),
		Queue:  rapid.Bool().Draw(t, "queue"),
	}
	for range rapid.IntRange(1, 5).Draw(t, "phases") {
		p := c25Phase{rapid.SampledFrom([]int{0, 0, 100, 100, 20, 50, 80}).Draw(t, "rate"), rapid.IntRange(1, 10).Draw(t, "n")}
		if p.Rate%100 != 0 {
			p.N = 400
		}
		c.Phases = append(c.Phases, p)
	}
	return c
}

func runC25Unrel(e *engine.Env, c c25Unrel) {
	f := NewFabric(c.Bus)
	defer f.Close()
	ctx := context.Background()
	rate := testutils.NewAtomicFailureRate(0.5)
	var opts []testutils.TestBusOption
	for range c.Layers {
		if c.Filter == "" {
			opts = append(opts, testutils.WithUnreliableBus(rate))
		} else {
			opts = append(opts, testutils.WithUnreliableBusChannel(rate, c.Filter))
		}
	}
	b := testutils.NewTestBus(f.Bus(), opts...)
	var mu sync.Mutex
	got := make([][]string, len(c.Subs))
	var subs []bus.Subscription[Str]
	queued := map[int]bool{}
	live := make([]bool, len(c.Subs))
	ended := make([]bool, len(c.Subs))
	for i, ch := range c.Subs {
		if c.Queue && queued[ch] {
			continue
		}
		queued[ch] = true
		live[i] = true
		sub, err := bus.Subscribe[*wrapperspb.StringValue](ctx, b, c25Chan(ch), 1000)
		if c.Queue {
			_ = sub.Close()
			sub, err = bus.SubscribeQueue[*wrapperspb.StringValue](ctx, b, c25Chan(ch), 1000)
		}
		must(e, err, "subscribe")
		subs = append(subs, sub)
		go func() {
			for m := range sub.Channel() {
				mu.Lock()
				got[i] = append(got[i], m.GetValue())
				mu.Unlock()
			}
			mu.Lock()
			ended[i] = true
			mu.Unlock()
		}()
	}
	time.Sleep(50 * ms)
	lossy := 0
	for p, ph := range c.Phases {
		rate.SetRate(float64(ph.Rate) / 100)
		if rate.Rate() != float64(ph.Rate)/100 {
			e.Failf("the rate was set to %d%% and is %v", ph.Rate, rate.Rate())
		}
		mu.Lock()
		for i := range got {
			got[i] = nil
		}
		mu.Unlock()
		var all []string
		for k := range ph.N {
			v := fmt.Sprintf("%d:%d", p, k)
			all = append(all, v)
			for ch := range 2 {
				must(e, b.Publish(ctx, c25Chan(ch), S(v)), "publish")
			}
			if k%50 == 0 {
				time.Sleep(ms)
			}
		}
		time.Sleep(100 * ms)
		mu.Lock()
		for i, ch := range c.Subs {
			if !live[i] {
				continue
			}
			pass := 1.0
			if c.Filter == "" || c.Filter == c25Chan(ch).Legacy {
				for range c.Layers {
					pass *= 1 - float64(ph.Rate)/100
				}
				lossy++
			}
			what := fmt.Sprintf("phase %d (rate %d%%), subscription %d (channel %d)", p, ph.Rate, i, ch)
			switch {
			case pass == 1:
				if !slices.Equal(got[i], all) {
					e.Failf("%s got %q, want %q", what, got[i], all)
				}
			case pass == 0:
				if len(got[i]) > 0 {
					e.Failf("%s got %q, want nothing", what, got[i])
				}
			default:
				j := 0
				for _, v := range got[i] {
					for j < len(all) && all[j] != v {
						j++
					}
					if j == len(all) {
						e.Failf("%s got %q, which is out of order, twice or not what was sent", what, v)
					}
					j++
				}
				if r := float64(len(got[i])) / float64(len(all)); r < pass-0.16 || r > pass+0.16 {
					e.Failf("%s got %d of %d messages", what, len(got[i]), len(all))
				}
			}
		}
		mu.Unlock()
		e.Class("rate %d%%", ph.Rate)
	}
	for _, s := range subs {
		_ = s.Close()
	}
	time.Sleep(100 * ms)
	mu.Lock()
	defer mu.Unlock()
	for i, ok := range ended {
		if live[i] && !ok {
			e.Failf("subscription %d is not at its end after its close", i)
		}
	}
	if lossy > 0 && len(c.Phases) > 1 {
		e.NonTrivial()
	}
	e.Class("bus: %s", c.Bus)
}

func init() {
	engine.Add("C25", "chain", "at least three interceptors", 800, 16000, genC25Chain, runC25Chain)
	engine.Add("C25", "laggy", "at least three deliveries due", 1000, 20000, genC25Laggy, runC25Laggy)
	engine.Add("C25", "unreliable", "a change of rate on a selected channel", 300, 6000, genC25Unrel, runC25Unrel)
}
