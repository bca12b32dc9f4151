package checks

import (
	"time"

	"pgregory.net/rapid"

	"github.com/livekit/psrpc/verif/engine"
)

func init() {
	g := bwGen{kinds: []string{"local", "nats", "redis"}, queues: true, maxChans: 3,
		ops:    []string{"sub", "pub", "pub", "sub", "close", "drain", "pub"},
		minOps: 2, maxOps: 25, maxN: 15, after: []int{0, 0, 0, 1, 5, 30}, latency: true}
	rule := "at least 2 members of one channel were live together and at least 3 messages were received"
	engine.Add("C06", "history", rule, 1200, 20000, g.draw, execQueues)
	m := g
	m.plains = true
	engine.Add("C06", "with-plain", rule+"; plain subscribers on the same channels", 500, 8000, m.draw, execQueues)
	engine.Add("C06", "lag", "a member that rests after messages received some, and so did another one", 500, 8000, genLag, execLag)
	engine.Add("C06", "robin", "at least 2 members and 5 messages in a window of constant membership", 500, 8000, genRobin, execRobin)
}

func execQueues(e *engine.Env, c bwCase) {
	w := newBW(e, c)
	defer w.finish()
	for _, o := range c.Ops {
		w.do(o)
	}
	w.drain()
	w.queues()
	w.classes()
	together, received := false, 0
	for _, s := range w.subs {
		if !s.queue {
			continue
		}
		received += len(s.recv)
		for _, m := range w.msgs {
			for _, o := range w.subs {
				if o != s && o.queue && o.ch == s.ch && m.ch == s.ch && w.must(s, m) && w.must(o, m) {
					together = true
				}
			}
		}
	}
	if together && received >= 3 {
		e.NonTrivial()
	}
}

// Lag: members that are slow, but not slower than the five seconds for which a
// Redis bus knows that a message has been taken.

func genLag(t *rapid.T) bwCase {
	c := bwCase{Kind: rapid.SampledFrom([]string{"redis", "redis", "nats"}).Draw(t, "kind"), Chans: []bwChan{{0, -1}}}
	c.Buses = rapid.IntRange(1, 4).Draw(t, "buses")
	c.Yield = rapid.SampledFrom([]int{0, 0, 1, 5}).Draw(t, "yield")
	batches := rapid.SliceOfN(rapid.IntRange(1, 6), 1, 4).Draw(t, "batches")
	n := 0
	for _, b := range batches {
		n += b
	}
	for range rapid.IntRange(2, 5).Draw(t, "members") {
		o := bwOp{Do: "sub", Queue: true, Bus: rapid.IntRange(0, c.Buses-1).Draw(t, "bus"), Size: rapid.SampledFrom([]int{0, 1, 2, 100}).Draw(t, "size")}
		if rapid.Bool().Draw(t, "slow") {
			o.Pause = rapid.IntRange(1, 4000).Draw(t, "pause") / n // all of them take less than five seconds
		}
		c.Ops = append(c.Ops, o)
	}
	for i, b := range batches {
		o := bwOp{Do: "pub", N: b, Pub: rapid.IntRange(0, 2).Draw(t, "pub"), After: rapid.IntRange(0, 100).Draw(t, "after"),
			Same: rapid.IntRange(0, 3).Draw(t, "same") == 3}
		if i == 0 {
			o.After = max(1, o.After)
		}
		c.Ops = append(c.Ops, o)
	}
	return c
}

func execLag(e *engine.Env, c bwCase) {
	w := newBW(e, c)
	defer w.finish()
	for _, o := range c.Ops {
		w.do(o)
	}
	w.drain()
	w.queues()
	w.classes()
	slow, other := 0, 0
	for _, s := range w.subs {
		if s.pause > 0 && len(s.recv) > 0 {
			slow++
		} else if len(s.recv) > 0 {
			other++
		}
	}
	if slow > 0 && slow+other > 1 {
		e.NonTrivial()
	}
}

// Round robin: windows of constant membership on one local bus, or one
// connection to Redis, or to NATS with routing within the connection.

type robinWindow struct {
	Join  []int // buffer sizes
	Leave []int
	N     []int // messages per publisher
}

type robinCase struct {
	Kind    string
	Windows []robinWindow
}

func genRobin(t *rapid.T) robinCase {
	kind := rapid.SampledFrom([]string{"local", "local", "redis", "nats"}).Draw(t, "kind")
	return robinCase{kind, rapid.SliceOfN(rapid.Custom(func(t *rapid.T) robinWindow {
		return robinWindow{
			Join:  rapid.SliceOfN(rapid.SampledFrom([]int{100, 1, 3}), 0, 4).Draw(t, "join"),
			Leave: rapid.SliceOfN(rapid.IntRange(0, 20), 0, 3).Draw(t, "leave"),
			N:     rapid.SliceOfN(rapid.IntRange(0, 30), 1, 3).Draw(t, "n"),
		}
	}), 1, 6).Draw(t, "windows")}
}

func execRobin(e *engine.Env, c robinCase) {
	w := newBW(e, bwCase{Kind: c.Kind, Chans: []bwChan{{0, 0}}})
	defer w.finish()
	var live []*bwSub
	for i, x := range c.Windows {
		for _, k := range x.Leave {
			if len(live) > 0 {
				k %= len(live)
				w.closeSub(live[k])
				live = append(live[:k:k], live[k+1:]...)
			}
		}
		for _, size := range x.Join {
			if s := w.subscribe(bwOp{Queue: true, Size: size}); s != nil {
				w.add(s)
				w.read(s)
				live = append(live, s)
			}
		}
		if c.Kind != "local" {
			time.Sleep(time.Second)
		}
		before := map[*bwSub]int{}
		for _, s := range live {
			before[s] = len(s.recv)
		}
		total := 0
		for p, n := range x.N {
			w.publish(bwOp{Pub: p, N: n})
			total += n
		}
		w.drain()
		if len(live) == 0 {
			continue
		}
		lo, hi, sum := 1<<30, 0, 0
		for _, s := range live {
			n := len(s.recv) - before[s]
			lo, hi, sum = min(lo, n), max(hi, n), sum+n
		}
		if sum != total {
			e.Failf("window %d: %d messages published to %d members, %d received", i, total, len(live), sum)
		}
		if hi-lo > 1 {
			e.Failf("window %d: of %d messages to %d members one got %d and another %d", i, total, len(live), hi, lo)
		}
		if len(live) >= 2 && total >= 5 {
			e.NonTrivial()
			e.Class("members: %s", bucket(len(live)))
		}
	}
	w.queues()
}
