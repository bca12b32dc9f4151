package checks

import (
	"context"
	"time"

	"pgregory.net/rapid"

	"github.com/livekit/psrpc/internal/bus"
	"github.com/livekit/psrpc/verif/engine"
)

func init() {
	g := bwGen{kinds: []string{"local", "nats", "redis"}, plains: true, maxChans: 3,
		ops:    []string{"sub", "close", "sub", "close", "pub", "close", "sub", "full", "drain", "close"},
		minOps: 4, maxOps: 30, maxN: 8, after: []int{0, 0, 0, 0, 1, 5}, latency: true, wide: true}
	rule := "at least 3 subscriptions began and 2 were closed before the end"
	engine.Add("C07", "churn", rule+"; plain subscriptions", 900, 15000, g.draw, execChurn)
	q := g
	q.queues = true
	engine.Add("C07", "churn-queues", rule+"; queue subscriptions", 600, 10000, q.draw, execChurn)
	engine.Add("C07", "faults", "a subscription was opened or live while connections to Redis were cut, refused or commands failed", 700, 12000, genBusFaults, execChurn)
}

func genBusFaults(t *rapid.T) bwCase {
	g := bwGen{kinds: []string{"redis"}, plains: true, queues: rapid.Bool().Draw(t, "queues"), maxChans: 3,
		ops:    []string{"sub", "close", "sub", "pub"},
		minOps: 1, maxOps: 20, maxN: 5, after: []int{0, 0, 1, 5, 700}, latency: true, wide: true}
	c := g.draw(t)
	cmds := []string{" SUBSCRIBE ", " UNSUBSCRIBE ", " PUBLISH ", " SET SETNX ", " SUBSCRIBE UNSUBSCRIBE ", " SUBSCRIBE PUBLISH SET SETNX "}
	for range rapid.IntRange(1, 4).Draw(t, "nfaults") {
		o := bwOp{Do: rapid.SampledFrom([]string{"kill", "refuse", "fail"}).Draw(t, "fault"),
			After: rapid.SampledFrom([]int{0, 1, 5, 700}).Draw(t, "after"),
			Ms:    rapid.IntRange(1, 4000).Draw(t, "ms")}
		if rapid.IntRange(0, 9).Draw(t, "long") == 9 {
			o.Ms *= rapid.SampledFrom([]int{10, 100, 300}).Draw(t, "how long")
		}
		switch o.Do {
		case "refuse":
			o.Sub = rapid.IntRange(0, 3).Draw(t, "killtoo")
		case "fail":
			o.Cmds = rapid.SampledFrom(cmds).Draw(t, "cmds")
			o.N = rapid.IntRange(0, 3).Draw(t, "nth")
			o.Same = rapid.Bool().Draw(t, "drop")
		}
		at := rapid.IntRange(0, len(c.Ops)).Draw(t, "at")
		c.Ops = append(c.Ops[:at:at], append([]bwOp{o}, c.Ops[at:]...)...)
	}
	return c
}

func execChurn(e *engine.Env, c bwCase) {
	w := newBW(e, c)
	defer w.finish()
	for _, o := range c.Ops {
		w.do(o)
	}
	w.drain()
	if rest := time.Until(w.sound); rest > 0 {
		time.Sleep(rest)
		e.Class("a long fault")
	}
	w.drain()
	if !w.faulty.Load() {
		w.fanout()
		w.queues()
	} else {
		// what is lost while the broker fails is lost, but nothing may come twice
		w.notMore()
	}
	w.endings()
	w.held()

	// what is live now works
	w.recover()
	w.faulty.Store(false)
	mark := map[*bwSub]int{}
	for _, s := range w.subs {
		mark[s] = len(s.recv)
	}
	nmsgs := len(w.msgs)
	time.Sleep(10 * time.Second) // the locks of the messages before are gone
	for ch := range c.Chans {
		for p := range 3 {
			w.publish(bwOp{Pub: p, Chan: ch, N: 1})
		}
	}
	w.drain()
	msgs := w.msgs
	w.msgs = msgs[nmsgs:]
	for _, s := range w.subs {
		s.recv = s.recv[mark[s]:]
	}
	w.fanout()
	w.queues()

	// and ends when closed
	for i, s := range w.subs {
		if !s.closing && i%2 == 0 {
			w.closeSub(s)
		}
	}
	for ch := range c.Chans {
		w.publish(bwOp{Chan: ch, N: 1})
	}
	w.drain()
	w.endings()
	w.held()
	w.fanout()
	w.queues()
	w.msgs = msgs
	w.refused()
	_, _, changes := w.classes()
	if len(w.subs) >= 3 && changes-len(w.subs) >= 2 {
		e.NonTrivial()
	}
}

// refused checks that a NATS connection that is closed refuses subscriptions and
// publications, again and again, and that closing what was live still works.
func (w *bw) refused() {
	if w.f.Kind != "nats" {
		return
	}
	for _, nc := range w.f.ncs {
		nc.Close()
	}
	w.faulty.Store(true)
	ctx := context.Background()
	for i, b := range w.buses {
		for _, local := range []string{"", "l", "l", "", "l2"} {
			ch := bus.Channel{Legacy: "refused", Server: "refused", Local: local}
			for _, queue := range []bool{false, true} {
				w.step("subscribing over a closed connection", func() {
					var s bus.Subscription[Str]
					var err error
					if queue {
						s, err = bus.SubscribeQueue[Str](ctx, b, ch, 1)
					} else {
						s, err = bus.Subscribe[Str](ctx, b, ch, 1)
					}
					if err == nil {
						w.e.Failf("bus %d: subscribing to %q (queue %v) over a closed connection succeeded", i, ch, queue)
						_ = s.Close()
					}
				})
			}
			w.step("publishing over a closed connection", func() {
				if err := b.Publish(ctx, ch, S("x")); err == nil {
					w.e.Failf("bus %d: publishing to %q over a closed connection succeeded", i, ch)
				}
			})
		}
	}
	for _, s := range w.subs {
		if !s.closing {
			w.closeSub(s)
		}
	}
	time.Sleep(time.Second)
	w.endings()
}

// notMore checks that nothing was received twice, by one plain subscriber or by
// the queue members of a channel.
func (w *bw) notMore() {
	for _, s := range w.subs {
		w.foreign(s)
	}
	type key struct {
		q  *bwSub
		ch int
	}
	got := map[key]map[string]int{}
	pub := map[string]int{}
	for _, m := range w.msgs {
		pub[m.val]++
	}
	for _, s := range w.subs {
		k := key{s, s.ch}
		if s.queue {
			k.q = nil
		}
		if got[k] == nil {
			got[k] = map[string]int{}
		}
		for _, v := range s.recv {
			got[k][v]++
			if got[k][v] > pub[v] {
				w.e.Failf("%v: %q was received %d times, published %d times", s, clip(v), got[k][v], pub[v])
				return
			}
		}
	}
}
