package checks

import (
	"pgregory.net/rapid"

	"github.com/livekit/psrpc/verif/engine"
)

func init() {
	g := bwGen{kinds: []string{"local", "nats", "redis"}, plains: true, maxChans: 4,
		ops:    []string{"sub", "pub", "pub", "sub", "close", "drain", "pub"},
		minOps: 2, maxOps: 25, maxN: 15, after: []int{0, 0, 0, 1, 5, 30}, latency: true}
	engine.Add("C05", "history", "some subscriber received at least 3 messages, and a subscription began or ended with publications before and after it",
		1200, 20000, g.draw, execFanout)
	m := g
	m.queues = true
	m.kinds = []string{"local", "redis"}
	engine.Add("C05", "with-queues", "as history, with queue subscribers on the same channels", 500, 8000, func(t *rapid.T) bwCase { return m.draw(t) }, execFanout)
}

func execFanout(e *engine.Env, c bwCase) {
	w := newBW(e, c)
	defer w.finish()
	for _, o := range c.Ops {
		w.do(o)
	}
	w.drain()
	w.fanout()
	w.classes()
	most, changed := 0, false
	for _, s := range w.subs {
		if s.queue {
			continue
		}
		most = max(most, len(s.recv))
		before, after := 0, 0
		for _, m := range w.msgs {
			if m.startSeq < s.startSeq {
				before++
			} else {
				after++
			}
		}
		changed = changed || (before > 0 && after > 0)
	}
	if most >= 3 && changed {
		e.NonTrivial()
	}
}
