package checks

import (
	"pgregory.net/rapid"

	"github.com/livekit/psrpc/verif/engine"
)

func genC08(t *rapid.T) stCase {
	c := genStBase(t)
	c.Faults = genFaults(t, []string{"MSG", "ACK", "MSG", "ACK", "OPEN"}, []string{"delay", "drop", "err", "slow", "linger"}, 5, 25, 120)
	for range rapid.IntRange(1, 4).Draw(t, "streams") {
		s := stStream{
			At:      rapid.SampledFrom([]int{0, 0, 3, 50}).Draw(t, "openat"),
			Client:  rapid.IntRange(0, 1).Draw(t, "client"),
			Hijack:  rapid.IntRange(0, 4).Draw(t, "hijack") == 4,
			HijackE: rapid.IntRange(0, len(stCauses)-1).Draw(t, "hijackreturns"),
			Senders: rapid.SliceOfN(rapid.Custom(genStSender), 1, 5).Draw(t, "senders"),
		}
		s.Empty = [2]bool{rapid.IntRange(0, 3).Draw(t, "empty") == 0, rapid.IntRange(0, 3).Draw(t, "empty back") == 0}
		s.Readers = [2]stReader{genStReader(t), genStReader(t)}
		if rapid.IntRange(0, 2).Draw(t, "ends") == 2 {
			s.Events = append(s.Events, stEvent{
				At: rapid.IntRange(0, 150).Draw(t, "endat"),
				Do: rapid.SampledFrom([]string{"cclose", "sclose", "return", "cancel"}).Draw(t, "do"),
			})
		}
		c.Streams = append(c.Streams, s)
	}
	if rapid.IntRange(0, 5).Draw(t, "lateacks") == 0 {
		// acknowledgements that arrive while a later send, itself lost, waits
		c.Lat["ACK"] = rapid.SampledFrom([]int{20, 25, 40, 70}).Draw(t, "ackdelay")
		for i := range c.Streams {
			for j := range c.Streams[i].Senders {
				c.Streams[i].Senders[j].Timeout = rapid.SampledFrom([]int{15, 15, 50}).Draw(t, "short")
			}
		}
		for k := range 16 {
			if rapid.Bool().Draw(t, "lost") {
				c.Faults = append(c.Faults, Fault{"MSG", k, "drop", 0})
			}
		}
	}
	c.roomy()
	return c
}

func runC08(e *engine.Env, c stCase) {
	w := newStWorld(e, c)
	w.run(15000)
	w.finish()
	acked, received := w.delivery()
	w.timing()
	failed, many := 0, false
	for _, r := range w.runs {
		for dir := range 2 {
			from := map[int]bool{}
			for _, x := range r.sends[dir] {
				if x.err != nil {
					failed++
				} else {
					from[x.sender] = true
				}
			}
			many = many || len(from) > 1
		}
		if r.opens {
			e.Class("opened")
		} else {
			e.Class("not opened: %v", code(r.openErr))
		}
	}
	e.Class("bus: %s", c.Bus)
	e.Class("acknowledged: %s", bucket(acked))
	e.Class("failed sends: %s", bucket(failed))
	if received > acked {
		e.Class("received but not acknowledged")
	}
	if acked >= 4 && (many || failed > 0) {
		e.NonTrivial()
	}
}

func init() {
	engine.Add("C08", "delivery", "at least 4 sends were acknowledged, and some direction of a stream had several senders or some send failed",
		1000, 15000, genC08, runC08)
}
