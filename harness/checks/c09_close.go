package checks

import (
	"context"
	"errors"
	"fmt"
	"time"

	"pgregory.net/rapid"

	"github.com/livekit/psrpc"
	"github.com/livekit/psrpc/internal"
	"github.com/livekit/psrpc/verif/engine"
)

func genC09(t *rapid.T) stCase {
	c := genStBase(t)
	c.Faults = genFaults(t, []string{"CLOSE", "ACK", "MSG", "RCLAIM", "CLOSE", "OPEN"}, []string{"delay", "drop", "err", "delay"}, 3, 6, 120)
	for i := range c.Faults {
		if c.Faults[i].Do == "err" && c.Faults[i].Kind != "CLOSE" {
			c.Faults[i].Do = "delay"
			c.Faults[i].Ms = 33
		}
	}
	whole := []string{"cliclose", "srvshut", "srvkill"}
	for range rapid.IntRange(1, 3).Draw(t, "streams") {
		s := stStream{
			At:      rapid.SampledFrom([]int{0, 0, 3, 50}).Draw(t, "openat"),
			Client:  rapid.IntRange(0, 1).Draw(t, "client"),
			Hijack:  rapid.IntRange(0, 4).Draw(t, "hijack") == 4,
			HijackE: rapid.IntRange(0, len(stCauses)-1).Draw(t, "hijackreturns"),
			Senders: rapid.SliceOfN(rapid.Custom(genStSender), 0, 3).Draw(t, "senders"),
		}
		if rapid.IntRange(0, 5).Draw(t, "deadline") == 5 {
			s.Deadline = rapid.IntRange(1, 250).Draw(t, "deadlinems")
		}
		s.Empty = [2]bool{rapid.IntRange(0, 5).Draw(t, "empty") == 0, rapid.IntRange(0, 5).Draw(t, "empty back") == 0}
		s.Readers = [2]stReader{genStReader(t), genStReader(t)}
		s.Events = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) stEvent {
			ev := stEvent{
				At:  rapid.OneOf(rapid.IntRange(0, 20), rapid.IntRange(0, 220)).Draw(t, "evat"),
				Do:  rapid.SampledFrom([]string{"cclose", "sclose", "return", "cancel", "whole"}).Draw(t, "do"),
				Err: rapid.IntRange(0, 5).Draw(t, "cause"),
			}
			if ev.Do == "whole" {
				ev.Do = rapid.SampledFrom(whole).Draw(t, "wholedo")
			}
			return ev
		}), rapid.IntRange(0, 1).Draw(t, "minevents"), 4).Draw(t, "events")
		c.Streams = append(c.Streams, s)
	}
	c.roomy()
	// A second closing of the server waits on a mutex while the first one waits
	// for unacknowledged sends, and the fake clock stands still meanwhile.
	n := 0
	for i := range c.Streams {
		for k, ev := range c.Streams[i].Events {
			if ev.Do == "srvshut" || ev.Do == "srvkill" {
				if n++; n > 1 {
					c.Streams[i].Events[k].Do = "cliclose"
				}
			}
		}
	}
	return c
}

// stEnder is one thing that would end a stream's end.
type stEnder struct {
	what  string
	at    time.Time
	match func(error) bool
	mine  bool // a Close or return by the end itself, judged by identity
}

func is(want error) func(error) bool {
	return func(err error) bool { return err == want }
}

// closeCause is what an end reports that closed with the given cause.
func closeCause(cause error) error {
	if cause == nil {
		return psrpc.ErrStreamClosed
	}
	return cause
}

// enders lists what would end each end of each stream, from the record of what happened.
func (w *stWorld) enders() [][2][]stEnder {
	out := make([][2][]stEnder, len(w.runs))
	ids := map[string]int{}
	for _, s := range w.net.Log() {
		m, ok := s.Msg.(*internal.Stream)
		if !ok {
			continue
		}
		if o := m.GetOpen(); o != nil {
			for _, r := range w.runs {
				if o.Metadata["stream"] == fmt.Sprint(r.i) {
					ids[m.StreamId] = r.i
				}
			}
		}
	}
	seen := map[string]bool{}
	for _, s := range w.net.Log() {
		m, ok := s.Msg.(*internal.Stream)
		if !ok || m.GetClose() == nil {
			continue
		}
		i, ok := ids[m.StreamId]
		if !ok {
			w.e.Failf("a close notice was sent for the unknown stream %q", m.StreamId)
			continue
		}
		to := 0
		if s.Channel.Legacy == w.serverChannel() {
			to = 1
		}
		k := fmt.Sprint(i, "/", to)
		if seen[k] && !(to == 0 && len(w.servers) > 1) {
			w.e.Failf("stream %d: one end sent two close notices", i)
		}
		seen[k] = true
		// the notice carries the cause of its sender
		if from := w.runs[i].ends[1-to]; from.s != nil {
			if err := from.s.Err(); err == nil {
				w.e.Failf("stream %d: an end sent a close notice, but reports no error", i)
			} else if c, msg := wire(err); c != psrpc.ErrorCode(m.GetClose().Code) || msg != m.GetClose().Error {
				w.e.Failf("stream %d: an end closed with %v, and told the other end %s %q", i, err, m.GetClose().Code, m.GetClose().Error)
			}
		}
		// a notice lives as long as the messages of its sender
		// (which a deadline of the context the stream was opened with bounds)
		life := msd([]int{w.c.SrvTimeout, w.c.CliTimeout}[to])
		if dl := w.runs[i].c.Deadline; to == 1 && dl > 0 {
			life = min(life, msd(dl))
		}
		if d := time.Duration(m.Expiry - s.At.UnixNano()); d < life {
			w.e.Failf("stream %d: a close notice expires after %v, the timeout of its sender is %v", i, d, life)
		}
		if s.Out.IsZero() || s.Out.UnixNano() >= m.Expiry {
			continue // lost, or expired like any other message that is late
		}
		out[i][to] = append(out[i][to], stEnder{what: "close notice", at: s.Out, match: func(err error) bool {
			var p psrpc.Error
			return errors.As(err, &p) && p.Code() == psrpc.ErrorCode(m.GetClose().Code) && p.Error() == m.GetClose().Error
		}})
	}
	for _, r := range w.runs {
		for side, end := range r.ends {
			for _, x := range end.closes {
				out[r.i][side] = append(out[r.i][side], stEnder{what: "Close", at: x.start, match: is(closeCause(x.cause)), mine: true})
			}
		}
		add := func(side int, what string, at time.Time, cause error) {
			out[r.i][side] = append(out[r.i][side], stEnder{what: what, at: at, match: is(cause)})
		}
		if r.c.Deadline > 0 {
			if at := r.start.Add(msd(r.c.Deadline)); !at.After(time.Now()) {
				add(0, "deadline", at, context.DeadlineExceeded)
			}
		}
		opened := r.ends[1].opened
		for k, ev := range r.c.Events {
			at, ok := r.evs[k]
			if !ok {
				continue
			}
			switch ev.Do {
			case "cancel":
				add(0, "cancel", at, context.Canceled)
			case "return":
				if !r.c.Hijack && !opened.IsZero() {
					add(1, "return", later(at, opened), closeCause(stCause(ev.Err)))
				}
			}
		}
		for _, q := range w.runs {
			for k, ev := range q.c.Events {
				at, ok := q.evs[k]
				if !ok {
					continue
				}
				switch {
				case ev.Do == "cliclose" && q.c.Client == r.c.Client:
					add(0, "client closed", later(at, r.start), psrpc.ErrStreamClosed)
				case ev.Do == "srvshut" || ev.Do == "srvkill":
					if !opened.IsZero() && !at.Before(opened) {
						add(1, "server closed", at, psrpc.ErrStreamEOF)
					}
				}
			}
		}
	}
	return out
}

func later(a, b time.Time) time.Time {
	if a.After(b) {
		return a
	}
	return b
}

// wire is the code and message an error travels with.
func wire(err error) (psrpc.ErrorCode, string) {
	var p psrpc.Error
	if errors.As(err, &p) {
		return p.Code(), p.Error()
	}
	return psrpc.Unknown, err.Error()
}

func (w *stWorld) serverChannel() string {
	for _, s := range w.net.Log() {
		if s.Kind == "OPEN" {
			return s.Channel.Legacy
		}
	}
	return ""
}

// endings judges how the ends of the streams ended, before anything is torn down.
func (w *stWorld) endings() (ended int) {
	all := w.enders()
	now := time.Now()
	for _, r := range w.runs {
		for side, end := range r.ends {
			if side == 0 && !r.opens || side == 1 && end.s == nil {
				continue
			}
			name := fmt.Sprintf("stream %d, %s", r.i, []string{"client end", "server end"}[side])
			err := end.s.Err()
			var first time.Time
			var what []string
			for _, x := range all[r.i][side] {
				if first.IsZero() || x.at.Before(first) {
					first = x.at
				}
			}
			ok := false
			for _, x := range all[r.i][side] {
				if x.at.Equal(first) {
					what = append(what, x.what)
					ok = ok || err != nil && x.match(err)
				}
			}
			if first.IsZero() {
				if err != nil {
					w.e.Failf("%s: ended with %v, but nothing ended it", name, err)
				}
				if !end.doneAt.IsZero() || !end.closedAt.IsZero() {
					w.e.Failf("%s: its context or channel ended, but nothing ended the stream", name)
				}
				continue
			}
			if first.After(now.Add(-10 * time.Second)) {
				continue // still closing
			}
			ended++
			if first.Before(end.opened) && !first.Equal(end.opened) && side == 1 {
				w.e.Failf("%s: the handler was started %v after the close notice had arrived", name, end.opened.Sub(first))
			}
			if !ok {
				w.e.Failf("%s: reports %v, but what ended it first was %v (at %v)", name, err, what, first.Sub(r.start))
				continue
			}
			// the context and the channel end as soon as no send is pending
			limit := first
			for _, x := range r.sends[side] {
				if !x.start.After(first) && x.over {
					limit = later(limit, x.end)
				}
			}
			limit = later(limit, end.opened)
			if end.doneAt.IsZero() {
				w.e.Failf("%s: ended by %v, but its context is not done", name, what)
			} else if end.doneAt.After(limit) {
				w.e.Failf("%s: ended by %v, but its context was done only %v later", name, what, end.doneAt.Sub(first))
			} else if end.errDone != err {
				w.e.Failf("%s: the error changed from %v to %v", name, end.errDone, err)
			}
			if end.closedAt.IsZero() {
				w.e.Failf("%s: ended by %v, but its channel is not closed once drained", name, what)
			}
			for _, x := range r.sends[side] {
				if x.start.Before(first) && x.errBefore != nil {
					w.e.Failf("%s: reports %v %v before anything ended it", name, x.errBefore, first.Sub(x.start))
				}
				if x.start.After(first) {
					if x.errBefore != err {
						w.e.Failf("%s: reported %v after it had ended, later %v", name, x.errBefore, err)
					}
					if x.over && x.err != err {
						w.e.Failf("%s: ended with %v, but a send after that returned %v", name, err, x.err)
					}
				}
			}
			nils := 0
			for _, x := range end.closes {
				switch {
				case !x.over:
				case x.ret == nil:
					nils++
					if x.start.After(first) {
						w.e.Failf("%s: had ended with %v, but a later Close reported success", name, err)
					}
				case x.start.After(first) && x.ret != err:
					w.e.Failf("%s: had ended with %v, but a later Close returned %v", name, err, x.ret)
				}
			}
			if nils > 1 {
				w.e.Failf("%s: %d calls of Close reported success", name, nils)
			}
			for _, x := range what {
				w.e.Class("ended by: %s", x)
			}
		}
	}
	return
}

func runC09(e *engine.Env, c stCase) {
	w := newStWorld(e, c)
	w.run(20000)
	ended := w.endings()
	enders := 0
	for _, x := range w.enders() {
		enders = max(enders, len(x[0]), len(x[1]))
	}
	if !w.finish() {
		e.Failf("some reader, sender or Close never came to an end, although both ends were closed")
	}
	acked, _ := w.delivery()
	w.timing()
	for _, r := range w.runs {
		for side, end := range r.ends {
			if end.s != nil && (side == 1 || r.opens) && end.doneAt.IsZero() {
				e.Failf("stream %d: an end is not done after everything was closed", r.i)
			}
		}
		if end := r.ends[1]; end.s != nil && !r.c.Hijack && end.returned.IsZero() {
			e.Failf("stream %d: the handler never saw the stream end", r.i)
		}
	}
	e.Class("bus: %s", c.Bus)
	e.Class("ended: %d", ended)
	e.Class("acknowledged: %s", bucket(acked))
	if ended > 0 && enders >= 2 {
		e.NonTrivial()
	}
}

func init() {
	engine.Add("C09", "endings", "some stream ended, and some end of a stream had at least two things that would end it",
		1500, 20000, genC09, runC09)
}
