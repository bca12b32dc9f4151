package checks

import (
	"context"
	"fmt"
	"runtime"
	"slices"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"pgregory.net/rapid"

	"github.com/livekit/psrpc"
	"github.com/livekit/psrpc/internal/bus"
	"github.com/livekit/psrpc/verif/engine"
)

// A history of subscriptions, closings and publications on the buses of one
// fabric. Operations without time between them run concurrently.

type bwChan struct {
	Srv, Loc int // NATS server and local channel; Loc -1: none
}

type bwOp struct {
	Do    string // sub close pub drain full suball closeall kill refuse fail
	After int    // ms since the operations before; 0: concurrently with them
	Bus   int    // sub
	Chan  int    // sub, pub, full
	Size  int    // sub, full
	Queue bool   // sub, full
	Yield int    // sub: how slowly it reads
	Pause int    // sub: ms it rests after each message
	Sub   int    // close: which
	Pub   int    // pub: which publisher
	N     int    // pub: messages
	Same  bool   // pub: equal contents
	Big   int    // pub: padding
	Front bool   // pub: with the padding in front
	Ms    int    // refuse, fail: how long
	Cmds  string // fail: which commands
}

type bwCase struct {
	Kind  string
	Buses int
	Chans []bwChan
	Lat   []int // delivery delays, in turn
	Yield int   // how often the broker yields before reading a command
	Pick  []int // queue member picked by NATS, in turn
	Ops   []bwOp
}

type bwMsg struct {
	val                  string
	same                 bool
	ch, pub, n           int
	startSeq, endSeq     int64
	startAt              time.Time
	startEpoch, endEpoch int64
}

type bwSub struct {
	i, bus, ch           int
	queue                bool
	yield, group         int
	pause                time.Duration // after each message
	sub                  bus.Subscription[Str]
	startSeq, liveSeq    int64
	startEpoch           int64
	liveAt               time.Time
	closing              bool
	closed               bool
	closeEnd, closeEpoch int64
	closedAt             time.Time
	mu                   sync.Mutex
	recv                 []string
	recvAt               []time.Time
	ended                chan struct{}
}

type bw struct {
	e     *engine.Env
	c     bwCase
	f     *Fabric
	buses []psrpc.MessageBus
	seq   atomic.Int64
	epoch atomic.Int64
	group int

	mu     sync.Mutex
	subs   []*bwSub
	msgs   []*bwMsg
	pubs   []chan func()
	work   sync.WaitGroup // publications under way
	ops    sync.WaitGroup // operations of the current group
	faulty atomic.Bool
	sound  time.Time // when the last fault is over
	nval   int
}

func (c bwCase) chanOf(i int) bus.Channel {
	x := c.Chans[i]
	ch := bus.Channel{Legacy: fmt.Sprintf("legacy%d", i), Server: fmt.Sprintf("srv%d", x.Srv)}
	if x.Loc >= 0 {
		ch.Local = fmt.Sprintf("loc%d", x.Loc)
	}
	return ch
}

func newBW(e *engine.Env, c bwCase) *bw {
	w := &bw{e: e, c: c, f: NewFabric(c.Kind)}
	if len(c.Lat) > 0 {
		var n atomic.Int64
		lat := func() time.Duration { return msd(c.Lat[int(n.Add(1))%len(c.Lat)]) }
		if w.f.Nats != nil {
			w.f.Nats.Latency = lat
		}
		if w.f.Redis != nil {
			w.f.Redis.Latency = lat
		}
	}
	if w.f.Nats != nil {
		w.f.Nats.Yield = c.Yield
	}
	if w.f.Redis != nil {
		w.f.Redis.Yield = c.Yield
	}
	if len(c.Pick) > 0 && w.f.Nats != nil {
		n := 0
		w.f.Nats.PickQueue = func(int) int { n++; return c.Pick[n%len(c.Pick)] }
	}
	for range max(1, c.Buses) {
		w.buses = append(w.buses, w.f.Bus())
	}
	for range 3 {
		q := make(chan func(), 1000)
		w.pubs = append(w.pubs, q)
		go func() {
			for f := range q {
				f()
			}
		}()
	}
	time.Sleep(ms)
	return w
}

func (w *bw) finish() {
	for _, q := range w.pubs {
		close(q)
	}
	for _, s := range w.subs {
		if !s.closing && s.sub != nil {
			_ = s.sub.Close()
		}
	}
	w.f.Close()
}

const bwLimit = 30 * time.Second

// step runs f, which has to return at once.
func (w *bw) step(what string, f func()) {
	if !within(bwLimit, f) {
		w.e.Failf("%s did not return within %v", what, bwLimit)
	}
}

func (w *bw) subscribe(o bwOp) *bwSub {
	s := &bwSub{bus: o.Bus % len(w.buses), ch: o.Chan % len(w.c.Chans), queue: o.Queue, yield: o.Yield, pause: msd(o.Pause), group: w.group,
		ended: make(chan struct{}), startEpoch: w.epoch.Load(), startSeq: w.seq.Add(1)}
	var err error
	w.step("Subscribe", func() {
		if s.queue {
			s.sub, err = bus.SubscribeQueue[Str](context.Background(), w.buses[s.bus], w.c.chanOf(s.ch), o.Size)
		} else {
			s.sub, err = bus.Subscribe[Str](context.Background(), w.buses[s.bus], w.c.chanOf(s.ch), o.Size)
		}
	})
	if err != nil || s.sub == nil {
		w.e.Failf("subscribing to %v on bus %d (queue %v) failed: %v", w.c.chanOf(s.ch), s.bus, s.queue, err)
		return nil
	}
	s.liveSeq, s.liveAt = w.seq.Add(1), time.Now()
	return s
}

func (w *bw) add(s *bwSub) {
	w.mu.Lock()
	s.i = len(w.subs)
	w.subs = append(w.subs, s)
	w.mu.Unlock()
}

func (w *bw) read(s *bwSub) {
	go func() {
		defer close(s.ended)
		for m := range s.sub.Channel() {
			s.mu.Lock()
			s.recv = append(s.recv, m.Value)
			s.recvAt = append(s.recvAt, time.Now())
			s.mu.Unlock()
			for range s.yield {
				runtime.Gosched()
			}
			time.Sleep(s.pause)
		}
	}()
}

func (w *bw) closeSub(s *bwSub) {
	w.mu.Lock()
	s.closing = true
	s.closeEpoch = w.epoch.Load()
	w.mu.Unlock()
	w.step("Close of a subscription", func() { _ = s.sub.Close() })
	s.closeEnd, s.closedAt = w.seq.Add(1), time.Now()
	w.mu.Lock()
	s.closed = true
	w.mu.Unlock()
}

// publish has publisher p publish n messages, in its own goroutine.
func (w *bw) publish(o bwOp) {
	w.mu.Lock()
	w.nval++
	batch := w.nval
	w.mu.Unlock()
	p, ch := o.Pub%len(w.pubs), o.Chan%len(w.c.Chans)
	b := w.buses[p%len(w.buses)]
	w.work.Add(1)
	w.pubs[p] <- func() {
		defer w.work.Done()
		for n := range o.N {
			m := &bwMsg{ch: ch, pub: p, n: n, same: o.Same}
			if o.Same {
				m.val = fmt.Sprintf("same on %d", ch)
			} else {
				m.val = fmt.Sprintf("%d from %d, batch %d on %d", n, p, batch, ch)
				if o.Front {
					m.val = strings.Repeat("x", o.Big) + m.val
				} else {
					m.val += strings.Repeat("x", o.Big)
				}
			}
			m.startEpoch, m.startAt, m.startSeq = w.epoch.Load(), time.Now(), w.seq.Add(1)
			w.mu.Lock()
			w.msgs = append(w.msgs, m)
			w.mu.Unlock()
			if err := b.Publish(context.Background(), w.c.chanOf(ch), S(m.val)); err != nil && !w.faulty.Load() {
				w.e.Failf("Publish failed: %v", err)
			}
			m.endSeq = w.seq.Add(1)
			m.endEpoch = w.epoch.Load()
		}
	}
}

// drain waits until all that was published has arrived and been read.
func (w *bw) drain() {
	w.ops.Wait()
	w.step("publishing", w.work.Wait)
	time.Sleep(time.Minute)
	w.e.Sync()
	w.epoch.Add(1)
}

func (w *bw) do(o bwOp) {
	if o.After > 0 {
		w.ops.Wait()
		time.Sleep(msd(o.After))
		w.group++
	}
	switch o.Do {
	case "sub":
		w.ops.Add(1)
		g := w.group
		go func() {
			defer w.ops.Done()
			if s := w.subscribe(o); s != nil {
				s.group = g
				w.add(s)
				w.read(s)
			}
		}()
	case "suball":
		// a subscription of every channel at once
		w.ops.Add(1)
		g := w.group
		go func() {
			defer w.ops.Done()
			for ch := range w.c.Chans {
				o.Chan = ch
				if s := w.subscribe(o); s != nil {
					s.group = g
					w.add(s)
					w.read(s)
				}
			}
		}()
	case "closeall":
		// every subscription of a bus, or the ones of every other channel
		w.mu.Lock()
		var l []*bwSub
		for _, s := range w.subs {
			if !s.closing && s.group != w.group && s.bus == o.Bus && (o.Sub%3 == 0 || s.ch%2 == o.Sub%2) {
				s.closing = true
				l = append(l, s)
			}
		}
		w.mu.Unlock()
		w.ops.Add(1)
		go func() {
			defer w.ops.Done()
			for _, s := range l {
				w.closeSub(s)
			}
		}()
	case "close":
		w.mu.Lock()
		var s *bwSub
		if len(w.subs) > 0 {
			s = w.subs[o.Sub%len(w.subs)]
			if s.closing || s.group == w.group {
				s = nil // not twice, and not one opened by the operations under way
			} else {
				s.closing = true
			}
		}
		w.mu.Unlock()
		if s != nil {
			w.ops.Add(1)
			go func() {
				defer w.ops.Done()
				w.closeSub(s)
			}()
		}
	case "pub":
		w.publish(o)
	case "drain":
		w.drain()
		w.group++
	case "full":
		w.full(o)
	case "kill":
		w.faulty.Store(true)
		w.f.Redis.Kill(o.Ms%2 == 1)
	case "refuse":
		w.faulty.Store(true)
		until := w.until(o)
		w.f.Redis.SetRefuse(func() bool { return time.Now().Before(until) })
		if o.Sub%2 == 0 {
			w.f.Redis.Kill(o.Sub%4 == 0)
		}
	case "fail":
		w.faulty.Store(true)
		until := w.until(o)
		nth, n := o.N, 0
		w.f.Redis.SetFail(func(cmd []string) string {
			if !time.Now().Before(until) || !strings.Contains(o.Cmds, " "+cmd[0]+" ") {
				return ""
			}
			if n++; nth > 0 && n%nth != 0 {
				return ""
			}
			// a server does not answer these with errors
			if o.Same || cmd[0] == "SUBSCRIBE" || cmd[0] == "UNSUBSCRIBE" {
				return "DROP"
			}
			return "ERR injected"
		})
	}
}

func (w *bw) until(o bwOp) time.Time {
	t := time.Now().Add(msd(o.Ms))
	if t.After(w.sound) {
		w.sound = t
	}
	return t
}

// full closes a subscription whose buffer is full and that nobody reads, at an
// otherwise quiet moment.
func (w *bw) full(o bwOp) {
	w.drain()
	o.Chan = len(w.c.Chans) // a channel of its own
	w.c.Chans = append(w.c.Chans, bwChan{Srv: 1000 + o.Chan, Loc: o.Sub%2 - 1})
	defer func() { w.c.Chans = w.c.Chans[:o.Chan] }()
	s := w.subscribe(o)
	if s == nil {
		return
	}
	time.Sleep(ms)
	n := 2*o.Size + 5
	b := w.buses[0]
	var sent []string
	w.work.Add(1)
	ch := w.c.chanOf(o.Chan)
	go func() {
		defer w.work.Done()
		for i := range n {
			v := fmt.Sprint("full ", i)
			sent = append(sent, v)
			_ = b.Publish(context.Background(), ch, S(v))
		}
	}()
	time.Sleep(5 * ms)
	t := time.Now()
	w.step("Close of a subscription with a full buffer", func() { _ = s.sub.Close() })
	if d := time.Since(t); d > time.Second {
		w.e.Failf("Close of a subscription with a full buffer took %v", d)
	}
	w.step("publishing to a closed subscription", w.work.Wait)
	time.Sleep(10 * ms)
	var got []string
	w.step("reading what a closed subscription left", func() {
		for m := range s.sub.Channel() {
			got = append(got, m.Value)
		}
	})
	for i, v := range got {
		if i >= len(sent) || v != sent[i] {
			w.e.Failf("a subscription closed while its buffer was full yielded %q of %q", got, sent)
			break
		}
	}
	w.epoch.Add(1)
	w.group++
	w.e.Class("closed while full")
}

// recover lets the pools of the clients find out about dead connections.
func (w *bw) recover() {
	for range 3 {
		var wg sync.WaitGroup
		for _, rc := range w.f.rcs {
			for range 20 {
				wg.Add(1)
				go func() {
					defer wg.Done()
					_ = rc.Ping(context.Background()).Err()
				}()
			}
		}
		wg.Wait()
		time.Sleep(time.Minute)
	}
}

// must says that the subscription was there for all of the message's life.
func (w *bw) must(s *bwSub, m *bwMsg) bool {
	live := m.startAt.After(s.liveAt)
	if w.f.Kind == "local" {
		live = m.startSeq > s.liveSeq
	}
	return live && (!s.closing || m.endEpoch < s.closeEpoch)
}

func (w *bw) may(s *bwSub, m *bwMsg) bool {
	if m.endEpoch < s.startEpoch {
		return false
	}
	return !s.closed || m.startSeq < s.closeEnd
}

func (w *bw) count(s *bwSub) map[string]int {
	n := map[string]int{}
	for _, v := range s.recv {
		n[v]++
	}
	return n
}

func clip(s string) string {
	if len(s) > 60 {
		return s[:60] + "..."
	}
	return s
}

func (s *bwSub) String() string {
	q := "plain"
	if s.queue {
		q = "queue"
	}
	return fmt.Sprintf("%s subscriber %d (bus %d, channel %d)", q, s.i, s.bus, s.ch)
}

// order checks that each publisher's messages arrive in order.
func (w *bw) order(s *bwSub) {
	pos := map[string]*bwMsg{}
	for _, m := range w.msgs {
		if !m.same {
			pos[m.val] = m
		}
	}
	last := map[int]*bwMsg{}
	for _, v := range s.recv {
		m := pos[v]
		if m == nil {
			continue
		}
		if l := last[m.pub]; l != nil && l.startSeq > m.startSeq {
			w.e.Failf("%v received %q after the later %q of the same publisher", s, clip(m.val), clip(l.val))
			return
		}
		last[m.pub] = m
	}
}

func (w *bw) foreign(s *bwSub) {
	known := map[string]bool{}
	for _, m := range w.msgs {
		if m.ch == s.ch {
			known[m.val] = true
		}
	}
	for _, v := range s.recv {
		if !known[v] {
			w.e.Failf("%v received %q, which nobody published there", s, clip(v))
			return
		}
	}
}

// fanout judges the plain subscribers; lossy: nothing has to arrive.
func (w *bw) fanout() {
	for _, s := range w.subs {
		if s.queue {
			continue
		}
		lo, hi := map[string]int{}, map[string]int{}
		for _, m := range w.msgs {
			if m.ch != s.ch {
				continue
			}
			if w.must(s, m) {
				lo[m.val]++
			}
			if w.may(s, m) {
				hi[m.val]++
			}
		}
		got := w.count(s)
		w.foreign(s)
		for _, m := range w.msgs {
			if m.ch != s.ch {
				continue
			}
			if n := got[m.val]; n < lo[m.val] {
				w.e.Failf("%v missed a message: %q received %d times, published %d times while it was subscribed", s, clip(m.val), n, lo[m.val])
				return
			} else if n > hi[m.val] {
				w.e.Failf("%v received %q %d times; only %d were published at a time that allows it", s, clip(m.val), n, hi[m.val])
				return
			}
		}
		w.order(s)
	}
}

// queues judges the queue subscribers.
func (w *bw) queues() {
	for ch := range w.c.Chans {
		var members []*bwSub
		for _, s := range w.subs {
			if s.queue && s.ch == ch {
				members = append(members, s)
				w.foreign(s)
				w.order(s)
			}
		}
		lo, hi := map[string]int{}, map[string]int{}
		allowed := map[*bwSub]map[string]int{}
		var vals []string
		for _, m := range w.msgs {
			if m.ch != ch {
				continue
			}
			nMust, nMay, stable := 0, 0, true
			for _, s := range members {
				if w.must(s, m) {
					nMust++
				}
				// a broker hears of a departure a moment after Close returned
				if s.closed && w.f.Kind != "local" && !m.startAt.After(s.closedAt) && !w.must(s, m) {
					stable = false
				}
				if w.may(s, m) {
					nMay++
					if allowed[s] == nil {
						allowed[s] = map[string]int{}
					}
					allowed[s][m.val]++
				}
			}
			if nMay > 0 && nMay == nMust && stable {
				lo[m.val]++
			}
			if nMay > 0 {
				hi[m.val]++
			}
			if !slices.Contains(vals, m.val) {
				vals = append(vals, m.val)
			}
		}
		total := map[string]int{}
		for _, s := range members {
			for v, n := range w.count(s) {
				total[v] += n
				if n > allowed[s][v] {
					w.e.Failf("%v received %q %d times, but at most %d were published while it can have been a member", s, clip(v), n, allowed[s][v])
				}
			}
		}
		for _, v := range vals {
			if total[v] < lo[v] {
				w.e.Failf("channel %d: %q, published %d times to stable members, was received by members %d times", ch, clip(v), lo[v], total[v])
				return
			}
			if total[v] > hi[v] {
				w.e.Failf("channel %d: %q was received by members %d times, published %d times", ch, clip(v), total[v], hi[v])
				return
			}
		}
	}
}

// endings checks that a closed subscription's channel is closed after what was
// left in it, and that no other one is.
func (w *bw) endings() {
	for _, s := range w.subs {
		select {
		case <-s.ended:
			if !s.closing {
				w.e.Failf("%v ended without having been closed", s)
			}
		default:
			if s.closing {
				w.e.Failf("%v was closed, but its channel never closes", s)
			}
		}
	}
}

// held checks that the broker holds subscriptions for exactly the channels
// with live subscribers.
func (w *bw) held() {
	want, got := map[string]int{}, map[string]int{}
	type key struct {
		bus int
		ch  string
	}
	seen := map[key]bool{}
	for _, s := range w.subs {
		if s.closing {
			continue
		}
		c := w.c.chanOf(s.ch)
		k := key{s.bus, c.Legacy}
		if w.f.Nats != nil {
			k.ch = c.Server
			if c.Local == "" {
				want[k.ch]++ // each has its own
				continue
			}
		}
		if !seen[k] {
			seen[k] = true
			want[k.ch]++
		}
	}
	switch {
	case w.f.Nats != nil:
		got = w.f.Nats.Subjects()
	case w.f.Redis != nil:
		got = w.f.Redis.Channels()
	default:
		return
	}
	for _, m := range []map[string]int{want, got} {
		for ch := range m {
			if want[ch] != got[ch] {
				w.e.Failf("the broker holds %d subscriptions of channel %s, %d connections have live subscribers of it", got[ch], ch, want[ch])
				return
			}
		}
	}
}

// ---------------------------------------------------------------- generation

type bwGen struct {
	kinds          []string
	queues, plains bool
	maxChans       int
	ops            []string // weighted
	minOps, maxOps int
	maxN           int
	after          []int
	latency        bool
	wide           bool // many channels at once, too
}

func (g bwGen) draw(t *rapid.T) bwCase {
	c := bwCase{Kind: rapid.SampledFrom(g.kinds).Draw(t, "kind")}
	c.Buses = 1
	if c.Kind != "local" {
		c.Buses = rapid.IntRange(1, 3).Draw(t, "buses")
	}
	nch := rapid.IntRange(1, g.maxChans).Draw(t, "chans")
	wide := g.wide && rapid.IntRange(0, 5).Draw(t, "wide") == 5
	if wide {
		nch = rapid.IntRange(4, 30).Draw(t, "many chans")
		g.ops = []string{"suball", "closeall", "pub", "sub", "close", "closeall", "suball"}
		g.maxOps = min(g.maxOps, 10)
	}
	for i := range nch {
		x := bwChan{Srv: i, Loc: -1}
		if rapid.Bool().Draw(t, "routed") {
			x.Loc = i
			// the members of a NATS queue group hear all local channels of a
			// server channel (a known finding): only share it within one connection
			if !(g.queues && c.Kind == "nats" && c.Buses > 1) && rapid.Bool().Draw(t, "share") {
				for j := range i {
					if c.Chans[j].Loc >= 0 {
						x.Srv = c.Chans[j].Srv
					}
				}
			}
		}
		c.Chans = append(c.Chans, x)
	}
	if g.latency && c.Kind != "local" {
		c.Lat = rapid.SliceOfN(rapid.IntRange(0, 15), 0, 5).Draw(t, "lat")
	}
	if c.Kind != "local" {
		c.Yield = rapid.SampledFrom([]int{0, 0, 1, 5, 40}).Draw(t, "yield")
	}
	if g.queues && c.Kind == "nats" {
		c.Pick = rapid.SliceOfN(rapid.IntRange(0, 5), 0, 5).Draw(t, "pick")
	}
	op := rapid.Custom(func(t *rapid.T) bwOp {
		o := bwOp{Do: rapid.SampledFrom(g.ops).Draw(t, "do"), After: rapid.SampledFrom(g.after).Draw(t, "after")}
		switch o.Do {
		case "sub", "full":
			o.Bus = rapid.IntRange(0, c.Buses-1).Draw(t, "bus")
			o.Chan = max(0, rapid.IntRange(-2, nch-1).Draw(t, "chan"))
			o.Size = rapid.SampledFrom([]int{100, 1, 0, 2, 5}).Draw(t, "size")
			o.Yield = rapid.SampledFrom([]int{0, 1, 10}).Draw(t, "yield")
			switch {
			case g.queues && g.plains && (c.Kind != "nats" || c.Chans[o.Chan].Loc < 0):
				o.Queue = rapid.IntRange(0, 3).Draw(t, "queue") > 0
			default:
				o.Queue = g.queues
			}
			o.Sub = rapid.IntRange(0, 1).Draw(t, "routed")
		case "suball", "closeall":
			o.Bus = rapid.IntRange(0, c.Buses-1).Draw(t, "bus")
			o.Size = rapid.SampledFrom([]int{100, 1, 0}).Draw(t, "size")
			o.Queue = g.queues
			o.Sub = rapid.IntRange(0, 5).Draw(t, "which")
		case "close":
			o.Sub = rapid.IntRange(0, 30).Draw(t, "sub")
		case "pub":
			o.Pub = rapid.IntRange(0, 2).Draw(t, "pub")
			o.Chan = max(0, rapid.IntRange(-2, nch-1).Draw(t, "chan"))
			o.N = rapid.IntRange(1, g.maxN).Draw(t, "n")
			o.Same = rapid.IntRange(0, 3).Draw(t, "same") == 3
			o.Big = rapid.SampledFrom([]int{0, 0, 0, 300, 5000}).Draw(t, "big")
			o.Front = rapid.Bool().Draw(t, "front")
		}
		return o
	})
	// start with some subscribers of the first channel
	for range rapid.IntRange(0, 3).Draw(t, "first") {
		c.Ops = append(c.Ops, bwOp{Do: "sub", Queue: g.queues, Size: 10,
			Bus: rapid.IntRange(0, c.Buses-1).Draw(t, "bus")})
	}
	c.Ops = append(c.Ops, rapid.SliceOfN(op, g.minOps, g.maxOps).Draw(t, "ops")...)
	return c
}

func (w *bw) classes() (published, received, changes int) {
	for _, s := range w.subs {
		received += len(s.recv)
		if s.closed {
			changes++
		}
	}
	w.e.Class("bus: %s", w.f.Kind)
	w.e.Class("messages: %s", bucket(len(w.msgs)))
	w.e.Class("subscribers: %s", bucket(len(w.subs)))
	return len(w.msgs), received, changes + len(w.subs)
}

func bucket(n int) string {
	switch {
	case n == 0:
		return "0"
	case n <= 3:
		return "1-3"
	case n <= 10:
		return "4-10"
	case n <= 30:
		return "11-30"
	}
	return ">30"
}
