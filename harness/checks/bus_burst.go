package checks

import (
	"context"
	"fmt"
	"runtime"
	"slices"
	"sync"
	"time"

	"pgregory.net/rapid"

	"github.com/livekit/psrpc"
	"github.com/livekit/psrpc/internal/bus"
	"github.com/livekit/psrpc/verif/engine"
)

// Many messages back to back to subscribers that are there all the time, so
// that whatever queues there are on the way become long.

type burstSub struct {
	Bus, Chan, Size int
	Queue           bool
	Late            int // ms before it begins to read
	Yield           int
}

type burstPub struct {
	Bus, Chan, N, At int
	Rest             int // ms of rest after every 100
	Big              int
}

type burstCase struct {
	Kind  string
	Buses int
	Chans int
	Yield int
	Subs  []burstSub
	Pubs  []burstPub
}

func genBurst(queues bool) func(t *rapid.T) burstCase {
	return func(t *rapid.T) burstCase {
		c := burstCase{
			Kind:  rapid.SampledFrom([]string{"redis", "nats", "local", "redis"}).Draw(t, "kind"),
			Buses: 1, Chans: rapid.IntRange(1, 3).Draw(t, "chans"),
			Yield: rapid.SampledFrom([]int{0, 0, 3}).Draw(t, "yield"),
		}
		if c.Kind != "local" {
			c.Buses = rapid.IntRange(1, 2).Draw(t, "buses")
		}
		c.Subs = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) burstSub {
			return burstSub{Bus: rapid.IntRange(0, c.Buses-1).Draw(t, "bus"), Chan: rapid.IntRange(0, c.Chans-1).Draw(t, "chan"),
				Size: rapid.SampledFrom([]int{100, 0, 1, 1000}).Draw(t, "size"), Queue: queues,
				Late: rapid.SampledFrom([]int{0, 0, 50, 2000}).Draw(t, "late"), Yield: rapid.SampledFrom([]int{0, 0, 2}).Draw(t, "yield")}
		}), 1, 4).Draw(t, "subs")
		c.Pubs = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) burstPub {
			p := burstPub{Bus: rapid.IntRange(0, c.Buses-1).Draw(t, "bus"), Chan: c.Subs[rapid.IntRange(0, len(c.Subs)-1).Draw(t, "to")].Chan,
				N:    rapid.OneOf(rapid.IntRange(1, 40), rapid.IntRange(41, 700), rapid.IntRange(701, 5000)).Draw(t, "n"),
				At:   rapid.SampledFrom([]int{0, 0, 1, 100}).Draw(t, "at"),
				Rest: rapid.SampledFrom([]int{0, 0, 1}).Draw(t, "rest")}
			if p.N < 100 {
				p.Big = rapid.SampledFrom([]int{0, 0, 1000, 70000, 1 << 20}).Draw(t, "big")
				if p.Big > 100_000 {
					p.N = min(p.N, 12) // the NATS client drops what a slow reader leaves beyond 64 MB
				}
			}
			return p
		}), 1, 4).Draw(t, "pubs")
		return c
	}
}

func runBurst(e *engine.Env, c burstCase) {
	f := NewFabric(c.Kind)
	if f.Nats != nil {
		f.Nats.Yield = c.Yield
	}
	if f.Redis != nil {
		f.Redis.Yield = c.Yield
	}
	var buses []psrpc.MessageBus
	for range c.Buses {
		buses = append(buses, f.Bus())
	}
	ch := func(i int) bus.Channel {
		return bus.Channel{Legacy: fmt.Sprint("legacy", i), Server: fmt.Sprint("srv", i), Local: fmt.Sprint("loc", i)}
	}
	pad := func(p burstPub) string {
		b := make([]byte, p.Big)
		for i := range b {
			b[i] = 'a' + byte(i%26)
		}
		return string(b)
	}
	type sub struct {
		burstSub
		s    bus.Subscription[Str]
		recv []string
		mu   sync.Mutex
	}
	var subs []*sub
	for _, o := range c.Subs {
		s := &sub{burstSub: o}
		var err error
		if o.Queue {
			s.s, err = bus.SubscribeQueue[Str](context.Background(), buses[o.Bus], ch(o.Chan), o.Size)
		} else {
			s.s, err = bus.Subscribe[Str](context.Background(), buses[o.Bus], ch(o.Chan), o.Size)
		}
		must(e, err, "subscribe")
		subs = append(subs, s)
		go func() {
			if c.Kind != "local" {
				// the local bus's publishers wait for it, one of them
				// holding a lock, and fake time stops where others want it
				time.Sleep(msd(o.Late))
			}
			for m := range s.s.Channel() {
				s.mu.Lock()
				s.recv = append(s.recv, m.Value)
				s.mu.Unlock()
				for range o.Yield {
					runtime.Gosched()
				}
			}
		}()
	}
	time.Sleep(time.Second)
	var wg sync.WaitGroup
	for i, p := range c.Pubs {
		wg.Add(1)
		go func() {
			defer wg.Done()
			time.Sleep(msd(p.At))
			pad := pad(p)
			for n := range p.N {
				if err := buses[p.Bus].Publish(context.Background(), ch(p.Chan), S(fmt.Sprintf("%d:%d:%s", i, n, pad))); err != nil {
					e.Failf("message %d of publisher %d cannot be published: %v", n, i, err)
					return
				}
				if p.Rest > 0 && n%100 == 99 {
					time.Sleep(msd(p.Rest))
				}
			}
		}()
	}
	if !within(time.Minute, wg.Wait) {
		e.Failf("publishing does not end")
	}
	time.Sleep(time.Minute)

	most := 0
	for ci := range c.Chans {
		var want []string // of all publishers
		pads := map[string]bool{}
		for i, p := range c.Pubs {
			if p.Chan == ci {
				pad := pad(p)
				for n := range p.N {
					m := fmt.Sprintf("%d:%d:%s", i, n, pad)
					want = append(want, m)
					pads[m] = true
				}
				most = max(most, p.N)
			}
		}
		got := map[string]int{}
		members := 0
		for si, s := range subs {
			if s.Chan != ci {
				continue
			}
			members++
			s.mu.Lock()
			recv := slices.Clone(s.recv)
			s.mu.Unlock()
			last := map[int]int{}
			own := map[string]int{}
			for _, m := range recv {
				if !pads[m] {
					e.Failf("subscriber %d received %q, which nobody published there", si, clip(m))
					continue
				}
				var i, n int
				_, _ = fmt.Sscanf(m, "%d:%d:", &i, &n)
				if l, ok := last[i]; ok && n < l {
					e.Failf("subscriber %d received message %d of publisher %d after its message %d", si, n, i, l)
				}
				last[i] = n
				own[m]++
				got[m]++
			}
			if !s.Queue {
				for _, m := range want {
					if own[m] != 1 {
						e.Failf("subscriber %d received message %q %d times (of %d published, it received %d)", si, clip(m), own[m], len(want), len(recv))
						break
					}
				}
			}
		}
		if len(c.Subs) > 0 && c.Subs[0].Queue && members > 0 {
			for _, m := range want {
				if got[m] != 1 {
					e.Failf("the %d queue members received message %q %d times (of %d published)", members, clip(m), got[m], len(want))
					break
				}
			}
		}
	}
	if most > 500 {
		e.NonTrivial()
	}
	e.Class("bus: %s", c.Kind)
	for _, s := range subs {
		_ = s.s.Close()
	}
	f.Close()
}

func init() {
	engine.Add("C05", "burst", "1-4 subscribers, 1-4 publishers of up to 5000 messages back to back; every subscriber receives each once, in order; non-trivial: a publisher of more than 500 messages",
		120, 4000, genBurst(false), runBurst)
	engine.Add("C06", "burst", "as C05's burst, with queue subscribers: the members of a channel together receive each message once, each member in order; non-trivial: a publisher of more than 500 messages",
		80, 4000, genBurst(true), runBurst)
}
