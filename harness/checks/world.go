package checks

import (
	"context"
	"errors"
	"fmt"
	"sort"
	"sync"
	"time"

	"github.com/nats-io/nats.go"
	"github.com/redis/go-redis/v9"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/known/wrapperspb"
	"pgregory.net/rapid"

	"github.com/livekit/psrpc"
	"github.com/livekit/psrpc/internal"
	"github.com/livekit/psrpc/pkg/info"
	"github.com/livekit/psrpc/testutils"
	"github.com/livekit/psrpc/verif/engine"
	"github.com/livekit/psrpc/verif/fakes"
)

type Str = *wrapperspb.StringValue

var S = wrapperspb.String

const ms = time.Millisecond

func msd(n int) time.Duration { return time.Duration(n) * time.Millisecond }

// ---------------------------------------------------------------- fabrics

// Fabric is one messaging system; each Bus is the connection of one process to it.
type Fabric struct {
	Kind  string
	Nats  *fakes.Nats
	Redis *fakes.Redis
	local psrpc.MessageBus
	ncs   []*nats.Conn
	rcs   []*redis.Client
}

func NewFabric(kind string) *Fabric {
	f := &Fabric{Kind: kind}
	switch kind {
	case "nats":
		f.Nats = fakes.NewNats()
	case "redis":
		f.Redis = fakes.NewRedis()
	default:
		f.Kind = "local"
		f.local = psrpc.NewLocalMessageBus()
	}
	return f
}

func (f *Fabric) Bus() psrpc.MessageBus {
	switch f.Kind {
	case "nats":
		nc, err := nats.Connect("nats://127.0.0.1:4222", nats.InProcessServer(f.Nats), nats.MaxReconnects(0))
		if err != nil {
			panic("harness: " + err.Error())
		}
		f.ncs = append(f.ncs, nc)
		return psrpc.NewNatsMessageBus(nc)
	case "redis":
		rc := f.Redis.Client()
		f.rcs = append(f.rcs, rc)
		return psrpc.NewRedisMessageBus(rc)
	}
	return f.local
}

func (f *Fabric) Close() {
	for _, nc := range f.ncs {
		nc.Close()
	}
	for _, rc := range f.rcs {
		_ = rc.Close()
	}
	if f.Redis != nil {
		f.Redis.SetRefuse(func() bool { return true })
		f.Redis.Kill(false)
	}
}

// Settle lets everything in flight without a timer arrive.
func Settle() { time.Sleep(7 * time.Microsecond * 1000) }

func genBus(t *rapid.T, weightLocal int) string {
	kinds := []string{"nats", "redis"}
	for range weightLocal {
		kinds = append(kinds, "local")
	}
	// shrink towards local
	for i, j := 0, len(kinds)-1; i < j; i, j = i+1, j-1 {
		kinds[i], kinds[j] = kinds[j], kinds[i]
	}
	return rapid.SampledFrom(kinds).Draw(t, "bus")
}

// ---------------------------------------------------------------- perturbed network

// Fault does something to the Nth message (from 0) of a kind.
type Fault struct {
	Kind string // REQ RES CLAIM RCLAIM OPEN MSG ACK CLOSE PUB
	Nth  int
	Do   string // drop delay err slow (before it is sent) linger (after) dup
	Ms   int
}

func msgKind(m proto.Message) string {
	switch v := m.(type) {
	case *internal.Request:
		return "REQ"
	case *internal.Response:
		return "RES"
	case *internal.ClaimRequest:
		return "CLAIM"
	case *internal.ClaimResponse:
		return "RCLAIM"
	case *internal.Stream:
		switch v.Body.(type) {
		case *internal.Stream_Open:
			return "OPEN"
		case *internal.Stream_Message:
			return "MSG"
		case *internal.Stream_Ack:
			return "ACK"
		case *internal.Stream_Close:
			return "CLOSE"
		}
		return "STR"
	}
	return "PUB"
}

// Sent is a published message.
type Sent struct {
	At      time.Time
	Kind    string
	Channel psrpc.Channel
	Msg     proto.Message
	Fate    string
	Out     time.Time // when it was handed to the bus, zero if it was not
}

var errPublish = errors.New("injected publish failure")

// Net perturbs what is published through the buses it wraps. The order of the
// messages of one channel is kept.
type Net struct {
	Faults []Fault
	Lat    map[string]int                            // ms by kind, "" for all others
	Exempt func(kind string, msg proto.Message) bool // left alone

	mu     sync.Mutex
	count  map[string]int
	queues map[string]*netQueue
	log    []*Sent
	closed bool
}

type netQueue struct {
	items []netItem
	last  time.Time
	busy  bool
}

type netItem struct {
	at time.Time
	fn func()
}

func NewNet(faults []Fault, lat map[string]int) *Net {
	return &Net{Faults: faults, Lat: lat, count: map[string]int{}, queues: map[string]*netQueue{}}
}

func (n *Net) Wrap(b psrpc.MessageBus) psrpc.MessageBus {
	return testutils.NewTestBus(b, testutils.WithPublishInterceptor(n.intercept))
}

func (n *Net) intercept(next testutils.PublishHandler) testutils.PublishHandler {
	return func(ctx context.Context, channel testutils.Channel, msg proto.Message) error {
		linger := 0
		defer func() { time.Sleep(msd(linger)) }()
		k := msgKind(msg)
		if n.Exempt != nil && n.Exempt(k, msg) {
			return next(ctx, channel, msg)
		}
		n.mu.Lock()
		nth := n.count[k]
		n.count[k]++
		s := &Sent{At: time.Now(), Kind: k, Channel: channel, Msg: proto.Clone(msg)}
		n.log = append(n.log, s)
		delay := 0
		if v, ok := n.Lat[k]; ok {
			delay = v
		} else {
			delay = n.Lat[""]
		}
		drop, fail, slow, dup := false, false, 0, 0
		for _, f := range n.Faults {
			if f.Kind == k && f.Nth == nth {
				switch f.Do {
				case "drop":
					drop = true
				case "err":
					fail = true
				case "delay":
					delay += f.Ms
				case "slow":
					slow += f.Ms
				case "linger":
					linger += f.Ms
				case "dup":
					dup++
				}
			}
		}
		switch {
		case fail:
			s.Fate = "err"
		case drop:
			s.Fate = "drop"
		}
		n.mu.Unlock()
		if slow > 0 {
			time.Sleep(msd(slow))
		}
		if fail {
			return errPublish
		}
		if drop {
			return nil
		}
		m := proto.Clone(msg)
		n.mu.Lock()
		q := n.queues[channel.Legacy]
		if q == nil {
			q = &netQueue{}
			n.queues[channel.Legacy] = q
		}
		if delay == 0 && !q.busy {
			n.mu.Unlock()
			n.out(s)
			for range dup {
				_ = next(ctx, channel, m)
			}
			return next(ctx, channel, m)
		}
		at := time.Now().Add(msd(delay))
		if at.Before(q.last) {
			at = q.last
		}
		q.last = at
		for range dup + 1 {
			q.items = append(q.items, netItem{at, func() {
				n.out(s)
				_ = next(context.Background(), channel, m)
			}})
		}
		if !q.busy {
			q.busy = true
			go n.pump(q)
		}
		n.mu.Unlock()
		return nil
	}
}

func (n *Net) out(s *Sent) {
	n.mu.Lock()
	s.Out = time.Now()
	n.mu.Unlock()
}

func (n *Net) pump(q *netQueue) {
	for {
		n.mu.Lock()
		if len(q.items) == 0 || n.closed {
			q.busy = false
			n.mu.Unlock()
			return
		}
		it := q.items[0]
		q.items = q.items[1:]
		n.mu.Unlock()
		if d := time.Until(it.at); d > 0 {
			time.Sleep(d)
		}
		it.fn()
	}
}

// Log returns what was published so far.
func (n *Net) Log() []*Sent {
	n.mu.Lock()
	defer n.mu.Unlock()
	return append([]*Sent(nil), n.log...)
}

func (n *Net) Count(kind string) int {
	n.mu.Lock()
	defer n.mu.Unlock()
	return n.count[kind]
}

func genFaults(t *rapid.T, kinds []string, acts []string, maxN, maxNth, maxMs int) []Fault {
	return rapid.SliceOfN(rapid.Custom(func(t *rapid.T) Fault {
		f := Fault{
			Kind: rapid.SampledFrom(kinds).Draw(t, "kind"),
			Nth:  rapid.IntRange(0, maxNth).Draw(t, "nth"),
			Do:   rapid.SampledFrom(acts).Draw(t, "do"),
		}
		if f.Do == "delay" || f.Do == "slow" || f.Do == "linger" {
			f.Ms = rapid.IntRange(1, maxMs).Draw(t, "ms")
		}
		return f
	}), 0, maxN).Draw(t, "faults")
}

func hasAct(fs []Fault, acts ...string) bool {
	for _, f := range fs {
		for _, a := range acts {
			if f.Do == a {
				return true
			}
		}
	}
	return false
}

func sumMs(fs []Fault) int {
	n := 0
	for _, f := range fs {
		n += f.Ms
	}
	return n
}

// ---------------------------------------------------------------- services

// Method describes how a method is registered.
type Method struct {
	Name                          string
	Affinity, Multi, Claim, Queue bool
}

func define(service, id string, methods ...Method) *info.ServiceDefinition {
	sd := &info.ServiceDefinition{Name: service, ID: id}
	for _, m := range methods {
		sd.RegisterMethod(m.Name, m.Affinity, m.Multi, m.Claim, m.Queue)
	}
	return sd
}

func code(err error) psrpc.ErrorCode {
	if err == nil {
		return psrpc.OK
	}
	var e psrpc.Error
	if errors.As(err, &e) {
		return e.Code()
	}
	return "none:" + psrpc.ErrorCode(fmt.Sprintf("%T", err))
}

// within runs f and says whether it returned within d of (fake) time.
func within(d time.Duration, f func()) bool {
	done := make(chan struct{})
	go func() {
		defer close(done)
		f()
	}()
	t := time.NewTimer(d)
	defer t.Stop()
	select {
	case <-done:
		return true
	case <-t.C:
		// both may be ready at the same instant
		select {
		case <-done:
			return true
		default:
			return false
		}
	}
}

// must is for set-up steps that cannot fail on a working tree.
func must(e *engine.Env, err error, what string) {
	if err != nil {
		e.Fatalf("%s failed: %v", what, err)
	}
}

// SubLog follows the subscriptions made through the buses it wraps.
type SubLog struct {
	mu   sync.Mutex
	open map[string]int
	made int
}

func (l *SubLog) Wrap(b psrpc.MessageBus) psrpc.MessageBus {
	return testutils.NewTestBus(b, testutils.WithSubscribeInterceptor(
		func(ctx context.Context, channel testutils.Channel, next testutils.ReadHandler) testutils.ReadHandler {
			l.mu.Lock()
			if l.open == nil {
				l.open = map[string]int{}
			}
			l.open[channel.Legacy]++
			l.made++
			l.mu.Unlock()
			return func() ([]byte, bool) {
				b, ok := next()
				if !ok {
					l.mu.Lock()
					if l.open[channel.Legacy]--; l.open[channel.Legacy] == 0 {
						delete(l.open, channel.Legacy)
					}
					l.mu.Unlock()
				}
				return b, ok
			}
		}))
}

// Open returns the channels with subscriptions that have not ended.
func (l *SubLog) Open() []string {
	l.mu.Lock()
	defer l.mu.Unlock()
	var out []string
	for k, n := range l.open {
		out = append(out, fmt.Sprintf("%s(%d)", k, n))
	}
	sort.Strings(out)
	return out
}

func (l *SubLog) Made() int {
	l.mu.Lock()
	defer l.mu.Unlock()
	return l.made
}
