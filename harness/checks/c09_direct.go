package checks

import (
	"context"
	"fmt"
	"sort"
	"sync"
	"time"

	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/known/wrapperspb"
	"pgregory.net/rapid"

	"github.com/livekit/psrpc"
	"github.com/livekit/psrpc/internal"
	"github.com/livekit/psrpc/internal/bus"
	"github.com/livekit/psrpc/internal/stream"
	"github.com/livekit/psrpc/pkg/info"
	"github.com/livekit/psrpc/verif/engine"
)

// One end of a stream is driven on its own: a reader hands it what arrives, one
// after the other, as the client and the server do, while sends and closes come
// from elsewhere, and interceptors and the transport take their time.

type c09DOp struct {
	At   int
	Kind string // recv rclose send close err garbage
	Arg  int    // rclose, close: the cause; send: when the ack comes, -1 = never
	Opt  int    // send: timeout, 0 = the stream's
}

type c09Direct struct {
	Chan    int
	Timeout int
	Slow    []int // what Recv takes, per interceptor
	SlowS   []int // what Send takes, per interceptor
	Net     []int // what publishing takes, per message
	NetErr  []int // which publications fail
	Ops     []c09DOp
}

func genC09Direct(t *rapid.T) c09Direct {
	c := c09Direct{
		Chan:    rapid.SampledFrom([]int{0, 1, 3, 50}).Draw(t, "chan"),
		Timeout: rapid.SampledFrom([]int{30, 300, 3000}).Draw(t, "timeout"),
		Slow:    rapid.SliceOfN(rapid.SampledFrom([]int{0, 5, 40}), 0, 2).Draw(t, "slow"),
		Net:     rapid.SliceOfN(rapid.SampledFrom([]int{0, 0, 7, 60}), 1, 5).Draw(t, "net"),
		NetErr:  rapid.SliceOfN(rapid.IntRange(0, 12), 0, 2).Draw(t, "neterr"),
	}
	for range c.Slow {
		c.SlowS = append(c.SlowS, rapid.SampledFrom([]int{0, 0, 13}).Draw(t, "slows"))
	}
	c.Ops = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) c09DOp {
		op := c09DOp{
			At:   rapid.IntRange(0, 200).Draw(t, "at"),
			Kind: rapid.SampledFrom([]string{"recv", "recv", "recv", "send", "send", "close", "rclose", "err", "garbage"}).Draw(t, "kind"),
		}
		switch op.Kind {
		case "close", "rclose":
			op.Arg = rapid.IntRange(0, 4).Draw(t, "cause")
		case "send":
			op.Arg = rapid.SampledFrom([]int{-1, 0, 1, 20, 100}).Draw(t, "ack")
			op.Opt = rapid.SampledFrom([]int{0, 0, 25, 250}).Draw(t, "opt")
		}
		return op
	}), 1, 14).Draw(t, "ops")
	return c
}

var c09Causes = []error{
	nil,
	psrpc.NewErrorf(psrpc.NotFound, "gone"),
	psrpc.NewErrorf(psrpc.Internal, "broken"),
	psrpc.ErrStreamEOF,
	fmt.Errorf("plain"),
}

type c09Adapter struct {
	c       c09Direct
	mu      sync.Mutex
	n       int
	acks    []string // sent, in order
	closes  []*internal.StreamClose
	closed  int
	onSend  func(id, val string)
	lastErr error
}

func (a *c09Adapter) Send(ctx context.Context, m *internal.Stream) error {
	a.mu.Lock()
	n := a.n
	a.n++
	a.mu.Unlock()
	time.Sleep(msd(a.c.Net[n%len(a.c.Net)]))
	for _, k := range a.c.NetErr {
		if k == n {
			return psrpc.NewErrorf(psrpc.Internal, "publication %d", n)
		}
	}
	switch b := m.Body.(type) {
	case *internal.Stream_Ack:
		a.mu.Lock()
		a.acks = append(a.acks, m.RequestId)
		a.mu.Unlock()
	case *internal.Stream_Close:
		a.mu.Lock()
		a.closes = append(a.closes, b.Close)
		a.mu.Unlock()
	case *internal.Stream_Message:
		v, _ := bus.DeserializePayload[Str](b.Message.RawMessage)
		a.onSend(m.RequestId, v.GetValue())
	}
	return nil
}

func (a *c09Adapter) Close(string) {
	a.mu.Lock()
	a.closed++
	a.mu.Unlock()
}

type c09Slow struct {
	psrpc.StreamHandler
	recv, send int
}

func (s *c09Slow) Recv(m proto.Message) error {
	time.Sleep(msd(s.recv))
	return s.StreamHandler.Recv(m)
}

func (s *c09Slow) Send(m proto.Message, opts ...psrpc.StreamOption) error {
	time.Sleep(msd(s.send))
	return s.StreamHandler.Send(m, opts...)
}

func runC09Direct(e *engine.Env, c c09Direct) {
	begin := time.Now()
	now := func() time.Duration { return time.Since(begin) }
	a := &c09Adapter{c: c}
	var icpts []psrpc.StreamInterceptor
	for i, d := range c.Slow {
		icpts = append(icpts, func(_ psrpc.RPCInfo, h psrpc.StreamHandler) psrpc.StreamHandler {
			return &c09Slow{h, d, c.SlowS[i]}
		})
	}
	st := stream.NewStream[*wrapperspb.StringValue, *wrapperspb.StringValue](
		context.Background(), &info.RequestInfo{RPCInfo: psrpc.RPCInfo{Service: "Svc", Method: "St"}}, "st",
		msd(c.Timeout), a, icpts, make(chan *wrapperspb.StringValue, c.Chan), map[string]chan struct{}{})

	var mu sync.Mutex
	type ender struct {
		at    time.Duration
		cause error
		local bool
	}
	var enders []ender
	guard := func(what string) {
		if p := recover(); p != nil {
			e.Failf("%s panics: %v", what, p)
		}
	}
	inbox := make(chan func(), 1000)
	reader := make(chan struct{})
	go func() {
		defer close(reader)
		for f := range inbox {
			f()
		}
	}()
	type sendRes struct {
		start, end time.Duration
		timeout    time.Duration
		err        error
		done       bool
	}
	sends := map[string]*sendRes{}
	ackedAt := map[string]time.Duration{}
	a.onSend = func(id, val string) {
		var k int
		_, _ = fmt.Sscanf(val, "%d", &k)
		op := c.Ops[k]
		if op.Arg < 0 {
			return
		}
		time.AfterFunc(msd(op.Arg), func() {
			inbox <- func() {
				mu.Lock()
				ackedAt[val] = now()
				mu.Unlock()
				defer guard("an acknowledgement")
				_ = st.HandleStream(&internal.Stream{StreamId: "st", RequestId: id, Body: &internal.Stream_Ack{Ack: &internal.StreamAck{}}})
			}
		})
	}
	var wg sync.WaitGroup
	var errs []error // Err over time, as sampled
	var bound time.Duration
	for _, d := range c.Net {
		bound += msd(d) * time.Duration(len(c.Ops)+2)
	}
	for _, d := range append(c.Slow, c.SlowS...) {
		bound += msd(d) * time.Duration(len(c.Ops)+2)
	}
	arrived := []string{}
	for k, op := range c.Ops {
		wg.Add(1)
		go func() {
			defer wg.Done()
			time.Sleep(msd(op.At))
			switch op.Kind {
			case "recv", "garbage":
				raw, _ := bus.SerializePayload(S(fmt.Sprint(k)))
				if op.Kind == "garbage" {
					raw = []byte{0xff, 0xff, 0xff}
				}
				wg.Add(1)
				inbox <- func() {
					defer wg.Done()
					defer guard("the receipt of a message")
					if op.Kind == "recv" {
						arrived = append(arrived, fmt.Sprint(k))
					} else {
						mu.Lock()
						enders = append(enders, ender{now(), psrpc.NewErrorf(psrpc.MalformedRequest, "?"), true})
						mu.Unlock()
					}
					_ = st.HandleStream(&internal.Stream{StreamId: "st", RequestId: fmt.Sprint(k), Expiry: time.Now().Add(time.Second).UnixNano(),
						Body: &internal.Stream_Message{Message: &internal.StreamMessage{RawMessage: raw}}})
				}
			case "rclose":
				wg.Add(1)
				inbox <- func() {
					defer wg.Done()
					defer guard("a close notice")
					cause := c09Causes[op.Arg]
					if cause == nil {
						cause = psrpc.ErrStreamClosed
					}
					cd, _ := psrpc.GetErrorCode(cause)
					mu.Lock()
					enders = append(enders, ender{now(), cause, false})
					mu.Unlock()
					_ = st.HandleStream(&internal.Stream{StreamId: "st", RequestId: "c", Expiry: time.Now().Add(time.Second).UnixNano(),
						Body: &internal.Stream_Close{Close: &internal.StreamClose{Code: string(cd), Error: cause.Error()}}})
				}
			case "close":
				defer guard("Close")
				cause := c09Causes[op.Arg]
				mu.Lock()
				x := ender{now(), cause, true}
				if cause == nil {
					x.cause = psrpc.ErrStreamClosed
				}
				enders = append(enders, x)
				mu.Unlock()
				_ = st.Close(cause)
				if d := now() - x.at; d > msd(3000)+bound {
					e.Failf("a close took %v", d)
				}
			case "err":
				mu.Lock()
				errs = append(errs, st.Err())
				mu.Unlock()
			case "send":
				defer guard("Send")
				r := &sendRes{start: now(), timeout: msd(c.Timeout)}
				mu.Lock()
				sends[fmt.Sprint(k)] = r
				mu.Unlock()
				var opts []psrpc.StreamOption
				if op.Opt > 0 {
					opts = append(opts, psrpc.WithTimeout(msd(op.Opt)))
					r.timeout = msd(op.Opt)
				}
				err := st.Send(S(fmt.Sprint(k)), opts...)
				mu.Lock()
				r.err, r.end, r.done = err, now(), true
				mu.Unlock()
			}
		}()
	}
	if !within(time.Minute, wg.Wait) {
		e.Fatalf("an operation of the stream had not returned after a minute")
	}
	time.Sleep(10 * time.Second)
	mu.Lock()
	defer mu.Unlock()
	sort.SliceStable(enders, func(i, j int) bool { return enders[i].at < enders[j].at })

	// what was received
	var got []string
	ended := len(enders) > 0
	for {
		select {
		case m, ok := <-st.Channel():
			if ok {
				got = append(got, m.GetValue())
				continue
			}
			if !ended {
				e.Failf("the channel of an open stream is closed")
			}
		default:
			if ended {
				e.Failf("the channel of a stream that has ended is not closed")
			}
		}
		break
	}
	pos := -1
	at := map[string]int{}
	for i, v := range arrived {
		at[v] = i
	}
	for _, v := range got {
		if p, ok := at[v]; !ok || p <= pos {
			e.Failf("received %v, what arrived is %v", got, arrived)
			break
		} else {
			pos = p
		}
	}
	has := map[string]bool{}
	for _, v := range got {
		has[v] = true
	}
	for _, id := range a.acks {
		if !has[id] {
			e.Failf("message %s was acknowledged, and is not among the received %v", id, got)
		}
	}
	if !ended {
		if err := st.Err(); err != nil || st.Context().Err() != nil {
			e.Failf("an open stream has the error %v, its context %v", err, st.Context().Err())
		}
		if n := min(c.Chan, len(arrived)); len(got) != n {
			e.Failf("%d messages arrived at a channel of %d, and %d were received", len(arrived), c.Chan, len(got))
		}
	} else {
		err := st.Err()
		ok := false
		for _, x := range enders {
			if x.at > enders[0].at {
				break
			}
			if gcode(err) == gcode(x.cause) && (err.Error() == x.cause.Error() || x.cause.Error() == "?") {
				ok = true
			}
		}
		// garbage closes from another goroutine, so a simultaneous ender may be first as well
		if !ok {
			e.Failf("the stream ended with %v, the first cause is %v", err, enders[0].cause)
		}
		for _, x := range errs {
			if x != nil && x != err {
				e.Failf("the error of the stream was %v, and is now %v", x, err)
			}
		}
		if st.Context().Err() == nil {
			e.Failf("the context of a stream that has ended is not done")
		}
		if a.closed != 1 {
			e.Failf("a stream that ended was removed %d times", a.closed)
		}
		if len(a.closes) > 1 || len(a.closes) == 1 && (a.closes[0].Code != string(gcode(err)) || a.closes[0].Error != err.Error()) {
			e.Failf("the remote was told %v, the cause is %v", a.closes, err)
		}
		if sendErr := st.Send(S("late")); sendErr == nil || gcode(sendErr) != gcode(err) {
			e.Failf("a send after the end gives %v, the cause is %v", sendErr, err)
		}
		if closeErr := st.Close(c09Causes[1]); closeErr == nil || closeErr != err || st.Err() != err {
			e.Failf("a close after the end gives %v and leaves %v, the cause is %v", closeErr, st.Err(), err)
		}
		e.NonTrivial()
	}
	for v, r := range sends {
		if !r.done {
			e.Failf("a send never returned")
			continue
		}
		ack, acked := ackedAt[v]
		if r.err == nil && !acked {
			e.Failf("send %s succeeded without an acknowledgement", v)
		}
		if r.end-r.start > r.timeout+bound {
			e.Failf("send %s with the timeout %v took %v", v, r.timeout, r.end-r.start)
		}
		failed := r.err != nil && gcode(r.err) == psrpc.Internal
		if acked && r.err != nil && !failed && (!ended || ack < enders[0].at) && ack < r.start+r.timeout {
			e.Failf("send %s failed with %v although it was acknowledged", v, r.err)
		}
		if r.err != nil && !failed && ended && r.start > enders[0].at && gcode(r.err) != gcode(st.Err()) && r.err != psrpc.ErrRequestTimedOut {
			e.Failf("send %s, begun after the end, failed with %v, the cause is %v", v, r.err, st.Err())
		}
	}
	e.Class("enders: %s", bucket(len(enders)))
	e.Class("received: %s", bucket(len(got)))
	_ = st.Close(nil)
	time.Sleep(10 * time.Second)
	close(inbox)
	<-reader
}

func gcode(err error) psrpc.ErrorCode {
	c, _ := psrpc.GetErrorCode(err)
	return c
}

func init() {
	engine.Add("C09", "direct",
		"one end of a stream driven on its own: 1-14 arrivals, close notices, garbage, sends and closes at drawn instants, with interceptors and a transport that take their time or fail; non-trivial: the stream ended",
		2500, 60000, genC09Direct, runC09Direct)
}
