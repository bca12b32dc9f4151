package checks

import (
	"context"
	"errors"
	"fmt"
	"strconv"
	"strings"
	"sync"
	"time"

	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/known/wrapperspb"
	"pgregory.net/rapid"

	"github.com/livekit/psrpc"
	"github.com/livekit/psrpc/internal"
	"github.com/livekit/psrpc/internal/bus"
	"github.com/livekit/psrpc/pkg/client"
	"github.com/livekit/psrpc/pkg/metadata"
	"github.com/livekit/psrpc/pkg/middleware"
	"github.com/livekit/psrpc/pkg/server"
	"github.com/livekit/psrpc/verif/engine"
)

// c17Errs are the outcomes of attempts, and whether they are retried by default.
var c17Errs = []struct {
	err     error
	recover bool
}{
	{nil, false},
	{psrpc.ErrRequestTimedOut, true},
	{psrpc.ErrNoResponse, true},
	{errors.New("no code"), true},
	{psrpc.NewErrorf(psrpc.NotFound, "gone"), false},
	{psrpc.ErrRequestCanceled, false},
	{psrpc.NewErrorf(psrpc.Internal, "internal"), false},
	{psrpc.NewErrorf(psrpc.Unavailable, "busy"), true},
	{fmt.Errorf("wrapped: %w", psrpc.NewErrorf(psrpc.Unavailable, "busy")), true},
	{fmt.Errorf("wrapped: %w", psrpc.NewErrorf(psrpc.Aborted, "aborted")), false},
	{psrpc.NewErrorf("custom", "custom"), false},
	{status.Error(codes.Unavailable, "grpc busy"), true},
	{status.Error(codes.DeadlineExceeded, "grpc late"), true},
	{status.Error(codes.NotFound, "grpc gone"), false},
	{context.DeadlineExceeded, true},
	{psrpc.NewErrorf(psrpc.Unknown, "unknown"), false},
	{psrpc.NewErrorf(psrpc.MalformedResponse, "malformed"), false},
	{psrpc.NewErrorf(psrpc.ResourceExhausted, "exhausted"), false},
	{errors.Join(errors.New("x"), psrpc.NewErrorf(psrpc.DeadlineExceeded, "late")), true},
}

type c17Try struct {
	Out  int // index into c17Errs
	Took int // ms
}

type c17Param struct {
	Stop    bool
	Timeout int
	Wait    int
}

type c17Call struct {
	At       int
	Tries    []c17Try // the last one repeats
	CtxDead  int
	Cancel   int
	Opt      int // timeout among the caller's own options
	Stream   bool
	Canceled bool
}

type c17Case struct {
	Max, Timeout, Backoff int
	Recover               int // 0: default, 1: never, 2: always, 3: only not_found
	Params                []c17Param
	Calls                 []c17Call
}

func genC17(t *rapid.T) c17Case {
	c := c17Case{
		Max:     rapid.IntRange(1, 6).Draw(t, "max"),
		Timeout: rapid.SampledFrom([]int{0, 100, 350, 1000}).Draw(t, "timeout"),
		Backoff: rapid.SampledFrom([]int{0, 50, 300}).Draw(t, "backoff"),
		Recover: rapid.SampledFrom([]int{0, 0, 0, 1, 2, 3}).Draw(t, "recover"),
	}
	if rapid.IntRange(0, 7).Draw(t, "many") == 0 {
		c.Max = rapid.IntRange(7, 40).Draw(t, "max many")
		c.Timeout = rapid.SampledFrom([]int{0, 1000, 30_000, 3_600_000}).Draw(t, "long")
		c.Backoff = rapid.SampledFrom([]int{1, 5000, 60_000}).Draw(t, "long backoff")
	}
	if rapid.IntRange(0, 2).Draw(t, "custom") == 0 {
		c.Params = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) c17Param {
			return c17Param{
				Stop:    rapid.IntRange(0, 4).Draw(t, "stop") == 0,
				Timeout: rapid.SampledFrom([]int{0, 30, 200, 900}).Draw(t, "ptimeout"),
				Wait:    rapid.SampledFrom([]int{0, 0, 10, 250}).Draw(t, "wait"),
			}
		}), 1, 5).Draw(t, "params")
	}
	c.Calls = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) c17Call {
		x := c17Call{
			At:     rapid.SampledFrom([]int{0, 0, 3, 40}).Draw(t, "at"),
			Stream: rapid.IntRange(0, 3).Draw(t, "stream") == 0,
			Opt:    rapid.SampledFrom([]int{0, 0, 777}).Draw(t, "opt"),
			Tries: rapid.SliceOfN(rapid.Custom(func(t *rapid.T) c17Try {
				out := rapid.SampledFrom([]int{1, 2, 3, 7}).Draw(t, "retryable")
				if rapid.IntRange(0, 2).Draw(t, "any") == 0 {
					out = rapid.IntRange(0, len(c17Errs)-1).Draw(t, "out")
				}
				return c17Try{out, rapid.SampledFrom([]int{0, 0, 10, 100, 400}).Draw(t, "took")}
			}), 1, 6).Draw(t, "tries"),
		}
		if !x.Stream {
			// not at the instant of anything else
			if v := rapid.SampledFrom([]int{0, 0, 0, 5, 115, 505}).Draw(t, "cancel"); v > 0 {
				x.Cancel = v + 2
			}
			if v := rapid.SampledFrom([]int{0, 0, 0, 5, 115, 505}).Draw(t, "dead"); v > 0 {
				x.CtxDead = v + 3
			}
			x.Canceled = rapid.IntRange(0, 9).Draw(t, "canceled") == 0
		}
		return x
	}), 1, 4).Draw(t, "calls")
	return c
}

func (c c17Case) options() middleware.RetryOptions {
	o := middleware.RetryOptions{MaxAttempts: c.Max, Timeout: msd(c.Timeout), Backoff: msd(c.Backoff)}
	switch c.Recover {
	case 1:
		o.IsRecoverable = func(error) bool { return false }
	case 2:
		o.IsRecoverable = func(error) bool { return true }
	case 3:
		o.IsRecoverable = func(err error) bool { c, _ := psrpc.GetErrorCode(err); return c == psrpc.NotFound }
	}
	if c.Params != nil {
		o.GetRetryParameters = func(err error, attempt int) (bool, time.Duration, time.Duration) {
			p := c.Params[min(attempt-1, len(c.Params)-1)]
			if attempt > len(c.Params)+3 {
				p.Stop = true
			}
			return !p.Stop, msd(p.Timeout), msd(p.Wait)
		}
	}
	return o
}

func (c c17Case) recovers(out int) bool {
	switch c.Recover {
	case 1:
		return false
	case 2:
		return true
	case 3:
		code, _ := psrpc.GetErrorCode(c17Errs[out].err)
		return code == psrpc.NotFound
	}
	return c17Errs[out].recover
}

type c17Attempt struct {
	at      time.Duration
	timeout int
}

// model returns the attempts of a call, its outcome, and when it is over.
func (c c17Case) model(x c17Call) (tries []c17Attempt, out error, end time.Duration) {
	stop, why := time.Duration(1<<60), error(nil)
	if x.Cancel > 0 {
		stop, why = msd(x.Cancel), context.Canceled
	}
	if x.CtxDead > 0 && msd(x.CtxDead) < stop {
		stop, why = msd(x.CtxDead), context.DeadlineExceeded
	}
	if x.Canceled {
		stop, why = 0, context.Canceled
	}
	now, timeout := time.Duration(0), c.Timeout
	for n := 1; ; n++ {
		opt := timeout
		if opt == 0 {
			opt = x.Opt
		}
		tries = append(tries, c17Attempt{now, opt})
		tr := x.Tries[min(n-1, len(x.Tries)-1)]
		ended := false
		rec := c.recovers(tr.Out)
		out = c17Errs[tr.Out].err
		if now+msd(tr.Took) > stop || now >= stop && tr.Took == 0 && x.Canceled && stop == 0 {
			// the attempt is cut short by the context
			now = max(now, stop)
			ended = true
			out = psrpc.ErrRequestCanceled
			i := 5
			if why == context.DeadlineExceeded {
				out, i = psrpc.ErrRequestTimedOut, 1
			}
			rec = c.recovers(i)
		} else {
			now += msd(tr.Took)
		}
		if out == nil {
			return tries, nil, now
		}
		wait := 0
		if c.Params != nil {
			p := c.Params[min(n-1, len(c.Params)-1)]
			if p.Stop || n > len(c.Params)+3 {
				return tries, out, now
			}
			timeout, wait = p.Timeout, p.Wait
		} else {
			if !rec || n == c.Max {
				return tries, out, now
			}
			timeout += c.Backoff
		}
		if ended || now+msd(wait) > stop {
			return tries, psrpc.ErrRequestCanceled, max(now, min(stop, now+msd(wait)))
		}
		now += msd(wait)
	}
}

type c17Stream struct {
	psrpc.StreamHandler
	send func(opts ...psrpc.StreamOption) error
}

func (s *c17Stream) Send(m proto.Message, opts ...psrpc.StreamOption) error { return s.send(opts...) }

func runC17(e *engine.Env, c c17Case) {
	rpcIcpt := middleware.NewRPCRetryInterceptor(c.options())
	stIcpt := middleware.NewStreamRetryInterceptor(c.options())
	var wg sync.WaitGroup
	total := 0
	for k, x := range c.Calls {
		want, wantErr, wantEnd := c.model(x)
		total += len(want) - 1
		wg.Add(1)
		go func() {
			defer wg.Done()
			time.Sleep(msd(x.At))
			start := time.Now()
			var got []c17Attempt
			attempt := func(ctx context.Context, timeout time.Duration) error {
				got = append(got, c17Attempt{time.Since(start), int(timeout / ms)})
				if len(got) > 100 {
					e.Failf("call %d: more than a hundred attempts", k)
					return nil
				}
				tr := x.Tries[min(len(got)-1, len(x.Tries)-1)]
				// what a call does: it ends with its context
				t := time.NewTimer(msd(tr.Took))
				defer t.Stop()
				select {
				case <-ctx.Done():
					if errors.Is(ctx.Err(), context.Canceled) {
						return psrpc.ErrRequestCanceled
					}
					return psrpc.ErrRequestTimedOut
				default:
				}
				select {
				case <-t.C:
					return c17Errs[tr.Out].err
				case <-ctx.Done():
					if errors.Is(ctx.Err(), context.Canceled) {
						return psrpc.ErrRequestCanceled
					}
					return psrpc.ErrRequestTimedOut
				}
			}
			var err error
			var res proto.Message
			if x.Stream {
				h := stIcpt(psrpc.RPCInfo{Method: "St"}, &c17Stream{send: func(opts ...psrpc.StreamOption) error {
					var o psrpc.StreamOpts
					for _, f := range opts {
						f(&o)
					}
					return attempt(context.Background(), o.Timeout)
				}})
				// room for more options, which are somebody else's
				kept := false
				opts := []psrpc.StreamOption{func(*psrpc.StreamOpts) {}, func(*psrpc.StreamOpts) { kept = true }}[:0]
				if x.Opt > 0 {
					opts = append(opts, psrpc.WithTimeout(msd(x.Opt)))
				} else {
					opts = opts[:1]
				}
				err = h.Send(S("x"), opts...)
				if opts[:2][1](&psrpc.StreamOpts{}); !kept {
					e.Failf("call %d: options beyond those of the call were overwritten", k)
				}
			} else {
				ctx := context.WithValue(context.Background(), c16Key{}, fmt.Sprint(k))
				if x.CtxDead > 0 {
					var cancel context.CancelFunc
					ctx, cancel = context.WithTimeout(ctx, msd(x.CtxDead))
					defer cancel()
				}
				ctx, cancel := context.WithCancel(ctx)
				defer cancel()
				if x.Cancel > 0 {
					tm := time.AfterFunc(msd(x.Cancel), cancel)
					defer tm.Stop()
				}
				if x.Canceled {
					cancel()
				}
				h := rpcIcpt(psrpc.RPCInfo{Method: "Do"}, func(ctx context.Context, req proto.Message, opts ...psrpc.RequestOption) (proto.Message, error) {
					if v, _ := ctx.Value(c16Key{}).(string); v != fmt.Sprint(k) || req.(Str).GetValue() != fmt.Sprint(k) {
						e.Failf("call %d: the attempt is given the context or request of another", k)
					}
					var o psrpc.RequestOpts
					for _, f := range opts {
						f(&o)
					}
					err := attempt(ctx, o.Timeout)
					return S(fmt.Sprintf("%d/%d", k, len(got))), err
				})
				kept := false
				opts := []psrpc.RequestOption{func(*psrpc.RequestOpts) {}, func(*psrpc.RequestOpts) { kept = true }}[:0]
				if x.Opt > 0 {
					opts = append(opts, psrpc.WithRequestTimeout(msd(x.Opt)))
				} else {
					opts = opts[:1]
				}
				defer func() {
					if opts[:2][1](&psrpc.RequestOpts{}); !kept {
						e.Failf("call %d: options beyond those of the call were overwritten", k)
					}
				}()
				res, err = h(ctx, S(fmt.Sprint(k)), opts...)
				if err == nil {
					if v := res.(Str).GetValue(); v != fmt.Sprintf("%d/%d", k, len(got)) {
						e.Failf("call %d: the response is %q, the last attempt %d", k, v, len(got))
					}
				}
			}
			if end := time.Since(start); end != wantEnd {
				e.Failf("call %d was over after %v, want %v", k, end, wantEnd)
			}
			if !sameErr(err, wantErr) {
				e.Failf("call %d: outcome %v, want %v", k, err, wantErr)
			}
			if fmt.Sprint(got) != fmt.Sprint(want) {
				e.Failf("call %d: attempts (start, timeout in ms) %v, want %v", k, got, want)
			}
		}()
	}
	if !within(time.Hour, wg.Wait) {
		e.Fatalf("a call had not returned after an hour")
	}
	e.Class("retries: %s", bucket(total))
	if c.Params != nil {
		e.Class("custom parameters")
	}
	if total > 0 {
		e.NonTrivial()
	}
}

func sameErr(a, b error) bool {
	if a == nil || b == nil {
		return a == nil && b == nil
	}
	return code(a) == code(b) && a.Error() == b.Error()
}

// ---------------------------------------------------------------- end to end

type c17Real struct {
	Bus      string
	Claim    bool
	Max      int
	Timeout  int
	Backoff  int
	Faults   []Fault
	Fails    []int // per execution, index into c17Errs
	Calls    int
	Streams  bool
	SendBoth bool
}

func genC17Real(t *rapid.T) c17Real {
	c := c17Real{
		Bus:     genBus(t, 5),
		Claim:   rapid.Bool().Draw(t, "claim"),
		Max:     rapid.IntRange(1, 5).Draw(t, "max"),
		Timeout: rapid.SampledFrom([]int{0, 100, 350}).Draw(t, "timeout"),
		Backoff: rapid.SampledFrom([]int{0, 50, 300}).Draw(t, "backoff"),
		Fails:   rapid.SliceOfN(rapid.SampledFrom([]int{0, 2, 7, 11, 4, 6}), 0, 6).Draw(t, "fails"),
		Calls:   rapid.IntRange(1, 3).Draw(t, "calls"),
		Streams: rapid.IntRange(0, 2).Draw(t, "streams") == 0,
	}
	if c.Streams {
		c.Faults = genFaults(t, []string{"MSG", "ACK"}, []string{"drop", "err"}, 4, 6, 0)
		for i := range c.Faults {
			if c.Faults[i].Kind == "ACK" {
				c.Faults[i].Nth++ // the first one opens the stream
			}
		}
	} else {
		c.Faults = genFaults(t, []string{"REQ", "RES", "REQ", "RES", "CLAIM", "RCLAIM"}, []string{"drop", "err"}, 4, 6, 0)
	}
	return c
}

func runC17Real(e *engine.Env, c c17Real) {
	fab := NewFabric(c.Bus)
	net := NewNet(c.Faults, nil)
	methods := []Method{{Name: "Do", Claim: c.Claim}, {Name: "St"}}
	s := server.NewRPCServer(define("Svc", "srv", methods...), net.Wrap(fab.Bus()), psrpc.WithServerTimeout(time.Second))
	var mu sync.Mutex
	var runs, got []string
	h := func(ctx context.Context, q Str) (Str, error) {
		mu.Lock()
		n := len(runs)
		runs = append(runs, q.GetValue())
		mu.Unlock()
		if n < len(c.Fails) && c.Fails[n] > 0 {
			return nil, c17Errs[c.Fails[n]].err
		}
		return S(q.GetValue() + "!"), nil
	}
	must(e, server.RegisterHandler(s, "Do", nil, h, nil), "register")
	must(e, server.RegisterStreamHandler[Str, Str](s, "St", nil, func(ss psrpc.ServerStream[Str, Str]) error {
		for m := range ss.Channel() {
			mu.Lock()
			got = append(got, m.GetValue())
			mu.Unlock()
		}
		return nil
	}, nil), "register")
	opt := middleware.RetryOptions{MaxAttempts: c.Max, Timeout: msd(c.Timeout), Backoff: msd(c.Backoff)}
	cl, err := client.NewRPCClientWithStreams(define("Svc", "cli", methods...), net.Wrap(fab.Bus()),
		psrpc.WithClientTimeout(time.Second), psrpc.WithClientSelectTimeout(50*time.Millisecond),
		middleware.WithRPCRetries(opt), middleware.WithStreamRetries(opt))
	must(e, err, "new client")
	time.Sleep(time.Second)
	timeout := func(n int) time.Duration { // of attempt n from 0
		if v := c.Timeout + n*c.Backoff; v > 0 {
			return msd(v)
		}
		return time.Second
	}
	retried := 0
	if c.Streams {
		cs, err := client.OpenStream[*wrapperspb.StringValue, *wrapperspb.StringValue](context.Background(), cl, "St", nil)
		must(e, err, "open")
		for k := range c.Calls {
			before := len(net.Log())
			start := time.Now()
			err := cs.Send(S(fmt.Sprint(k)))
			took := time.Since(start)
			settleMs()
			log := net.Log()[before:]
			// one attempt per MSG
			var tries []*Sent
			acked := map[string]*Sent{}
			for _, sn := range log {
				m := sn.Msg.(*internal.Stream)
				if m.GetMessage() != nil {
					tries = append(tries, sn)
				} else if m.GetAck() != nil {
					acked[m.RequestId] = sn
				}
			}
			var at time.Duration
			okAt := -1
			for n, sn := range tries {
				m := sn.Msg.(*internal.Stream)
				if sn.At.Sub(start) != at {
					e.Failf("send %d: attempt %d was made after %v, want %v", k, n, sn.At.Sub(start), at)
				}
				if d := time.Duration(m.Expiry - m.SentAt); d != timeout(n) {
					e.Failf("send %d: attempt %d has the timeout %v, want %v", k, n, d, timeout(n))
				}
				if a := acked[m.RequestId]; a != nil && a.Fate == "" && sn.Fate == "" {
					okAt = n
					break
				}
				if sn.Fate == "err" {
					// an internal error with a code: not recoverable
					if n != len(tries)-1 || err == nil {
						e.Failf("send %d: retried after attempt %d failed with an internal error", k, n)
					}
					at = -1
					break
				}
				at += timeout(n)
			}
			switch {
			case okAt >= 0:
				if err != nil || okAt != len(tries)-1 {
					e.Failf("send %d: attempt %d of %d succeeded, the outcome is %v", k, okAt, len(tries), err)
				}
			case at >= 0 && (len(tries) != c.Max || code(err) != psrpc.DeadlineExceeded || took != at):
				e.Failf("send %d: %d attempts that timed out gave %v after %v, want %d attempts and a timeout after %v", k, len(tries), err, took, c.Max, at)
			}
			retried += len(tries) - 1
		}
		_ = cs.Close(nil)
	} else {
		for k := range c.Calls {
			before := len(net.Log())
			mu.Lock()
			nr := len(runs)
			mu.Unlock()
			ctx := metadata.NewContextWithOutgoingMetadata(context.Background(), metadata.Metadata{"k": strconv.Itoa(k)})
			res, err := client.RequestSingle[Str](ctx, cl, "Do", nil, S(fmt.Sprint(k)))
			settleMs()
			log := net.Log()[before:]
			var tries []*internal.Request
			var fates []string
			resp := map[string]*Sent{}
			byID := map[string]bool{}
			for _, sn := range log {
				switch m := sn.Msg.(type) {
				case *internal.Request:
					if byID[m.RequestId] {
						e.Failf("call %d: two attempts with one id", k)
					}
					byID[m.RequestId] = true
					tries = append(tries, m)
					fates = append(fates, sn.Fate)
					if m.Metadata["k"] != strconv.Itoa(k) {
						e.Failf("call %d: an attempt has the metadata %v", k, m.Metadata)
					}
					if v, _ := bus.DeserializePayload[Str](m.RawRequest); v.GetValue() != fmt.Sprint(k) {
						e.Failf("call %d: an attempt sent %q", k, v.GetValue())
					}
				case *internal.Response:
					resp[m.RequestId] = sn
				}
			}
			for n, m := range tries {
				if d := time.Duration(m.Expiry - m.SentAt); d != timeout(n) {
					e.Failf("call %d: attempt %d has the timeout %v, want %v", k, n, d, timeout(n))
				}
				last := n == len(tries)-1
				r := resp[m.RequestId]
				answered := r != nil && r.Fate == ""
				switch {
				case fates[n] == "err":
					if !last || err == nil {
						e.Failf("call %d: an attempt that could not be sent was followed by %d more, outcome %v", k, len(tries)-1-n, err)
					}
				case answered && r.Msg.(*internal.Response).Code == "":
					if !last || err != nil || !strings.HasSuffix(res.GetValue(), "!") {
						e.Failf("call %d: attempt %d of %d succeeded, the outcome is %v %v", k, n, len(tries), res, err)
					}
				case answered:
					cd := psrpc.ErrorCode(r.Msg.(*internal.Response).Code)
					again := cd == psrpc.Unavailable || cd == psrpc.DeadlineExceeded
					if last == (again && n+1 < c.Max) {
						e.Failf("call %d: attempt %d of %d failed with %s; the policy allows %d", k, n, len(tries), cd, c.Max)
					}
					if last && code(err) != cd {
						e.Failf("call %d: the last attempt failed with %s, the call with %v", k, cd, err)
					}
				default:
					// lost: a timeout, or unavailable when no claim came, or an internal error when the grant could not be sent
					if last {
						if err == nil {
							e.Failf("call %d: the last attempt got no answer, and the call succeeded", k)
						} else if n+1 != c.Max && code(err) != psrpc.Internal {
							e.Failf("call %d: ended with %v after %d attempts, the policy allows %d", k, err, n+1, c.Max)
						}
					}
				}
			}
			if len(tries) > c.Max {
				e.Failf("call %d: %d attempts, the policy allows %d", k, len(tries), c.Max)
			}
			mu.Lock()
			if len(runs)-nr > len(tries) {
				e.Failf("call %d: %d executions for %d attempts", k, len(runs)-nr, len(tries))
			}
			mu.Unlock()
			retried += len(tries) - 1
		}
	}
	e.Class("bus: %s", c.Bus)
	e.Class("retries: %s", bucket(retried))
	if retried > 0 {
		e.NonTrivial()
	}
	cl.Close()
	s.Close(true)
	time.Sleep(time.Second)
	fab.Close()
}

func settleMs() { time.Sleep(ms) }

func init() {
	engine.Add("C17", "policy", "some attempt was repeated",
		6000, 80000, genC17, runC17)
	engine.Add("C17", "real", "some attempt was repeated",
		1500, 25000, genC17Real, runC17Real)
}
