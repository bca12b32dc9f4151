package checks

import (
	"context"
	"fmt"
	"strconv"
	"sync"
	"time"

	"google.golang.org/protobuf/types/known/wrapperspb"
	"pgregory.net/rapid"

	"github.com/livekit/psrpc"
	"github.com/livekit/psrpc/pkg/client"
	"github.com/livekit/psrpc/pkg/metadata"
	"github.com/livekit/psrpc/pkg/server"
	"github.com/livekit/psrpc/verif/engine"
)

// Streams with senders and readers on both ends, and events that end them.

type stSender struct {
	Side    int // 0 client, 1 server
	At      int
	N, Gap  int
	Timeout int // 0: the stream's
	Big     int
}

type stEvent struct {
	At  int
	Do  string // cclose sclose cancel return cliclose srvshut srvkill
	Err int    // which cause, see stCause
}

type stReader struct{ Start, Every int }

type stStream struct {
	At       int
	Client   int
	Deadline int // of the client's context, 0: none
	Hijack   bool
	HijackE  int // and returns this cause
	Senders  []stSender
	Empty    [2]bool // the first message of the side has no content
	Events   []stEvent
	Readers  [2]stReader
}

type stCase struct {
	Bus                    string
	Claim                  bool
	Chan                   int
	CliTimeout, SrvTimeout int
	Servers                int
	Lat                    map[string]int
	Faults                 []Fault
	Streams                []stStream
}

type stSend struct {
	id         string
	sender     int
	start, end time.Time
	err        error
	timeout    time.Duration
	over       bool
	errBefore  error
}

type stRecv struct {
	id string
	at time.Time
}

type stEnd struct {
	mu       sync.Mutex
	s        psrpc.ServerStream[Str, Str] // the interface of both ends
	opened   time.Time
	recvs    []stRecv
	closedAt time.Time // the channel, after draining
	doneAt   time.Time // the context
	errDone  error     // Err when the context was done
	closes   []*stClose
	returned time.Time // server: the handler
}

type stClose struct {
	start, end time.Time
	cause      error
	ret        error
	over       bool
}

type stRun struct {
	i       int
	c       stStream
	start   time.Time
	openErr error
	openEnd time.Time
	opens   bool // OpenStream returned
	ends    [2]*stEnd
	sends   [2][]*stSend
	ret     chan error
	mu      sync.Mutex
	dup     int
	empty   [2]string // id of the message without content
	cancel  context.CancelFunc
	evs     map[int]time.Time // when the event was carried out
}

type stWorld struct {
	e       *engine.Env
	c       stCase
	fab     *Fabric
	net     *Net
	clients []*client.RPCClient
	servers []*server.RPCServer
	runs    []*stRun
	wg      sync.WaitGroup
	t0      time.Time
}

var stPlain = fmt.Errorf("plain cause")

var stCauses = []error{
	nil,
	stPlain,
	psrpc.NewErrorf(psrpc.NotFound, "cause two"),
	psrpc.NewErrorf(psrpc.PermissionDenied, "cause three: %d", 3),
	psrpc.NewErrorf("custom_4", "cause four"),
	fmt.Errorf("wrapped: %w", psrpc.NewErrorf(psrpc.Aborted, "cause five")),
}

func stCause(i int) error { return stCauses[i] }

func newStWorld(e *engine.Env, c stCase) *stWorld {
	w := &stWorld{e: e, c: c, fab: NewFabric(c.Bus), net: NewNet(c.Faults, c.Lat)}
	m := Method{Name: "St", Claim: c.Claim}
	if c.Claim {
		m.Affinity = true
	}
	for i := range max(1, c.Servers) {
		if i > 0 && !c.Claim {
			break
		}
		opts := []psrpc.ServerOption{psrpc.WithServerTimeout(msd(c.SrvTimeout))}
		if c.Chan > 0 {
			opts = append(opts, psrpc.WithServerChannelSize(c.Chan))
		}
		s := server.NewRPCServer(define("Svc", fmt.Sprint("srv", i), m), w.net.Wrap(w.fab.Bus()), opts...)
		must(e, server.RegisterStreamHandler[Str, Str](s, "St", nil, w.handle, nil), "register")
		w.servers = append(w.servers, s)
	}
	nc := 1
	for _, s := range c.Streams {
		nc = max(nc, s.Client+1)
	}
	for i := range nc {
		opts := []psrpc.ClientOption{psrpc.WithClientTimeout(msd(c.CliTimeout))}
		if c.Chan >= 0 {
			opts = append(opts, psrpc.WithClientChannelSize(c.Chan))
		}
		cl, err := client.NewRPCClientWithStreams(define("Svc", fmt.Sprint("cli", i), m), w.net.Wrap(w.fab.Bus()), opts...)
		must(e, err, "new client")
		w.clients = append(w.clients, cl)
	}
	for i, s := range c.Streams {
		w.runs = append(w.runs, &stRun{i: i, c: s, ends: [2]*stEnd{{}, {}}, ret: make(chan error, 10), evs: map[int]time.Time{}})
	}
	time.Sleep(time.Second)
	w.t0 = time.Now()
	return w
}

func (w *stWorld) handle(ss psrpc.ServerStream[Str, Str]) error {
	h := metadata.IncomingHeader(ss.Context())
	i, err := strconv.Atoi(h.Metadata["stream"])
	if err != nil || i >= len(w.runs) {
		w.e.Failf("a stream handler was given metadata %v", h.Metadata)
		return nil
	}
	r := w.runs[i]
	r.mu.Lock()
	first := r.ends[1].s == nil
	if first {
		r.ends[1].s = ss
	} else {
		r.dup++
	}
	r.mu.Unlock()
	if !first {
		return nil
	}
	w.runEnd(r, 1)
	if r.c.Hijack {
		ss.Hijack()
		return stCause(r.c.HijackE)
	}
	var e error
	select {
	case e = <-r.ret:
	case <-ss.Context().Done():
	}
	r.mu.Lock()
	r.ends[1].returned = time.Now()
	r.mu.Unlock()
	return e
}

// runEnd starts the readers and senders of one end.
func (w *stWorld) runEnd(r *stRun, side int) {
	end := r.ends[side]
	end.opened = time.Now()
	w.wg.Add(1)
	go func() {
		defer w.wg.Done()
		if d := time.Until(r.start.Add(msd(r.c.Readers[side].Start))); d > 0 {
			time.Sleep(d)
		}
		for m := range end.s.Channel() {
			end.mu.Lock()
			id := m.GetValue()
			if id == "" {
				r.mu.Lock()
				id = r.empty[1-side]
				r.mu.Unlock()
			}
			end.recvs = append(end.recvs, stRecv{id, time.Now()})
			end.mu.Unlock()
			if d := r.c.Readers[side].Every; d > 0 {
				time.Sleep(msd(d))
			}
		}
		if err, ctxErr := end.s.Err(), end.s.Context().Err(); err == nil || ctxErr == nil {
			w.e.Failf("stream %d: the channel of an end is closed while its error is %v and its context's %v", r.i, err, ctxErr)
		}
		end.mu.Lock()
		end.closedAt = time.Now()
		end.mu.Unlock()
	}()
	w.wg.Add(1)
	go func() {
		defer w.wg.Done()
		<-end.s.Context().Done()
		at := time.Now()
		time.Sleep(ms) // the client's own context is done a moment before the stream takes note
		end.mu.Lock()
		end.doneAt, end.errDone = at, end.s.Err()
		end.mu.Unlock()
	}()
	for k, sd := range r.c.Senders {
		if sd.Side != side {
			continue
		}
		w.wg.Add(1)
		go func() {
			defer w.wg.Done()
			if d := time.Until(r.start.Add(msd(sd.At))); d > 0 {
				time.Sleep(d)
			}
			for n := range sd.N {
				w.send(r, side, k, n, sd)
				if sd.Gap > 0 {
					time.Sleep(msd(sd.Gap))
				}
			}
		}()
	}
}

func (w *stWorld) send(r *stRun, side, k, n int, sd stSender) {
	pad := ""
	if sd.Big > 0 {
		pad = fmt.Sprintf("/%0*d", sd.Big, n)
	}
	x := &stSend{id: fmt.Sprintf("%d/%d/%d/%d%s", r.i, side, k, n, pad), sender: k, start: time.Now()}
	x.timeout = msd([]int{w.c.CliTimeout, w.c.SrvTimeout}[side])
	var opts []psrpc.StreamOption
	if sd.Timeout > 0 {
		x.timeout = msd(sd.Timeout)
		opts = append(opts, psrpc.WithTimeout(x.timeout))
	}
	r.mu.Lock()
	r.sends[side] = append(r.sends[side], x)
	msg := x.id
	if r.c.Empty[side] && r.empty[side] == "" {
		r.empty[side], msg = x.id, ""
	}
	r.mu.Unlock()
	x.errBefore = r.ends[side].s.Err()
	err := r.ends[side].s.Send(S(msg), opts...)
	r.mu.Lock()
	x.end, x.err, x.over = time.Now(), err, true
	r.mu.Unlock()
}

func (w *stWorld) close(r *stRun, side int, cause error) {
	end := r.ends[side]
	r.mu.Lock()
	s := end.s
	r.mu.Unlock()
	if s == nil {
		return
	}
	x := &stClose{start: time.Now(), cause: cause}
	end.mu.Lock()
	end.closes = append(end.closes, x)
	end.mu.Unlock()
	err := s.Close(cause)
	end.mu.Lock()
	x.end, x.ret, x.over = time.Now(), err, true
	end.mu.Unlock()
}

func (w *stWorld) event(r *stRun, k int, ev stEvent) {
	if d := time.Until(r.start.Add(msd(ev.At))); d > 0 {
		time.Sleep(d)
	}
	r.mu.Lock()
	r.evs[k] = time.Now()
	opens := r.opens
	r.mu.Unlock()
	switch ev.Do {
	case "cclose":
		if opens {
			w.close(r, 0, stCause(ev.Err))
		}
	case "sclose":
		w.close(r, 1, stCause(ev.Err))
	case "cancel":
		r.cancel()
	case "return":
		r.ret <- stCause(ev.Err)
	case "cliclose":
		w.clients[r.c.Client].Close()
	case "srvshut", "srvkill":
		for _, s := range w.servers {
			w.wg.Add(1)
			go func() {
				defer w.wg.Done()
				s.Close(ev.Do == "srvkill")
			}()
		}
	}
}

// run opens the streams and lets everything happen until the given time.
func (w *stWorld) run(until int) {
	for _, r := range w.runs {
		w.wg.Add(1)
		go func() {
			defer w.wg.Done()
			time.Sleep(time.Until(w.t0.Add(msd(r.c.At))))
			r.mu.Lock()
			r.start = time.Now()
			ctx := metadata.NewContextWithOutgoingMetadata(context.Background(), metadata.Metadata{"stream": fmt.Sprint(r.i)})
			if r.c.Deadline > 0 {
				ctx, r.cancel = context.WithTimeout(ctx, msd(r.c.Deadline))
			} else {
				ctx, r.cancel = context.WithCancel(ctx)
			}
			r.mu.Unlock()
			for k, ev := range r.c.Events {
				w.wg.Add(1)
				go func() {
					defer w.wg.Done()
					w.event(r, k, ev)
				}()
			}
			cs, err := client.OpenStream[*wrapperspb.StringValue, *wrapperspb.StringValue](ctx, w.clients[r.c.Client], "St", nil)
			r.mu.Lock()
			r.openErr, r.openEnd = err, time.Now()
			if err == nil {
				r.opens = true
				r.ends[0].s = stHijackless{cs}
			}
			r.mu.Unlock()
			if err == nil {
				w.runEnd(r, 0)
			}
		}()
	}
	time.Sleep(time.Until(w.t0.Add(msd(until))))
	w.e.Sync()
}

// stHijackless gives the client's end the interface of the server's.
type stHijackless struct {
	psrpc.ClientStream[Str, Str]
}

func (stHijackless) Hijack() {}

// finish ends everything and waits; it says whether all actors came to an end.
func (w *stWorld) finish() bool {
	for _, r := range w.runs {
		r.cancel()
		r.mu.Lock()
		both := []psrpc.ServerStream[Str, Str]{r.ends[0].s, r.ends[1].s}
		r.mu.Unlock()
		for _, s := range both {
			if s != nil {
				go func() { _ = s.Close(nil) }()
			}
		}
	}
	time.Sleep(time.Minute)
	for _, c := range w.clients {
		c.Close()
	}
	for _, s := range w.servers {
		go s.Close(true)
	}
	time.Sleep(time.Minute)
	ended := within(time.Minute, w.wg.Wait)
	w.fab.Close()
	time.Sleep(time.Minute)
	w.e.Sync()
	return ended
}

// delivery judges what was received against what was sent.
func (w *stWorld) delivery() (acked, received int) {
	for _, r := range w.runs {
		if r.dup > 0 {
			w.e.Failf("stream %d was handled %d times", r.i, r.dup+1)
		}
		for dir := range 2 {
			if !r.opens && dir == 1 {
				continue // nobody got to see the stream at the client
			}
			end := r.ends[1-dir]
			pos := map[string]int{}
			for k, x := range end.recvs {
				if _, ok := pos[x.id]; ok {
					w.e.Failf("stream %d: message %.20q was received twice", r.i, x.id)
				}
				pos[x.id] = k
			}
			received += len(end.recvs)
			sent := map[string]bool{}
			last := map[int]int{}
			for _, x := range r.sends[dir] {
				sent[x.id] = true
				k, got := pos[x.id]
				if x.over && x.err == nil {
					acked++
					if !got {
						w.e.Failf("stream %d: Send of %.20q reported success after %v, but the other end never received it", r.i, x.id, x.end.Sub(x.start))
					}
				}
				if got {
					if p, ok := last[x.sender]; ok && p > k {
						w.e.Failf("stream %d: message %.20q was received before an earlier one of the same sender", r.i, x.id)
					}
					last[x.sender] = k
				}
			}
			for id := range pos {
				if !sent[id] {
					w.e.Failf("stream %d: %.20q was received, but not sent to this end of this stream", r.i, id)
				}
			}
		}
	}
	return
}

// timing checks that no operation outlasted its timeout.
func (w *stWorld) timing() {
	for _, r := range w.runs {
		for side := range 2 {
			for _, x := range r.sends[side] {
				if !x.over {
					w.e.Failf("stream %d: Send of %.20q never returned", r.i, x.id)
				} else if d := x.end.Sub(x.start); d > x.timeout+w.slow() {
					w.e.Failf("stream %d: Send of %.20q returned after %v, its timeout is %v", r.i, x.id, d, x.timeout)
				}
			}
			longest := time.Duration(max(w.c.CliTimeout, w.c.SrvTimeout)) * ms
			for _, sd := range r.c.Senders {
				longest = max(longest, msd(sd.Timeout))
			}
			for _, x := range r.ends[side].closes {
				if !x.over {
					w.e.Failf("stream %d: Close never returned", r.i)
				} else if d := x.end.Sub(x.start); d > longest+w.slow() {
					w.e.Failf("stream %d: Close returned after %v, the longest timeout is %v", r.i, d, longest)
				}
			}
		}
	}
}

// slow is how long a publication itself can take.
func (w *stWorld) slow() time.Duration {
	n := 0
	for _, f := range w.c.Faults {
		if f.Do == "slow" || f.Do == "linger" {
			n += f.Ms
		}
	}
	return msd(n)
}

func genStSender(t *rapid.T) stSender {
	return stSender{
		Side:    rapid.IntRange(0, 1).Draw(t, "side"),
		At:      rapid.SampledFrom([]int{0, 0, 1, 10, 60}).Draw(t, "at"),
		N:       rapid.IntRange(1, 8).Draw(t, "n"),
		Gap:     rapid.SampledFrom([]int{0, 0, 0, 1, 20}).Draw(t, "gap"),
		Timeout: rapid.SampledFrom([]int{0, 0, 50, 15}).Draw(t, "timeout"),
		Big:     rapid.SampledFrom([]int{0, 0, 0, 2000}).Draw(t, "big"),
	}
}

func genStReader(t *rapid.T) stReader {
	return stReader{
		Start: rapid.SampledFrom([]int{0, 0, 0, 5, 100, 2000}).Draw(t, "start"),
		Every: rapid.SampledFrom([]int{0, 0, 0, 3, 50}).Draw(t, "every"),
	}
}

// roomy keeps clear of the one cycle of waits the local bus allows: its Publish
// blocks on a full subscriber, so two processes that each publish to the other
// from the loop that empties their own subscription can wait for each other.
func (c *stCase) roomy() {
	side := map[int]bool{}
	for _, s := range c.Streams {
		for _, sd := range s.Senders {
			side[sd.Side] = true
		}
	}
	if c.Bus == "local" && len(side) > 1 {
		c.Chan = 500
	}
}

func genStBase(t *rapid.T) stCase {
	c := stCase{
		Bus:        genBus(t, 2),
		Claim:      rapid.Bool().Draw(t, "claim"),
		Chan:       rapid.SampledFrom([]int{100, 1, 2, 5}).Draw(t, "chan"),
		CliTimeout: rapid.SampledFrom([]int{300, 3000}).Draw(t, "clitimeout"),
		SrvTimeout: rapid.SampledFrom([]int{300, 3000}).Draw(t, "srvtimeout"),
		Servers:    rapid.IntRange(1, 2).Draw(t, "servers"),
		Lat:        map[string]int{},
	}
	for _, k := range []string{"", "MSG", "ACK", "CLOSE"} {
		if v := rapid.SampledFrom([]int{0, 0, 1, 7, 40}).Draw(t, "lat"+k); v > 0 {
			c.Lat[k] = v
		}
	}
	return c
}
