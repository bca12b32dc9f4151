package checks

import (
	"context"
	"fmt"
	"math"
	"strings"
	"sync"
	"time"

	"google.golang.org/protobuf/types/known/wrapperspb"
	"pgregory.net/rapid"

	"github.com/livekit/psrpc"
	"github.com/livekit/psrpc/pkg/client"
	"github.com/livekit/psrpc/pkg/server"
	"github.com/livekit/psrpc/verif/engine"
)

type c02Bid struct {
	Delay int // ms, a multiple of 10; server i answers at Delay+i+1
	Aff   int // affinity in eighths; negative: refuses
	Eps   int // the affinity is so many float32 steps above
	Nil   bool
}

func (b c02Bid) aff() float32 {
	f := float32(b.Aff) / 8
	for i := 0; i < b.Eps; i++ {
		f = math.Nextafter32(f, math.MaxFloat32)
	}
	for i := 0; i > b.Eps; i-- {
		f = math.Nextafter32(f, 0)
	}
	return f
}

// c02ID is the id of server i; some styles have ids that resemble each other.
func c02ID(style, i int) string {
	switch style {
	case 1:
		return strings.Repeat("s", i+1)
	case 2:
		b := []byte("server")
		for k := range b {
			if i>>k&1 > 0 {
				b[k] -= 'a' - 'A'
			}
		}
		return string(b)
	case 3:
		return fmt.Sprintf("%d_srv", i)
	}
	return fmt.Sprintf("srv%d", i)
}

type c02Call struct {
	Bids    []c02Bid
	Custom  bool // selection options are passed
	Min     int  // eighths
	Max     int
	First   bool
	Select  int // ms, multiple of 10
	Short   int // ms, multiple of 10
	Func    string
	Timeout int // ms
}

type c02Case struct {
	Bus      string
	Stream   bool
	Affinity bool // method with affinity enabled
	CliSel   int  // client selection timeout ms, 0 = default
	Chan     int  // channel size of the client, -1 = default
	IDs      int
	Calls    []c02Call
}

var affinities = []int{-8, -1, 1, 2, 3, 4, 6, 8, 8, 8, 12, 16, 800}

func genC02(stream bool) func(t *rapid.T) c02Case {
	return func(t *rapid.T) c02Case {
		c := c02Case{
			Bus:      genBus(t, 8),
			Stream:   stream,
			Affinity: rapid.IntRange(0, 3).Draw(t, "aff") > 0,
			CliSel:   rapid.SampledFrom([]int{0, 0, 50, 300, 2000}).Draw(t, "clisel"),
			Chan:     rapid.SampledFrom([]int{-1, -1, 0, 1, 2}).Draw(t, "chan"),
		}
		n, scale := rapid.IntRange(1, 5).Draw(t, "servers"), 1
		if rapid.IntRange(0, 7).Draw(t, "many") == 0 {
			// the times are all multiples of 40 then, so that 30 servers answer at
			// different times
			n, scale = rapid.IntRange(6, 30).Draw(t, "many servers"), 4
			c.CliSel *= scale
		}
		c.IDs = rapid.IntRange(0, 3).Draw(t, "ids")
		for range rapid.IntRange(1, 3).Draw(t, "calls") {
			call := c02Call{Timeout: 9009, Min: rapid.SampledFrom([]int{0, 0, 0, 1, 4, 8, 9, -4}).Draw(t, "min")}
			nilAt := -1
			if rapid.IntRange(0, 5).Draw(t, "nil") == 0 {
				nilAt = rapid.IntRange(0, n-1).Draw(t, "nilat")
			}
			for i := range n {
				if i == nilAt {
					call.Bids = append(call.Bids, c02Bid{Nil: true, Aff: 8, Delay: 0})
					continue
				}
				call.Bids = append(call.Bids, c02Bid{
					Delay: rapid.SampledFrom([]int{0, 0, 10, 20, 30, 90, 100, 190, 200, 210, 240, 500, 990, 1000, 1200, 2500, 12000}).Draw(t, "delay"),
					Aff:   rapid.SampledFrom(affinities).Draw(t, "affinity"),
				})
			}
			if call.Custom = rapid.IntRange(0, 2).Draw(t, "custom") > 0; call.Custom {
				call.Max = rapid.SampledFrom([]int{0, 0, 0, 2, 8, 9, 16}).Draw(t, "max")
				call.First = rapid.IntRange(0, 4).Draw(t, "first") == 0
				call.Select = rapid.SampledFrom([]int{0, 10, 30, 100, 200, 500, 1000, 3000}).Draw(t, "select")
				call.Short = rapid.SampledFrom([]int{0, 0, 10, 50, 200, 700}).Draw(t, "short")
				call.Func = rapid.SampledFrom([]string{"", "", "", "lowest", "last", "first", "error", "unknown", "none"}).Draw(t, "func")
				if call.Select == 0 && call.Short == 0 && !call.First {
					call.Select = 400
				}
			} else {
				call.Min = 0
			}
			if call.Custom && call.Short == 0 && !call.First && call.Func == "" && rapid.IntRange(0, 2).Draw(t, "zero") == 0 {
				// an affinity of 0 says that the server is not available
				if b := &call.Bids[rapid.IntRange(0, n-1).Draw(t, "zero at")]; !b.Nil {
					b.Aff = 0
				}
			}
			if rapid.IntRange(0, 3).Draw(t, "short timeout") == 0 {
				call.Timeout = 3509 // above every deadline
			}
			for i := range call.Bids {
				b := &call.Bids[i]
				if b.Delay *= scale; b.Aff > 0 && !b.Nil && rapid.IntRange(0, 2).Draw(t, "near") == 0 {
					b.Eps = rapid.SampledFrom([]int{-1, 1, 2}).Draw(t, "eps")
				}
			}
			call.Select *= scale
			call.Short *= scale
			call.Timeout *= scale
			c.Calls = append(c.Calls, call)
		}
		return c
	}
}

// c02Expect is the reference model.
type c02Expect struct {
	server  int // -1 = none
	at      int // ms: when the selection ends
	ends    string
	err     bool // of the selection function
	unknown bool
	claims  []psrpc.Claim // given to the selection function
}

func c02Model(c c02Case, call c02Call) c02Expect {
	min, max, first, sel, short, fn := call.Min, call.Max, call.First, call.Select, call.Short, call.Func
	if !call.Custom {
		sel = c.CliSel
		if sel == 0 {
			sel = 1000
		}
		min, max, fn = 0, 0, ""
		first = !c.Affinity
		if c.Affinity {
			short = 200
		}
	}
	x := c02Expect{server: -1}
	end, why := call.Timeout, "timeout"
	if sel > 0 && sel < end {
		end, why = sel, "deadline"
	}
	type bid struct {
		at, srv int
		aff     float32
	}
	var bids []bid
	for i, b := range call.Bids {
		if b.Aff < 0 {
			continue
		}
		at := b.Delay + i + 1
		if b.Nil {
			at = 0
		}
		bids = append(bids, bid{at, i, b.aff()})
	}
	for i := range bids { // by arrival
		for j := i + 1; j < len(bids); j++ {
			if bids[j].at < bids[i].at {
				bids[i], bids[j] = bids[j], bids[i]
			}
		}
	}
	best, shorted := float32(0), false
	for _, b := range bids {
		if b.at > end {
			break
		}
		if min > 0 && b.aff < float32(min)/8 {
			continue
		}
		if first || max > 0 && b.aff >= float32(max)/8 {
			x.server, x.at, x.ends = b.srv, b.at, "immediate"
			return x
		}
		x.claims = append(x.claims, psrpc.Claim{ServerID: c02ID(c.IDs, b.srv), Affinity: b.aff})
		if fn == "" && b.aff > best {
			best, x.server = b.aff, b.srv
		}
		if short > 0 && !shorted {
			shorted = true
			if b.at+short < end {
				end, why = b.at+short, "short circuit"
			}
		}
	}
	x.at, x.ends = end, why
	switch fn {
	case "error":
		x.err = true
	case "unknown", "none":
		x.unknown = true
	case "":
	default:
		if len(x.claims) == 0 {
			x.err = true
		} else {
			id := pickClaim(fn, x.claims)
			for i := range call.Bids {
				if c02ID(c.IDs, i) == id {
					x.server = i
				}
			}
		}
	}
	return x
}

func pickClaim(fn string, cs []psrpc.Claim) string {
	switch fn {
	case "last":
		return cs[len(cs)-1].ServerID
	case "first":
		return cs[0].ServerID
	}
	k := 0
	for i, c := range cs {
		if c.Affinity < cs[k].Affinity {
			k = i
		}
	}
	return cs[k].ServerID
}

func runC02(e *engine.Env, c c02Case) {
	fab := NewFabric(c.Bus)
	m := Method{Name: "Do", Affinity: c.Affinity, Claim: true}
	type exec struct {
		srv int
		at  time.Time
	}
	var mu sync.Mutex
	var execs []exec
	var bids []c02Bid
	var open psrpc.ServerStream[Str, Str]
	bid := func(i int) float32 {
		mu.Lock()
		b := bids[i]
		mu.Unlock()
		if !b.Nil {
			time.Sleep(msd(b.Delay + i + 1))
		}
		return b.aff()
	}
	ran := func(i int) {
		mu.Lock()
		execs = append(execs, exec{i, time.Now()})
		mu.Unlock()
	}
	var servers []*server.RPCServer
	n := len(c.Calls[0].Bids)
	for i := range n {
		s := server.NewRPCServer(define("Svc", "", m), fab.Bus(), psrpc.WithServerID(c02ID(c.IDs, i)))
		servers = append(servers, s)
		nilFunc := true // registered without an affinity function
		for _, call := range c.Calls {
			nilFunc = nilFunc && call.Bids[i].Nil
		}
		var err error
		if c.Stream {
			aff := func(context.Context) float32 { return bid(i) }
			if nilFunc {
				aff = nil
			}
			err = server.RegisterStreamHandler(s, "Do", nil, func(st psrpc.ServerStream[Str, Str]) error {
				ran(i)
				mu.Lock()
				open = st
				mu.Unlock()
				<-st.Context().Done()
				return nil
			}, aff)
		} else {
			aff := func(context.Context, Str) float32 { return bid(i) }
			if nilFunc {
				aff = nil
			}
			err = server.RegisterHandler(s, "Do", nil, func(context.Context, Str) (Str, error) {
				ran(i)
				time.Sleep(5 * ms)
				return S(fmt.Sprintf("from %d", i)), nil
			}, aff)
		}
		must(e, err, "register")
	}
	var opts []psrpc.ClientOption
	if c.CliSel > 0 {
		opts = append(opts, psrpc.WithClientSelectTimeout(msd(c.CliSel)))
	}
	if c.Chan >= 0 {
		opts = append(opts, psrpc.WithClientChannelSize(c.Chan))
	}
	newClient := client.NewRPCClient
	if c.Stream {
		newClient = client.NewRPCClientWithStreams
	}
	cl, err := newClient(define("Svc", "cli", m), fab.Bus(), opts...)
	must(e, err, "new client")
	time.Sleep(time.Second)

	for k, call := range c.Calls {
		x := c02Model(c, call)
		if x.ends == "timeout" && x.server >= 0 {
			// the selection would end with the request itself
			continue
		}
		mu.Lock()
		bids, execs, open = call.Bids, nil, nil
		mu.Unlock()
		var seen []psrpc.Claim
		seenAt := time.Time{}
		calls := 0
		ro := []psrpc.RequestOption{psrpc.WithRequestTimeout(msd(call.Timeout))}
		errPick := psrpc.NewErrorf(psrpc.ResourceExhausted, "picky")
		if call.Custom {
			so := psrpc.SelectionOpts{
				MinimumAffinity: float32(call.Min) / 8, MaximumAffinity: float32(call.Max) / 8,
				AcceptFirstAvailable: call.First, AffinityTimeout: msd(call.Select), ShortCircuitTimeout: msd(call.Short),
			}
			if call.Func != "" {
				so.SelectionFunc = func(cs []*psrpc.Claim) (string, error) {
					calls++
					seenAt = time.Now()
					for _, c := range cs {
						seen = append(seen, *c)
					}
					if call.Func == "error" || len(cs) == 0 && call.Func != "unknown" && call.Func != "none" {
						return "", errPick
					}
					if call.Func == "unknown" {
						return "nobody", nil
					}
					if call.Func == "none" {
						return "", nil
					}
					return pickClaim(call.Func, seen), nil
				}
			}
			ro = append(ro, psrpc.WithSelectionOpts(so))
		}
		start := time.Now()
		var res Str
		var err error
		if c.Stream {
			var st psrpc.ClientStream[Str, Str]
			st, err = client.OpenStream[Str, Str](context.Background(), cl, "Do", nil, ro...)
			if err == nil {
				mu.Lock()
				ok := open != nil
				mu.Unlock()
				if !ok {
					time.Sleep(ms / 2)
				}
				took := time.Since(start)
				defer st.Close(nil)
				if took > msd(x.at)+ms {
					e.Failf("call %d: the stream opened after %v, the selection ends after %dms", k, took, x.at)
				}
			}
		} else {
			res, err = client.RequestSingle[*wrapperspb.StringValue](context.Background(), cl, "Do", nil, S("q"), ro...)
		}
		took := time.Since(start)
		time.Sleep(30 * time.Second) // late bidders and handlers
		mu.Lock()
		xs := append([]exec(nil), execs...)
		mu.Unlock()

		e.Class("ends: %s", x.ends)
		if call.Func != "" {
			e.Class("selection function")
			if x.ends != "immediate" {
				if calls != 1 || fmt.Sprint(seen) != fmt.Sprint(x.claims) || seenAt.Sub(start) != msd(x.at) {
					e.Failf("call %d: the selection function was called %d times, after %v, with %v; expected once, after %dms, with %v", k, calls, seenAt.Sub(start), seen, x.at, x.claims)
				}
			} else if calls != 0 {
				e.Failf("call %d: the selection function was called although a server was accepted immediately", k)
			}
		}
		if len(x.claims) > 1 || x.ends == "immediate" && n > 1 {
			e.NonTrivial()
		}
		switch {
		case x.err || x.unknown || x.server < 0:
			e.Class("no server")
			if len(xs) != 0 {
				e.Failf("call %d: no server qualifies, but server %d executed it", k, xs[0].srv)
			}
			want := psrpc.ErrorCode(psrpc.Unavailable)
			switch {
			case x.err:
				want = psrpc.ResourceExhausted
			case x.unknown:
				want = psrpc.DeadlineExceeded
			}
			if call.Func == "none" && x.ends != "immediate" {
				// nobody is selected: whether that is noticed at once is not promised
				if err == nil || took > msd(call.Timeout) {
					e.Failf("call %d: nobody was selected, got %v after %v", k, err, took)
				}
				break
			}
			if err == nil || code(err) != want && !(x.ends == "timeout" && code(err) == psrpc.DeadlineExceeded) {
				e.Failf("call %d: expected the error %s, got %v (%s)", k, want, err, code(err))
			}
			end := x.at
			if x.unknown {
				end = call.Timeout
			}
			if took != msd(end) {
				e.Failf("call %d: failed after %v, expected %dms (%s)", k, took, end, x.ends)
			}
		default:
			e.Class("selected")
			if len(xs) != 1 || xs[0].srv != x.server {
				e.Failf("call %d: expected server %d to be selected after %dms (%s), executions: %v, error: %v", k, x.server, x.at, x.ends, xs, err)
				break
			}
			if d := xs[0].at.Sub(start); d != msd(x.at) {
				e.Failf("call %d: server %d was selected after %v, expected %dms (%s)", k, x.server, d, x.at, x.ends)
			}
			if err != nil {
				e.Failf("call %d: failed with %v although server %d executed it", k, err, x.server)
			} else if !c.Stream && res.GetValue() != fmt.Sprintf("from %d", x.server) {
				e.Failf("call %d: got %q, executed by %d", k, res.GetValue(), x.server)
			}
		}
	}
	e.Class("bus %s", c.Bus)
	cl.Close()
	for _, s := range servers {
		s.Close(true)
	}
	time.Sleep(10 * time.Second)
	fab.Close()
	time.Sleep(time.Minute)
}

func init() {
	rule := "1-5 servers (sometimes up to 30) with ids that may resemble each other, with drawn answer times and affinities, drawn selection options or defaults, 1-3 calls, compared with a reference model at exact instants; non-trivial: at least two acceptable claims, or an immediate choice among several servers"
	engine.Add("C02", "calls", rule, 1500, 30000, genC02(false), runC02)
	engine.Add("C02", "streams", rule, 700, 15000, genC02(true), runC02)
}
