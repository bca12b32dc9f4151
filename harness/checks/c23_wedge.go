package checks

import (
	"bytes"
	"context"
	"fmt"
	"reflect"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"testing/synctest"
	"time"

	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/known/wrapperspb"
	"pgregory.net/rapid"

	"github.com/livekit/psrpc"
	"github.com/livekit/psrpc/internal"
	"github.com/livekit/psrpc/internal/bus"
	"github.com/livekit/psrpc/pkg/client"
	"github.com/livekit/psrpc/pkg/info"
	"github.com/livekit/psrpc/pkg/metadata"
	"github.com/livekit/psrpc/pkg/server"
	"github.com/livekit/psrpc/verif/engine"
)

var wdMethods = []Method{{Name: "Do", Queue: true}, {Name: "One"}, {Name: "Cl", Claim: true}, {Name: "Aff", Claim: true, Affinity: true},
	{Name: "All", Multi: true}, {Name: "St"}, {Name: "CSt", Claim: true, Affinity: true}}

// wdOp is a call, usually one that behaves badly.
type wdOp struct {
	At, Client int
	How        string // Do One Cl Aff All St CSt
	Work       int    // ms the handlers take
	Timeout    int
	Cancel     int    // its context is cancelled this much later; 0: never
	Read       string // All, and the receiving end of a stream: all none some slow
	N          int    // stream: messages
	Gap        int
	Hold       int // stream: closed this much later, 0: at the very end
	Fail       bool
}

// wdStorm is a burst of messages nobody asked for.
type wdStorm struct {
	At   int
	Kind string // RES CLAIM RCLAIM ACK CLOSE MSG
	Of   int    // of this call; negative: of no call
	N    int
}

type wdProbe struct{ At, Client int }

type wdCase struct {
	Bus              string
	Clients, Servers int
	CliChan, SrvChan int
	Down             bool // stream messages go to the client
	Both             bool
	Faults           []Fault
	Ops              []wdOp
	Storms           []wdStorm
	Probes           []wdProbe
	Keep             []wdKeep
}

// wdKeep is a message on a stream that stays open throughout.
type wdKeep struct{ At, Client, Timeout int }

func genWd(t *rapid.T) wdCase {
	c := wdCase{Bus: genBus(t, 40)}
	c.Clients = rapid.IntRange(1, 2).Draw(t, "clients")
	c.Servers = rapid.IntRange(1, 3).Draw(t, "servers")
	c.CliChan = rapid.SampledFrom([]int{1, 1, 2, 5, 500}).Draw(t, "clichan")
	c.SrvChan = rapid.SampledFrom([]int{1, 1, 2, 5, 500}).Draw(t, "srvchan")
	c.Down = rapid.Bool().Draw(t, "down")
	if c.Both = rapid.IntRange(0, 4).Draw(t, "both") == 0; c.Both {
		// the local bus makes publishers wait for full subscribers, and both ends
		// of a stream publish acknowledgements
		c.CliChan, c.SrvChan = 500, 500
	}
	c.Faults = genFaults(t, []string{"REQ", "RES", "CLAIM", "RCLAIM"}, []string{"drop", "delay", "delay", "err", "slow", "dup", "dup", "dup"}, 8, 8, 900)
	c.Faults = append(c.Faults, genFaults(t, []string{"ACK", "MSG"}, []string{"drop", "delay", "dup", "err"}, 4, 8, 300)...)
	c.Faults = append(c.Faults, genFaults(t, []string{"CLOSE"}, []string{"dup"}, 2, 4, 1)...)
	c.Ops = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) wdOp {
		o := wdOp{
			At:      10 * rapid.IntRange(0, 60).Draw(t, "at"),
			Client:  rapid.IntRange(0, c.Clients-1).Draw(t, "client"),
			How:     rapid.SampledFrom([]string{"Do", "One", "Cl", "Aff", "All", "All", "All", "St", "St", "CSt"}).Draw(t, "how"),
			Work:    rapid.SampledFrom([]int{0, 0, 10, 300, 1500, 4000}).Draw(t, "work"),
			Timeout: rapid.SampledFrom([]int{50, 200, 1000, 3000}).Draw(t, "timeout"),
			Read:    rapid.SampledFrom([]string{"none", "some", "slow", "all"}).Draw(t, "read"),
			Fail:    rapid.IntRange(0, 3).Draw(t, "fail") == 0,
		}
		if rapid.IntRange(0, 2).Draw(t, "cancels") == 0 {
			o.Cancel = rapid.IntRange(1, 800).Draw(t, "cancel")
		}
		if strings.HasSuffix(o.How, "St") {
			o.Timeout = max(o.Timeout, 1000)
			o.N = rapid.SampledFrom([]int{0, 1, 3, 12, 40}).Draw(t, "n")
			o.Gap = rapid.SampledFrom([]int{0, 0, 7}).Draw(t, "gap")
			o.Hold = rapid.SampledFrom([]int{0, 1, 100, 700}).Draw(t, "hold")
		}
		return o
	}), 1, 12).Draw(t, "ops")
	c.Storms = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) wdStorm {
		return wdStorm{
			At:   10*rapid.IntRange(0, 70).Draw(t, "at") + 3,
			Kind: rapid.SampledFrom([]string{"RES", "RES", "CLAIM", "RCLAIM", "ACK", "CLOSE", "MSG"}).Draw(t, "kind"),
			Of:   rapid.IntRange(-1, len(c.Ops)-1).Draw(t, "of"),
			N:    rapid.SampledFrom([]int{1, 3, 20, 150}).Draw(t, "n"),
		}
	}), 0, 4).Draw(t, "storms")
	c.Probes = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) wdProbe {
		return wdProbe{At: 10*rapid.IntRange(0, 120).Draw(t, "at") + 5, Client: rapid.IntRange(0, c.Clients-1).Draw(t, "client")}
	}), 1, 4).Draw(t, "probes")
	c.Keep = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) wdKeep {
		return wdKeep{rapid.IntRange(0, 700).Draw(t, "at"), rapid.IntRange(0, c.Clients-1).Draw(t, "client"), rapid.SampledFrom([]int{20, 200, 1000}).Draw(t, "timeout")}
	}), 0, 12).Draw(t, "keep")
	return c
}

// wdEntries counts the entries of all maps the values lead to within the packages
// of psrpc, except for the buses.
func wdEntries(roots ...any) map[string]int {
	out := map[string]int{}
	seen := map[uintptr]bool{}
	var walk func(v reflect.Value, path string, depth int)
	walk = func(v reflect.Value, path string, depth int) {
		if depth > 12 {
			return
		}
		switch v.Kind() {
		case reflect.Interface, reflect.Pointer:
			if v.IsNil() {
				return
			}
			el := v.Elem()
			if v.Kind() == reflect.Pointer {
				if seen[v.Pointer()] {
					return
				}
				seen[v.Pointer()] = true
				if el.Kind() != reflect.Struct {
					return
				}
			}
			walk(el, path, depth+1)
		case reflect.Struct:
			p := v.Type().PkgPath()
			if p != "" && (!strings.HasPrefix(p, "github.com/livekit/psrpc/pkg/") && !strings.HasPrefix(p, "github.com/livekit/psrpc/internal/stream")) {
				return
			}
			for i := range v.NumField() {
				walk(v.Field(i), path+"."+v.Type().Field(i).Name, depth+1)
			}
		case reflect.Map:
			out[path] += v.Len()
			for it := v.MapRange(); it.Next(); {
				walk(it.Value(), path+"[]", depth+1)
			}
		case reflect.Slice:
			for i := range v.Len() {
				if k := v.Index(i).Kind(); k == reflect.Pointer || k == reflect.Interface || k == reflect.Struct {
					walk(v.Index(i), path+"[]", depth+1)
				}
			}
		}
	}
	for i, r := range roots {
		walk(reflect.ValueOf(r), fmt.Sprintf("%T%d", r, i), 0)
	}
	return out
}

// bubbleGoroutines returns what the goroutines of the calling bubble were started
// as.
func bubbleGoroutines() []string {
	buf := make([]byte, 1<<21)
	for {
		n := runtime.Stack(buf, true)
		if n < len(buf) {
			buf = buf[:n]
			break
		}
		buf = make([]byte, 2*len(buf))
	}
	gs := bytes.Split(buf, []byte("\n\n"))
	bubble := func(g []byte) string {
		head, _, _ := bytes.Cut(g, []byte("\n"))
		if _, b, ok := bytes.Cut(head, []byte("synctest bubble ")); ok {
			return strings.TrimRight(string(b), "]:")
		}
		return ""
	}
	own := bubble(gs[0])
	var out []string
	for _, g := range gs {
		if own == "" || bubble(g) != own {
			continue
		}
		lines := bytes.Split(g, []byte("\n"))
		name := "?"
		for _, l := range lines {
			if bytes.HasPrefix(l, []byte("created by ")) {
				name = string(l[len("created by "):])
				name, _, _ = strings.Cut(name, " in goroutine")
			}
		}
		out = append(out, name)
	}
	sort.Strings(out)
	return out
}

func countStrings(ss []string) map[string]int {
	m := map[string]int{}
	for _, s := range ss {
		m[s]++
	}
	return m
}

func runWd(e *engine.Env, c wdCase) {
	fab := NewFabric(c.Bus)
	if fab.Kind == "local" {
		e.NoLeaks()
	}
	var mu sync.Mutex
	probeIDs := map[string]bool{}
	opIDs := map[int][2]string{} // request and stream id by call
	opening := true              // the streams in the background
	net := NewNet(c.Faults, nil)
	net.Exempt = func(kind string, msg proto.Message) bool {
		mu.Lock()
		defer mu.Unlock()
		if opening {
			return true
		}
		learn := func(md metadata.Metadata, ids ...string) {
			if md["probe"] != "" {
				for _, id := range ids {
					probeIDs[id] = true
				}
			} else if i, err := strconv.Atoi(md["op"]); err == nil {
				opIDs[i] = [2]string{ids[0], ids[len(ids)-1]}
			}
		}
		switch m := msg.(type) {
		case *internal.Request:
			learn(m.Metadata, m.RequestId)
			return probeIDs[m.RequestId]
		case *internal.Stream:
			if o := m.GetOpen(); o != nil {
				learn(o.Metadata, m.RequestId, m.StreamId)
			}
			return probeIDs[m.StreamId]
		case interface{ GetRequestId() string }:
			return probeIDs[m.GetRequestId()]
		}
		return false
	}
	srvTimeout := 1000
	var servers []*server.RPCServer
	var clients []*client.RPCClient
	op := func(ctx context.Context) *wdOp {
		i, err := strconv.Atoi(metadata.IncomingHeader(ctx).Metadata["op"])
		if err != nil {
			return nil
		}
		return &c.Ops[i]
	}
	handler := func(ctx context.Context, q Str) (Str, error) {
		if o := op(ctx); o != nil {
			time.Sleep(msd(o.Work))
			if o.Fail {
				return nil, psrpc.NewErrorf(psrpc.NotFound, "as asked")
			}
		}
		return q, nil
	}
	receive := func(ctx context.Context, ch <-chan Str, how string) {
		n := 0
		for {
			if how == "none" || how == "some" && n >= 2 {
				<-ctx.Done()
				return
			}
			select {
			case _, ok := <-ch:
				if !ok {
					return
				}
			case <-ctx.Done():
				return
			}
			n++
			if how == "slow" {
				time.Sleep(30 * ms)
			}
		}
	}
	send := func(s psrpc.Stream[Str, Str], o *wdOp) {
		var wg sync.WaitGroup
		for k := range o.N {
			wg.Add(1)
			go func() {
				defer wg.Done()
				_ = s.Send(S(strconv.Itoa(k)))
			}()
			time.Sleep(msd(o.Gap))
		}
		wg.Wait()
	}
	begin := make(chan struct{})
	keep := func(s psrpc.Stream[Str, Str], k int) {
		for i, x := range c.Keep {
			if x.Client == k {
				go func() {
					<-begin
					time.Sleep(msd(x.At))
					_ = s.Send(S(fmt.Sprint("keep", i)), psrpc.WithTimeout(msd(x.Timeout)))
				}()
			}
		}
	}
	sh := func(ss psrpc.ServerStream[Str, Str]) error {
		if k, err := strconv.Atoi(metadata.IncomingHeader(ss.Context()).Metadata["keep"]); err == nil {
			if c.Down {
				keep(ss, k)
			}
			receive(ss.Context(), ss.Channel(), "all")
			return nil
		}
		o := op(ss.Context())
		if o == nil {
			// a probe
			if c.Down {
				return ss.Send(S("down"))
			}
			m, ok := <-ss.Channel()
			if !ok || m.GetValue() != "up" {
				return psrpc.NewErrorf(psrpc.Internal, "probe message %q %v", m.GetValue(), ok)
			}
			<-ss.Context().Done()
			return nil
		}
		if c.Down || c.Both {
			go send(ss, o)
		}
		if !c.Down || c.Both {
			receive(ss.Context(), ss.Channel(), o.Read)
		}
		<-ss.Context().Done()
		return nil
	}
	for i := range c.Servers {
		s := server.NewRPCServer(define("Svc", fmt.Sprint("srv", i), wdMethods...), net.Wrap(fab.Bus()),
			psrpc.WithServerChannelSize(c.SrvChan), psrpc.WithServerTimeout(msd(srvTimeout)))
		for _, m := range wdMethods {
			switch {
			case m.Name == "One" || m.Name == "St":
				if i > 0 {
					continue
				}
				if m.Name == "One" {
					must(e, server.RegisterHandler(s, m.Name, nil, handler, nil), "register")
				} else {
					must(e, server.RegisterStreamHandler[Str, Str](s, m.Name, nil, sh, nil), "register")
				}
			case m.Name == "CSt":
				must(e, server.RegisterStreamHandler[Str, Str](s, m.Name, nil, sh, func(context.Context) float32 { return 1 }), "register")
			default:
				var aff server.AffinityFunc[Str]
				if m.Affinity {
					aff = func(context.Context, Str) float32 { return 1 }
				}
				must(e, server.RegisterHandler(s, m.Name, nil, handler, aff), "register")
			}
		}
		servers = append(servers, s)
	}
	for i := range c.Clients {
		cl, err := client.NewRPCClientWithStreams(define("Svc", fmt.Sprint("cli", i), wdMethods...), net.Wrap(fab.Bus()),
			psrpc.WithClientChannelSize(c.CliChan))
		must(e, err, "new client")
		clients = append(clients, cl)
	}
	raw := fab.Bus()
	time.Sleep(time.Second)
	slack := ms
	if fab.Kind != "local" {
		slack = 100 * ms
	}

	// probe makes one call of every kind at once; all have to do what they do on an
	// idle system
	probe := func(k int, when string) {
		cl := clients[k]
		ctx := metadata.NewContextWithOutgoingMetadata(context.Background(), metadata.Metadata{"probe": "1"})
		var wg sync.WaitGroup
		for _, m := range wdMethods {
			wg.Add(1)
			go func() {
				defer wg.Done()
				start := time.Now()
				limit := slack
				var err error
				switch m.Name {
				case "All":
					var ch <-chan *psrpc.Response[Str]
					ch, err = client.RequestMulti[Str](ctx, cl, m.Name, nil, S("probe"), psrpc.WithRequestTimeout(300*ms))
					if err == nil {
						n := 0
						for r := range ch {
							if r.Err != nil || r.Result.GetValue() != "probe" {
								e.Failf("%s: client %d's multi call had the result %v %v", when, k, r.Result, r.Err)
							}
							if d := time.Since(start); d > slack {
								e.Failf("%s: client %d's multi call had a result after %v", when, k, d)
							}
							n++
						}
						if n != c.Servers {
							e.Failf("%s: client %d's multi call had %d results of %d servers", when, k, n, c.Servers)
						}
					}
					limit += 300 * ms
				case "St", "CSt":
					var cs psrpc.ClientStream[Str, Str]
					cs, err = client.OpenStream[*wrapperspb.StringValue, *wrapperspb.StringValue](ctx, cl, m.Name, nil, psrpc.WithRequestTimeout(10*time.Second))
					if err == nil {
						if c.Down {
							if v, ok := <-cs.Channel(); !ok || v.GetValue() != "down" {
								err = fmt.Errorf("received %q %v: %v", v.GetValue(), ok, cs.Err())
							}
						} else {
							err = cs.Send(S("up"))
							_ = cs.Close(nil)
						}
						<-cs.Context().Done()
						if err == nil && cs.Err() != psrpc.ErrStreamClosed && code(cs.Err()) != psrpc.Canceled {
							err = fmt.Errorf("ended with %v", cs.Err())
						}
					}
				default:
					var v Str
					v, err = client.RequestSingle[Str](ctx, cl, m.Name, nil, S("probe"), psrpc.WithRequestTimeout(10*time.Second))
					if err == nil && v.GetValue() != "probe" {
						err = fmt.Errorf("the response %q", v.GetValue())
					}
				}
				if m.Affinity {
					limit += time.Second // the selection
				}
				if d := time.Since(start); err != nil || d > limit {
					e.Failf("%s: client %d's unrelated %s call ended after %v with %v", when, k, m.Name, d, err)
				}
			}()
		}
		if !within(time.Minute, wg.Wait) {
			e.Fatalf("%s: client %d's unrelated calls have not returned", when, k)
		}
	}
	for k := range clients {
		probe(k, "before")
	}
	time.Sleep(2 * time.Second)
	synctest.Wait()
	var roots []any
	for _, s := range servers {
		roots = append(roots, s)
	}
	for _, cl := range clients {
		roots = append(roots, cl)
	}
	var kept []psrpc.ClientStream[Str, Str]
	for k, cl := range clients {
		ctx := metadata.NewContextWithOutgoingMetadata(context.Background(), metadata.Metadata{"keep": strconv.Itoa(k)})
		ks, err := client.OpenStream[*wrapperspb.StringValue, *wrapperspb.StringValue](ctx, cl, "St", nil)
		must(e, err, "open")
		kept = append(kept, ks)
		roots = append(roots, ks)
		if !c.Down {
			keep(ks, k)
		}
		go func() {
			for range ks.Channel() {
			}
		}()
	}
	synctest.Wait()
	mu.Lock()
	opening = false
	mu.Unlock()
	entries := wdEntries(roots...)
	goroutines := countStrings(bubbleGoroutines())
	close(begin)

	var wg sync.WaitGroup
	end := make(chan struct{})
	bad := 0
	for i := range c.Ops {
		o := &c.Ops[i]
		if o.Cancel > 0 || o.Work > o.Timeout || o.Read != "all" && (o.How == "All" || o.N > 0) {
			bad++
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			time.Sleep(msd(o.At))
			ctx, cancel := context.WithCancel(metadata.NewContextWithOutgoingMetadata(context.Background(), metadata.Metadata{"op": strconv.Itoa(i)}))
			defer cancel()
			if o.Cancel > 0 {
				time.AfterFunc(msd(o.Cancel), cancel)
			}
			opt := psrpc.WithRequestTimeout(msd(o.Timeout))
			cl := clients[o.Client]
			switch o.How {
			case "St", "CSt":
				cs, err := client.OpenStream[*wrapperspb.StringValue, *wrapperspb.StringValue](ctx, cl, o.How, nil, opt)
				if err != nil {
					return
				}
				e.Class("%s opened, read %s", o.How, o.Read)
				var ends sync.WaitGroup
				if !c.Down || c.Both {
					ends.Add(1)
					go func() { defer ends.Done(); send(cs, o) }()
				}
				if c.Down || c.Both {
					ends.Add(1)
					go func() { defer ends.Done(); receive(cs.Context(), cs.Channel(), o.Read) }()
				}
				if o.Hold > 0 {
					select {
					case <-time.After(msd(o.Hold)):
					case <-cs.Context().Done():
					}
				} else {
					select {
					case <-end:
					case <-cs.Context().Done():
					}
				}
				_ = cs.Close(nil)
				ends.Wait()
			case "All":
				ch, err := client.RequestMulti[Str](ctx, cl, o.How, nil, S("x"), opt)
				if err != nil {
					return
				}
				switch o.Read {
				case "none":
				case "some":
					<-ch
				default:
					for range ch {
						if o.Read == "slow" {
							time.Sleep(50 * ms)
						}
					}
				}
				// the context of an abandoned call stays
				if o.Cancel == 0 {
					time.Sleep(msd(o.Timeout))
				} else {
					<-ctx.Done()
				}
				e.Class("multi, read %s", o.Read)
			default:
				_, err := client.RequestSingle[Str](ctx, cl, o.How, nil, S("x"), opt)
				e.Class("%s: %s", o.How, code(err))
			}
		}()
	}
	for _, s := range c.Storms {
		wg.Add(1)
		go func() {
			defer wg.Done()
			time.Sleep(msd(s.At))
			id, of := [2]string{"RQ_unknown", "STR_unknown"}, c.Ops[0]
			mu.Lock()
			if v, ok := opIDs[s.Of]; ok {
				id, of = v, c.Ops[s.Of]
				e.Class("storm of %s", s.Kind)
			}
			mu.Unlock()
			now := time.Now()
			cli := fmt.Sprint("cli", of.Client)
			i := define("Svc", "x", wdMethods...).GetInfo(of.How, nil)
			var ch bus.Channel
			var msg proto.Message
			str := &internal.Stream{StreamId: id[1], RequestId: id[0], SentAt: now.UnixNano(), Expiry: now.Add(time.Second).UnixNano()}
			switch s.Kind {
			case "RES":
				b, _ := bus.SerializePayload(S("storm"))
				ch, msg = info.GetResponseChannel("Svc", cli), &internal.Response{RequestId: id[0], ServerId: "srv0", SentAt: now.UnixNano(), RawResponse: b}
			case "CLAIM":
				ch, msg = info.GetClaimRequestChannel("Svc", cli), &internal.ClaimRequest{RequestId: id[0], ServerId: "srvX", Affinity: 0.5}
			case "RCLAIM":
				ch, msg = i.GetClaimResponseChannel(), &internal.ClaimResponse{RequestId: id[0], ServerId: "srvX"}
			default:
				ch, msg = info.GetStreamChannel("Svc", cli), str
				switch s.Kind {
				case "ACK":
					str.Body = &internal.Stream_Ack{Ack: &internal.StreamAck{}}
				case "CLOSE":
					// only of streams that are unknown to the client; another ends them
					str.StreamId = "STR_unknown"
					str.Body = &internal.Stream_Close{Close: &internal.StreamClose{}}
				case "MSG":
					if !c.Both {
						str.StreamId = "STR_unknown"
					}
					b, _ := bus.SerializePayload(S("storm"))
					str.Body = &internal.Stream_Message{Message: &internal.StreamMessage{RawMessage: b}}
				}
			}
			for range s.N {
				_ = raw.Publish(context.Background(), ch, msg)
			}
		}()
	}
	for _, p := range c.Probes {
		wg.Add(1)
		go func() {
			defer wg.Done()
			time.Sleep(msd(p.At))
			probe(p.Client, fmt.Sprintf("at %d ms", p.At))
		}()
	}
	time.Sleep(8 * time.Second)
	close(end)
	if !within(time.Minute, wg.Wait) {
		e.Fatalf("a call has not returned after a minute")
	}
	for k := range clients {
		probe(k, "afterwards")
	}
	time.Sleep(10 * time.Second)
	synctest.Wait()
	for p, n := range wdEntries(roots...) {
		if n > entries[p] {
			e.Failf("%d entries are left at %s after all calls are over, there were %d before", n, p, entries[p])
		}
	}
	if fab.Kind == "local" {
		for g, n := range countStrings(bubbleGoroutines()) {
			if n > goroutines[g] {
				e.Failf("%d goroutines started by %s are left after all calls are over, there were %d before", n, g, goroutines[g])
			}
		}
	}
	if bad > 0 || len(c.Faults) > 0 || len(c.Storms) > 0 {
		e.NonTrivial()
	}
	for _, ks := range kept {
		if err := ks.Err(); err != nil {
			e.Failf("a stream in the background ended with %v", err)
		}
		_ = ks.Close(nil)
	}
	for _, cl := range clients {
		cl.Close()
	}
	for _, s := range servers {
		s.Close(false)
	}
	time.Sleep(time.Second)
	fab.Close()
}

func init() {
	engine.Add("C23", "mix",
		"1-12 calls of all kinds that are cancelled, time out, fail, leave results and stream messages unread, under up to 14 message faults (lost, late, twice, failing) and bursts of up to 150 unasked-for or repeated responses, claims and acknowledgements, on channels of 1-500, with probe calls of every kind meanwhile and afterwards; oracle: probes behave as on an idle system, and no goroutine or map entry is left after all deadlines; non-trivial: a call misbehaves, or there is a fault or burst",
		300, 5000, genWd, runWd)
}
