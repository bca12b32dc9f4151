package checks

import (
	"context"
	"fmt"
	"os"
	"os/exec"
	"runtime"
	"slices"
	"strings"
	"sync"
	"time"

	"pgregory.net/rapid"

	"github.com/livekit/psrpc"
	"github.com/livekit/psrpc/internal"
	"github.com/livekit/psrpc/pkg/client"
	"github.com/livekit/psrpc/pkg/metadata"
	"github.com/livekit/psrpc/pkg/rand"
	"github.com/livekit/psrpc/pkg/server"
	"github.com/livekit/psrpc/verif/engine"
)

const c24Alphabet = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789"

var c24Kinds = []struct {
	prefix string
	make   func() string
}{
	{"CLI_", rand.NewClientID}, {"SRV_", rand.NewServerID}, {"REQ_", rand.NewRequestID}, {"STR_", rand.NewStreamID}, {"", rand.NewString},
}

// ---------------------------------------------------------------- part generate

type c24Gen struct {
	Kinds []int // what each goroutine makes, in turn
	Gs    int
	N     int
	Procs int
}

func genC24(t *rapid.T) c24Gen {
	return c24Gen{
		Kinds: rapid.SliceOfN(rapid.IntRange(0, len(c24Kinds)-1), 1, 6).Draw(t, "kinds"),
		Gs:    rapid.IntRange(1, 16).Draw(t, "goroutines"),
		N:     rapid.SampledFrom([]int{50, 20000, 20000}).Draw(t, "n"),
		Procs: rapid.SampledFrom([]int{8, 8, 2, 1}).Draw(t, "procs"),
	}
}

var (
	c24Mu   sync.Mutex
	c24Seen = map[string]string{} // the identifiers of earlier cases; bounded
)

func runC24(e *engine.Env, c c24Gen) {
	defer runtime.GOMAXPROCS(runtime.GOMAXPROCS(c.Procs))
	ids := make([][]string, c.Gs)
	start := make(chan struct{})
	var wg sync.WaitGroup
	for g := range c.Gs {
		wg.Add(1)
		go func() {
			defer wg.Done()
			l := make([]string, 0, c.N)
			<-start
			for n := range c.N {
				l = append(l, c24Kinds[c.Kinds[(g+n)%len(c.Kinds)]].make())
			}
			ids[g] = l
		}()
	}
	close(start)
	wg.Wait()
	var index [256]int
	for i := range 256 {
		index[i] = strings.IndexByte(c24Alphabet, byte(i))
	}
	var counts [12][62]int
	var equal [11]int
	seen := make(map[string]bool, c.Gs*c.N)
	total := 0
	for g, l := range ids {
		for n, id := range l {
			prefix := c24Kinds[c.Kinds[(g+n)%len(c.Kinds)]].prefix
			body, ok := strings.CutPrefix(id, prefix)
			if !ok || len(body) != 12 {
				e.Fatalf("%q is not %q and twelve characters", id, prefix)
			}
			for i := range 12 {
				x := index[body[i]]
				if x < 0 {
					e.Fatalf("%q has a character outside the alphabet", id)
				}
				counts[i][x]++
				if i > 0 && body[i] == body[i-1] {
					equal[i-1]++
				}
			}
			// the random part alone does not repeat either
			if seen[body] {
				e.Fatalf("%q was created twice", id)
			}
			seen[body] = true
			total++
		}
	}
	c24Mu.Lock()
	for body := range seen {
		if who, ok := c24Seen[body]; ok {
			e.Failf("%q was created twice, first in %s", body, who)
			break
		}
		if len(c24Seen) < 2_000_000 {
			c24Seen[body] = "an earlier case"
		}
	}
	c24Mu.Unlock()
	if total >= 20000 {
		// 61 degrees of freedom: beyond 170 has a chance below 1e-11
		for i := range counts {
			chi, want := 0.0, float64(total)/62
			for _, n := range counts[i] {
				chi += (float64(n) - want) * (float64(n) - want) / want
			}
			if chi > 170 {
				e.Failf("characters at position %d are not equally likely: chi² %.0f over %d identifiers, counts %v", i, chi, total, counts[i])
			}
		}
		for i, n := range equal {
			want := float64(total) / 62
			if d := float64(n) - want; d*d > 55*want { // 7.4 standard deviations
				e.Failf("characters %d and %d are equal in %d of %d identifiers, expected about %.0f", i, i+1, n, total, want)
			}
		}
	}
	if c.Gs > 1 && total >= 20000 {
		e.NonTrivial()
	}
	e.Class("goroutines: %s", bucket(c.Gs))
}

// ---------------------------------------------------------------- part processes

// each process makes Skip identifiers which nobody looks at first
type c24Procs struct{ N, Each, Skip int }

func c24Child() {
	var n int
	var skip int
	if _, err := fmt.Sscan(os.Getenv("CHK_IDS"), &n, &skip); err != nil {
		return
	}
	for k := range skip {
		_ = c24Kinds[k%len(c24Kinds)].make()
	}
	var mu sync.Mutex
	var wg sync.WaitGroup
	for g := range 4 {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for k := range n {
				id := c24Kinds[(g+k)%len(c24Kinds)].make()
				mu.Lock()
				fmt.Println("ID", id)
				mu.Unlock()
			}
		}()
	}
	wg.Wait()
}

func runC24Procs(e *engine.Env, c c24Procs) {
	exe, err := os.Executable()
	must(e, err, "harness: executable")
	outs := make([][]byte, c.N)
	var wg sync.WaitGroup
	for i := range c.N {
		wg.Add(1)
		go func() {
			defer wg.Done()
			cmd := exec.Command(exe, "-test.run", "^TestIDs$")
			cmd.Env = append(os.Environ(), fmt.Sprintf("CHK_IDS=%d %d", c.Each, c.Skip), "CHK_PROP=")
			out, err := cmd.CombinedOutput()
			if err != nil && !strings.Contains(string(out), "panic: ") {
				panic(fmt.Sprintf("harness: %v: %s", err, out))
			}
			outs[i] = out
		}()
	}
	wg.Wait()
	seen := map[string]int{}
	for i, out := range outs {
		n := 0
		for l := range strings.Lines(string(out)) {
			id, ok := strings.CutPrefix(strings.TrimSpace(l), "ID ")
			if !ok {
				continue
			}
			n++
			body := id[max(0, len(id)-12):]
			if j, dup := seen[body]; dup {
				e.Fatalf("identifier %q was created by process %d and by process %d", id, j, i)
			}
			seen[body] = i
		}
		if n != 4*c.Each {
			e.Fatalf("process %d created %d identifiers of %d: %.500s", i, n, 4*c.Each, out)
		}
	}
	e.NonTrivial()
	e.Class("processes: %s", bucket(c.N))
}

// ---------------------------------------------------------------- part given

type c24Given struct {
	Bus          string
	Cli          []string // ids of the clients, "" for a generated one
	Srv          []string
	CliOpt       []bool // given as an option rather than in the definition
	SrvOpt       []bool
	Calls        []c24Call
	CliSet, SSet []string // the ids in the definitions when there is an option
}

type c24Call struct {
	Client int
	Kind   string
	Pick   int // claim: which server to select
}

func genC24Given(t *rapid.T) c24Given {
	c := c24Given{Bus: genBus(t, 3)}
	names := []string{"node1", "NODE_2", "a", strings.Repeat("long", 20), "9", "x_y"}
	perm := rapid.Permutation(names).Draw(t, "names")
	nc, ns := rapid.IntRange(1, 3).Draw(t, "clients"), rapid.IntRange(1, 3).Draw(t, "servers")
	for i := range nc + ns {
		id := perm[i]
		if rapid.IntRange(0, 3).Draw(t, "default") == 0 {
			id = ""
		}
		opt, set := rapid.Bool().Draw(t, "opt"), rapid.SampledFrom([]string{"", "shadowed"}).Draw(t, "set")
		if i < nc {
			c.Cli, c.CliOpt, c.CliSet = append(c.Cli, id), append(c.CliOpt, opt), append(c.CliSet, set)
		} else {
			c.Srv, c.SrvOpt, c.SSet = append(c.Srv, id), append(c.SrvOpt, opt), append(c.SSet, set)
		}
	}
	for range rapid.IntRange(1, 10).Draw(t, "calls") {
		c.Calls = append(c.Calls, c24Call{rapid.IntRange(0, nc-1).Draw(t, "client"),
			rapid.SampledFrom([]string{"call", "all", "claim", "stream", "cstream"}).Draw(t, "kind"), rapid.IntRange(0, 5).Draw(t, "pick")})
	}
	return c
}

func runC24Given(e *engine.Env, c c24Given) {
	f := NewFabric(c.Bus)
	defer f.Close()
	net := NewNet(nil, nil)
	var mu sync.Mutex
	type run struct{ server, remote string }
	var runs []run
	srv := make([]string, len(c.Srv))
	for n, id := range c.Srv {
		def, opts := id, []psrpc.ServerOption(nil)
		if id == "" {
			def = rand.NewServerID()
			id = def
			if c.SrvOpt[n] {
				opts = append(opts, psrpc.WithServerID(""))
			}
		} else if c.SrvOpt[n] {
			def = c.SSet[n] + rand.NewServerID()
			opts = append(opts, psrpc.WithServerID(id))
		}
		srv[n] = id
		s := server.NewRPCServer(define("Svc", def, c19Methods...), net.Wrap(f.Bus()), opts...)
		defer s.Close(true)
		note := func(ctx context.Context) {
			mu.Lock()
			runs = append(runs, run{id, metadata.IncomingHeader(ctx).RemoteID})
			mu.Unlock()
		}
		for _, m := range []string{"Call", "All", "Claim"} {
			must(e, server.RegisterHandler(s, m, nil, func(ctx context.Context, q Str) (Str, error) {
				note(ctx)
				return S(id), nil
			}, nil), "register")
		}
		for _, m := range []string{"Stream", "ClaimStream"} {
			topic := []string{"t"}
			if m == "Stream" {
				topic = []string{fmt.Sprint("t", n)}
			}
			must(e, server.RegisterStreamHandler(s, m, topic, func(ss psrpc.ServerStream[Str, Str]) error {
				note(ss.Context())
				_ = ss.Send(S(id))
				return nil
			}, nil), "register")
		}
	}
	var clients []*client.RPCClient
	cli := make([]string, len(c.Cli))
	for n, id := range c.Cli {
		def, opts := id, []psrpc.ClientOption(nil)
		if id == "" {
			def = rand.NewClientID()
			id = def
			if c.CliOpt[n] {
				opts = append(opts, psrpc.WithClientID(""))
			}
		} else if c.CliOpt[n] {
			def = c.CliSet[n] + rand.NewClientID()
			opts = append(opts, psrpc.WithClientID(id))
		}
		cli[n] = id
		cl, err := client.NewRPCClientWithStreams(define("Svc", def, c19Methods...), net.Wrap(f.Bus()), opts...)
		must(e, err, "new client")
		defer cl.Close()
		clients = append(clients, cl)
	}
	time.Sleep(50 * ms)
	ctx := context.Background()
	ids := map[string]string{}
	logged := 0
	for k, x := range c.Calls {
		cl, me := clients[x.Client], cli[x.Client]
		what := fmt.Sprintf("call %d (%s by %q)", k, x.Kind, me)
		mu.Lock()
		runs = nil
		mu.Unlock()
		pick := srv[x.Pick%len(srv)]
		sel := psrpc.WithSelectionOpts(psrpc.SelectionOpts{AffinityTimeout: 50 * ms, SelectionFunc: func(claims []*psrpc.Claim) (string, error) {
			var got []string
			for _, cl := range claims {
				got = append(got, cl.ServerID)
			}
			slices.Sort(got)
			want := slices.Sorted(slices.Values(srv))
			if x.Kind == "claim" || x.Kind == "cstream" {
				if !slices.Equal(got, want) {
					e.Failf("%s: claims of %q, want %q", what, got, want)
				}
			}
			return pick, nil
		}})
		var opts []psrpc.RequestOption
		if x.Kind == "claim" || x.Kind == "cstream" {
			opts = append(opts, sel)
		}
		var answered []string
		switch x.Kind {
		case "call", "claim":
			r, err := client.RequestSingle[Str](ctx, cl, c19Name[x.Kind], nil, S("q"), opts...)
			must(e, err, what)
			answered = append(answered, r.GetValue())
		case "all":
			ch, err := client.RequestMulti[Str](ctx, cl, "All", nil, S("q"), psrpc.WithRequestTimeout(100*ms))
			must(e, err, what)
			for r := range ch {
				must(e, r.Err, what)
				answered = append(answered, r.Result.GetValue())
			}
		default:
			topic := []string{"t"}
			if x.Kind == "stream" {
				topic = []string{fmt.Sprint("t", x.Pick%len(srv))}
			}
			s, err := client.OpenStream[Str, Str](ctx, cl, c19Name[x.Kind], topic, opts...)
			must(e, err, what)
			for m := range s.Channel() {
				answered = append(answered, m.GetValue())
			}
		}
		time.Sleep(10 * ms)
		want := []string{pick}
		if x.Kind == "all" {
			want = slices.Sorted(slices.Values(srv))
		}
		if x.Kind == "call" && len(answered) == 1 {
			want = answered
		}
		slices.Sort(answered)
		if !slices.Equal(answered, want) {
			e.Failf("%s: answered by %q, want %q", what, answered, want)
		}
		mu.Lock()
		for _, r := range runs {
			if r.remote != me {
				e.Failf("%s: the handler on %q saw caller %q", what, r.server, r.remote)
			}
		}
		if len(runs) != len(want) {
			e.Failf("%s: %d handlers ran, want %d", what, len(runs), len(want))
		}
		mu.Unlock()
		// what was on the wire
		own := map[string]bool{}
		id := func(v, prefix string) {
			if !strings.HasPrefix(v, prefix) || len(v) != len(prefix)+12 {
				e.Failf("%s: identifier %q on the wire, want %q and twelve characters", what, v, prefix)
			}
			if by, ok := ids[v]; ok && !own[v] {
				e.Failf("%s: identifier %q was used before, by %s", what, v, by)
			}
			own[v] = true
			ids[v] = what
		}
		log := net.Log()
		for _, s := range log[logged:] {
			switch m := s.Msg.(type) {
			case *internal.Request:
				id(m.RequestId, "REQ_")
				if m.ClientId != me {
					e.Failf("%s: request from %q", what, m.ClientId)
				}
			case *internal.Response:
				if !slices.Contains(want, m.ServerId) || !own[m.RequestId] {
					e.Failf("%s: response of %q to %q", what, m.ServerId, m.RequestId)
				}
			case *internal.ClaimRequest:
				if !slices.Contains(srv, m.ServerId) || !own[m.RequestId] {
					e.Failf("%s: claim of %q for %q", what, m.ServerId, m.RequestId)
				}
			case *internal.ClaimResponse:
				if m.ServerId != pick || !own[m.RequestId] {
					e.Failf("%s: claim response for %q, %q", what, m.ServerId, m.RequestId)
				}
			case *internal.Stream:
				id(m.StreamId, "STR_")
				id(m.RequestId, "REQ_")
				if o := m.GetOpen(); o != nil && o.NodeId != me {
					e.Failf("%s: stream from %q", what, o.NodeId)
				}
			}
		}
		logged = len(log)
		e.Class("%s", x.Kind)
	}
	e.NonTrivial()
	e.Class("bus: %s", c.Bus)
}

func init() {
	engine.Add("C24", "generate", "at least 20000 identifiers created by several goroutines", 150, 1500, genC24, runC24, engine.Real())
	engine.Add("C24", "processes", "every case", 10, 150, func(t *rapid.T) c24Procs {
		return c24Procs{rapid.IntRange(2, 5).Draw(t, "processes"), rapid.IntRange(1, 300).Draw(t, "each"),
			rapid.SampledFrom([]int{0, 0, 1000, 70_000, 300_000, 1_200_000}).Draw(t, "skip")}
	}, runC24Procs, engine.Real())
	engine.Add("C24", "given", "every case", 400, 8000, genC24Given, runC24Given)
}
