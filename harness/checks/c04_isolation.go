package checks

import (
	"context"
	"fmt"
	"slices"
	"strings"
	"sync"
	"time"
	"unicode"
	"unicode/utf8"

	"pgregory.net/rapid"

	"github.com/livekit/psrpc"
	"github.com/livekit/psrpc/internal/bus"
	"github.com/livekit/psrpc/pkg/client"
	"github.com/livekit/psrpc/pkg/info"
	"github.com/livekit/psrpc/pkg/server"
	"github.com/livekit/psrpc/verif/engine"
)

var (
	c04Services = []string{"Svc", "Svc_", "SvcQ", "Svc1", "Sv", "S", "svc", "CLI", "SRV", "REQ", "Q"}
	c04Methods  = []string{"Do", "DoX", "Do_", "do", "D", "REQ", "Q", "STR", "CLAIM", "RES", "u002b"}
	c04Parts    = []string{"a", "b", "ab", "A", "a.b", "a|b", "a_b", "a b", "Q", "REQ", "STR", "RCLAIM", ".", "|", "*", ">", "a.", "|a",
		"u+002e", "uu+002b002e", "u002e", "U+0001f600", "😀", "\U0001f601", "é", "é", "e", "日本", "\n", "\x00", "+", "_", "0", "00", "�", "﷐", "￿", "\U0010ffff",
		"au+007cb", "ࠀ", "000", "u+00410", "u+0041", "A0", "Ā", "Ā0", "ā"}
	c04Clients = []string{"CLI_a", "CLI_b", "CLI_a_", "a", "b", "ab", "A", "1", "SRV_a", "CLI"}
)

func genPart(t *rapid.T) string {
	if rapid.IntRange(0, 3).Draw(t, "random part") == 0 {
		s := rapid.StringN(1, 6, -1).Draw(t, "part")
		if utf8.ValidString(s) && s != "" {
			return s
		}
	}
	p := rapid.SampledFrom(c04Parts).Draw(t, "part")
	if rapid.IntRange(0, 15).Draw(t, "long part") == 0 {
		p = strings.Repeat("lengthy_", rapid.IntRange(4, 60).Draw(t, "times")) + p
	}
	return p
}

func genTopic(t *rapid.T, noQ bool) []string {
	most := 3
	if rapid.IntRange(0, 7).Draw(t, "long topic") == 0 {
		most = 12
	}
	topic := rapid.SliceOfN(rapid.Custom(genPart), 0, most).Draw(t, "topic")
	if most > 3 && rapid.Bool().Draw(t, "alike") {
		for i := range len(topic) - 1 {
			topic[i] = "a" // only the length and the last one differ
		}
	}
	if n := len(topic); noQ && n > 0 && topic[n-1] == "Q" {
		topic[n-1] = "q"
	}
	return topic
}

// ------------------------------------------------------- names

type c04Name struct {
	Service, Kind, Method string
	Topic                 []string
	Client                string
}

func genC04Names(t *rapid.T) []c04Name {
	return rapid.SliceOfN(rapid.Custom(func(t *rapid.T) c04Name {
		n := c04Name{
			Service: rapid.SampledFrom(c04Services).Draw(t, "service"),
			Kind:    rapid.SampledFrom([]string{"REQ", "QREQ", "RCLAIM", "STR", "res", "claim", "str"}).Draw(t, "kind"),
		}
		if strings.ToLower(n.Kind) == n.Kind {
			n.Client = rapid.SampledFrom(c04Clients).Draw(t, "client")
		} else {
			n.Method = rapid.SampledFrom(c04Methods).Draw(t, "method")
			n.Topic = genTopic(t, false)
		}
		return n
	}), 2, 14).Draw(t, "names")
}

// c04Seps are what a careless implementation might join names with.
var c04Seps = []string{".", "|", "_", " ", ",", "/", ":", "-", "\x00", ""}

// derived are the destinations that come from the given one by joining two
// neighbouring parts of its topic, or its method and the first part.
func (n c04Name) derived() (all []c04Name) {
	if n.Method == "" || len(n.Topic) == 0 {
		return nil
	}
	for i := range len(n.Topic) - 1 {
		for _, sep := range c04Seps {
			d := n
			d.Topic = append(append(append([]string(nil), n.Topic[:i]...), n.Topic[i]+sep+n.Topic[i+1]), n.Topic[i+2:]...)
			all = append(all, d)
		}
	}
	ident := true
	for _, r := range n.Topic[0] {
		ident = ident && (r == '_' || r < 128 && (unicode.IsLetter(r) || unicode.IsDigit(r)))
	}
	if ident {
		for _, sep := range []string{"", "_"} {
			d := n
			d.Method, d.Topic = n.Method+sep+n.Topic[0], n.Topic[1:]
			all = append(all, d)
		}
	}
	return all
}

func (n c04Name) channel(def *info.ServiceDefinition) bus.Channel {
	switch n.Kind {
	case "res":
		return info.GetResponseChannel(n.Service, n.Client)
	case "claim":
		return info.GetClaimRequestChannel(n.Service, n.Client)
	case "str":
		return info.GetStreamChannel(n.Service, n.Client)
	}
	// the caller may do what it likes with its topic afterwards
	topic := append([]string(nil), n.Topic...)
	i := def.GetInfo(n.Method, topic)
	switch n.Kind {
	case "RCLAIM":
		return i.GetClaimResponseChannel()
	case "STR":
		return i.GetStreamServerChannel()
	}
	return i.GetRPCChannel()
}

func runC04Names(e *engine.Env, names []c04Name) {
	queue := map[string]bool{}
	legacy, pair, keys := map[string]string{}, map[string]string{}, map[string]string{}
	seen := map[string]bool{}
	for _, n := range names {
		names = append(names, n.derived()...)
	}
	methods := map[string][]Method{}
	for _, n := range names {
		// a method either is a queue method or is not
		if n.Kind == "REQ" || n.Kind == "QREQ" {
			k := n.Service + "/" + n.Method
			if q, ok := queue[k]; ok && q {
				n.Kind = "QREQ"
			} else if ok {
				n.Kind = "REQ"
			}
			queue[k] = n.Kind == "QREQ"
		}
	}
	known := map[string]bool{}
	for _, n := range names {
		if k := n.Service + "/" + n.Method; n.Method != "" && !known[k] {
			known[k] = true
			methods[n.Service] = append(methods[n.Service], Method{Name: n.Method, Queue: queue[k]})
		}
	}
	defs := map[string]*info.ServiceDefinition{}
	for svc, ms := range methods {
		defs[svc] = define(svc, "", ms...)
	}
	for _, n := range names {
		if k := n.Service + "/" + n.Method; n.Kind == "REQ" || n.Kind == "QREQ" {
			n.Kind = "REQ"
			if queue[k] {
				n.Kind = "QREQ"
			}
		}
		kind := strings.TrimPrefix(n.Kind, "Q")
		id := fmt.Sprintf("%q %s %q %q %q", n.Service, kind, n.Method, n.Topic, n.Client)
		seen[id] = true
		def := defs[n.Service]
		c := n.channel(def)
		for _, s := range []string{c.Legacy, c.Server} {
			if strings.ContainsAny(s, " *>\n\x00") || !utf8.ValidString(s) {
				e.Failf("%s has the unsafe channel name %q", id, s)
			}
		}
		if o, ok := legacy[c.Legacy]; ok && o != id {
			e.Failf("%s and %s share the channel %q", o, id, c.Legacy)
		}
		legacy[c.Legacy] = id
		p := c.Server + " " + c.Local
		if o, ok := pair[p]; ok && o != id {
			e.Failf("%s and %s share the channel %q %q", o, id, c.Server, c.Local)
		}
		pair[p] = id
		if again := n.channel(def); again != c {
			e.Failf("%s has two channels: %v %v", id, c, again)
		}
		if n.Method != "" {
			k := def.GetInfo(n.Method, n.Topic).GetHandlerKey()
			mt := fmt.Sprintf("%q %q", n.Method, n.Topic)
			if o, ok := keys[k]; ok && o != mt {
				e.Failf("%s and %s share the handler key %q", o, mt, k)
			}
			keys[k] = mt
		}
	}
	if len(seen) >= 2 {
		e.NonTrivial()
	}
}

// ------------------------------------------------------- neighbours

// c04Near compares the names of topics that differ in one rune only, where
// the runes are close to each other in some way: by a bit, by their case, by
// their lower bytes.
type c04Near struct {
	Kind           string
	Before, Behind string
	Front, Rear    int // how often the part is padded in front and in the rear
	Place, Parts   int // which of how many parts differs
	Runes          []rune
	All            int // compare the runes All, All+stride, ... too
}

const c04Stride = 37

func genC04Near(t *rapid.T) c04Near {
	c := c04Near{
		Kind:   rapid.SampledFrom([]string{"REQ", "RCLAIM", "STR"}).Draw(t, "kind"),
		Before: rapid.SampledFrom([]string{"", "", "a", "u", "é", ".", "0"}).Draw(t, "before"),
		Behind: rapid.SampledFrom([]string{"", "", "0", "00", "b", "😀", "."}).Draw(t, "behind"),
		Parts:  rapid.OneOf(rapid.IntRange(1, 3), rapid.IntRange(1, 3), rapid.IntRange(1, 20)).Draw(t, "parts"),
	}
	if rapid.IntRange(0, 3).Draw(t, "long") == 3 {
		c.Front = rapid.IntRange(0, 400).Draw(t, "front")
		c.Rear = rapid.IntRange(0, 400).Draw(t, "rear")
	}
	c.Place = rapid.IntRange(0, c.Parts-1).Draw(t, "place")
	c.Runes = rapid.SliceOfN(rapid.OneOf(rapid.Rune(), rapid.Int32Range(0, 0x10ffff), rapid.Int32Range(0, 0x3ff), rapid.Int32Range(0x10000, 0x10ffff)), 1, 40).Draw(t, "runes")
	if rapid.IntRange(0, 7).Draw(t, "all") == 7 {
		c.All = rapid.IntRange(1, c04Stride).Draw(t, "offset")
	}
	return c
}

func runC04Near(e *engine.Env, c c04Near) {
	def := define("Svc", "", Method{Name: "Do"})
	if c.All > 0 {
		c.Front, c.Rear = c.Front/20, c.Rear/20 // for the time it takes
	}
	before, behind := strings.Repeat("é", c.Front)+c.Before, c.Behind+strings.Repeat("long", c.Rear)
	seen := map[rune]bool{}
	legacy, pair, keys := map[string]rune{}, map[string]rune{}, map[string]rune{}
	add := func(r rune) {
		if !utf8.ValidRune(r) || seen[r] {
			return
		}
		seen[r] = true
		topic := make([]string, c.Parts)
		for i := range topic {
			topic[i] = "x"
		}
		topic[c.Place] = before + string(r) + behind
		i := def.GetInfo("Do", topic)
		ch := i.GetRPCChannel()
		switch c.Kind {
		case "RCLAIM":
			ch = i.GetClaimResponseChannel()
		case "STR":
			ch = i.GetStreamServerChannel()
		}
		for _, x := range []struct {
			name string
			m    map[string]rune
		}{{ch.Legacy, legacy}, {ch.Server + " " + ch.Local, pair}, {i.GetHandlerKey(), keys}} {
			if o, ok := x.m[x.name]; ok {
				topic2 := append([]string(nil), topic...)
				topic2[c.Place] = before + string(o) + behind
				e.Failf("the topics %+q and %+q share the name %q", topic2, topic, x.name)
			}
			x.m[x.name] = r
		}
		if strings.ContainsAny(ch.Legacy+ch.Server, " *>\n\x00") || !utf8.ValidString(ch.Legacy+ch.Server) {
			e.Failf("the topic %+q has the unsafe channel name %q", topic, ch)
		}
	}
	// topics of different lengths
	lengths := map[string]int{}
	for n := range c.Parts + 1 {
		topic := make([]string, n)
		for i := range topic {
			topic[i] = "x" + behind
		}
		i := def.GetInfo("Do", topic)
		ch := i.GetRPCChannel()
		for _, x := range []string{"legacy " + ch.Legacy, "server " + ch.Server + " " + ch.Local, "key " + i.GetHandlerKey()} {
			if o, ok := lengths[x]; ok {
				e.Failf("topics of %d and of %d parts %q share the name %q", o, n, "x"+behind, x)
			}
			lengths[x] = n
		}
	}
	for _, r := range c.Runes {
		add(r)
		for k := range 21 {
			add(r ^ 1<<k)
			add(r & (1<<k - 1))
		}
		add(unicode.ToUpper(r))
		add(unicode.ToLower(r))
		add(unicode.ToTitle(r))
		for f := unicode.SimpleFold(r); f != r; f = unicode.SimpleFold(f) {
			add(f)
		}
	}
	if c.All > 0 {
		for r := rune(c.All - 1); r <= utf8.MaxRune; r += c04Stride {
			add(r)
		}
		e.Class("a sweep of all runes")
	}
	if len(seen) >= 2 {
		e.NonTrivial()
	}
}

// ------------------------------------------------------- behaviour

type c04Method struct{ Name, Kind string }

type c04Reg struct{ Method, Topic int }

type c04Server struct {
	Service int
	Regs    []c04Reg
}

type c04Sub struct{ Client, Method, Topic int }

type c04Op struct{ Client, Method, Topic, At int }

type c04Case struct {
	Bus      string
	Procs    bool
	Services []string
	Methods  []c04Method
	Topics   [][]string
	Clients  []struct {
		Service int
		ID      string
	}
	Servers []c04Server
	Subs    []c04Sub
	Ops     []c04Op
}

func genC04(t *rapid.T) c04Case {
	c := c04Case{Bus: genBus(t, 2), Procs: rapid.Bool().Draw(t, "procs")}
	c.Services = rapid.SliceOfNDistinct(rapid.SampledFrom(c04Services), 1, 3, func(s string) string { return s }).Draw(t, "services")
	names := rapid.SliceOfNDistinct(rapid.SampledFrom(c04Methods), 1, 4, func(s string) string { return s }).Draw(t, "methods")
	queues := 0
	for _, n := range names {
		k := rapid.SampledFrom([]string{"single", "affinity", "plain", "queue", "multi", "stream", "sub", "subq"}).Draw(t, "kind")
		if k == "queue" || k == "subq" {
			// see known-findings.txt: on NATS the queue methods of one
			// service and topic share one group
			if queues++; c.Bus == "nats" && queues > 1 {
				k = "multi"
			}
		}
		c.Methods = append(c.Methods, c04Method{n, k})
	}
	c.Topics = rapid.SliceOfNDistinct(rapid.Custom(func(t *rapid.T) []string { return genTopic(t, c.Bus == "nats") }), 1, 5, func(s []string) string { return fmt.Sprintf("%q", s) }).Draw(t, "topics")
	for _, topic := range c.Topics {
		if len(topic) > 1 && rapid.IntRange(0, 2).Draw(t, "join") == 0 {
			i := rapid.IntRange(0, len(topic)-2).Draw(t, "which")
			d := append(append([]string(nil), topic[:i]...), topic[i]+rapid.SampledFrom(c04Seps).Draw(t, "sep")+topic[i+1])
			d = append(d, topic[i+2:]...)
			if !slices.ContainsFunc(c.Topics, func(o []string) bool { return slices.Equal(o, d) }) && !(c.Bus == "nats" && d[len(d)-1] == "Q") {
				c.Topics = append(c.Topics, d)
			}
		}
	}
	for range rapid.IntRange(1, 4).Draw(t, "clients") {
		c.Clients = append(c.Clients, struct {
			Service int
			ID      string
		}{rapid.IntRange(0, len(c.Services)-1).Draw(t, "svc"), rapid.SampledFrom(c04Clients).Draw(t, "id")})
	}
	for i := range c.Clients { // ids are unique among the clients of a service
		for j := range i {
			if c.Clients[j] == c.Clients[i] {
				c.Clients[i].ID += fmt.Sprint("x", i)
			}
		}
	}
	for range rapid.IntRange(1, 4).Draw(t, "servers") {
		c.Servers = append(c.Servers, c04Server{
			Service: rapid.IntRange(0, len(c.Services)-1).Draw(t, "svc"),
			Regs: rapid.SliceOfNDistinct(rapid.Custom(func(t *rapid.T) c04Reg {
				return c04Reg{rapid.IntRange(0, len(c.Methods)-1).Draw(t, "m"), rapid.IntRange(0, len(c.Topics)-1).Draw(t, "t")}
			}), 0, 6, func(r c04Reg) string { return fmt.Sprint(r) }).Draw(t, "regs"),
		})
	}
	c.Subs = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) c04Sub {
		return c04Sub{rapid.IntRange(0, len(c.Clients)-1).Draw(t, "c"), rapid.IntRange(0, len(c.Methods)-1).Draw(t, "m"), rapid.IntRange(0, len(c.Topics)-1).Draw(t, "t")}
	}), 0, 5).Draw(t, "subs")
	c.Ops = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) c04Op {
		return c04Op{rapid.IntRange(0, len(c.Clients)-1).Draw(t, "c"), rapid.IntRange(0, len(c.Methods)-1).Draw(t, "m"), rapid.IntRange(0, len(c.Topics)-1).Draw(t, "t"),
			rapid.SampledFrom([]int{0, 0, 0, 1, 5, 40}).Draw(t, "at")}
	}), 1, 12).Draw(t, "ops")
	return c
}

func (m c04Method) def() Method {
	return Method{Name: m.Name, Affinity: m.Kind == "affinity", Multi: m.Kind == "multi",
		Claim: m.Kind == "single" || m.Kind == "affinity" || m.Kind == "stream", Queue: m.Kind == "queue" || m.Kind == "subq"}
}

func runC04(e *engine.Env, c c04Case) {
	fab := NewFabric(c.Bus)
	shared := fab.Bus()
	newBus := func() psrpc.MessageBus {
		if c.Procs && c.Bus != "local" {
			return fab.Bus()
		}
		return shared
	}
	var defs []Method
	for _, m := range c.Methods {
		defs = append(defs, m.def())
	}

	// a destination is written out in full in every message
	dest := func(svc, m, t int) string {
		return fmt.Sprintf("%q %q %q", c.Services[svc], c.Methods[m].Name, c.Topics[t])
	}
	var mu sync.Mutex
	runs := map[string][]string{} // op -> who
	note := func(op, who string) {
		mu.Lock()
		runs[op] = append(runs[op], who)
		mu.Unlock()
	}
	handlers := map[string][]string{} // destination -> who
	check := func(who, d, msg string) (op string) {
		op, msgDest, ok := strings.Cut(msg, " ")
		if !ok || msgDest != d {
			e.Failf("%s is for [%s] and got a message for [%s]", who, d, msgDest)
		}
		note(op, who)
		return op
	}

	var servers []*server.RPCServer
	pubs := map[int]*server.RPCServer{}
	for si, sc := range c.Servers {
		s := server.NewRPCServer(define(c.Services[sc.Service], "", defs...), newBus(), psrpc.WithServerID(fmt.Sprintf("srv%d", si)))
		servers = append(servers, s)
		pubs[sc.Service] = s
		for _, r := range sc.Regs {
			m, d, topic := c.Methods[r.Method], dest(sc.Service, r.Method, r.Topic), c.Topics[r.Topic]
			who := fmt.Sprintf("server %d [%s]", si, d)
			var err error
			switch m.Kind {
			case "sub", "subq":
				continue
			case "stream":
				err = server.RegisterStreamHandler(s, m.Name, topic, func(st psrpc.ServerStream[Str, Str]) error {
					for v := range st.Channel() {
						op := check(who, d, v.GetValue())
						if err := st.Send(S("answer " + op)); err != nil {
							e.Failf("%s cannot answer on the stream: %v", who, err)
						}
					}
					return nil
				}, nil)
			default:
				var aff server.AffinityFunc[Str]
				if m.Kind == "affinity" {
					aff = func(context.Context, Str) float32 { return 1 }
				}
				err = server.RegisterHandler(s, m.Name, topic, func(ctx context.Context, r Str) (Str, error) {
					return S("answer " + check(who, d, r.GetValue())), nil
				}, aff)
			}
			if err != nil {
				e.Failf("%s cannot be registered: %v", who, err)
				continue
			}
			handlers[d] = append(handlers[d], who)
		}
	}
	for i, s := range c.Services {
		if pubs[i] == nil {
			pubs[i] = server.NewRPCServer(define(s, "", defs...), newBus())
		}
	}
	var clients []*client.RPCClient
	for _, cc := range c.Clients {
		cl, err := client.NewRPCClientWithStreams(define(c.Services[cc.Service], "", defs...), newBus(), psrpc.WithClientID(cc.ID))
		must(e, err, "new client")
		clients = append(clients, cl)
	}
	var subs []bus.Subscription[Str]
	for i, sc := range c.Subs {
		m := c.Methods[sc.Method]
		svc := c.Clients[sc.Client].Service
		d := dest(svc, sc.Method, sc.Topic)
		who := fmt.Sprintf("subscriber %d [%s]", i, d)
		var sub bus.Subscription[Str]
		var err error
		switch m.Kind {
		case "sub":
			sub, err = client.Join[Str](context.Background(), clients[sc.Client], m.Name, c.Topics[sc.Topic])
		case "subq":
			sub, err = client.JoinQueue[Str](context.Background(), clients[sc.Client], m.Name, c.Topics[sc.Topic])
		default:
			continue
		}
		if err != nil {
			e.Failf("%s cannot subscribe: %v", who, err)
			continue
		}
		subs = append(subs, sub)
		handlers[d] = append(handlers[d], who)
		go func() {
			for v := range sub.Channel() {
				check(who, d, v.GetValue())
			}
		}()
	}
	time.Sleep(time.Second)

	var wg sync.WaitGroup
	results := make([]string, len(c.Ops))
	for i, op := range c.Ops {
		wg.Add(1)
		go func() {
			defer wg.Done()
			time.Sleep(msd(op.At))
			ctx := context.Background()
			m, topic, cl := c.Methods[op.Method], c.Topics[op.Topic], clients[op.Client]
			svc := c.Clients[op.Client].Service
			if m.Kind != "multi" && m.Kind != "stream" {
				// the caller may reuse its topic after the call
				topic = append([]string(nil), topic...)
				defer func() {
					for k := range topic {
						topic[k] = "reused"
					}
				}()
			}
			msg := S(fmt.Sprintf("op%d %s", i, dest(svc, op.Method, op.Topic)))
			switch m.Kind {
			case "sub", "subq":
				if err := pubs[svc].Publish(ctx, m.Name, topic, msg); err != nil {
					e.Failf("op %d: cannot publish: %v", i, err)
				}
			case "multi":
				ch, err := client.RequestMulti[Str](ctx, cl, m.Name, topic, msg)
				if err != nil {
					e.Failf("op %d: multi call failed: %v", i, err)
					return
				}
				for r := range ch {
					if r.Err != nil {
						e.Failf("op %d: result with error %v", i, r.Err)
					}
					results[i] += r.Result.GetValue() + ";"
				}
			case "stream":
				st, err := client.OpenStream[Str, Str](ctx, cl, m.Name, topic)
				if err != nil {
					results[i] = "failed"
					return
				}
				if err = st.Send(msg); err != nil {
					e.Failf("op %d: cannot send on the stream: %v", i, err)
				}
				select {
				case v := <-st.Channel():
					results[i] = v.GetValue()
				case <-time.After(5 * time.Second):
					e.Failf("op %d: no answer on the stream", i)
				}
				time.Sleep(10 * ms)
				_ = st.Close(nil)
			default:
				res, err := client.RequestSingle[Str](ctx, cl, m.Name, topic, msg)
				if err != nil {
					results[i] = "failed"
				} else {
					results[i] = res.GetValue()
				}
			}
		}()
	}
	wg.Wait()
	time.Sleep(5 * time.Second)

	mu.Lock()
	defer mu.Unlock()
	for i, op := range c.Ops {
		m := c.Methods[op.Method]
		d := dest(c.Clients[op.Client].Service, op.Method, op.Topic)
		hs, who := handlers[d], runs[fmt.Sprintf("op%d", i)]
		want := len(hs)
		if m.Kind != "multi" && m.Kind != "sub" && m.Kind != "plain" {
			want = min(1, want)
		}
		count := map[string]int{}
		for _, w := range who {
			count[w]++
		}
		if len(who) != want || len(count) != want {
			e.Failf("op %d (%s) to [%s] reached %v; registered: %v", i, m.Kind, d, who, hs)
		}
		answer := fmt.Sprintf("answer op%d", i)
		switch m.Kind {
		case "sub", "subq":
		case "multi":
			if results[i] != strings.Repeat(answer+";", want) {
				e.Failf("op %d (multi) to [%s] with %d handlers was answered by %q", i, d, want, results[i])
			}
		default:
			if want == 0 && results[i] != "failed" || want > 0 && results[i] != answer {
				e.Failf("op %d (%s) to [%s] with %d handlers was answered by %q", i, m.Kind, d, len(hs), results[i])
			}
		}
		if want > 0 {
			e.Class("kind %s", m.Kind)
			if len(handlers) > 1 {
				e.NonTrivial()
			}
		}
	}
	e.Class("bus %s", c.Bus)
	for _, s := range subs {
		_ = s.Close()
	}
	for _, cl := range clients {
		cl.Close()
	}
	for _, s := range servers {
		s.Close(true)
	}
	time.Sleep(10 * time.Second)
	fab.Close()
	time.Sleep(time.Minute)
}

func init() {
	engine.Add("C04", "names",
		"2-14 destinations (service, kind, method, topic, client) from near-colliding names and random Unicode; their channel names and handler keys are pairwise distinct and safe; non-trivial: at least two distinct destinations",
		4000, 150000, genC04Names, runC04Names)
	engine.Add("C04", "neighbours",
		"topics that differ in one of 1-40 runes, their neighbours by bits, case and lower bytes, and sometimes a 37th of all runes; their names are distinct and safe; non-trivial: at least two distinct topics",
		1200, 30000, genC04Near, runC04Near)
	engine.Add("C04", "traffic",
		"1-3 services, 1-4 methods of all kinds, 1-5 near-colliding topics, 1-4 servers and clients, subscribers, 1-12 concurrent operations; every message names its destination and its receivers are compared with the registrations; non-trivial: an operation with a receiver while another destination has handlers",
		1200, 25000, genC04, runC04)
}
