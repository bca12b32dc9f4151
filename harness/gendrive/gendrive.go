// Package gendrive drives generated clients and servers of any services against
// each other. The code that names the generated types is written for each case
// (see checks/c20_run.go); all decisions are made here.
package gendrive

import (
	"context"
	"errors"
	"fmt"
	"os"
	"reflect"
	"slices"
	"sort"
	"strings"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protoreflect"

	"github.com/livekit/psrpc"
	"github.com/livekit/psrpc/internal"
	"github.com/livekit/psrpc/internal/bus"
	"github.com/livekit/psrpc/pkg/info"
)

// Method is what a method of the proto file declares.
type Method struct {
	Name   string // Go name
	Kind   string // unary, stream, sub
	Type   string // QUEUE, AFFINITY, MULTI
	Topics int    // number of topic parameters
	Single bool
	Group  string // Go name
	Has    bool   // has topics
}

// Service is a generated service.
type Service struct {
	Name    string
	Client  func(bus psrpc.MessageBus, opts ...psrpc.ClientOption) (any, error)
	Server  func(r *Impl, bus psrpc.MessageBus, opts ...psrpc.ServerOption) (any, error)
	Methods []Method
}

// ---------------------------------------------------------------- handlers

type world struct {
	mu     sync.Mutex
	log    []string // "svc.server.method:tag"
	claims int
	fails  []string
	gate   chan struct{} // holds the handlers of requests tagged "block"
	reqs   []bus.Channel // requests sent since the last call of takeReqs
	subs   map[bus.Channel]uses
	aff    map[string]float32 // by server
}

func (w *world) failf(format string, args ...any) {
	w.mu.Lock()
	w.fails = append(w.fails, fmt.Sprintf(format, args...))
	w.mu.Unlock()
}

func (w *world) add(s string) {
	w.mu.Lock()
	w.log = append(w.log, s)
	w.mu.Unlock()
}

// take returns what has been logged since the last call, sorted.
func (w *world) take() []string {
	synctest.Wait()
	w.mu.Lock()
	defer w.mu.Unlock()
	l := w.log
	w.log = nil
	sort.Strings(l)
	return l
}

func (w *world) takeClaims() int {
	w.mu.Lock()
	defer w.mu.Unlock()
	n := w.claims
	w.claims = 0
	return n
}

// uses says how a channel has been subscribed to.
type uses struct{ plain, queue int }

func (w *world) takeReqs() []bus.Channel {
	w.mu.Lock()
	defer w.mu.Unlock()
	l := w.reqs
	w.reqs = nil
	return l
}

// Impl records what one server's handlers see.
type Impl struct {
	w           *world
	svc, server string
}

func (r *Impl) id(method string) string { return r.svc + "." + r.server + "." + method }

// Tag marks a message, if it has a text field.
func Tag(m proto.Message, tag string) bool {
	f := textField(m)
	if f == nil {
		return false
	}
	m.ProtoReflect().Set(f, protoreflect.ValueOfString(tag))
	return true
}

func TagOf(m proto.Message) string {
	if m == nil || !m.ProtoReflect().IsValid() {
		return "<nil>"
	}
	if f := textField(m); f != nil {
		return m.ProtoReflect().Get(f).String()
	}
	return ""
}

func textField(m proto.Message) protoreflect.FieldDescriptor {
	fs := m.ProtoReflect().Descriptor().Fields()
	for i := range fs.Len() {
		if f := fs.Get(i); f.Kind() == protoreflect.StringKind && !f.IsList() {
			return f
		}
	}
	return nil
}

// Unary is a handler's body.
func (r *Impl) Unary(method string, in, out proto.Message) error {
	r.w.add(r.id(method) + ":" + TagOf(in))
	if TagOf(in) == "block" {
		<-r.w.gate
	}
	Tag(out, r.id(method)+"<"+TagOf(in)+">")
	if TagOf(in) == "fail" {
		return psrpc.NewErrorf(psrpc.NotFound, "%s", r.id(method))
	}
	return nil
}

// Affinity is an affinity function's body; in is nil for streams.
func (r *Impl) Affinity(method string, in proto.Message) float32 {
	t := ""
	if in != nil {
		t = TagOf(in)
	}
	r.w.add(r.id(method) + "Affinity:" + t)
	return r.w.aff[r.server]
}

// Stream is a stream handler's body.
func Stream[Out, In proto.Message](r *Impl, method string, s psrpc.ServerStream[Out, In], newOut func() Out) error {
	r.w.add(r.id(method) + ":open")
	for m := range s.Channel() {
		out := newOut()
		r.w.add(r.id(method) + ":" + TagOf(m))
		Tag(out, r.id(method)+"<"+TagOf(m)+">")
		if err := s.Send(out); err != nil {
			r.w.add(r.id(method) + ":send " + err.Error())
		}
	}
	r.w.add(r.id(method) + ":end")
	return nil
}

// ---------------------------------------------------------------- driver

type tap struct {
	psrpc.MessageBus
	w *world
}

func (t *tap) Publish(ctx context.Context, ch bus.Channel, m proto.Message) error {
	t.w.mu.Lock()
	switch x := m.(type) {
	case *internal.ClaimRequest:
		t.w.claims++
	case *internal.ClaimResponse, *internal.Response:
	case *internal.Stream:
		if _, ok := x.Body.(*internal.Stream_Open); ok {
			t.w.reqs = append(t.w.reqs, ch)
		}
	default:
		t.w.reqs = append(t.w.reqs, ch)
	}
	t.w.mu.Unlock()
	return t.MessageBus.Publish(ctx, ch, m)
}

func (t *tap) Subscribe(ctx context.Context, ch bus.Channel, size int) (bus.Reader, error) {
	t.w.mu.Lock()
	u := t.w.subs[ch]
	u.plain++
	t.w.subs[ch] = u
	t.w.mu.Unlock()
	return t.MessageBus.Subscribe(ctx, ch, size)
}

func (t *tap) SubscribeQueue(ctx context.Context, ch bus.Channel, size int) (bus.Reader, error) {
	t.w.mu.Lock()
	u := t.w.subs[ch]
	u.queue++
	t.w.subs[ch] = u
	t.w.mu.Unlock()
	return t.MessageBus.SubscribeQueue(ctx, ch, size)
}

// channels checks where requests of a method went: to the channel of the service,
// the method and the topics in their order, and one that its other side
// subscribed to as the method says.
func (s *svcWorld) channels(w *world, where string, m *Method, ts []string, reqs []bus.Channel) {
	i := info.RequestInfo{RPCInfo: psrpc.RPCInfo{Service: s.Name, Method: m.Name, Topic: ts}, Queue: m.Type == "QUEUE"}
	want := i.GetRPCChannel()
	if m.Kind == "stream" {
		want = i.GetStreamServerChannel()
	}
	if len(reqs) == 0 {
		w.failf("%s: no request was sent", where)
	}
	w.mu.Lock()
	u := w.subs[want]
	w.mu.Unlock()
	for _, ch := range reqs {
		if ch != want {
			w.failf("%s: a request went to %q, want %q", where, ch, want)
		}
	}
	queue := i.Queue && m.Kind != "stream"
	// (an affinity means nothing to a subscription)
	if odd := m.Kind == "sub" && m.Type == "AFFINITY"; !odd && (queue != (u.queue > 0) || queue == (u.plain > 0)) {
		w.failf("%s: %q has been subscribed to %d times as a queue and %d times otherwise", where, want, u.queue, u.plain)
	}
}

type obj struct{ v reflect.Value }

func (o obj) call(name string, args ...any) []reflect.Value {
	m := o.v.MethodByName(name)
	if !m.IsValid() {
		panic("no method " + name)
	}
	in := make([]reflect.Value, 0, len(args))
	for i, a := range args {
		v := reflect.ValueOf(a)
		if v.Kind() == reflect.String {
			v = v.Convert(m.Type().In(i))
		}
		in = append(in, v)
	}
	return m.Call(in)
}

// err calls a method whose last result is an error and returns it.
func asErr(v reflect.Value) error {
	if v.IsNil() {
		return nil
	}
	return v.Interface().(error)
}

type svcWorld struct {
	*Service
	a, b   obj
	c1, c2 obj
	// groups in order, with members
	groups  []string
	members map[string][]*Method
	// servers of topic 1, by method
	t1b map[string]bool
}

func topics(n int, which string) []string {
	var out []string
	for i := range n {
		out = append(out, fmt.Sprintf("%s %c/%d", which, 'a'+i, i))
	}
	return out
}

func reversed(s []string) []string {
	var out []string
	for i := len(s) - 1; i >= 0; i-- {
		out = append(out, s[i])
	}
	return out
}

func anys(pre []any, ts []string, post ...any) []any {
	out := append([]any{}, pre...)
	for _, t := range ts {
		out = append(out, t)
	}
	return append(out, post...)
}

// newIn makes the request message of a unary client method, or of a stream.
func newMsg(t reflect.Type) proto.Message {
	return reflect.New(t.Elem()).Interface().(proto.Message)
}

func code(err error) psrpc.ErrorCode {
	if err == nil {
		return psrpc.OK
	}
	var e psrpc.Error
	if errors.As(err, &e) {
		return e.Code()
	}
	return psrpc.ErrorCode("plain: " + err.Error())
}

type result struct {
	tag string
	err error
}

// unary calls a unary method and returns all of its responses.
func (s *svcWorld) unary(w *world, c obj, m *Method, ts []string, tag string) []result {
	ctx, cancel := context.WithTimeout(context.Background(), 2*time.Second)
	defer cancel()
	f := c.v.MethodByName(m.Name)
	req := newMsg(f.Type().In(1 + m.Topics))
	Tag(req, tag)
	out := c.call(m.Name, anys([]any{ctx}, ts, req)...)
	if err := asErr(out[1]); err != nil {
		return []result{{err: err}}
	}
	if m.Type != "MULTI" {
		return []result{{tag: TagOf(out[0].Interface().(proto.Message))}}
	}
	var rs []result
	for {
		v, ok := out[0].Recv()
		if !ok {
			break
		}
		r := result{err: nil}
		if e := v.Elem().FieldByName("Err"); !e.IsNil() {
			r.err = e.Interface().(error)
		} else {
			r.tag = TagOf(v.Elem().FieldByName("Result").Interface().(proto.Message))
		}
		rs = append(rs, r)
	}
	sort.Slice(rs, func(i, j int) bool { return rs[i].tag < rs[j].tag })
	return rs
}

// canTag says what tag a request and a response of a method can carry.
func (s *svcWorld) msgs(m *Method) (in, out bool) {
	f := s.c1.v.MethodByName(m.Name)
	switch m.Kind {
	case "unary":
		in = textField(newMsg(f.Type().In(1+m.Topics))) != nil
		rt := f.Type().Out(0)
		if m.Type == "MULTI" {
			fl, _ := rt.Elem().Elem().FieldByName("Result")
			rt = fl.Type
		}
		out = textField(newMsg(rt)) != nil
	case "stream":
		st := f.Type().Out(0)
		send, _ := st.MethodByName("Send")
		ch, _ := st.MethodByName("Channel")
		in = textField(newMsg(send.Type.In(0))) != nil
		out = textField(newMsg(ch.Type.Out(0).Elem())) != nil
	}
	return in, out
}

// expectUnary makes one call and checks who handled it. servers is who may:
// exactly one of them for a single call (best, if the affinity decides), all for
// a multi call.
func (s *svcWorld) expectUnary(w *world, what string, c obj, m *Method, ts []string, servers []string) {
	w.take()
	w.takeClaims()
	w.takeReqs()
	tag := "q" + what
	rs := s.unary(w, c, m, ts, tag)
	log := w.take()
	claims := w.takeClaims()
	where := fmt.Sprintf("%s.%s (%s, topics %q, single %v) %s", s.Name, m.Name, m.Type, ts, m.Single, what)
	if len(servers) > 0 {
		s.channels(w, where, m, ts, w.takeReqs())
	}
	canIn, canOut := s.msgs(m)
	if !canIn {
		tag = ""
	}
	reply := func(server string) string {
		if !canOut {
			return ""
		}
		return s.Name + "." + server + "." + m.Name + "<" + tag + ">"
	}
	entry := func(server string) string { return s.Name + "." + server + "." + m.Name + ":" + tag }
	var handled, affs, other []string
	for _, l := range log {
		switch {
		case strings.HasPrefix(l, s.Name+".") && strings.Contains(l, "."+m.Name+":"):
			handled = append(handled, l)
		case strings.HasPrefix(l, s.Name+".") && strings.Contains(l, "."+m.Name+"Affinity:"):
			affs = append(affs, l)
		default:
			other = append(other, l)
		}
	}
	if len(other) > 0 {
		w.failf("%s: other handlers ran: %v", where, other)
	}
	if m.Type == "MULTI" {
		var wl, wt []string
		for _, sv := range servers {
			wl = append(wl, entry(sv))
			wt = append(wt, reply(sv))
		}
		sort.Strings(wl)
		sort.Strings(wt)
		var got []string
		for _, r := range rs {
			if r.err != nil {
				w.failf("%s: a response is %v", where, r.err)
			}
			got = append(got, r.tag)
		}
		if fmt.Sprint(handled) != fmt.Sprint(wl) || fmt.Sprint(got) != fmt.Sprint(wt) {
			w.failf("%s: handled by %v, want %v; responses %q, want %q", where, handled, wl, got, wt)
		}
		if claims > 0 {
			w.failf("%s: %d claims for a multi call", where, claims)
		}
		return
	}
	r := rs[0]
	if len(servers) == 0 {
		if len(handled) > 0 || (code(r.err) != psrpc.Unavailable && code(r.err) != psrpc.DeadlineExceeded) {
			w.failf("%s: nobody serves it, but %v handled it and the result is %q, %v", where, handled, r.tag, r.err)
		}
		return
	}
	if r.err != nil {
		w.failf("%s: failed with %v, served by %v, handled by %v", where, r.err, servers, handled)
		return
	}
	if len(handled) != 1 {
		w.failf("%s: handled by %v, want exactly one of %v", where, handled, servers)
		return
	}
	ok := false
	for _, sv := range servers {
		if handled[0] == entry(sv) {
			ok = true
			if r.tag != reply(sv) {
				w.failf("%s: %s answered %q, want %q", where, sv, r.tag, reply(sv))
			}
		}
	}
	if !ok {
		w.failf("%s: handled by %v, want one of %v with the request", where, handled, servers)
	}
	wantClaim := !m.Single
	if wantClaim != (claims > 0) {
		w.failf("%s: %d claims, want claims: %v", where, claims, wantClaim)
	}
	if m.Type == "AFFINITY" && wantClaim {
		best := ""
		var want []string
		for _, sv := range servers {
			want = append(want, s.Name+"."+sv+"."+m.Name+"Affinity:"+tag)
			if best == "" || w.aff[sv] > w.aff[best] {
				best = sv
			}
		}
		sort.Strings(want)
		if handled[0] != entry(best) {
			w.failf("%s: handled by %v, but %s has the best affinity of %v", where, handled, best, w.aff)
		}
		if fmt.Sprint(affs) != fmt.Sprint(want) {
			w.failf("%s: affinity functions called: %v, want %v", where, affs, want)
		}
	} else if m.Type != "AFFINITY" && len(affs) > 0 {
		w.failf("%s: affinity functions called: %v", where, affs)
	}
}

// expectStream opens a stream, exchanges messages and closes it.
func (s *svcWorld) expectStream(w *world, what string, c obj, m *Method, ts []string, servers []string) {
	if m.Type == "MULTI" && len(servers) > 1 {
		return // not defined who answers
	}
	w.take()
	w.takeClaims()
	w.takeReqs()
	where := fmt.Sprintf("%s.%s (stream, %s, topics %q) %s", s.Name, m.Name, m.Type, ts, what)
	ctx, cancel := context.WithTimeout(context.Background(), 2*time.Second)
	defer cancel()
	out := c.call(m.Name, anys([]any{ctx}, ts)...)
	err := asErr(out[1])
	claims := w.takeClaims()
	if len(servers) > 0 {
		s.channels(w, where, m, ts, w.takeReqs())
	}
	if len(servers) == 0 {
		if log := w.take(); code(err) != psrpc.Unavailable && code(err) != psrpc.DeadlineExceeded || len(log) > 0 {
			w.failf("%s: nobody serves it, but the result is %v, and the log %v", where, err, log)
		}
		return
	}
	if err != nil {
		w.failf("%s: failed with %v, served by %v, log %v", where, err, servers, w.take())
		return
	}
	canIn, canOut := s.msgs(m)
	st := obj{out[0]}
	if out[0].Kind() == reflect.Interface {
		st = obj{out[0].Elem()}
	}
	send := st.v.MethodByName("Send")
	var replies []string
	for i := range 2 {
		req := newMsg(send.Type().In(0))
		Tag(req, fmt.Sprint("s", i))
		if err := asErr(st.call("Send", req)[0]); err != nil {
			w.failf("%s: send failed: %v", where, err)
		}
		v, ok := st.call("Channel")[0].Recv()
		if !ok {
			w.failf("%s: the stream ended early: %v", where, asErr(st.call("Err")[0]))
			break
		}
		replies = append(replies, TagOf(v.Interface().(proto.Message)))
	}
	synctest.Wait() // the replies have been acknowledged
	if err := asErr(st.v.MethodByName("Close").Call([]reflect.Value{reflect.Zero(reflect.TypeFor[error]())})[0]); err != nil {
		w.failf("%s: close failed: %v", where, err)
	}
	log := w.take()
	best := ""
	for _, sv := range servers {
		if m.Type == "AFFINITY" && !m.Single {
			if best == "" || w.aff[sv] > w.aff[best] {
				best = sv
			}
			continue
		}
		for _, l := range log {
			if strings.HasPrefix(l, s.Name+"."+sv+"."+m.Name+":open") {
				best = sv
			}
		}
	}
	id := s.Name + "." + best + "." + m.Name
	in := func(i int) string {
		if canIn {
			return fmt.Sprint("s", i)
		}
		return ""
	}
	want := []string{id + ":open", id + ":" + in(0), id + ":" + in(1), id + ":end"}
	if m.Type == "AFFINITY" && !m.Single {
		for _, sv := range servers {
			want = append(want, s.Name+"."+sv+"."+m.Name+"Affinity:")
		}
	}
	sort.Strings(want)
	wantR := []string{"", ""}
	if canOut {
		wantR = []string{id + "<" + in(0) + ">", id + "<" + in(1) + ">"}
	}
	if fmt.Sprint(log) != fmt.Sprint(want) || fmt.Sprint(replies) != fmt.Sprint(wantR) {
		w.failf("%s: log %v, want %v; replies %v, want %v", where, log, want, replies, wantR)
	}
	if wantClaim := m.Type != "MULTI" && !m.Single; wantClaim != (claims > 0) {
		w.failf("%s: %d claims, want claims: %v", where, claims, wantClaim)
	}
}

func (s *svcWorld) expect(w *world, what string, c obj, m *Method, ts []string, servers ...string) {
	switch m.Kind {
	case "unary":
		s.expectUnary(w, what, c, m, ts, servers)
	case "stream":
		s.expectStream(w, what, c, m, ts, servers)
	}
}

// subs checks a subscription method.
func (s *svcWorld) subs(w *world, m *Method) {
	ctx := context.Background()
	where := fmt.Sprintf("%s.%s (subscription, %s, %d topics)", s.Name, m.Name, m.Type, m.Topics)
	t1, t2 := topics(m.Topics, "T1"), topics(m.Topics, "T2")
	join := func(c obj, ts []string) obj {
		out := c.call("Subscribe"+m.Name, anys([]any{ctx}, ts)...)
		if err := asErr(out[1]); err != nil {
			w.failf("%s: subscribe: %v", where, err)
		}
		return obj{out[0]}
	}
	read := func(o obj) (got []string) {
		synctest.Wait()
		ch := o.call("Channel")[0]
		for {
			v, ok := ch.TryRecv()
			if !ok {
				return got
			}
			got = append(got, TagOf(v.Interface().(proto.Message)))
			synctest.Wait()
		}
	}
	s1, s2 := join(s.c1, t1), join(s.c2, t1)
	var s3 obj
	if m.Has {
		s3 = join(s.c2, t2)
	}
	synctest.Wait()
	publish := func(sv obj, ts []string, tag string) string {
		f := sv.v.MethodByName("Publish" + m.Name)
		msg := newMsg(f.Type().In(1 + m.Topics))
		if !Tag(msg, tag) {
			tag = ""
		}
		if err := asErr(sv.call("Publish"+m.Name, anys([]any{ctx}, ts, msg)...)[0]); err != nil {
			w.failf("%s: publish: %v", where, err)
		}
		return tag
	}
	w.takeReqs()
	p1 := publish(s.a, t1, "p1")
	s.channels(w, where, m, t1, w.takeReqs())
	p2 := publish(s.b, t1, "p2")
	if m.Topics > 1 {
		publish(s.a, reversed(t1), "wrong order")
	}
	g1, g2 := read(s1), read(s2)
	all := fmt.Sprint([]string{p1, p2})
	if m.Type == "MULTI" {
		if fmt.Sprint(g1) != all || fmt.Sprint(g2) != all {
			w.failf("%s: subscribers received %q and %q, want %s each", where, g1, g2, all)
		}
	} else {
		both := append(append([]string{}, g1...), g2...)
		sort.Strings(both)
		if fmt.Sprint(both) != all {
			w.failf("%s: queue subscribers received %q and %q, want %s shared", where, g1, g2, all)
		}
	}
	if m.Has {
		p3 := publish(s.b, t2, "p3")
		if g1, g2, g3 := read(s1), read(s2), read(s3); len(g1)+len(g2) > 0 || fmt.Sprint(g3) != fmt.Sprint([]string{p3}) {
			w.failf("%s: another topic's message went to %q, %q, %q", where, g1, g2, g3)
		}
		s3.call("Close")
	}
	s1.call("Close")
	s2.call("Close")
	synctest.Wait()
}

func (s *svcWorld) register(w *world, sv obj, grouped bool, m *Method, ts []string, done map[string]bool) {
	name := "Register" + m.Name + "Topic"
	if grouped && m.Group != "" {
		if done[m.Group] {
			return
		}
		done[m.Group] = true
		name = "RegisterAll" + m.Group + "Topics"
	}
	if err := asErr(sv.call(name, anys(nil, ts)...)[0]); err != nil {
		w.failf("%s.%s(%q): %v", s.Name, name, ts, err)
	}
}

func (s *svcWorld) deregister(sv obj, grouped bool, m *Method, ts []string) {
	name := "Deregister" + m.Name + "Topic"
	if grouped && m.Group != "" {
		name = "DeregisterAll" + m.Group + "Topics"
	}
	sv.call(name, anys(nil, ts)...)
}

// Main drives the services; it exits with 1 and what failed.
func Main(t *testing.T, services []*Service, grouped bool) {
	w := &world{subs: map[bus.Channel]uses{}, aff: map[string]float32{"A": 0.3, "B": 0.7}}
	synctest.Test(t, func(t *testing.T) { drive(w, services, grouped) })
	if len(w.fails) > 0 {
		fmt.Println("GENDRIVE-FAIL")
		for _, f := range w.fails {
			fmt.Println(f)
		}
		os.Exit(1)
	}
	fmt.Println("GENDRIVE-OK")
}

// closing closes a server while it handles a request, where it can be told to.
// A shutdown waits for the handler, and a kill does not.
func (s *svcWorld) closing(w *world, sv obj, how, server string) {
	var m *Method
	for i := range s.Methods {
		if x := &s.Methods[i]; x.Kind == "unary" && x.Has {
			if in, _ := s.msgs(x); in {
				m = x
			}
		}
	}
	if m == nil {
		sv.call(how)
		return
	}
	ts := topics(m.Topics, "T5")
	if err := asErr(sv.call("Register"+m.Name+"Topic", anys(nil, ts)...)[0]); err != nil {
		w.failf("%s: registering %s: %v", s.Name, m.Name, err)
	}
	synctest.Wait()
	w.take()
	called, closed := make(chan struct{}), make(chan struct{})
	go func() {
		s.unary(w, s.c1, m, ts, "block")
		close(called)
	}()
	time.Sleep(time.Second)
	if log := w.take(); !slices.Contains(log, s.Name+"."+server+"."+m.Name+":block") {
		w.failf("%s.%s: a request to %q was not handled before the %s: %v", s.Name, m.Name, ts, how, log)
	}
	go func() {
		sv.call(how)
		close(closed)
	}()
	time.Sleep(100 * time.Millisecond)
	done := false
	select {
	case <-closed:
		done = true
	default:
	}
	if done != (how == "Kill") {
		w.failf("%s: a %s with a request of %s being handled has returned: %v", s.Name, how, m.Name, done)
	}
	w.gate <- struct{}{}
	<-closed
	<-called
	w.take()
}

func drive(w *world, services []*Service, grouped bool) {
	w.gate = make(chan struct{}) // in the bubble
	b := &tap{psrpc.NewLocalMessageBus(), w}
	var ss []*svcWorld
	for _, sv := range services {
		s := &svcWorld{Service: sv, members: map[string][]*Method{}, t1b: map[string]bool{}}
		mk := func(n string) obj {
			o, err := sv.Server(&Impl{w, sv.Name, n}, b)
			if err != nil {
				w.failf("%s: no server: %v", sv.Name, err)
				return obj{}
			}
			return obj{reflect.ValueOf(o)}
		}
		cl := func() obj {
			o, err := sv.Client(b)
			if err != nil {
				w.failf("%s: no client: %v", sv.Name, err)
				return obj{}
			}
			return obj{reflect.ValueOf(o)}
		}
		s.a, s.b, s.c1, s.c2 = mk("A"), mk("B"), cl(), cl()
		ss = append(ss, s)
	}
	if len(w.fails) > 0 {
		return
	}
	synctest.Wait()
	each := func(f func(s *svcWorld, m *Method)) {
		for _, s := range ss {
			for i := range s.Methods {
				f(s, &s.Methods[i])
			}
		}
	}
	for _, s := range ss {
		single := map[string]bool{}
		for i := range s.Methods {
			m := &s.Methods[i]
			if m.Kind == "sub" || !m.Has || m.Group == "" {
				continue
			}
			if s.members[m.Group] == nil {
				s.groups = append(s.groups, m.Group)
			}
			s.members[m.Group] = append(s.members[m.Group], m)
			single[m.Group] = single[m.Group] || m.Single
		}
		for i := range s.Methods {
			m := &s.Methods[i]
			// a topic with a single server has one
			s.t1b[m.Name] = !m.Single && !(grouped && m.Group != "" && single[m.Group])
		}
	}

	// before any topic is registered only methods without topics are served
	each(func(s *svcWorld, m *Method) {
		if m.Kind == "sub" || m.Type == "MULTI" && m.Kind == "stream" {
			return
		}
		if m.Has {
			s.expect(w, "before registration", s.c1, m, topics(m.Topics, "T1"))
		} else {
			s.expect(w, "without topics", s.c1, m, nil, "A", "B")
		}
	})
	for _, s := range ss {
		done := []map[string]bool{{}, {}, {}}
		for i := range s.Methods {
			m := &s.Methods[i]
			if m.Kind == "sub" || !m.Has {
				continue
			}
			s.register(w, s.a, grouped, m, topics(m.Topics, "T1"), done[0])
			if s.t1b[m.Name] {
				s.register(w, s.b, grouped, m, topics(m.Topics, "T1"), done[1])
			}
			s.register(w, s.b, grouped, m, topics(m.Topics, "T2"), done[2])
		}
	}
	synctest.Wait()
	each(func(s *svcWorld, m *Method) {
		if m.Kind == "sub" {
			s.subs(w, m)
			return
		}
		if !m.Has {
			s.expect(w, "2nd client", s.c2, m, nil, "A", "B")
			return
		}
		on1 := []string{"A"}
		if s.t1b[m.Name] {
			on1 = append(on1, "B")
		}
		t1 := topics(m.Topics, "T1")
		s.expect(w, "T1", s.c1, m, t1, on1...)
		s.expect(w, "T2", s.c2, m, topics(m.Topics, "T2"), "B")
		if m.Topics > 1 && !(m.Type == "MULTI" && m.Kind == "stream") {
			s.expect(w, "wrong order", s.c1, m, reversed(t1))
		}
	})
	// the affinity decides, not the order
	w.aff = map[string]float32{"A": 0.9, "B": 0.2}
	each(func(s *svcWorld, m *Method) {
		if m.Type == "AFFINITY" && m.Kind != "sub" {
			if m.Has {
				if s.t1b[m.Name] {
					s.expect(w, "A best", s.c2, m, topics(m.Topics, "T1"), "A", "B")
				}
			} else {
				s.expect(w, "A best", s.c2, m, nil, "A", "B")
			}
		}
	})
	// errors arrive
	each(func(s *svcWorld, m *Method) {
		if in, _ := s.msgs(m); m.Kind == "unary" && in {
			ts, id := topics(m.Topics, "T2"), s.Name+".B."+m.Name
			for _, r := range s.unary(w, s.c1, m, ts, "fail") {
				if code(r.err) != psrpc.NotFound || m.Has && !strings.Contains(fmt.Sprint(r.err), id) {
					w.failf("%s.%s: the handler's error arrives as %v (%s)", s.Name, m.Name, r.err, code(r.err))
				}
			}
		}
	})
	w.take()
	// a group is registered as a whole or not at all
	for _, s := range ss {
		for _, g := range s.groups {
			ms := s.members[g]
			ts := topics(ms[0].Topics, "T4")
			last := ms[len(ms)-1]
			if err := asErr(s.a.call("Register"+last.Name+"Topic", anys(nil, ts)...)[0]); err != nil {
				w.failf("%s: registering %s: %v", s.Name, last.Name, err)
			}
			if err := asErr(s.a.call("RegisterAll"+g+"Topics", anys(nil, ts)...)[0]); err == nil {
				w.failf("%s: group %s was registered twice for %s", s.Name, g, last.Name)
			}
			synctest.Wait()
			for _, m := range ms {
				if m.Type == "MULTI" && m.Kind == "stream" {
					continue
				}
				if m == last {
					s.expect(w, "kept", s.c1, m, ts, "A")
				} else {
					s.expect(w, "rolled back", s.c1, m, ts)
				}
			}
			s.a.call("Deregister"+last.Name+"Topic", anys(nil, ts)...)
			if err := asErr(s.a.call("RegisterAll"+g+"Topics", anys(nil, ts)...)[0]); err != nil {
				w.failf("%s: group %s cannot be registered after a failure: %v", s.Name, g, err)
			}
			synctest.Wait()
			for _, m := range ms {
				s.expect(w, "whole group", s.c1, m, ts, "A")
			}
			s.a.call("DeregisterAll"+g+"Topics", anys(nil, ts)...)
		}
	}
	// deregistration takes effect, on that topic only
	for _, s := range ss {
		for i := range s.Methods {
			m := &s.Methods[i]
			if m.Kind != "sub" && m.Has {
				s.deregister(s.a, grouped, m, topics(m.Topics, "T1"))
			}
		}
	}
	synctest.Wait()
	each(func(s *svcWorld, m *Method) {
		if m.Kind == "sub" || !m.Has || m.Type == "MULTI" && m.Kind == "stream" {
			return
		}
		if s.t1b[m.Name] {
			s.expect(w, "A deregistered", s.c1, m, topics(m.Topics, "T1"), "B")
		} else {
			s.expect(w, "A deregistered", s.c1, m, topics(m.Topics, "T1"))
		}
		s.expect(w, "T2 still", s.c1, m, topics(m.Topics, "T2"), "B")
	})
	// closing
	for _, s := range ss {
		s.c2.call("Close")
		s.closing(w, s.a, "Shutdown", "A")
	}
	synctest.Wait()
	each(func(s *svcWorld, m *Method) {
		if m.Kind == "sub" {
			return
		}
		if m.Kind == "unary" {
			if rs := s.unary(w, s.c2, m, topics(m.Topics, "T2"), "late"); len(rs) != 1 || !errors.Is(rs[0].err, psrpc.ErrClientClosed) {
				w.failf("%s.%s on a closed client: %v", s.Name, m.Name, rs)
			}
		}
		if m.Type == "MULTI" && m.Kind == "stream" {
			return
		}
		s.expect(w, "A shut down", s.c1, m, topics(m.Topics, "T2"), "B")
	})
	for _, s := range ss {
		s.closing(w, s.b, "Kill", "B")
	}
	synctest.Wait()
	each(func(s *svcWorld, m *Method) {
		if m.Kind != "sub" && !(m.Type == "MULTI" && m.Kind == "stream") {
			s.expect(w, "all gone", s.c1, m, topics(m.Topics, "T2"))
		}
		s.c1.v.IsValid()
	})
	for _, s := range ss {
		s.c1.call("Close")
	}
	// whoever waits for a claim gives up when its request expires
	time.Sleep(time.Minute)
	synctest.Wait()
}
