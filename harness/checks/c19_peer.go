package checks

import (
	"bytes"
	"context"
	"fmt"
	"math"
	"reflect"
	"sort"
	"strings"
	"sync"
	"time"

	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protodesc"
	"google.golang.org/protobuf/reflect/protoreflect"
	"google.golang.org/protobuf/reflect/protoregistry"
	"google.golang.org/protobuf/types/descriptorpb"
	"google.golang.org/protobuf/types/dynamicpb"
	"google.golang.org/protobuf/types/known/anypb"
	"google.golang.org/protobuf/types/known/durationpb"
	"pgregory.net/rapid"

	"github.com/livekit/psrpc"
	"github.com/livekit/psrpc/internal/bus"
	"github.com/livekit/psrpc/pkg/client"
	"github.com/livekit/psrpc/pkg/info"
	"github.com/livekit/psrpc/pkg/metadata"
	"github.com/livekit/psrpc/pkg/server"
	"github.com/livekit/psrpc/verif/engine"
)

// ---------------------------------------------------------------- the published format, by hand

// c19Format is what each message looks like on the wire: number, name, type.
var c19Format = map[string]string{
	"Request":       "1 request_id s, 2 client_id s, 3 sent_at i, 4 expiry i, 5 multi b, 6 request a, 7 metadata m, 8 raw_request y",
	"Response":      "1 request_id s, 2 server_id s, 3 sent_at i, 4 response a, 5 error s, 6 code s, 7 raw_response y, 8 error_details A",
	"ClaimRequest":  "1 request_id s, 2 server_id s, 3 affinity f",
	"ClaimResponse": "1 request_id s, 2 server_id s",
	"Stream":        "1 stream_id s, 2 request_id s, 3 sent_at i, 4 expiry i, 6 open StreamOpen, 7 message StreamMessage, 8 ack StreamAck, 9 close StreamClose",
	"StreamOpen":    "1 node_id s, 7 metadata m",
	"StreamMessage": "1 message a, 2 raw_message y",
	"StreamAck":     "",
	"StreamClose":   "1 error s, 2 code s",
}

var c19Files = sync.OnceValue(func() protoreflect.FileDescriptor {
	fdp := &descriptorpb.FileDescriptorProto{Name: proto.String("published.proto"), Package: proto.String("internal"),
		Syntax: proto.String("proto3"), Dependency: []string{"google/protobuf/any.proto"}}
	var names []string
	for n := range c19Format {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		d := &descriptorpb.DescriptorProto{Name: proto.String(n)}
		for _, f := range strings.Split(c19Format[n], ", ") {
			if f == "" {
				continue
			}
			var num int32
			var name, kind string
			must1(fmt.Sscan(f, &num, &name, &kind))
			x := &descriptorpb.FieldDescriptorProto{Name: &name, Number: &num, Label: descriptorpb.FieldDescriptorProto_LABEL_OPTIONAL.Enum()}
			switch kind {
			case "s":
				x.Type = descriptorpb.FieldDescriptorProto_TYPE_STRING.Enum()
			case "i":
				x.Type = descriptorpb.FieldDescriptorProto_TYPE_INT64.Enum()
			case "b":
				x.Type = descriptorpb.FieldDescriptorProto_TYPE_BOOL.Enum()
			case "f":
				x.Type = descriptorpb.FieldDescriptorProto_TYPE_FLOAT.Enum()
			case "y":
				x.Type = descriptorpb.FieldDescriptorProto_TYPE_BYTES.Enum()
			case "a", "A":
				x.Type = descriptorpb.FieldDescriptorProto_TYPE_MESSAGE.Enum()
				x.TypeName = proto.String(".google.protobuf.Any")
				if kind == "A" {
					x.Label = descriptorpb.FieldDescriptorProto_LABEL_REPEATED.Enum()
				}
			case "m":
				x.Type = descriptorpb.FieldDescriptorProto_TYPE_MESSAGE.Enum()
				x.TypeName = proto.String(".internal." + n + ".MetadataEntry")
				x.Label = descriptorpb.FieldDescriptorProto_LABEL_REPEATED.Enum()
				d.NestedType = append(d.NestedType, &descriptorpb.DescriptorProto{
					Name: proto.String("MetadataEntry"), Options: &descriptorpb.MessageOptions{MapEntry: proto.Bool(true)},
					Field: []*descriptorpb.FieldDescriptorProto{
						{Name: proto.String("key"), Number: proto.Int32(1), Label: descriptorpb.FieldDescriptorProto_LABEL_OPTIONAL.Enum(), Type: descriptorpb.FieldDescriptorProto_TYPE_STRING.Enum()},
						{Name: proto.String("value"), Number: proto.Int32(2), Label: descriptorpb.FieldDescriptorProto_LABEL_OPTIONAL.Enum(), Type: descriptorpb.FieldDescriptorProto_TYPE_STRING.Enum()},
					}})
			default:
				x.Type = descriptorpb.FieldDescriptorProto_TYPE_MESSAGE.Enum()
				x.TypeName = proto.String(".internal." + kind)
				x.OneofIndex = proto.Int32(0)
				if len(d.OneofDecl) == 0 {
					d.OneofDecl = append(d.OneofDecl, &descriptorpb.OneofDescriptorProto{Name: proto.String("body")})
				}
			}
			d.Field = append(d.Field, x)
		}
		fdp.MessageType = append(fdp.MessageType, d)
	}
	return must1(protodesc.NewFile(fdp, protoregistry.GlobalFiles))
})

type c19M = map[string]any

// c19Pack builds a message of the published format.
func c19Pack(name string, kv c19M, unknown []byte) *dynamicpb.Message {
	m := dynamicpb.NewMessage(c19Files().Messages().ByName(protoreflect.Name(name)))
	for k, v := range kv {
		fd := m.Descriptor().Fields().ByName(protoreflect.Name(k))
		switch v := v.(type) {
		case map[string]string:
			mp := m.Mutable(fd).Map()
			for a, b := range v {
				mp.Set(protoreflect.ValueOfString(a).MapKey(), protoreflect.ValueOfString(b))
			}
		case c19M:
			sub := c19Pack(string(fd.Message().Name()), v, nil)
			m.Set(fd, protoreflect.ValueOfMessage(sub))
		case []*anypb.Any:
			l := m.Mutable(fd).List()
			for _, a := range v {
				x := l.AppendMutable().Message()
				x.Set(x.Descriptor().Fields().ByNumber(1), protoreflect.ValueOfString(a.TypeUrl))
				x.Set(x.Descriptor().Fields().ByNumber(2), protoreflect.ValueOfBytes(a.Value))
			}
		case int:
			m.Set(fd, protoreflect.ValueOfInt64(int64(v)))
		case float64:
			m.Set(fd, protoreflect.ValueOfFloat32(float32(v)))
		default:
			m.Set(fd, protoreflect.ValueOf(v))
		}
	}
	m.SetUnknown(unknown)
	return m
}

// c19Unpack reads one; fields that the format does not have are under "?".
func c19Unpack(m protoreflect.Message) c19M {
	kv := c19M{}
	m.Range(func(fd protoreflect.FieldDescriptor, v protoreflect.Value) bool {
		switch {
		case fd.IsMap():
			mp := map[string]string{}
			v.Map().Range(func(k protoreflect.MapKey, v protoreflect.Value) bool {
				mp[k.String()] = v.String()
				return true
			})
			kv[string(fd.Name())] = mp
		case fd.IsList():
			var l []string
			for i := range v.List().Len() {
				x := v.List().Get(i).Message()
				l = append(l, fmt.Sprintf("%s:%x", x.Get(x.Descriptor().Fields().ByNumber(1)).String(), x.Get(x.Descriptor().Fields().ByNumber(2)).Bytes()))
			}
			kv[string(fd.Name())] = l
		case fd.Message() != nil:
			kv[string(fd.Name())] = c19Unpack(v.Message())
		default:
			kv[string(fd.Name())] = v.Interface()
		}
		return true
	})
	if u := m.GetUnknown(); len(u) > 0 {
		kv["?"] = fmt.Sprintf("%x", []byte(u))
	}
	return kv
}

type c19Got struct {
	at   time.Time
	name string
	kv   c19M
}

// c19Peer speaks the published format.
type c19Peer struct {
	e   *engine.Env
	tap *c19Tap
	mu  sync.Mutex
	in  []c19Got
}

func (p *c19Peer) send(ch psrpc.Channel, m *dynamicpb.Message) {
	if p.tap.bus != nil {
		must(p.e, p.tap.bus.Publish(context.Background(), ch, m), "publish")
		return
	}
	b := must1(proto.Marshal(m))
	p.tap.raw(ch, c19Envelope("type.googleapis.com/"+string(m.Descriptor().FullName()), b, ch.Local))
}

func (p *c19Peer) got(url string, value []byte) {
	name := strings.TrimPrefix(url, "type.googleapis.com/internal.")
	md := c19Files().Messages().ByName(protoreflect.Name(name))
	if md == nil {
		p.e.Failf("a message of type %q was published", url)
		return
	}
	m := dynamicpb.NewMessage(md)
	if err := proto.Unmarshal(value, m); err != nil {
		p.e.Failf("%s %x was published, which is not in the published format: %v", name, value, err)
		return
	}
	p.mu.Lock()
	p.in = append(p.in, c19Got{time.Now(), name, c19Unpack(m)})
	p.mu.Unlock()
}

func (p *c19Peer) listen(ch psrpc.Channel) {
	if p.tap.bus != nil {
		sub, err := bus.Subscribe[proto.Message](context.Background(), p.tap.bus, ch, 1000)
		must(p.e, err, "subscribe")
		go func() {
			for m := range sub.Channel() {
				p.got("type.googleapis.com/"+string(m.ProtoReflect().Descriptor().FullName()), must1(proto.Marshal(m)))
			}
		}()
		return
	}
	p.tap.listen(ch, func(b []byte) {
		env, ok := c19Open(b)
		if !ok || len(env.other) > 0 {
			p.e.Failf("envelope %x was published", b)
			return
		}
		if p.tap.nc != nil && env.channel != ch.Local {
			return
		}
		p.got(env.url, env.value)
	})
}

// take waits for the rest of the moment and returns what came in.
func (p *c19Peer) take() []c19Got {
	time.Sleep(ms)
	p.mu.Lock()
	defer p.mu.Unlock()
	l := p.in
	p.in = nil
	return l
}

// want checks what came in: each message has these fields and no others; "*" stands for any value.
func (p *c19Peer) want(what string, want ...c19Got) []c19Got {
	got := p.take()
	ok := len(got) == len(want)
	for i := 0; ok && i < len(want); i++ {
		ok = got[i].name == want[i].name && c19Match(got[i].kv, want[i].kv)
	}
	if !ok {
		var a, b []string
		for _, g := range got {
			a = append(a, fmt.Sprintf("%s%v", g.name, g.kv))
		}
		for _, g := range want {
			b = append(b, fmt.Sprintf("%s%v", g.name, g.kv))
		}
		p.e.Fatalf("%s: on the wire\n got  %s\n want %s", what, strings.Join(a, "\n      "), strings.Join(b, "\n      "))
	}
	return got
}

func c19Match(got, want any) bool {
	if want == "*" {
		return true
	}
	g, ok := got.(c19M)
	w, ok2 := want.(c19M)
	if ok != ok2 {
		return false
	}
	if !ok {
		return reflect.DeepEqual(got, want)
	}
	for k, v := range w {
		if v == "" || v == false || v == int64(0) {
			if _, there := g[k]; !there { // a default is not encoded
				continue
			}
		}
		x, there := g[k]
		if !there || !c19Match(x, v) {
			return false
		}
	}
	for k := range g {
		if _, there := w[k]; !there {
			return false
		}
	}
	return true
}

func msg(name string, kv c19M) c19Got { return c19Got{name: name, kv: kv} }

// ---------------------------------------------------------------- a hand-written client, a real server

type c19Step struct {
	Do  string
	Arg int
}

type c19Act struct {
	Kind    string // call all claim stream cstream
	Body    string // ok malformed empty newer
	Expiry  int    // ms; 0: absent, -1: the past, 1e9: the end of time
	NoID    bool
	Meta    int
	Newer   bool // unknown fields in the message
	Replies []string
	Out     int
	Steps   []c19Step
}

type c19PeerCase struct {
	Bus   string
	Topic []string
	Acts  []c19Act
}

func genC19Act(t *rapid.T) c19Act {
	a := c19Act{
		Kind:   rapid.SampledFrom([]string{"call", "all", "claim", "stream", "cstream"}).Draw(t, "kind"),
		Body:   rapid.SampledFrom([]string{"ok", "ok", "malformed", "empty", "newer"}).Draw(t, "body"),
		Expiry: rapid.SampledFrom([]int{3000, 3000, 3000, 500, 1e9, 0, -1}).Draw(t, "expiry"),
		NoID:   rapid.IntRange(0, 9).Draw(t, "noid") == 0,
		Meta:   rapid.IntRange(0, 3).Draw(t, "meta"),
		Newer:  rapid.IntRange(0, 2).Draw(t, "new") == 0,
		Out:    rapid.IntRange(0, 3).Draw(t, "out"),
	}
	if a.Kind == "claim" || a.Kind == "cstream" {
		a.NoID = false
		a.Replies = rapid.SliceOfN(rapid.SampledFrom([]string{"own", "own", "own", "other", "foreign", "noid"}), 0, 4).Draw(t, "replies")
	}
	if a.Kind == "stream" || a.Kind == "cstream" {
		for range rapid.IntRange(0, 6).Draw(t, "steps") {
			a.Steps = append(a.Steps, c19Step{
				rapid.SampledFrom([]string{"msg", "msg", "msg", "newer", "malformed", "foreign", "nobody", "wildack", "oldmsg", "close", "empty"}).Draw(t, "step"),
				rapid.IntRange(0, 3).Draw(t, "arg")})
		}
	}
	return a
}

func genC19Peer(t *rapid.T) c19PeerCase {
	c := c19PeerCase{
		Bus:   genBus(t, 3),
		Topic: rapid.SliceOfN(rapid.SampledFrom([]string{"a", "b.c", "ü"}), 0, 2).Draw(t, "topic"),
	}
	for range rapid.IntRange(1, 6).Draw(t, "n") {
		c.Acts = append(c.Acts, genC19Act(t))
	}
	return c
}

var c19Newer = []byte{0xc2, 0xbb, 0x02, 0x03, 'n', 'e', 'w', 0xe8, 0xc1, 0x02, 0x05} // two unknown fields

func c19Body(kind string, k int) (b []byte, v string) {
	v = fmt.Sprintf("%d:value", k)
	b = must1(proto.Marshal(S(v)))
	switch kind {
	case "malformed":
		return b[:len(b)-1], ""
	case "empty":
		return nil, ""
	case "newer":
		return append(b, c19Newer...), v
	}
	return b, v
}

var c19Methods = []Method{
	{Name: "Call", Queue: true}, {Name: "All", Multi: true}, {Name: "Claim", Claim: true},
	{Name: "Stream"}, {Name: "ClaimStream", Claim: true},
}

var c19Name = map[string]string{"call": "Call", "all": "All", "claim": "Claim", "stream": "Stream", "cstream": "ClaimStream"}

func runC19Client(e *engine.Env, c c19PeerCase) {
	f := NewFabric(c.Bus)
	defer f.Close()
	p := &c19Peer{e: e, tap: newC19Tap(f)}
	s := server.NewRPCServer(define("Svc", "srv0", c19Methods...), f.Bus())
	defer s.Close(true)

	type run struct {
		id  string
		msg Str
		hdr metadata.Header
	}
	var mu sync.Mutex
	var runs []run
	out := 0
	detail := must1(anypb.New(durationpb.New(time.Second)))
	for _, m := range []string{"Call", "All", "Claim"} {
		must(e, server.RegisterHandler(s, m, c.Topic, func(ctx context.Context, q Str) (Str, error) {
			mu.Lock()
			defer mu.Unlock()
			runs = append(runs, run{m, q, *metadata.IncomingHeader(ctx)})
			switch out {
			case 1:
				return nil, psrpc.NewErrorf(psrpc.NotFound, "no %s", q.GetValue())
			case 2:
				return nil, psrpc.NewErrorFromResponse("data_loss", "lost", detail)
			case 3:
				return S(""), nil
			}
			return S("re:" + q.GetValue()), nil
		}, nil), "register")
	}
	type ended struct {
		recv []string
		err  error
		open bool
	}
	streams := map[string]*ended{}
	for _, m := range []string{"Stream", "ClaimStream"} {
		must(e, server.RegisterStreamHandler(s, m, c.Topic, func(ss psrpc.ServerStream[Str, Str]) error {
			h := *metadata.IncomingHeader(ss.Context())
			end := &ended{open: true}
			mu.Lock()
			runs = append(runs, run{m, nil, h})
			streams[h.Metadata["k"]] = end
			mu.Unlock()
			for q := range ss.Channel() {
				mu.Lock()
				end.recv = append(end.recv, q.GetValue())
				mu.Unlock()
				_ = ss.Send(S("re:" + q.GetValue()))
			}
			mu.Lock()
			end.err, end.open = ss.Err(), false
			mu.Unlock()
			return nil
		}, nil), "register")
	}
	p.listen(info.GetResponseChannel("Svc", "peer"))
	p.listen(info.GetClaimRequestChannel("Svc", "peer"))
	p.listen(info.GetStreamChannel("Svc", "peer"))
	time.Sleep(50 * ms)
	sd := define("Svc", "", c19Methods...)
	ran := 0
	for k, a := range c.Acts {
		i := sd.GetInfo(c19Name[a.Kind], c.Topic)
		now := time.Now()
		id := fmt.Sprint("REQ_", k)
		if a.NoID {
			id = ""
		}
		md := map[string]string{"k": fmt.Sprint(k)}
		for j := range a.Meta {
			md[fmt.Sprint("m", j)] = strings.Repeat("v", j)
		}
		kv := c19M{"request_id": id, "sent_at": now.UnixNano() - 77}
		expiry := now.Add(msd(a.Expiry))
		switch a.Expiry {
		case 1e9:
			kv["expiry"] = int64(math.MaxInt64)
		case -1:
			kv["expiry"] = now.UnixNano()
		case 0:
		default:
			kv["expiry"] = expiry.UnixNano()
		}
		live := a.Expiry > 0
		var unknown []byte
		if a.Newer {
			unknown = c19Newer
		}
		mu.Lock()
		out = a.Out
		runs = nil
		mu.Unlock()
		what := fmt.Sprintf("act %d", k)
		e.Class("%s", a.Kind)
		// claimed follows the selection and says whether the server was chosen.
		claimed := func() bool {
			if !i.RequireClaim {
				return true
			}
			p.want(what+": claim", msg("ClaimRequest", c19M{"request_id": id, "server_id": "srv0", "affinity": float32(1)}))
			for _, r := range a.Replies {
				x := c19M{"request_id": id, "server_id": "srv0"}
				switch r {
				case "other":
					x["server_id"] = "srv1"
				case "foreign":
					x["request_id"] = "REQ_foreign"
				case "noid":
					x = c19M{"server_id": "srv0"}
				}
				p.send(i.GetClaimResponseChannel(), c19Pack("ClaimResponse", x, unknown))
				time.Sleep(ms)
				if x["request_id"] == id {
					return x["server_id"] == "srv0"
				}
			}
			if a.Expiry < 1e9 {
				time.Sleep(time.Until(expiry) + ms)
			}
			return false
		}
		check := func(v string, newer bool) {
			mu.Lock()
			defer mu.Unlock()
			if len(runs) != 1 {
				e.Fatalf("%s: the handler ran %d times", what, len(runs))
			}
			r := runs[0]
			ran++
			if r.id != i.Method || r.hdr.RemoteID != "peer" || r.hdr.SentAt.UnixNano() != now.UnixNano()-77 || !reflect.DeepEqual(map[string]string(r.hdr.Metadata), md) {
				e.Failf("%s: %s ran with header %+v, want peer, %v, %v", what, r.id, r.hdr, now.Add(-77), md)
			}
			if r.msg != nil && (r.msg.GetValue() != v || bytes.Equal(r.msg.ProtoReflect().GetUnknown(), c19Newer) != newer) {
				e.Failf("%s: the handler got %q with unknown fields %x, sent %q, newer %t", what, r.msg.GetValue(), []byte(r.msg.ProtoReflect().GetUnknown()), v, newer)
			}
		}
		silent := func() {
			p.want(what)
			mu.Lock()
			defer mu.Unlock()
			if len(runs) > 0 {
				e.Fatalf("%s: the handler ran", what)
			}
		}
		if a.Steps == nil && a.Kind != "stream" && a.Kind != "cstream" {
			body, v := c19Body(a.Body, k)
			kv["client_id"], kv["raw_request"], kv["metadata"] = "peer", body, md
			if a.Kind == "all" {
				kv["multi"] = true
			}
			p.send(i.GetRPCChannel(), c19Pack("Request", kv, unknown))
			res := c19M{"request_id": id, "server_id": "srv0", "sent_at": "*"}
			switch {
			case !live:
				silent()
				continue
			case a.Body == "malformed":
				res["error"], res["code"] = "*", "malformed_request"
				p.want(what, msg("Response", res))
				silent()
				continue
			case !claimed():
				silent()
				continue
			}
			switch a.Out {
			case 0:
				res["raw_response"] = must1(proto.Marshal(S("re:" + v)))
			case 1:
				res["error"], res["code"] = "no "+v, "not_found"
			case 2:
				res["error"], res["code"], res["error_details"] = "lost", "data_loss", []string{fmt.Sprintf("%s:%x", detail.TypeUrl, detail.Value)}
			}
			at := time.Now()
			g := p.want(what, msg("Response", res))
			if sent := time.Unix(0, g[0].kv["sent_at"].(int64)); sent.Before(now) || sent.After(at.Add(ms)) {
				e.Failf("%s: the response says it was sent at %v, the request came at %v", what, sent, now)
			}
			check(v, a.Body == "newer")
			continue
		}

		// a stream
		sid := fmt.Sprint("STR_", k)
		kv["stream_id"], kv["open"] = sid, c19M{"node_id": "peer", "metadata": md}
		p.send(i.GetStreamServerChannel(), c19Pack("Stream", kv, unknown))
		if !live || !claimed() {
			silent()
			continue
		}
		p.want(what, msg("Stream", c19M{"stream_id": sid, "request_id": id, "sent_at": "*", "expiry": "*", "ack": c19M{}}))
		check("", false)
		far := time.Now().Add(time.Hour).UnixNano()
		var want []string
		over := false
		last := ""
		for j, st := range append(a.Steps, c19Step{"close", 0}) {
			sw := fmt.Sprintf("%s step %d %s", what, j, st.Do)
			rid := fmt.Sprintf("REQ_%d_%d", k, j)
			kv := c19M{"stream_id": sid, "request_id": rid, "sent_at": far - 9, "expiry": far}
			send := func() { p.send(i.GetStreamServerChannel(), c19Pack("Stream", kv, unknown)) }
			e.Class("step %s, over: %t", st.Do, over)
			switch st.Do {
			case "msg", "newer", "empty":
				body, v := c19Body(map[string]string{"msg": "ok", "newer": "newer", "empty": "empty"}[st.Do], j)
				kv["message"] = c19M{"raw_message": body}
				send()
				if over {
					p.want(sw)
					continue
				}
				want = append(want, v)
				// the acknowledgement and the echo may come in either order
				got := p.take()
				if len(got) == 2 && got[0].kv["ack"] == nil {
					got[0], got[1] = got[1], got[0]
				}
				echo, _ := c19Body("ok", 0)
				echo = must1(proto.Marshal(S("re:" + v)))
				if len(got) != 2 || !c19Match(got[0].kv, c19M{"stream_id": sid, "request_id": rid, "sent_at": "*", "expiry": "*", "ack": c19M{}}) ||
					!c19Match(got[1].kv, c19M{"stream_id": sid, "request_id": "*", "sent_at": "*", "expiry": "*", "message": c19M{"raw_message": echo}}) {
					e.Fatalf("%s: want an acknowledgement and an echo, got %v", sw, got)
				}
				if at, exp := time.Unix(0, got[1].kv["sent_at"].(int64)), time.Unix(0, got[1].kv["expiry"].(int64)); exp.Sub(at) != psrpc.DefaultServerTimeout || time.Since(at) > 10*ms {
					e.Failf("%s: the echo is sent at %v until %v", sw, at, exp)
				}
				last = got[1].kv["request_id"].(string)
				p.send(i.GetStreamServerChannel(), c19Pack("Stream", c19M{"stream_id": sid, "request_id": last, "expiry": far, "ack": c19M{}}, unknown))
				p.want(sw)
			case "malformed":
				kv["message"] = c19M{"raw_message": []byte{0x0a, 0x7f, 'x'}}
				send()
				if over {
					p.want(sw)
					continue
				}
				over = true
				p.want(sw, msg("Stream", c19M{"stream_id": sid, "request_id": "*", "sent_at": "*", "expiry": "*", "close": c19M{"error": "*", "code": "malformed_request"}}))
				time.Sleep(10 * ms)
				mu.Lock()
				x := streams[fmt.Sprint(k)]
				if x.open || code(x.err) != psrpc.MalformedRequest || fmt.Sprint(x.recv) != fmt.Sprint(want) {
					e.Fatalf("%s: the handler is %+v, want it ended by a malformed request after %v", sw, x, want)
				}
				mu.Unlock()
			case "foreign":
				kv["stream_id"] = "STR_other"
				kv["message"] = c19M{"raw_message": []byte{0x0a, 0x7f, 'x'}}
				if st.Arg == 1 {
					kv["message"], kv["close"] = c19M{}, c19M{"code": "x"}
					delete(kv, "message")
				}
				send()
				p.want(sw)
			case "nobody":
				send()
				p.want(sw)
			case "wildack":
				kv["ack"] = c19M{}
				if st.Arg == 1 && last != "" {
					kv["request_id"] = last // again
				}
				send()
				p.want(sw)
			case "oldmsg":
				kv["expiry"] = time.Now().UnixNano() - int64(st.Arg)
				kv["message"] = c19M{"raw_message": must1(proto.Marshal(S("late")))}
				send()
				p.want(sw)
			case "close":
				cl := c19M{"error": fmt.Sprint("bye ", st.Arg), "code": []string{"stream_closed", "custom", "unavailable", ""}[st.Arg]}
				kv["close"] = cl
				send()
				p.want(sw)
				if over {
					continue
				}
				over = true
				time.Sleep(10 * ms)
				mu.Lock()
				x := streams[fmt.Sprint(k)]
				wc := psrpc.ErrorCode([]string{"stream_closed", "custom", "unavailable", "unknown"}[st.Arg])
				if x.open || code(x.err) != wc || x.err.Error() != cl["error"] || fmt.Sprint(x.recv) != fmt.Sprint(want) {
					e.Fatalf("%s: the handler is %+v, want it ended by %v after %v", sw, x, cl, want)
				}
				mu.Unlock()
			}
		}
	}
	if ran > 0 {
		e.NonTrivial()
	}
	e.Class("bus: %s", c.Bus)
}

// ---------------------------------------------------------------- a real client, a hand-written server

type c19Ans struct {
	Kind  string // ok newer empty malformed err errdetails coded error both foreign noid other
	Newer bool
}

type c19SAct struct {
	Kind    string
	Timeout int
	Meta    int
	Claims  []string
	Answers []c19Ans
	Steps   []c19Step
}

type c19SrvCase struct {
	Bus   string
	Topic []string
	Acts  []c19SAct
}

func genC19Srv(t *rapid.T) c19SrvCase {
	c := c19SrvCase{
		Bus:   genBus(t, 3),
		Topic: rapid.SliceOfN(rapid.SampledFrom([]string{"a", "b.c", "ü"}), 0, 2).Draw(t, "topic"),
	}
	for range rapid.IntRange(1, 6).Draw(t, "n") {
		a := c19SAct{
			Kind:    rapid.SampledFrom([]string{"call", "all", "claim", "stream", "cstream"}).Draw(t, "kind"),
			Timeout: rapid.SampledFrom([]int{0, 500, 9000}).Draw(t, "timeout"),
			Meta:    rapid.IntRange(0, 3).Draw(t, "meta"),
		}
		if a.Kind == "claim" || a.Kind == "cstream" {
			a.Claims = rapid.SliceOfN(rapid.SampledFrom([]string{"s0", "s1", "foreign", "noid"}), 0, 3).Draw(t, "claims")
		}
		if a.Kind == "stream" || a.Kind == "cstream" {
			for range rapid.IntRange(0, 6).Draw(t, "steps") {
				a.Steps = append(a.Steps, c19Step{
					rapid.SampledFrom([]string{"msg", "msg", "send", "send", "newer", "malformed", "foreign", "nobody", "wildack", "oldmsg", "close", "empty"}).Draw(t, "step"),
					rapid.IntRange(0, 3).Draw(t, "arg")})
			}
		} else {
			a.Answers = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) c19Ans {
				return c19Ans{rapid.SampledFrom([]string{"ok", "ok", "newer", "empty", "malformed", "err", "errdetails", "coded", "error", "both", "foreign", "noid", "other"}).Draw(t, "ans"), rapid.Bool().Draw(t, "newer")}
			}), 0, 5).Draw(t, "answers")
		}
		c.Acts = append(c.Acts, a)
	}
	return c
}

func (a c19Ans) fill(kv c19M, k int, detail *anypb.Any) (v string, err error) {
	body, v := c19Body(map[string]string{"newer": "newer", "empty": "empty", "malformed": "malformed", "both": "malformed"}[a.Kind], k)
	switch a.Kind {
	case "ok", "newer", "empty", "foreign", "noid", "other":
		kv["raw_response"] = body
		return v, nil
	case "malformed":
		kv["raw_response"] = body
		return "", psrpc.NewErrorf(psrpc.MalformedResponse, "*")
	case "err":
		kv["error"], kv["code"] = "went wrong", "not_found"
		return "", psrpc.NewErrorf(psrpc.NotFound, "went wrong")
	case "errdetails":
		kv["error"], kv["code"], kv["error_details"] = "went wrong", "aborted", []*anypb.Any{detail, {TypeUrl: "x/unknown.Type", Value: []byte{0xff}}}
		return "", psrpc.NewErrorf(psrpc.Aborted, "went wrong")
	case "coded":
		kv["code"] = "newcode"
		return "", psrpc.NewErrorf("newcode", "")
	case "error":
		kv["error"] = "no code"
		return "", psrpc.NewErrorf(psrpc.Unknown, "no code")
	case "both":
		kv["error"], kv["code"], kv["raw_response"] = "went wrong", "internal", body
		return "", psrpc.NewErrorf(psrpc.Internal, "went wrong")
	}
	panic(a.Kind)
}

func runC19Server(e *engine.Env, c c19SrvCase) {
	f := NewFabric(c.Bus)
	defer f.Close()
	p := &c19Peer{e: e, tap: newC19Tap(f)}
	sd := define("Svc", "", c19Methods...)
	cl, err := client.NewRPCClientWithStreams(define("Svc", "cli", c19Methods...), f.Bus())
	must(e, err, "new client")
	defer cl.Close()
	for _, m := range c19Methods {
		i := sd.GetInfo(m.Name, c.Topic)
		if strings.HasSuffix(m.Name, "Stream") {
			p.listen(i.GetStreamServerChannel())
		} else {
			p.listen(i.GetRPCChannel())
		}
		if m.Claim {
			p.listen(i.GetClaimResponseChannel())
		}
	}
	time.Sleep(50 * ms)
	detail := must1(anypb.New(durationpb.New(time.Minute)))
	ids := map[string]bool{}
	answered := 0
	for k, a := range c.Acts {
		i := sd.GetInfo(c19Name[a.Kind], c.Topic)
		what := fmt.Sprintf("act %d", k)
		e.Class("%s", a.Kind)
		ctx, cancel := context.WithCancel(context.Background())
		md := map[string]string{}
		for j := range a.Meta {
			md[fmt.Sprint("m", j)] = strings.Repeat("v", j)
		}
		if len(md) > 0 {
			ctx = metadata.NewContextWithOutgoingMetadata(ctx, md)
		}
		timeout := 3000
		var opts []psrpc.RequestOption
		if a.Timeout > 0 {
			timeout = a.Timeout
			opts = append(opts, psrpc.WithRequestTimeout(msd(timeout)))
		}
		now := time.Now()
		mdWant := func(kv c19M) c19M {
			if len(md) > 0 {
				kv["metadata"] = md
			}
			return kv
		}
		fresh := func(id string) {
			if id == "" || ids[id] {
				e.Fatalf("%s: id %q is empty or not new", what, id)
			}
			ids[id] = true
		}
		// chosen plays the servers' claims and says which one was chosen
		chosen := func(id string) (who string, ok bool) {
			if !i.RequireClaim {
				return "s0", true
			}
			for _, x := range a.Claims {
				kv := c19M{"request_id": id, "server_id": x, "affinity": 1.0}
				switch x {
				case "foreign":
					kv["request_id"] = "REQ_foreign"
				case "noid":
					delete(kv, "request_id")
				}
				p.send(info.GetClaimRequestChannel("Svc", "cli"), c19Pack("ClaimRequest", kv, c19Newer))
				if strings.HasPrefix(x, "s") && !ok {
					who, ok = x, true
					p.want(what+": claim response", msg("ClaimResponse", c19M{"request_id": id, "server_id": x}))
				} else {
					p.want(what + ": no claim response")
				}
			}
			return who, ok
		}
		var mu sync.Mutex
		if strings.HasSuffix(a.Kind, "stream") {
			var cs psrpc.ClientStream[Str, Str]
			var openErr error
			opened := make(chan struct{})
			go func() {
				defer close(opened)
				cs, openErr = client.OpenStream[Str, Str](ctx, cl, i.Method, c.Topic, opts...)
			}()
			g := p.want(what, msg("Stream", c19M{"stream_id": "*", "request_id": "*", "sent_at": now.UnixNano(), "expiry": now.Add(msd(timeout)).UnixNano(), "open": mdWant(c19M{"node_id": "cli"})}))
			sid, id := g[0].kv["stream_id"].(string), g[0].kv["request_id"].(string)
			fresh(sid)
			fresh(id)
			if _, ok := chosen(id); !ok {
				// selection or the open gives up and says so
				<-opened
				if openErr == nil {
					e.Failf("%s: opened without a server", what)
				}
				p.want(what, msg("Stream", c19M{"stream_id": sid, "request_id": "*", "sent_at": "*", "expiry": "*", "close": "*"}))
				cancel()
				continue
			}
			far := time.Now().Add(time.Hour).UnixNano()
			toCli := func(kv c19M) { p.send(info.GetStreamChannel("Svc", "cli"), c19Pack("Stream", kv, c19Newer)) }
			toCli(c19M{"stream_id": sid, "request_id": id, "expiry": far, "ack": c19M{}})
			time.Sleep(ms)
			select {
			case <-opened:
			default:
				e.Fatalf("%s: the open was not acknowledged by its acknowledgement", what)
			}
			must(e, openErr, what)
			answered++
			var got, want []string
			ended := make(chan struct{})
			go func() {
				defer close(ended)
				for m := range cs.Channel() {
					mu.Lock()
					got = append(got, m.GetValue())
					mu.Unlock()
				}
			}()
			over := false
			closed := func(sw string, wc psrpc.ErrorCode, text string) {
				over = true
				time.Sleep(10 * ms)
				select {
				case <-ended:
				default:
					e.Fatalf("%s: the client's stream is still open", sw)
				}
				mu.Lock()
				defer mu.Unlock()
				if err := cs.Err(); code(err) != wc || (text != "*" && err.Error() != text) || fmt.Sprint(got) != fmt.Sprint(want) {
					e.Fatalf("%s: the client's stream ended with %v (%s) after %q, want %s %q after %q", sw, err, code(err), got, wc, text, want)
				}
			}
			last := ""
			for j, st := range append(a.Steps, c19Step{"close", 0}) {
				sw := fmt.Sprintf("%s step %d %s", what, j, st.Do)
				rid := fmt.Sprintf("REQ_%d_%d", k, j)
				kv := c19M{"stream_id": sid, "request_id": rid, "sent_at": far - 9, "expiry": far}
				e.Class("step %s, over: %t", st.Do, over)
				switch st.Do {
				case "send":
					sent := make(chan error, 1)
					go func() { sent <- cs.Send(S(fmt.Sprint("up", j))) }()
					if over {
						p.want(sw)
						if err := <-sent; err == nil {
							e.Failf("%s: sent on a closed stream", sw)
						}
						continue
					}
					at := time.Now()
					g := p.want(sw, msg("Stream", c19M{"stream_id": sid, "request_id": "*", "sent_at": at.UnixNano(), "expiry": at.Add(msd(timeout)).UnixNano(),
						"message": c19M{"raw_message": must1(proto.Marshal(S(fmt.Sprint("up", j))))}}))
					last = g[0].kv["request_id"].(string)
					fresh(last)
					if st.Arg == 1 {
						toCli(c19M{"stream_id": sid, "request_id": "REQ_foreign", "expiry": far, "ack": c19M{}})
						toCli(c19M{"stream_id": "STR_foreign", "request_id": last, "expiry": far, "ack": c19M{}})
						time.Sleep(ms)
					}
					if len(sent) > 0 {
						e.Failf("%s: returned before it was acknowledged", sw)
					}
					toCli(c19M{"stream_id": sid, "request_id": last, "expiry": far, "ack": c19M{}})
					p.want(sw)
					select {
					case err := <-sent:
						must(e, err, sw)
					default:
						e.Fatalf("%s: did not return on its acknowledgement", sw)
					}
				case "msg", "newer", "empty":
					body, v := c19Body(map[string]string{"msg": "ok", "newer": "newer", "empty": "empty"}[st.Do], j)
					kv["message"] = c19M{"raw_message": body}
					toCli(kv)
					if over {
						p.want(sw)
						continue
					}
					want = append(want, v)
					p.want(sw, msg("Stream", c19M{"stream_id": sid, "request_id": rid, "sent_at": "*", "expiry": "*", "ack": c19M{}}))
				case "malformed":
					kv["message"] = c19M{"raw_message": []byte{0x0a, 0x7f, 'x'}}
					toCli(kv)
					if over {
						p.want(sw)
						continue
					}
					p.want(sw, msg("Stream", c19M{"stream_id": sid, "request_id": "*", "sent_at": "*", "expiry": "*", "close": c19M{"error": "*", "code": "malformed_request"}}))
					closed(sw, psrpc.MalformedRequest, "*")
				case "foreign":
					kv["stream_id"], kv["close"] = "STR_other", c19M{"code": "x"}
					toCli(kv)
					p.want(sw)
				case "nobody":
					toCli(kv)
					p.want(sw)
				case "wildack":
					kv["ack"] = c19M{}
					if st.Arg == 1 && last != "" {
						kv["request_id"] = last
					}
					toCli(kv)
					p.want(sw)
				case "oldmsg":
					kv["expiry"] = time.Now().UnixNano() - int64(st.Arg)
					kv["message"] = c19M{"raw_message": must1(proto.Marshal(S("late")))}
					toCli(kv)
					p.want(sw)
				case "close":
					if over {
						continue
					}
					text := fmt.Sprint("bye ", st.Arg)
					kv["close"] = c19M{"error": text, "code": []string{"stream_closed", "custom", "unavailable", ""}[st.Arg]}
					toCli(kv)
					p.want(sw)
					closed(sw, psrpc.ErrorCode([]string{"stream_closed", "custom", "unavailable", "unknown"}[st.Arg]), text)
				}
			}
			cancel()
			continue
		}

		req := S(fmt.Sprint("q", k))
		type result struct {
			v       string
			newer   bool
			err     error
			details []string
		}
		var results []result
		over := make(chan struct{})
		add := func(v Str, err error) {
			r := result{v: v.GetValue(), newer: bytes.Equal(v.ProtoReflect().GetUnknown(), c19Newer), err: err}
			if pe, ok := err.(psrpc.Error); ok {
				for _, d := range pe.DetailsProto() {
					r.details = append(r.details, fmt.Sprintf("%s:%x", d.TypeUrl, d.Value))
				}
			}
			mu.Lock()
			results = append(results, r)
			mu.Unlock()
		}
		go func() {
			defer close(over)
			if a.Kind == "all" {
				ch, err := client.RequestMulti[Str](ctx, cl, i.Method, c.Topic, req, opts...)
				must(e, err, what)
				for r := range ch {
					add(r.Result, r.Err)
				}
			} else {
				add(client.RequestSingle[Str](ctx, cl, i.Method, c.Topic, req, opts...))
			}
		}()
		g := p.want(what, msg("Request", mdWant(c19M{"request_id": "*", "client_id": "cli", "sent_at": now.UnixNano(), "expiry": now.Add(msd(timeout)).UnixNano(),
			"multi": a.Kind == "all", "raw_request": must1(proto.Marshal(req))})))
		id := g[0].kv["request_id"].(string)
		fresh(id)
		who, ok := chosen(id)
		done := !ok
		var want []result
		for _, x := range a.Answers {
			if done {
				break
			}
			kv := c19M{"request_id": id, "server_id": who, "sent_at": now.UnixNano()}
			v, err := x.fill(kv, k, detail)
			var u []byte
			if x.Newer {
				u = c19Newer
			}
			if x.Kind == "foreign" {
				kv["request_id"] = "REQ_foreign"
			} else if x.Kind == "noid" {
				delete(kv, "request_id")
			} else if x.Kind == "other" && i.RequireClaim {
				kv["server_id"] = "s9" // which was not chosen
			} else {
				r := result{v: v, newer: x.Kind == "newer", err: err}
				if x.Kind == "errdetails" {
					r.details = []string{fmt.Sprintf("%s:%x", detail.TypeUrl, detail.Value), "x/unknown.Type:ff"}
				}
				want = append(want, r)
				done = a.Kind != "all"
				answered++
			}
			e.Class("answer %s", x.Kind)
			p.send(info.GetResponseChannel("Svc", "cli"), c19Pack("Response", kv, u))
			time.Sleep(ms)
		}
		if len(want) > 0 && a.Kind != "all" {
			select {
			case <-over:
			default:
				e.Fatalf("%s: the answer did not end the call", what)
			}
		}
		<-over
		p.want(what)
		cancel()
		if len(want) == 0 && a.Kind != "all" {
			if len(results) != 1 || results[0].err == nil {
				e.Failf("%s: a call that nobody answered returned %+v", what, results)
			}
			continue
		}
		same := len(results) == len(want)
		for j := 0; same && j < len(want); j++ {
			r, w := results[j], want[j]
			same = code(r.err) == code(w.err) && (w.err == nil || w.err.Error() == "*" || r.err.Error() == w.err.Error()) &&
				reflect.DeepEqual(r.details, w.details) && (w.err != nil || (r.v == w.v && r.newer == w.newer))
		}
		if !same {
			e.Failf("%s: results %+v, want %+v", what, results, want)
		}
	}
	if answered > 0 {
		e.NonTrivial()
	}
	e.Class("bus: %s", c.Bus)
}

func init() {
	engine.Add("C19", "peer-client", "a hand-written client was served at least once", 600, 12000, genC19Peer, runC19Client)
	engine.Add("C19", "peer-server", "a hand-written server served at least once", 600, 12000, genC19Srv, runC19Server)
}
