package checks

import (
	"bytes"
	"context"
	"encoding/hex"
	"fmt"
	"math"
	"strings"
	"sync"
	"time"
	"unicode/utf8"

	"github.com/nats-io/nats.go"
	"github.com/redis/go-redis/v9"
	"google.golang.org/protobuf/encoding/protowire"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protodesc"
	"google.golang.org/protobuf/reflect/protoreflect"
	"google.golang.org/protobuf/reflect/protoregistry"
	"google.golang.org/protobuf/types/descriptorpb"
	"google.golang.org/protobuf/types/dynamicpb"
	"google.golang.org/protobuf/types/known/anypb"
	"google.golang.org/protobuf/types/known/apipb"
	"google.golang.org/protobuf/types/known/durationpb"
	"google.golang.org/protobuf/types/known/emptypb"
	"google.golang.org/protobuf/types/known/fieldmaskpb"
	"google.golang.org/protobuf/types/known/structpb"
	"google.golang.org/protobuf/types/known/timestamppb"
	"google.golang.org/protobuf/types/known/typepb"
	"google.golang.org/protobuf/types/known/wrapperspb"
	"pgregory.net/rapid"

	"github.com/livekit/psrpc"
	"github.com/livekit/psrpc/internal"
	"github.com/livekit/psrpc/internal/bus"
	"github.com/livekit/psrpc/verif/engine"
)

// ---------------------------------------------------------------- generated messages

var c19Types = []proto.Message{
	&wrapperspb.StringValue{}, &wrapperspb.BytesValue{}, &wrapperspb.DoubleValue{}, &wrapperspb.Int64Value{},
	&structpb.Value{}, &structpb.Struct{}, &emptypb.Empty{}, &timestamppb.Timestamp{}, &durationpb.Duration{},
	&fieldmaskpb.FieldMask{}, &apipb.Api{}, &typepb.Type{}, &anypb.Any{},
	&descriptorpb.FileDescriptorProto{}, &descriptorpb.FieldOptions{},
	&internal.Request{}, &internal.Response{}, &internal.ClaimRequest{}, &internal.ClaimResponse{}, &internal.Stream{},
	&internal.Msg{}, &internal.Channel{},
}

func c19Type(name string) proto.Message {
	for _, m := range c19Types {
		if string(m.ProtoReflect().Descriptor().FullName()) == name {
			return m.ProtoReflect().New().Interface()
		}
	}
	panic("harness: no type " + name)
}

var c19Strings = []string{"", "a", "αβ", "a b\n", "\x00", strings.Repeat("z", 200), "type.googleapis.com/internal.Request"}

func c19Scalar(t *rapid.T, fd protoreflect.FieldDescriptor, m protoreflect.Message, depth int) protoreflect.Value {
	switch fd.Kind() {
	case protoreflect.BoolKind:
		return protoreflect.ValueOfBool(rapid.Bool().Draw(t, "bool"))
	case protoreflect.EnumKind:
		return protoreflect.ValueOfEnum(protoreflect.EnumNumber(rapid.SampledFrom([]int32{0, 1, 2, 3, 77}).Draw(t, "enum")))
	case protoreflect.Int32Kind, protoreflect.Sint32Kind, protoreflect.Sfixed32Kind:
		return protoreflect.ValueOfInt32(rapid.Int32().Draw(t, "i32"))
	case protoreflect.Uint32Kind, protoreflect.Fixed32Kind:
		return protoreflect.ValueOfUint32(rapid.Uint32().Draw(t, "u32"))
	case protoreflect.Int64Kind, protoreflect.Sint64Kind, protoreflect.Sfixed64Kind:
		return protoreflect.ValueOfInt64(rapid.Int64().Draw(t, "i64"))
	case protoreflect.Uint64Kind, protoreflect.Fixed64Kind:
		return protoreflect.ValueOfUint64(rapid.Uint64().Draw(t, "u64"))
	case protoreflect.FloatKind:
		return protoreflect.ValueOfFloat32(rapid.SampledFrom([]float32{0, 1.5, -1, float32(math.Inf(1))}).Draw(t, "f32"))
	case protoreflect.DoubleKind:
		return protoreflect.ValueOfFloat64(rapid.SampledFrom([]float64{0, 1e300, -0.1, math.NaN(), math.Inf(-1)}).Draw(t, "f64"))
	case protoreflect.StringKind:
		return protoreflect.ValueOfString(rapid.SampledFrom(c19Strings).Draw(t, "str"))
	case protoreflect.BytesKind:
		return protoreflect.ValueOfBytes(rapid.SliceOfN(rapid.Byte(), 0, 12).Draw(t, "bytes"))
	}
	panic("harness: " + fd.Kind().String())
}

func c19Fill(t *rapid.T, m protoreflect.Message, depth int) {
	fds := m.Descriptor().Fields()
	if fds.Len() == 0 {
		return
	}
	for range rapid.IntRange(0, min(5, fds.Len()+1)).Draw(t, "fields") {
		fd := fds.Get(rapid.IntRange(0, fds.Len()-1).Draw(t, "field"))
		sub := fd.Message() != nil && !fd.IsMap()
		if sub && depth <= 0 {
			continue
		}
		switch {
		case fd.IsMap():
			mp := m.Mutable(fd).Map()
			for range rapid.IntRange(0, 3).Draw(t, "entries") {
				k := c19Scalar(t, fd.MapKey(), m, depth).MapKey()
				if fd.MapValue().Message() != nil {
					if depth > 0 {
						c19Fill(t, mp.Mutable(k).Message(), depth-1)
					}
				} else {
					mp.Set(k, c19Scalar(t, fd.MapValue(), m, depth))
				}
			}
		case fd.IsList():
			l := m.Mutable(fd).List()
			for range rapid.IntRange(0, 3).Draw(t, "items") {
				if sub {
					c19Fill(t, l.AppendMutable().Message(), depth-1)
				} else {
					l.Append(c19Scalar(t, fd, m, depth))
				}
			}
		case sub:
			c19Fill(t, m.Mutable(fd).Message(), depth-1)
		default:
			m.Set(fd, c19Scalar(t, fd, m, depth))
		}
	}
	if rapid.IntRange(0, 5).Draw(t, "unknown") == 0 {
		m.SetUnknown(c19Unknown(t))
	}
}

// c19Unknown is fields no message here has.
func c19Unknown(t *rapid.T) []byte {
	var b []byte
	for i := range rapid.IntRange(1, 3).Draw(t, "n") {
		num := protowire.Number(5000 + i*7)
		switch rapid.IntRange(0, 3).Draw(t, "wire") {
		case 0:
			b = protowire.AppendVarint(protowire.AppendTag(b, num, protowire.VarintType), uint64(i)<<40)
		case 1:
			b = protowire.AppendBytes(protowire.AppendTag(b, num, protowire.BytesType), []byte{0xff, 0, byte(i)})
		case 2:
			b = protowire.AppendFixed64(protowire.AppendTag(b, num, protowire.Fixed64Type), 7)
		default:
			b = protowire.AppendTag(b, num, protowire.StartGroupType)
			b = protowire.AppendVarint(protowire.AppendTag(b, 1, protowire.VarintType), 3)
			b = protowire.AppendTag(b, num, protowire.EndGroupType)
		}
	}
	return b
}

type hexBytes []byte

func (h hexBytes) MarshalText() ([]byte, error) { return []byte(hex.EncodeToString(h)), nil }
func (h *hexBytes) UnmarshalText(b []byte) error {
	v, err := hex.DecodeString(string(b))
	*h = v
	return err
}

func c19Message(t *rapid.T) (string, hexBytes) {
	m := rapid.SampledFrom(c19Types).Draw(t, "type").ProtoReflect().New()
	if rapid.IntRange(0, 3).Draw(t, "simple") == 0 {
		m = (&wrapperspb.StringValue{}).ProtoReflect()
	}
	c19Fill(t, m, 3)
	b, err := proto.MarshalOptions{AllowPartial: true, Deterministic: true}.Marshal(m.Interface())
	if err != nil {
		panic("harness: " + err.Error())
	}
	return string(m.Descriptor().FullName()), b
}

// c19Opaque is a message of any name that is encoded as the given bytes.
func c19Opaque(name string, b []byte) proto.Message {
	pkg, short := "", name
	if i := strings.LastIndexByte(name, '.'); i >= 0 {
		pkg, short = name[:i], name[i+1:]
	}
	fdp := &descriptorpb.FileDescriptorProto{Name: proto.String("opaque.proto"), Syntax: proto.String("proto3"),
		MessageType: []*descriptorpb.DescriptorProto{{Name: proto.String(short)}}}
	if pkg != "" {
		fdp.Package = proto.String(pkg)
	}
	fd, err := protodesc.NewFile(fdp, nil)
	if err != nil {
		panic("harness: " + err.Error())
	}
	m := dynamicpb.NewMessage(fd.Messages().Get(0))
	m.SetUnknown(b)
	return m
}

// ---------------------------------------------------------------- raw access to a fabric

type c19Tap struct {
	f   *Fabric
	bus psrpc.MessageBus // local only
	nc  *nats.Conn
	rc  *redis.Client
}

func newC19Tap(f *Fabric) *c19Tap {
	t := &c19Tap{f: f}
	switch f.Kind {
	case "nats":
		nc, err := nats.Connect("nats://127.0.0.1:4222", nats.InProcessServer(f.Nats), nats.MaxReconnects(0))
		if err != nil {
			panic("harness: " + err.Error())
		}
		f.ncs = append(f.ncs, nc)
		t.nc = nc
	case "redis":
		t.rc = f.Redis.Client()
		f.rcs = append(f.rcs, t.rc)
	default:
		t.bus = f.Bus()
	}
	return t
}

// raw puts the bytes of an envelope on a channel (of a broker).
func (t *c19Tap) raw(ch psrpc.Channel, b []byte) {
	var err error
	if t.nc != nil {
		err = t.nc.Publish(ch.Server, b)
	} else {
		err = t.rc.Publish(context.Background(), ch.Legacy, string(b)).Err()
	}
	if err != nil {
		panic("harness: " + err.Error())
	}
}

// listen hands the raw bytes of the envelopes on a channel (of a broker) to f.
func (t *c19Tap) listen(ch psrpc.Channel, f func([]byte)) {
	if t.nc != nil {
		_, err := t.nc.Subscribe(ch.Server, func(m *nats.Msg) { f(m.Data) })
		if err != nil {
			panic("harness: " + err.Error())
		}
		return
	}
	ps := t.rc.Subscribe(context.Background(), ch.Legacy)
	go func() {
		for m := range ps.Channel() {
			f([]byte(m.Payload))
		}
	}()
}

// ---------------------------------------------------------------- the envelope, written and read by hand

func c19Envelope(url string, value []byte, channel string) []byte {
	var b []byte
	b = protowire.AppendString(protowire.AppendTag(b, 1, protowire.BytesType), url)
	b = protowire.AppendBytes(protowire.AppendTag(b, 2, protowire.BytesType), value)
	if channel != "" {
		b = protowire.AppendString(protowire.AppendTag(b, 3, protowire.BytesType), channel)
	}
	return b
}

type c19Env struct {
	url, channel string
	value        []byte
	chanOK       bool
	other        []protowire.Number
}

// c19Open reads an envelope; not ok if no protobuf implementation may accept it.
func c19Open(b []byte) (env c19Env, ok bool) {
	env.chanOK = true
	for len(b) > 0 {
		num, typ, n := protowire.ConsumeTag(b)
		if n < 0 {
			return env, false
		}
		m := protowire.ConsumeFieldValue(num, typ, b[n:])
		if m < 0 {
			return env, false
		}
		if typ == protowire.BytesType && num <= 3 {
			v, _ := protowire.ConsumeBytes(b[n:])
			switch num {
			case 1:
				env.url = string(v)
				if !utf8.Valid(v) {
					return env, false
				}
			case 2:
				env.value = v
			case 3:
				env.channel = string(v)
				env.chanOK = env.chanOK && utf8.Valid(v)
			}
		} else {
			env.other = append(env.other, num)
		}
		b = b[n+m:]
	}
	return env, true
}

func (env c19Env) message() (proto.Message, bool) {
	if env.url == "" {
		return nil, false
	}
	mt, err := protoregistry.GlobalTypes.FindMessageByURL(env.url)
	if err != nil {
		return nil, false
	}
	m := mt.New().Interface()
	return m, proto.Unmarshal(env.value, m) == nil
}

// ---------------------------------------------------------------- part envelope

type c19Op struct {
	Kind  string // msg: a message through the bus; bad: one that cannot be encoded; or a raw envelope
	Type  string
	Value hexBytes
	Junk  hexBytes
	Pos   int
	After int
}

type c19EnvCase struct {
	Bus   string
	Queue bool
	Local bool // NATS: several channels share a subject
	Big   int
	Ops   []c19Op
}

var c19Shapes = []string{"plain", "order", "extra", "twice", "prefix", "bare", "nochan", "otherchan", "badchan", "wrongwire", "cut", "junk", "badvalue", "unknown", "flip", "notype", "empty"}

func genC19Env(t *rapid.T) c19EnvCase {
	c := c19EnvCase{
		Bus:   genBus(t, 1),
		Queue: rapid.IntRange(0, 3).Draw(t, "queue") == 0,
		Local: rapid.Bool().Draw(t, "local"),
		Big:   rapid.SampledFrom([]int{0, 0, 0, 100000}).Draw(t, "big"),
	}
	for range rapid.IntRange(1, 14).Draw(t, "n") {
		o := c19Op{Kind: "msg", After: rapid.SampledFrom([]int{0, 1, 20}).Draw(t, "after")}
		switch k := rapid.IntRange(0, 9).Draw(t, "kind"); {
		case k == 0:
			o.Kind = "bad"
		case k >= 5:
			if c.Bus == "local" {
				o.Kind = rapid.SampledFrom([]string{"plain", "badvalue", "unknown"}).Draw(t, "shape")
			} else {
				o.Kind = rapid.SampledFrom(c19Shapes).Draw(t, "shape")
			}
		}
		o.Type, o.Value = c19Message(t)
		switch o.Kind {
		case "msg", "plain", "bad":
		default:
			o.Junk = rapid.SliceOfN(rapid.Byte(), 0, 40).Draw(t, "junk")
			o.Pos = rapid.IntRange(0, 400).Draw(t, "pos")
		}
		c.Ops = append(c.Ops, o)
	}
	return c
}

func (o c19Op) envelope(ch psrpc.Channel, k int, nats bool) []byte {
	url, channel := "type.googleapis.com/"+o.Type, fmt.Sprint("c", k)
	if nats {
		channel = ch.Local
	}
	plain := c19Envelope(url, o.Value, channel)
	switch o.Kind {
	case "order":
		a := c19Envelope(url, nil, "")
		b := protowire.AppendBytes(protowire.AppendTag(nil, 2, protowire.BytesType), o.Value)
		c := protowire.AppendString(protowire.AppendTag(nil, 3, protowire.BytesType), channel)
		return append(append(c, b...), a[:len(a)-2]...)
	case "extra":
		b := protowire.AppendVarint(protowire.AppendTag(nil, 4, protowire.VarintType), 99)
		b = append(b, plain...)
		b = protowire.AppendString(protowire.AppendTag(b, 15, protowire.BytesType), "new")
		return protowire.AppendFixed32(protowire.AppendTag(b, 100, protowire.Fixed32Type), 9)
	case "twice":
		return append(c19Envelope("nope", o.Junk, "other"), c19Envelope(url, o.Value, channel)...)
	case "prefix":
		return c19Envelope("example.org/types/"+o.Type, o.Value, channel)
	case "bare":
		return c19Envelope(o.Type, o.Value, channel)
	case "nochan":
		return c19Envelope(url, o.Value, "")
	case "otherchan":
		return c19Envelope(url, o.Value, fmt.Sprint("other", k))
	case "badchan":
		return c19Envelope(url, o.Value, "\xff\xfe"+fmt.Sprint(k))
	case "wrongwire":
		b := protowire.AppendVarint(protowire.AppendTag(nil, 1, protowire.VarintType), 99)
		b = protowire.AppendBytes(protowire.AppendTag(b, 2, protowire.BytesType), o.Value)
		return protowire.AppendString(protowire.AppendTag(b, 3, protowire.BytesType), channel)
	case "cut":
		return plain[:max(0, len(plain)-1-o.Pos%len(plain))]
	case "junk":
		return o.Junk
	case "badvalue":
		return c19Envelope(url, o.Junk, channel)
	case "unknown":
		return c19Envelope("type.googleapis.com/no.Such"+o.Type, o.Value, channel)
	case "flip":
		b := bytes.Clone(plain)
		b[o.Pos%len(b)] ^= byte(1 + o.Pos%255)
		return b
	case "notype":
		return c19Envelope("", o.Value, channel)
	case "empty":
		return nil
	}
	return plain
}

func runC19Env(e *engine.Env, c c19EnvCase) {
	f := NewFabric(c.Bus)
	defer f.Close()
	ch := psrpc.Channel{Legacy: "legacy", Server: "srv"}
	if c.Local {
		ch.Local = "loc"
	}
	rx, tx := f.Bus(), f.Bus()
	tap := newC19Tap(f)
	ctx := context.Background()

	var mu sync.Mutex
	var got []proto.Message
	var strs []string
	sub := bus.Subscribe[proto.Message]
	if c.Queue {
		sub = bus.SubscribeQueue[proto.Message]
	}
	all, err := sub(ctx, rx, ch, 1000)
	must(e, err, "subscribe")
	go func() {
		for m := range all.Channel() {
			mu.Lock()
			got = append(got, m)
			mu.Unlock()
		}
	}()
	if !c.Queue {
		only, err := bus.Subscribe[Str](ctx, rx, ch, 1000)
		must(e, err, "subscribe")
		defer only.Close()
		go func() {
			for m := range only.Channel() {
				mu.Lock()
				strs = append(strs, m.GetValue())
				mu.Unlock()
			}
		}()
	}
	var wire [][]byte
	if c.Bus != "local" {
		tap.listen(ch, func(b []byte) {
			mu.Lock()
			wire = append(wire, bytes.Clone(b))
			mu.Unlock()
		})
	}
	time.Sleep(50 * ms)

	var want []proto.Message
	may := map[int]bool{} // these may be dropped: a channel name that is not UTF-8
	seen := map[string]bool{}
	valid, dropped := 0, 0
	send := func(k int, o c19Op) {
		mu.Lock()
		n := len(wire)
		mu.Unlock()
		switch o.Kind {
		case "msg", "bad":
			var m proto.Message
			if o.Kind == "bad" {
				switch k % 3 {
				case 0:
					m = S("x\xff")
				case 1:
					m = &internal.Request{Metadata: map[string]string{"\xc0": "v"}}
				default:
					m = &descriptorpb.UninterpretedOption_NamePart{}
				}
			} else {
				m = c19Type(o.Type)
				must(e, proto.UnmarshalOptions{AllowPartial: true}.Unmarshal(o.Value, m), "harness: unmarshal")
			}
			_, merr := proto.Marshal(m)
			err := tx.Publish(ctx, ch, m)
			if (err != nil) != (merr != nil) {
				e.Failf("publishing %T (op %d): error %v, encoding it: %v", m, k, err, merr)
			}
			time.Sleep(ms)
			if merr != nil {
				dropped++
				break
			}
			valid++
			want = append(want, m)
			mu.Lock()
			w := wire[n:]
			mu.Unlock()
			if c.Bus == "local" {
				break
			}
			if len(w) != 1 {
				e.Failf("op %d: %d envelopes on the wire for one message", k, len(w))
				break
			}
			env, ok := c19Open(w[0])
			v, vok := env.message()
			if !ok || !env.chanOK || len(env.other) > 0 || env.url != "type.googleapis.com/"+o.Type || !vok || !proto.Equal(v, m) {
				e.Failf("op %d: envelope %x with fields %+v does not hold the message %v in the published format", k, w[0], env, m)
			}
			if c.Bus == "nats" && env.channel != ch.Local {
				e.Failf("op %d: the envelope names channel %q, not %q", k, env.channel, ch.Local)
			}
		default:
			if c.Bus == "local" {
				name, val := o.Type, o.Value
				if o.Kind == "badvalue" {
					val = o.Junk
				}
				if o.Kind == "unknown" {
					name = "no.Such" + strings.ReplaceAll(name, ".", "_")
				}
				must(e, tx.Publish(ctx, ch, c19Opaque(name, val)), "publish")
				if v, ok := (c19Env{url: "x/" + name, value: val}).message(); ok {
					want = append(want, v)
					valid++
				} else {
					dropped++
				}
				break
			}
			b := o.envelope(ch, k, c.Bus == "nats")
			if c.Queue && seen[string(b)] {
				return
			}
			seen[string(b)] = true
			tap.raw(ch, b)
			env, ok := c19Open(b)
			v, vok := env.message()
			ok = ok && vok
			if c.Bus == "nats" && c.Local {
				ok = ok && env.chanOK && env.channel == ch.Local
			}
			if ok {
				valid++
				may[len(want)] = !env.chanOK
				want = append(want, v)
			} else {
				dropped++
			}
			e.Class("%s: delivered %t", o.Kind, ok)
		}
		time.Sleep(ms + msd(o.After))
	}
	for k, o := range c.Ops {
		send(k, o)
	}
	if c.Big > 0 {
		m := &wrapperspb.BytesValue{Value: bytes.Repeat([]byte{0, 0xff, 7}, c.Big/3)}
		send(len(c.Ops), c19Op{Kind: "msg", Type: "google.protobuf.BytesValue", Value: must1(proto.Marshal(m))})
	}
	send(len(c.Ops)+1, c19Op{Kind: "msg", Type: "google.protobuf.StringValue", Value: must1(proto.Marshal(S("the end")))})
	time.Sleep(time.Second)

	mu.Lock()
	defer mu.Unlock()
	same := func(a, b proto.Message) bool {
		return proto.Equal(a, b) && a.ProtoReflect().Descriptor().FullName() == b.ProtoReflect().Descriptor().FullName()
	}
	var sure []proto.Message
	for i, m := range want {
		if !may[i] || (len(sure) < len(got) && same(got[len(sure)], m)) {
			sure = append(sure, m)
		}
	}
	want = sure
	if len(got) != len(want) {
		e.Failf("%d messages received, %d valid ones published\n got  %s\n want %s", len(got), len(want), c19Show(got), c19Show(want))
	} else {
		for i := range want {
			if !same(got[i], want[i]) {
				e.Failf("message %d: got %T %v, want %T %v", i, got[i], got[i], want[i], want[i])
			}
			b, _ := proto.Marshal(want[i])
			c19Payload(e, want[i], b)
		}
	}
	if !c.Queue {
		var ws []string
		for _, m := range want {
			if s, ok := m.(Str); ok {
				ws = append(ws, s.GetValue())
			}
		}
		if fmt.Sprint(ws) != fmt.Sprint(strs) {
			e.Failf("the subscriber to strings got %q, want %q", strs, ws)
		}
	}
	if valid > 1 && dropped > 0 {
		e.NonTrivial()
	}
	e.Class("bus: %s", c.Bus)
	e.Class("queue: %t", c.Queue)
	e.Class("delivered: %s", bucket(valid))
	e.Class("dropped or refused: %s", bucket(dropped))
	_ = all.Close()
}

func must1[T any](v T, err error) T {
	if err != nil {
		panic("harness: " + err.Error())
	}
	return v
}

func c19Show(l []proto.Message) string {
	var s []string
	for _, m := range l {
		x := fmt.Sprintf("%T{%v}", m, m)
		if len(x) > 120 {
			x = x[:120] + "…"
		}
		s = append(s, x)
	}
	return strings.Join(s, "\n      ")
}

// c19Payload is the round trip of what is inside requests, responses and stream messages.
func c19Payload(e *engine.Env, m proto.Message, b []byte) {
	p, err := bus.SerializePayload(m)
	if err != nil {
		e.Failf("payload %v does not encode: %v", m, err)
		return
	}
	try := func(v proto.Message, err error) {
		if err != nil || !proto.Equal(v, m) {
			e.Failf("payload %v came back as %v, %v", m, v, err)
		}
		// truncations fail or decode to something, as they do for the protobuf library
		for _, n := range []int{0, len(p) / 2, len(p) - 1} {
			if n < 0 {
				continue
			}
			x := m.ProtoReflect().New().Interface()
			want := proto.Unmarshal(p[:n], x)
			if v, err := c19Decode(m, p[:n]); (err != nil) != (want != nil) || (err == nil && !proto.Equal(v, x)) {
				e.Failf("the first %d bytes of payload %x decode to %v, %v, want %v, %v", n, p, v, err, x, want)
			}
		}
	}
	if v, err := c19Decode(m, p); v != nil {
		try(v, err)
	}
}

func c19Decode(m proto.Message, p []byte) (v proto.Message, err error) {
	switch m.(type) {
	case Str:
		v, err = bus.DeserializePayload[Str](p)
	case *structpb.Value:
		v, err = bus.DeserializePayload[*structpb.Value](p)
	case *structpb.Struct:
		v, err = bus.DeserializePayload[*structpb.Struct](p)
	case *descriptorpb.FileDescriptorProto:
		v, err = bus.DeserializePayload[*descriptorpb.FileDescriptorProto](p)
	case *internal.Request:
		v, err = bus.DeserializePayload[*internal.Request](p)
	case *internal.Stream:
		v, err = bus.DeserializePayload[*internal.Stream](p)
	}
	return
}

func init() {
	engine.Add("C19", "envelope", "at least two messages delivered and at least one refused or dropped", 1500, 30000, genC19Env, runC19Env)
}
