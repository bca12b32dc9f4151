package checks

import (
	"errors"
	"fmt"
	"strings"

	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/known/anypb"
	"google.golang.org/protobuf/types/known/durationpb"
	"google.golang.org/protobuf/types/known/emptypb"
	"google.golang.org/protobuf/types/known/structpb"
	"google.golang.org/protobuf/types/known/wrapperspb"
	"pgregory.net/rapid"

	"github.com/livekit/psrpc"
)

// ErrNode describes an error.
type ErrNode struct {
	Kind string // psrpc psrpcwrap grpc grpcok grpcnil plain fmt join custom
	Code []byte // psrpc: bytes, since a code need not be text
	GRPC int
	Msg  []byte
	Det  []int // details, see detail
	Kids []ErrNode
}

const knownDetails = 30 // the others only exist as google.protobuf.Any

func detail(k int) proto.Message {
	switch k % 6 {
	case 0:
		return S(fmt.Sprint("detail ", k))
	case 1:
		return durationpb.New(msd(k))
	case 2:
		return &emptypb.Empty{}
	case 3:
		return &structpb.Value{Kind: &structpb.Value_NumberValue{NumberValue: float64(k)}}
	case 4:
		return &wrapperspb.BytesValue{Value: []byte{0, 255, byte(k)}}
	}
	a, _ := anypb.New(wrapperspb.Int64(int64(k)))
	return a
}

type customErr struct {
	msg string
	kid error
}

func (c *customErr) Error() string { return c.msg }
func (c *customErr) Unwrap() error { return c.kid }

type grpcErr struct {
	msg string
	st  *status.Status
}

func (g *grpcErr) Error() string              { return g.msg }
func (g *grpcErr) GRPCStatus() *status.Status { return g.st }

func (n ErrNode) details() (out []proto.Message) {
	for _, k := range n.Det {
		out = append(out, detail(k))
	}
	return
}

func (n ErrNode) anys() (out []*anypb.Any) {
	for _, k := range n.Det {
		switch {
		case k <= knownDetails:
			a, _ := anypb.New(detail(k))
			out = append(out, a)
		case k%2 == 0: // of a type that is not linked in
			out = append(out, &anypb.Any{TypeUrl: fmt.Sprint("type.googleapis.com/elsewhere.Detail", k), Value: []byte{8, byte(k)}})
		default: // not a message of its type
			out = append(out, &anypb.Any{TypeUrl: "type.googleapis.com/google.protobuf.StringValue", Value: []byte{10, 200, byte(k)}})
		}
	}
	return
}

// built is an error made from its description, with every node's error.
type built struct {
	node ErrNode
	err  error
	kids []built
}

func (n ErrNode) build() built {
	b := built{node: n}
	var ks []error
	for _, k := range n.Kids {
		x := k.build()
		b.kids = append(b.kids, x)
		ks = append(ks, x.err)
	}
	msg, code := string(n.Msg), psrpc.ErrorCode(n.Code)
	switch n.Kind {
	case "psrpc":
		if len(n.Det) == 0 && len(msg)%2 == 0 {
			b.err = psrpc.NewErrorf(code, "%s", msg)
		} else {
			b.err = psrpc.NewError(code, errors.New(msg), n.details()...)
		}
	case "psrpcwrap":
		if len(n.Det) == 0 && len(n.Code)%2 == 0 {
			b.err = psrpc.NewErrorf(code, "%w", ks[0])
		} else {
			b.err = psrpc.NewError(code, ks[0], n.details()...)
		}
	case "grpc":
		st := status.FromProto(status.New(codes.Code(n.GRPC), msg).Proto())
		p := st.Proto()
		p.Details = n.anys()
		b.err = status.FromProto(p).Err()
	case "grpcok":
		b.err = &grpcErr{msg, status.New(codes.OK, "ok")}
	case "grpcnil":
		b.err = &grpcErr{msg, nil}
	case "fmt":
		b.err = fmt.Errorf("%s: %w", msg, ks[0])
	case "join":
		b.err = errors.Join(ks...)
	case "custom":
		b.err = &customErr{msg, ks[0]}
	default:
		b.err = errors.New(msg)
	}
	return b
}

// find returns the first node, from the outside in, that f accepts.
func (b built) find(f func(built) bool) (built, bool) {
	if f(b) {
		return b, true
	}
	for _, k := range b.kids {
		if x, ok := k.find(f); ok {
			return x, true
		}
	}
	return built{}, false
}

func (b built) walk(f func(built)) {
	f(b)
	for _, k := range b.kids {
		k.walk(f)
	}
}

// message is the text of the error, from its description.
func (b built) message() string {
	msg := string(b.node.Msg)
	switch b.node.Kind {
	case "psrpcwrap":
		return b.kids[0].message()
	case "fmt":
		return msg + ": " + b.kids[0].message()
	case "join":
		var out []string
		for _, k := range b.kids {
			out = append(out, k.message())
		}
		return strings.Join(out, "\n")
	case "grpc":
		return fmt.Sprintf("rpc error: code = %s desc = %s", codes.Code(b.node.GRPC), msg)
	}
	return msg
}

// sees is what the other side of the wire should see of an error.
type sees struct {
	code    psrpc.ErrorCode
	msg     string
	details []*anypb.Any
}

var grpcNames = []psrpc.ErrorCode{
	psrpc.OK, psrpc.Canceled, psrpc.Unknown, psrpc.InvalidArgument, psrpc.DeadlineExceeded, psrpc.NotFound, psrpc.AlreadyExists,
	psrpc.PermissionDenied, psrpc.ResourceExhausted, psrpc.FailedPrecondition, psrpc.Aborted, psrpc.OutOfRange, psrpc.Unimplemented,
	psrpc.Internal, psrpc.Unavailable, psrpc.DataLoss, psrpc.Unauthenticated,
}

func grpcCode(c int) psrpc.ErrorCode {
	if c >= 0 && c < len(grpcNames) {
		return grpcNames[c]
	}
	return psrpc.Unknown
}

func isPsrpc(b built) bool { return b.node.Kind == "psrpc" || b.node.Kind == "psrpcwrap" }
func isGRPC(b built) bool {
	return b.node.Kind == "grpc" || b.node.Kind == "grpcok" || b.node.Kind == "grpcnil"
}

// wire is the model of what crosses the wire.
func (b built) wire() sees {
	if p, ok := b.find(isPsrpc); ok {
		s := sees{psrpc.ErrorCode(p.node.Code), p.message(), p.node.anys()}
		if s.code == "" {
			s.code = psrpc.Unknown
		}
		return s
	}
	if g, ok := b.find(isGRPC); ok && g.node.Kind == "grpc" {
		msg := string(g.node.Msg)
		if b.node.Kind != "grpc" {
			msg = b.message()
		}
		return sees{grpcCode(g.node.GRPC), msg, g.node.anys()}
	}
	return sees{psrpc.Unknown, b.message(), nil}
}

// readable makes text comparable that had its non-text bytes replaced.
func readable(s string) string {
	s = strings.ToValidUTF8(s, "\uFFFD")
	for strings.Contains(s, "\uFFFD\uFFFD") {
		s = strings.ReplaceAll(s, "\uFFFD\uFFFD", "\uFFFD")
	}
	return s
}

var allCodes = []psrpc.ErrorCode{
	psrpc.OK, psrpc.Canceled, psrpc.MalformedRequest, psrpc.MalformedResponse, psrpc.DeadlineExceeded, psrpc.Unavailable, psrpc.Unknown,
	psrpc.InvalidArgument, psrpc.NotFound, psrpc.NotAcceptable, psrpc.AlreadyExists, psrpc.PermissionDenied, psrpc.ResourceExhausted,
	psrpc.FailedPrecondition, psrpc.Aborted, psrpc.OutOfRange, psrpc.Unimplemented, psrpc.Internal, psrpc.DataLoss, psrpc.Unauthenticated,
	psrpc.UnprocessableEntity, psrpc.UpstreamServerError, psrpc.UpstreamClientError,
}

func genText(t *rapid.T, label string) []byte {
	switch rapid.IntRange(0, 9).Draw(t, label+"kind") {
	case 0, 1, 2, 3:
		return []byte(rapid.StringMatching(`[a-z ]{1,12}`).Draw(t, label))
	case 4:
		return nil
	case 5:
		return []byte(rapid.String().Draw(t, label))
	case 6:
		return rapid.SliceOfN(rapid.Byte(), 0, 12).Draw(t, label)
	case 7:
		return []byte(rapid.SampledFrom([]string{"%s %d %v", "\x00", "a\nb", "ä\xff\xfe日本", "\xed\xa0\x80", "nil", "EOF", "null", " ", "\xff"}).Draw(t, label))
	case 8:
		return []byte(strings.Repeat("long message ", rapid.IntRange(1, 3000).Draw(t, label)))
	}
	return []byte(rapid.SampledFrom(allCodes).Draw(t, label))
}

func genCode(t *rapid.T) []byte {
	if rapid.IntRange(0, 6).Draw(t, "customcode") == 6 {
		return genText(t, "code")
	}
	return []byte(rapid.SampledFrom(allCodes).Draw(t, "code"))
}

func genDetails(t *rapid.T, limit int) []int {
	n := 4
	if rapid.IntRange(0, 9).Draw(t, "many") == 9 {
		n = 80
	}
	return rapid.SliceOfN(rapid.IntRange(0, limit), 0, n).Draw(t, "details")
}

func genErr(t *rapid.T, depth int) ErrNode {
	kinds := []string{"psrpc", "psrpc", "psrpc", "grpc", "plain", "grpcok", "grpcnil"}
	if depth > 0 {
		kinds = append(kinds, "fmt", "psrpcwrap", "custom", "join", "fmt")
	}
	n := ErrNode{Kind: rapid.SampledFrom(kinds).Draw(t, "kind")}
	switch n.Kind {
	case "psrpc", "psrpcwrap":
		n.Code = genCode(t)
		n.Det = genDetails(t, knownDetails)
	case "grpc":
		n.GRPC = rapid.OneOf(rapid.IntRange(1, 16), rapid.IntRange(1, 40)).Draw(t, "grpc")
		n.Det = genDetails(t, knownDetails+10)
	}
	switch n.Kind {
	case "fmt", "psrpcwrap", "custom":
		n.Kids = []ErrNode{genErr(t, depth-1)}
	case "join":
		for range rapid.IntRange(1, 3).Draw(t, "kids") {
			n.Kids = append(n.Kids, genErr(t, depth-1))
		}
	}
	if n.Kind != "join" && n.Kind != "psrpcwrap" {
		n.Msg = genText(t, "msg")
	}
	return n
}
