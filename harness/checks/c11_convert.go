package checks

import (
	"errors"
	"fmt"
	"net/http"
	"reflect"

	"github.com/twitchtv/twirp"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"
	"google.golang.org/protobuf/proto"
	"pgregory.net/rapid"

	"github.com/livekit/psrpc"
	"github.com/livekit/psrpc/verif/engine"
)

type c11Case struct {
	Err   ErrNode
	Codes []uint32 // gRPC codes
	Names [][]byte // psrpc codes
}

func genC11(t *rapid.T) c11Case {
	c := c11Case{
		Err:   genErr(t, 4),
		Codes: rapid.SliceOfN(rapid.OneOf(rapid.Uint32Range(0, 20), rapid.Uint32()), 1, 4).Draw(t, "codes"),
	}
	for range 3 {
		c.Names = append(c.Names, genCode(t))
	}
	return c
}

type forms struct {
	http  int
	grpc  codes.Code
	twirp twirp.ErrorCode
}

// c11Forms says what a code looks like elsewhere. Codes that exist under the
// same name in gRPC or Twirp keep it; the others go to the nearest one.
var c11Forms = map[psrpc.ErrorCode]forms{
	psrpc.OK:                  {200, codes.OK, twirp.NoError},
	psrpc.Canceled:            {503, codes.Canceled, twirp.Canceled},
	psrpc.MalformedRequest:    {400, codes.InvalidArgument, twirp.Malformed},
	psrpc.MalformedResponse:   {500, codes.Internal, twirp.Malformed},
	psrpc.DeadlineExceeded:    {503, codes.DeadlineExceeded, twirp.DeadlineExceeded},
	psrpc.Unavailable:         {503, codes.Unavailable, twirp.Unavailable},
	psrpc.Unknown:             {500, codes.Unknown, twirp.Unknown},
	psrpc.InvalidArgument:     {400, codes.InvalidArgument, twirp.InvalidArgument},
	psrpc.NotFound:            {404, codes.NotFound, twirp.NotFound},
	psrpc.NotAcceptable:       {406, codes.Unknown, twirp.Unknown},
	psrpc.AlreadyExists:       {409, codes.AlreadyExists, twirp.AlreadyExists},
	psrpc.PermissionDenied:    {403, codes.PermissionDenied, twirp.PermissionDenied},
	psrpc.ResourceExhausted:   {429, codes.ResourceExhausted, twirp.ResourceExhausted},
	psrpc.FailedPrecondition:  {412, codes.FailedPrecondition, twirp.FailedPrecondition},
	psrpc.Aborted:             {409, codes.Aborted, twirp.Aborted},
	psrpc.OutOfRange:          {416, codes.OutOfRange, twirp.OutOfRange},
	psrpc.Unimplemented:       {501, codes.Unimplemented, twirp.Unimplemented},
	psrpc.Internal:            {500, codes.Internal, twirp.Internal},
	psrpc.DataLoss:            {500, codes.DataLoss, twirp.DataLoss},
	psrpc.Unauthenticated:     {401, codes.Unauthenticated, twirp.Unauthenticated},
	psrpc.UnprocessableEntity: {422, codes.Unknown, twirp.Unknown},
	psrpc.UpstreamServerError: {502, codes.Internal, twirp.Internal},
	psrpc.UpstreamClientError: {424, codes.InvalidArgument, twirp.InvalidArgument},
}

func formsOf(c psrpc.ErrorCode) forms {
	if f, ok := c11Forms[c]; ok {
		return f
	}
	return forms{500, codes.Unknown, twirp.Unknown}
}

func runC11(e *engine.Env, c c11Case) {
	one := func(p psrpc.ErrorCode) {
		f := formsOf(p)
		if got := p.ToHTTP(); got != f.http || http.StatusText(got) == "" {
			e.Failf("code %q is the HTTP status %d, want %d", p, got, f.http)
		}
		if got := p.ToGRPC(); got != f.grpc {
			e.Failf("code %q is the gRPC code %v, want %v", p, got, f.grpc)
		}
		if got := p.ToTwirp(); got != f.twirp {
			e.Failf("code %q is the Twirp code %q, want %q", p, got, f.twirp)
		}
		if p.Error() != string(p) {
			e.Failf("code %q reads %q as an error", p, p.Error())
		}
	}
	for _, n := range c.Names {
		one(psrpc.ErrorCode(n))
	}
	for p := range c11Forms {
		one(p)
	}
	for _, n := range c.Codes {
		g := codes.Code(n)
		p := psrpc.ErrorCodeFromGRPC(g)
		if p != grpcCode(int(n)) {
			e.Failf("gRPC code %d is the code %q, want %q", n, p, grpcCode(int(n)))
		}
		if n <= 16 && p.ToGRPC() != g {
			e.Failf("gRPC code %v comes back as %v", g, p.ToGRPC())
		}
	}

	root := c.Err.build()
	root.walk(func(b built) {
		err, name := b.err, describe(&b.node)
		if err.Error() != b.message() {
			e.Failf("%s: reads %q, want %q", name, err.Error(), b.message())
		}
		// the code of any error
		code, ok := psrpc.GetErrorCode(err)
		wantCode, wantOK := psrpc.Unknown, false
		if p, is := b.find(isPsrpc); is {
			wantCode, wantOK = psrpc.ErrorCode(p.node.Code), true
		} else if g, is := b.find(isGRPC); is {
			switch g.node.Kind {
			case "grpc":
				wantCode, wantOK = grpcCode(g.node.GRPC), true
			case "grpcok":
				wantCode, wantOK = psrpc.OK, true
			}
		}
		if code != wantCode || ok != wantOK {
			e.Failf("%s: its code is said to be %q, %v, want %q, %v", name, code, ok, wantCode, wantOK)
		}
		// everything below is found from here
		seen := false
		b.walk(func(k built) {
			if !errors.Is(err, k.err) {
				e.Failf("%s: errors.Is does not find the wrapped %s", name, describe(&k.node))
			}
			if isPsrpc(k) {
				if !errors.Is(err, psrpc.ErrorCode(k.node.Code)) {
					e.Failf("%s: errors.Is does not find the code %q", name, k.node.Code)
				}
				var cu *customErr
				if c, is := b.find(func(x built) bool { return x.node.Kind == "custom" }); is {
					if !errors.As(err, &cu) || cu != c.err {
						e.Failf("%s: errors.As does not find the wrapped custom error", name)
					}
				}
				seen = true
			}
		})
		if seen {
			p, _ := b.find(isPsrpc)
			want := psrpc.ErrorCode(p.node.Code)
			var pe psrpc.Error
			if !errors.As(err, &pe) || pe != p.err {
				e.Failf("%s: errors.As finds %v, want the outermost psrpc error", name, pe)
				return
			}
			var te twirp.Error
			if !errors.As(err, &te) || te.Code() != formsOf(want).twirp || te.Msg() != p.message() {
				e.Failf("%s: as a Twirp error it is %v, want %q %q", name, te, formsOf(want).twirp, p.message())
			}
			var ec psrpc.ErrorCode
			if !errors.As(err, &ec) {
				e.Failf("%s: errors.As does not find a code", name)
			}
		}
		if !isPsrpc(b) {
			return
		}
		pe, ok := err.(psrpc.Error)
		if !ok {
			e.Failf("%s: %T is not a psrpc error", name, err)
			return
		}
		own := psrpc.ErrorCode(b.node.Code)
		f := formsOf(own)
		if pe.Code() != own || pe.ToHttp() != f.http {
			e.Failf("%s: has code %q and HTTP status %d, want %q and %d", name, pe.Code(), pe.ToHttp(), own, f.http)
		}
		if !sameDetails(pe.DetailsProto(), b.node.anys()) {
			e.Failf("%s: has details %v, want %v", name, pe.DetailsProto(), b.node.anys())
		}
		st := pe.GRPCStatus()
		if st.Code() != f.grpc || st.Message() != b.message() || !sameDetails(st.Proto().GetDetails(), b.node.anys()) {
			e.Failf("%s: as a gRPC status it is %v %q %v", name, st.Code(), st.Message(), st.Proto().GetDetails())
		}
		if st2, ok := status.FromError(err); !ok || st2.Code() != f.grpc {
			e.Failf("%s: gRPC sees the code %v, want %v", name, st2.Code(), f.grpc)
		}
		ds := pe.Details()
		if len(ds) != len(b.node.Det) {
			e.Failf("%s: has %d decoded details, want %d", name, len(ds), len(b.node.Det))
		} else {
			for i, d := range b.node.details() {
				if m, ok := ds[i].(proto.Message); !ok || !proto.Equal(m, d) {
					e.Failf("%s: decoded detail %d is %v, want %v", name, i, ds[i], d)
				}
			}
		}
		// once more as it arrives from the wire
		re := psrpc.NewErrorFromResponse(string(own), b.message(), pe.DetailsProto()...)
		wantRe := own
		if wantRe == "" {
			wantRe = psrpc.Unknown
		}
		if re.Code() != wantRe || re.Error() != b.message() || !sameDetails(re.DetailsProto(), pe.DetailsProto()) {
			e.Failf("%s: comes from the wire as %q %q with %d details", name, re.Code(), re.Error(), len(re.DetailsProto()))
		}
		if !errors.Is(re, wantRe) {
			e.Failf("%s: coming from the wire its code is not found by errors.Is", name)
		}
	})
	depth := 0
	var deep func(n ErrNode, d int)
	deep = func(n ErrNode, d int) {
		depth = max(depth, d)
		for _, k := range n.Kids {
			deep(k, d+1)
		}
	}
	deep(c.Err, 1)
	e.Class("depth: %d", depth)
	e.Class("kind: %s", c.Err.Kind)
	if depth > 1 || len(c.Err.Det) > 0 {
		e.NonTrivial()
	}
	// a nil error cannot be made into one with a code
	func() {
		defer func() {
			if recover() == nil {
				e.Failf("NewError accepts a nil error")
			}
		}()
		psrpc.NewError(psrpc.Internal, nil)
	}()
	if code, ok := psrpc.GetErrorCode(nil); ok && code != psrpc.OK {
		e.Failf("no error has the code %q", code)
	}
	for _, x := range []struct {
		err  error
		code psrpc.ErrorCode
	}{{psrpc.ErrRequestCanceled, psrpc.Canceled}, {psrpc.ErrRequestTimedOut, psrpc.DeadlineExceeded}, {psrpc.ErrNoResponse, psrpc.Unavailable},
		{psrpc.ErrUnimplemented, psrpc.Unimplemented}, {psrpc.ErrClientClosed, psrpc.Canceled}, {psrpc.ErrServerClosed, psrpc.Canceled},
		{psrpc.ErrStreamClosed, psrpc.Canceled}, {psrpc.ErrStreamEOF, psrpc.Unavailable}, {psrpc.ErrSlowConsumer, psrpc.Unavailable}} {
		if w := fmt.Errorf("x: %w", x.err); !errors.Is(w, x.err) || !errors.Is(w, x.code) || reflect.ValueOf(x.err).IsNil() {
			e.Failf("%v is not found in %v with code %q", x.err, w, x.code)
		}
	}
}

func init() {
	engine.Add("C11", "conversions", "the error wraps another one or carries details",
		6000, 100000, genC11, runC11, engine.Real())
}
