package checks

import (
	"context"
	"errors"
	"fmt"
	"strconv"
	"sync"
	"time"

	"google.golang.org/grpc/status"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/known/anypb"
	"google.golang.org/protobuf/types/known/wrapperspb"
	"pgregory.net/rapid"

	"github.com/livekit/psrpc"
	"github.com/livekit/psrpc/pkg/client"
	"github.com/livekit/psrpc/pkg/metadata"
	"github.com/livekit/psrpc/pkg/server"
	"github.com/livekit/psrpc/verif/engine"
)

type c10Call struct {
	How  string // single multi return sclose cclose
	At   int
	Work int
	Err  *ErrNode // nil: success
	Both bool     // the handler returns a response as well
}

type c10Case struct {
	Bus     string
	Claim   bool
	Servers int // for multi calls
	Calls   []c10Call
}

func genC10(t *rapid.T) c10Case {
	c := c10Case{
		Bus:     genBus(t, 4),
		Claim:   rapid.Bool().Draw(t, "claim"),
		Servers: rapid.IntRange(1, 3).Draw(t, "servers"),
	}
	c.Calls = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) c10Call {
		x := c10Call{
			How:  rapid.SampledFrom([]string{"single", "single", "multi", "return", "sclose", "cclose"}).Draw(t, "how"),
			At:   rapid.SampledFrom([]int{0, 0, 5}).Draw(t, "at"),
			Work: rapid.SampledFrom([]int{0, 1, 5}).Draw(t, "work"),
			Both: rapid.Bool().Draw(t, "both"),
		}
		if rapid.IntRange(0, 7).Draw(t, "ok") > 0 {
			n := genErr(t, 3)
			x.Err = &n
		}
		return x
	}), 1, 5).Draw(t, "calls")
	return c
}

func sameDetails(a, b []*anypb.Any) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !proto.Equal(a[i], b[i]) {
			return false
		}
	}
	return true
}

func runC10(e *engine.Env, c c10Case) {
	fab := NewFabric(c.Bus)
	ms_ := []Method{{Name: "Do", Claim: c.Claim}, {Name: "All", Multi: true}, {Name: "St", Claim: c.Claim}}
	made := make([]built, len(c.Calls))
	for i, x := range c.Calls {
		if x.Err != nil {
			made[i] = x.Err.build()
			if made[i].err.Error() != made[i].message() {
				panic(fmt.Sprintf("harness: %q is not %q", made[i].err.Error(), made[i].message()))
			}
		}
	}
	answer := func(r Str) (Str, error) {
		i, err := strconv.Atoi(r.GetValue())
		if err != nil || i >= len(c.Calls) {
			e.Failf("a handler got the request %q", r.GetValue())
			return nil, nil
		}
		time.Sleep(msd(c.Calls[i].Work))
		if c.Calls[i].Err == nil {
			return S("fine " + r.GetValue()), nil
		}
		if c.Calls[i].Both {
			return S("both"), made[i].err
		}
		return nil, made[i].err
	}
	type closed struct {
		side int
		err  error
	}
	var mu sync.Mutex
	closes := map[int]closed{}
	var servers []*server.RPCServer
	for k := range c.Servers {
		s := server.NewRPCServer(define("Svc", fmt.Sprint("srv", k), ms_...), fab.Bus())
		servers = append(servers, s)
		must(e, server.RegisterHandler(s, "All", nil, func(_ context.Context, r Str) (Str, error) { return answer(r) }, nil), "register")
		if k > 0 {
			continue
		}
		must(e, server.RegisterHandler(s, "Do", nil, func(_ context.Context, r Str) (Str, error) { return answer(r) }, nil), "register")
		must(e, server.RegisterStreamHandler[Str, Str](s, "St", nil, func(ss psrpc.ServerStream[Str, Str]) error {
			i, _ := strconv.Atoi(metadata.IncomingHeader(ss.Context()).Metadata["call"])
			switch c.Calls[i].How {
			case "return":
				time.Sleep(msd(c.Calls[i].Work))
				return made[i].err
			case "sclose":
				time.Sleep(msd(c.Calls[i].Work))
				if err := ss.Close(made[i].err); err != nil {
					e.Failf("Close of an open stream returned %v", err)
				}
				return nil
			}
			<-ss.Context().Done()
			mu.Lock()
			closes[i] = closed{1, ss.Err()}
			mu.Unlock()
			return nil
		}, nil), "register")
	}
	cl, err := client.NewRPCClientWithStreams(define("Svc", "cli", ms_...), fab.Bus())
	must(e, err, "new client")
	time.Sleep(time.Second)

	judge := func(what string, x c10Call, b built, res Str, err error, details bool) {
		what = fmt.Sprintf("%s (handler error %s)", what, describe(x.Err))
		if x.Err == nil {
			return // judged by the caller
		}
		if err == nil {
			e.Failf("%s: the caller got a success (%q)", what, res.GetValue())
			return
		}
		if res != nil {
			e.Failf("%s: the caller got the response %q along with the error", what, res.GetValue())
		}
		var p psrpc.Error
		if !errors.As(err, &p) {
			e.Failf("%s: the caller got %T, not a psrpc error", what, err)
			return
		}
		want := b.wire()
		if p.Code() != psrpc.ErrorCode(readable(string(want.code))) && readable(string(p.Code())) != readable(string(want.code)) {
			e.Failf("%s: the caller got code %q, want %q", what, p.Code(), want.code)
		}
		if readable(p.Error()) != readable(want.msg) {
			e.Failf("%s: the caller got message %.80q, want %.80q", what, p.Error(), want.msg)
		}
		if !details {
			return
		}
		if !sameDetails(p.DetailsProto(), want.details) {
			e.Failf("%s: the caller got details %v, want %v", what, p.DetailsProto(), want.details)
		}
		if ds := p.Details(); len(ds) != len(want.details) {
			e.Failf("%s: the caller got %d decoded details, want %d", what, len(ds), len(want.details))
		} else {
			for i, d := range ds {
				m, err := want.details[i].UnmarshalNew()
				if err != nil {
					if _, ok := d.(error); !ok {
						e.Failf("%s: detail %d cannot be decoded, and yet is %v", what, i, d)
					}
					continue
				}
				if dm, ok := d.(proto.Message); !ok || !proto.Equal(dm, m) {
					e.Failf("%s: decoded detail %d is %v, want %v", what, i, d, m)
				}
			}
		}
		if st, ok := status.FromError(err); !ok || !sameDetails(st.Proto().GetDetails(), want.details) {
			e.Failf("%s: as a gRPC status the error has details %v, want %v", what, st.Proto().GetDetails(), want.details)
		}
	}

	var wg sync.WaitGroup
	for i, x := range c.Calls {
		wg.Add(1)
		go func() {
			defer wg.Done()
			time.Sleep(msd(x.At))
			name := fmt.Sprintf("call %d (%s)", i, x.How)
			fine := "fine " + strconv.Itoa(i)
			switch x.How {
			case "single":
				res, err := client.RequestSingle[Str](context.Background(), cl, "Do", nil, S(strconv.Itoa(i)))
				judge(name, x, made[i], res, err, true)
				if x.Err == nil && (err != nil || res.GetValue() != fine) {
					e.Failf("%s: got %q, %v, want %q", name, res.GetValue(), err, fine)
				}
			case "multi":
				ch, err := client.RequestMulti[Str](context.Background(), cl, "All", nil, S(strconv.Itoa(i)))
				if err != nil {
					e.Failf("%s: %v", name, err)
					return
				}
				n := 0
				for r := range ch {
					n++
					judge(name, x, made[i], r.Result, r.Err, true)
					if x.Err == nil && (r.Err != nil || r.Result.GetValue() != fine) {
						e.Failf("%s: got %q, %v, want %q", name, r.Result.GetValue(), r.Err, fine)
					}
				}
				if n != c.Servers {
					e.Failf("%s: %d results from %d servers", name, n, c.Servers)
				}
			default:
				ctx := metadata.NewContextWithOutgoingMetadata(context.Background(), metadata.Metadata{"call": strconv.Itoa(i)})
				cs, err := client.OpenStream[*wrapperspb.StringValue, *wrapperspb.StringValue](ctx, cl, "St", nil)
				if err != nil {
					e.Failf("%s: open failed with %v", name, err)
					return
				}
				if x.How == "cclose" {
					time.Sleep(msd(x.Work))
					if err := cs.Close(made[i].err); err != nil {
						e.Failf("%s: Close of an open stream returned %v", name, err)
					}
					return
				}
				if !within(10*time.Second, func() { <-cs.Context().Done() }) {
					e.Failf("%s: the stream did not end", name)
					return
				}
				mu.Lock()
				closes[i] = closed{0, cs.Err()}
				mu.Unlock()
			}
		}()
	}
	wg.Wait()
	time.Sleep(10 * time.Second)
	kinds := map[string]bool{}
	mu.Lock()
	for i, x := range c.Calls {
		if x.Err != nil {
			made[i].walk(func(b built) { kinds[b.node.Kind] = true })
		}
		if x.How == "single" || x.How == "multi" {
			continue
		}
		got, ok := closes[i]
		name := fmt.Sprintf("call %d (%s)", i, x.How)
		switch {
		case !ok:
			e.Failf("%s: the other end never learned of the end of the stream", name)
		case x.Err == nil:
			if got.err == nil || code(got.err) != psrpc.ErrStreamClosed.Code() || got.err.Error() != psrpc.ErrStreamClosed.Error() {
				e.Failf("%s: a stream closed without a cause reports %v at the other end", name, got.err)
			}
		default:
			judge(name, x, made[i], nil, got.err, false)
		}
	}
	mu.Unlock()
	for k := range kinds {
		e.Class("error: %s", k)
	}
	e.Class("bus: %s", c.Bus)
	for _, x := range c.Calls {
		e.Class("how: %s", x.How)
		if x.Err != nil && (len(x.Err.Kids) > 0 || len(x.Err.Det) > 0 || x.Err.Kind != "psrpc") {
			e.NonTrivial()
		}
	}
	cl.Close()
	for _, s := range servers {
		s.Close(true)
	}
	time.Sleep(time.Second)
	fab.Close()
	time.Sleep(time.Minute)
}

func describe(n *ErrNode) string {
	if n == nil {
		return "nil"
	}
	s := n.Kind
	if len(n.Code) > 0 {
		s += fmt.Sprintf(" %.20q", n.Code)
	}
	if len(n.Msg) > 0 {
		s += fmt.Sprintf(" %.20q", n.Msg)
	}
	if len(n.Det) > 0 {
		s += fmt.Sprintf(" +%d details", len(n.Det))
	}
	for i := range n.Kids {
		s += " <" + describe(&n.Kids[i]) + ">"
	}
	return s
}

func init() {
	engine.Add("C10", "wire", "some call's error was not a bare psrpc error without details",
		2500, 40000, genC10, runC10)
}
