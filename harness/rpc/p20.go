package main

import (
	"context"
	"errors"
	"fmt"
	"io"
	"net/http"
	"os"
	"strings"
	"sync/atomic"
	"time"

	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"
	"google.golang.org/protobuf/proto"

	"github.com/livekit/psrpc"
	"github.com/livekit/psrpc/internal/zzverif/mc"
	. "github.com/livekit/psrpc/internal/zzverif/sim"
	"github.com/livekit/psrpc/pkg/client"
	"github.com/livekit/psrpc/pkg/middleware"
)

type p20val struct{ a, b int }

type p20err struct{ msg string }

func (e *p20err) Error() string { return e.msg } // panics for nil

type p20str struct{}

func (p20str) String() string { panic("in String") }

func deep(n int, f func()) int {
	if n == 0 {
		f()
		return 0
	}
	return deep(n-1, f) + 1
}

var p20panics = []func(){
	func() { panic("text") },
	func() { panic("") },
	func() { panic(errors.New("an error")) },
	func() { panic(psrpc.NewErrorf(psrpc.NotFound, "a psrpc error")) },
	func() { panic(nil) },
	func() { panic(p20val{1, 2}) },
	func() { panic(&p20val{}) },
	func() { panic(42) },
	func() { panic(context.Canceled) },
	func() { panic("bad utf8 \xff") },
	func() { var m map[string]int; m["x"] = 1 },
	func() { var p *p20val; p.a = 1 },
	func() { var v any = "s"; _ = v.(int) },
	func() { var v any; _ = v.(fmt.Stringer) },
	func() { z := 0; z = 1 / z },
	func() { var c chan int; close(c) },
	func() { c := make(chan int); close(c); close(c) },
	func() { c := make(chan int); close(c); c <- 1 },
	func() { n := -1; _ = make([]int, n) },
	func() { _ = [](int)(nil)[:3] },
	func() { _ = [2]int([]int{1}) },
	func() { m := map[any]int{}; m[[]int{}] = 1 },
	func() { var f func(); f() },
	func() { var a, b any = []int{}, []int{}; _ = a == b },
	func() { panic(http.ErrAbortHandler) },
	func() { panic(io.EOF) },
	func() { panic(psrpc.ErrRequestTimedOut) },
	func() { panic(psrpc.OK) },
	func() { panic(status.Error(codes.NotFound, "grpc")) },
	func() { panic(fmt.Errorf("wrapped: %w", psrpc.ErrServerClosed)) },
	func() { panic((*p20err)(nil)) },
	func() { panic(p20str{}) },
	func() { panic(func() {}) },
	func() { panic(make(chan int)) },
	func() { panic(true) },
	func() { panic(os.ErrDeadlineExceeded) },
	func() { panic(3.5) },
	func() { panic([]byte("bytes")) },
	func() { a := []int{}; _ = a[len(a)] },
	func() { deep(200, func() { panic("deep") }) },
	func() { defer func() { panic("second") }(); panic("first") },
	func() { defer func() { r := recover(); panic(r) }(); panic("again") },
}

func panicErr(x *mc.X, what string, err error) {
	if err == nil {
		x.Fail("%s: a panicking handler is reported as success", what)
		return
	}
	e, ok := err.(psrpc.Error)
	if !ok || e.Code() != psrpc.Internal || e.Error() == "" {
		x.Fail("%s: a panicking handler is reported as %T %s", what, err, trim(err.Error()))
	}
}

// p20calls: a panic in one of several calls, every value, kind of call and place.
func p20calls(x *mc.X) {
	rpc := Pick2(x, 1, "one", "aff", "single", "queue", "multi")
	p := p20panics[x.Choice(len(p20panics), 2)]
	where := x.Choice(3, 3) // handler, inner interceptor before and after the handler
	extra := x.Choice(3, 4) // number of interceptors before the recovery
	w := NewWorld(x)
	var opts []psrpc.ServerOption
	saw := 0
	for i := 0; i < extra; i++ {
		opts = append(opts, psrpc.WithServerRPCInterceptors(func(ctx context.Context, req proto.Message, _ psrpc.RPCInfo, next psrpc.ServerRPCHandler) (proto.Message, error) {
			res, err := next(ctx, req)
			if strings.HasPrefix(val(req), "p") {
				saw++
				panicErr(x, "interceptor", err)
			}
			return res, err
		}))
	}
	opts = append(opts, psrpc.WithServerRPCInterceptors(middleware.WithServerRecovery()))
	if where > 0 {
		opts = append(opts, psrpc.WithServerRPCInterceptors(func(ctx context.Context, req proto.Message, _ psrpc.RPCInfo, next psrpc.ServerRPCHandler) (proto.Message, error) {
			if val(req) == "p" && where == 1 {
				p()
			}
			res, err := next(ctx, req)
			if val(req) == "p" {
				p()
			}
			return res, err
		}))
	}
	s := w.Server("A", opts...)
	plain := psrpc.NewErrorf(psrpc.Aborted, "an ordinary error")
	w.Handle(s, rpc, nil, func(ctx context.Context, m *Msg) (*Msg, error) {
		switch m.Value {
		case "p":
			if where == 0 {
				p()
			}
		case "e":
			return nil, plain
		case "both":
			return M("value"), fmt.Errorf("plain")
		}
		return M("ok " + m.Value), nil
	}, nil)
	c := w.Client("C")
	call := func(req string) (string, error) {
		if rpc == "multi" {
			ch, err := client.RequestMulti[*Msg](context.Background(), c, rpc, nil, M(req), psrpc.WithRequestTimeout(time.Second))
			if err != nil {
				return "", err
			}
			n, res := 0, ""
			for r := range ch {
				n++
				if err = r.Err; err == nil {
					res = val(r.Result)
				}
			}
			if n != 1 {
				x.Fail("%d responses", n)
			}
			return res, err
		}
		took := time.Now()
		res, err := Call(context.Background(), c, rpc, nil, req)
		if d := time.Since(took); d > 0 && (rpc != "aff" || d > 200*time.Millisecond) { // the selection window
			x.Fail("the answer to %q took %v", req, d)
		}
		return res, err
	}
	for _, req := range []string{"a", "p", "b", "e", "both", "p", "c"} {
		res, err := call(req)
		switch req {
		case "p":
			panicErr(x, rpc, err)
		case "e":
			if errVal(err) != errVal(plain) {
				x.Fail("the handler's error became %v", err)
			}
		case "both":
			if errVal(err) != "unknown/plain" {
				x.Fail("the handler's error became %v", err)
			}
		default:
			if err != nil || res != "ok "+req {
				x.Fail("request %q: %q %v", req, res, err)
			}
		}
	}
	if saw != 2*extra {
		x.Fail("%d interceptors saw the panic, expected %d", saw, 2*extra)
	}
	if took := Timed(func() { s.Close(false) }); took > 0 {
		x.Fail("graceful close took %v", took)
	}
	w.Close()
	x.Out("%s", rpc)
}

// p20direct: the interceptor on its own.
func p20direct(s *mc.S) {
	rec := middleware.WithServerRecovery()
	for i, p := range p20panics {
		if !s.Mine() {
			continue
		}
		res, err := rec(context.Background(), M("r"), psrpc.RPCInfo{}, func(context.Context, proto.Message) (proto.Message, error) {
			p()
			return M("x"), nil
		})
		if code, ok := psrpc.GetErrorCode(err); err == nil || !ok || code != psrpc.Internal || res != nil && res.(*Msg) != nil {
			s.Fail("panic %d: %v %v", i, res, err)
		}
		s.Case(fmt.Sprint(i))
	}
	type key struct{}
	ctx := context.WithValue(context.Background(), key{}, "v")
	req := M("r")
	for i, want := range []struct {
		res *Msg
		err error
	}{{M("x"), nil}, {nil, errors.New("e")}, {M("y"), errors.New("f")}, {nil, nil}} {
		if !s.Mine() {
			continue
		}
		n := 0
		res, err := rec(ctx, req, psrpc.RPCInfo{}, func(c context.Context, r proto.Message) (proto.Message, error) {
			n++
			if c.Value(key{}) != "v" || r != proto.Message(req) {
				s.Fail("the handler got another context or request")
			}
			return want.res, want.err
		})
		if n != 1 || err != want.err || res.(*Msg) != want.res {
			s.Fail("outcome %d changed to %v %v after %d runs", i, res, err, n)
		}
		s.Case(fmt.Sprint("pass", i))
	}
}

// p20concurrent: panicking and other requests, and a graceful shutdown, at once.
func p20concurrent(rpc string) func(x *mc.X) {
	return func(x *mc.X) {
		w := NewWorld(x)
		s := w.Server("A", psrpc.WithServerRPCInterceptors(middleware.WithServerRecovery()))
		var running, done atomic.Int32
		w.Handle(s, rpc, nil, func(ctx context.Context, m *Msg) (*Msg, error) {
			running.Add(1)
			defer done.Add(1)
			if m.Value == "p" {
				panic("boom")
			}
			return M("ok " + m.Value), nil
		}, nil)
		c := w.Client("C")
		call := func(req string) {
			res, err := Call(context.Background(), c, rpc, nil, req, psrpc.WithRequestTimeout(2*time.Second))
			if err != nil && x.TimeDevs() > 0 {
				if code, _ := psrpc.GetErrorCode(err); code == psrpc.DeadlineExceeded || code == psrpc.Unavailable {
					return
				}
			}
			if req == "p" {
				panicErr(x, "concurrent", err)
			} else if err != nil || res != "ok "+req {
				x.Fail("request %q: %q %v", req, res, err)
			}
		}
		Par(func() { call("p") }, func() { call("a") })
		Par(func() {
			_, _ = Call(context.Background(), c, rpc, nil, "p", psrpc.WithRequestTimeout(2*time.Second))
		}, func() {
			took := Timed(func() { s.Close(false) })
			if running.Load() != done.Load() {
				x.Fail("a graceful close returned with a handler running")
			}
			within(x, "graceful close", took, 3*time.Second)
		})
		w.Close()
	}
}

func init() {
	addSeq(mc.Seq{Name: "P20/direct", Run: p20direct})
	add(
		mc.Scenario{Name: "P20/calls", Passes: env, Body: p20calls},
		mc.Scenario{Name: "P20/concurrent-one", Passes: []mc.Pass{mc.P1, mc.P2s}, Deep: []mc.Pass{mc.P2, mc.P2a}, Body: p20concurrent("one")},
		mc.Scenario{Name: "P20/concurrent-aff", Passes: []mc.Pass{mc.P1}, Deep: []mc.Pass{mc.P2s, mc.P2}, Body: p20concurrent("aff")},
	)
}
