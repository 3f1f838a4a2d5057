package main

import (
	"context"
	"errors"
	"fmt"
	"time"

	"google.golang.org/protobuf/proto"

	"github.com/livekit/psrpc"
	"github.com/livekit/psrpc/internal/zzverif/mc"
	. "github.com/livekit/psrpc/internal/zzverif/sim"
	"github.com/livekit/psrpc/pkg/middleware"
)

// outcomes of one attempt; the plain error counts as recoverable by default.
var p18outcomes = []struct {
	err  error
	dflt bool // recoverable by default
}{
	{nil, false},
	{psrpc.ErrRequestTimedOut, true},
	{psrpc.NewErrorf(psrpc.Unavailable, "nobody"), true},
	{psrpc.NewErrorf(psrpc.NotFound, "missing"), false},
	{errors.New("plain"), true},
	{fmt.Errorf("wrapped: %w", psrpc.NewErrorf(psrpc.Internal, "inside")), false},
	{psrpc.ErrRequestCanceled, false},
}

// p18rig is one call through a retry interceptor with scripted attempts.
type p18rig struct {
	opt      middleware.RetryOptions
	custom   bool
	rec      int // 0 default, 1 only "missing" is recoverable, 2 everything
	callerTO time.Duration
	stream   bool
}

func p18options(x *mc.X) (r p18rig) {
	r.opt.MaxAttempts = 1 + x.Choice(4, 1)
	r.opt.Timeout = mc.Pick(x, 2, 0, 100*ms)
	r.opt.Backoff = mc.Pick(x, 3, 0, 30*ms)
	switch x.Choice(4, 4) {
	case 1:
		r.rec = 1
		r.opt.IsRecoverable = func(err error) bool { c, _ := psrpc.GetErrorCode(err); return c == psrpc.NotFound }
	case 2:
		r.rec = 2
		r.opt.IsRecoverable = func(err error) bool { return true }
	case 3:
		// custom parameters: the error and the attempt decide
		r.custom = true
		r.opt.GetRetryParameters = p18custom
	}
	r.callerTO = mc.Pick(x, 5, 0, 7*time.Second)
	return
}

// p18custom retries timeouts once and anything else but success up to 3 times, with
// growing waits and odd timeouts.
func p18custom(err error, attempt int) (bool, time.Duration, time.Duration) {
	c, _ := psrpc.GetErrorCode(err)
	if c == psrpc.DeadlineExceeded && attempt >= 2 || attempt >= 4 {
		return false, time.Hour, time.Hour
	}
	return true, []time.Duration{0, 11 * ms, 0, 22 * ms}[attempt%4], []time.Duration{0, 10 * ms, 0, 40 * ms}[attempt%4]
}

type p18attempt struct {
	at      time.Duration
	timeout time.Duration
	outcome int
}

// expectNext is the reference: whether attempt n+1 is made after attempt n ended
// with outcome o, its timeout and the wait before it.
func (r p18rig) expectNext(n int, o int) (bool, time.Duration, time.Duration) {
	oc := p18outcomes[o]
	if oc.err == nil {
		return false, 0, 0
	}
	if r.custom {
		return p18custom(oc.err, n)
	}
	rec := oc.dflt
	switch r.rec {
	case 1:
		rec = o == 3
	case 2:
		rec = true
	}
	if !rec || n >= r.opt.MaxAttempts {
		return false, 0, 0
	}
	return true, r.opt.Timeout + time.Duration(n)*r.opt.Backoff, 0
}

func (r p18rig) effective(t time.Duration) time.Duration {
	if t > 0 {
		return t
	}
	return r.callerTO
}

// p18calls runs one or several calls; each attempt picks its outcome.
func p18calls(x *mc.X, r p18rig, calls int, cancels bool) {
	rpcI := middleware.NewRPCRetryInterceptor(r.opt)
	strI := middleware.NewStreamRetryInterceptor(r.opt)
	one := func(id int) {
		start := time.Now()
		ctx, cancel := context.WithCancel(context.Background())
		defer cancel()
		var as []p18attempt
		canceled := time.Duration(-1)
		attempt := func(timeout time.Duration) (proto.Message, error) {
			a := p18attempt{time.Since(start), timeout, 0}
			limit := len(p18outcomes)
			if calls > 1 {
				limit = 4
			}
			if len(as) < 6 {
				a.outcome = x.Choice(limit, uint32(10+id))
			}
			time.Sleep(5 * ms)
			if cancels && canceled < 0 {
				switch x.Choice(3, 20) {
				case 1:
					canceled = time.Since(start)
					cancel()
				case 2: // while waiting for the next attempt, if there is a wait
					canceled = time.Since(start) + 7*ms
					time.AfterFunc(7*ms, cancel)
				}
			}
			as = append(as, a)
			if o := p18outcomes[a.outcome]; o.err != nil {
				return M("failed"), o.err
			}
			return M(fmt.Sprint("result ", len(as))), nil
		}
		var res proto.Message
		var err error
		if r.stream {
			h := strI(psrpc.RPCInfo{}, &p18stream{send: func(m proto.Message, opts ...psrpc.StreamOption) error {
				if val(m) != "msg" {
					x.Fail("attempt with message %q", val(m))
				}
				var o psrpc.StreamOpts
				for _, f := range opts {
					f(&o)
				}
				_, err := attempt(o.Timeout)
				return err
			}})
			var opts []psrpc.StreamOption
			if r.callerTO > 0 {
				opts = append(opts, psrpc.WithTimeout(r.callerTO))
			}
			err = h.Send(M("msg"), opts...)
		} else {
			h := rpcI(psrpc.RPCInfo{}, func(c context.Context, req proto.Message, opts ...psrpc.RequestOption) (proto.Message, error) {
				if val(req) != "msg" || c != ctx {
					x.Fail("attempt with another request or context")
				}
				var o psrpc.RequestOpts
				for _, f := range opts {
					f(&o)
				}
				if !o.SelectionOpts.AcceptFirstAvailable {
					x.Fail("the caller's options are lost")
				}
				return attempt(o.Timeout)
			})
			opts := []psrpc.RequestOption{psrpc.WithSelectionOpts(psrpc.SelectionOpts{AcceptFirstAvailable: true})}
			if r.callerTO > 0 {
				opts = append(opts, psrpc.WithRequestTimeout(r.callerTO))
			}
			// spare capacity shared with the caller must not be written to
			opts = append(opts, nil)[:len(opts)]
			res, err = h(ctx, M("msg"), opts...)
			if opts[:len(opts)+1][len(opts)] != nil {
				x.Fail("the caller's option slice was written to")
			}
		}
		took := time.Since(start)
		if len(as) == 0 {
			x.Fail("no attempt was made")
			return
		}
		// replay against the reference
		at, to := time.Duration(0), r.effective(r.opt.Timeout)
		for i, a := range as {
			if a.at != at || a.timeout != to {
				if x.TimeDevs() == 0 || a.timeout != to {
					x.Fail("%+v: attempt %d at %v with timeout %v, expected %v and %v", r, i+1, a.at, a.timeout, at, to)
				}
				return
			}
			at += 5 * ms
			retry, next, wait := r.expectNext(i+1, a.outcome)
			last := i == len(as)-1
			wantErr := p18outcomes[a.outcome].err
			stopped := false
			if retry && canceled >= 0 && !r.stream {
				if canceled <= at {
					stopped = true
				} else if wait > 0 && canceled < at+wait {
					stopped = true
					at = canceled
				}
			}
			if stopped {
				retry, wantErr = false, psrpc.ErrRequestCanceled
			}
			if retry == last {
				x.Fail("%+v: %d attempts with outcomes %v, canceled at %v: attempt %d is followed by another one: %v, expected %v", r, len(as), as, canceled, i+1, !last, retry)
				return
			}
			if last {
				if err != wantErr && !errors.Is(err, wantErr) || (err == nil) != (wantErr == nil) {
					x.Fail("%+v: outcomes %v: returned %v, expected %v", r, as, err, wantErr)
				}
				if err == nil && !r.stream && val(res) != fmt.Sprint("result ", len(as)) {
					x.Fail("%+v: returned %q of attempt %d", r, val(res), len(as))
				}
				if took != at && x.TimeDevs() == 0 {
					x.Fail("%+v: the call took %v, expected %v", r, took, at)
				}
			}
			at += wait
			to = r.effective(next)
		}
		x.Out("%d %v", len(as), err)
	}
	var fs []func()
	for i := 0; i < calls; i++ {
		fs = append(fs, func() { one(i) })
	}
	Par(fs...)
	time.Sleep(time.Second)
}

type p18stream struct {
	psrpc.StreamHandler
	send func(m proto.Message, opts ...psrpc.StreamOption) error
}

func (s *p18stream) Send(m proto.Message, opts ...psrpc.StreamOption) error {
	return s.send(m, opts...)
}

// p18wire: retries of real calls with lost messages.
func p18wire(x *mc.X) {
	w := NewWorld(x)
	attempts := 1 + x.Choice(3, 1)
	a := w.Server("A")
	rpc := Pick2(x, 2, "one", "aff", "single")
	bad := x.Choice(3, 3)
	w.Handle(a, rpc, nil, func(_ context.Context, m *Msg) (*Msg, error) {
		w.Log.Add("exec")
		switch bad {
		case 1:
			return nil, psrpc.NewErrorf(psrpc.NotFound, "no")
		case 2:
			if w.Log.Count("exec") == 1 {
				return nil, psrpc.NewErrorf(psrpc.Unavailable, "first")
			}
		}
		return M("ok " + m.Value), nil
	}, nil)
	c := w.Client("C", middleware.WithRPCRetries(middleware.RetryOptions{MaxAttempts: attempts, Timeout: time.Second, Backoff: 500 * ms}))
	pubs := w.Publishes()
	w.Faults(2, Lost)
	start := time.Now()
	res, err := Call(context.Background(), c, rpc, nil, "r")
	took := time.Since(start)
	n := w.Log.Count("exec")
	limit := time.Duration(0)
	for i := 0; i < attempts; i++ {
		limit += time.Second + time.Duration(i)*500*ms
	}
	if took > limit && x.TimeDevs() == 0 {
		x.Fail("%d attempts took %v", attempts, took)
	}
	if n > attempts {
		x.Fail("%d runs in %d attempts", n, attempts)
	}
	if err == nil && res != "ok r" {
		x.Fail("answered %q", res)
	}
	calm := x.TimeDevs() == 0
	switch {
	case !calm:
	case bad == 0 && w.Injected() < attempts && err != nil:
		x.Fail("%d attempts failed with %d lost messages: %v", attempts, w.Injected(), err)
	case bad == 1 && w.Injected() < attempts && (errVal(err) != "not_found/no"):
		x.Fail("error of the last attempt: %v", err)
	case bad == 2 && w.Injected() == 0 && (err == nil) != (attempts > 1):
		x.Fail("%d attempts, the first unavailable: %v", attempts, err)
	}
	x.Out("%v %d %v", err, n, w.Publishes()-pubs)
	w.Close()
}

func init() {
	add(
		mc.Scenario{Name: "P18/request", Passes: env, Body: func(x *mc.X) { p18calls(x, p18options(x), 1, true) }},
		mc.Scenario{Name: "P18/stream", Passes: env, Body: func(x *mc.X) { r := p18options(x); r.stream = true; p18calls(x, r, 1, false) }},
		mc.Scenario{Name: "P18/wire", Passes: []mc.Pass{mc.E}, Deep: []mc.Pass{mc.P1, mc.P2s}, Body: p18wire},
	)
	shared := p18rig{opt: middleware.RetryOptions{MaxAttempts: 3, Timeout: 100 * ms, Backoff: 30 * ms}}
	str := shared
	str.stream = true
	cust := p18rig{custom: true, opt: middleware.RetryOptions{GetRetryParameters: p18custom}}
	for i, r := range []p18rig{shared, str, cust} {
		n := []string{"requests", "streams", "custom"}[i]
		add(mc.Scenario{Name: "P18/concurrent-" + n, Passes: []mc.Pass{{Name: "all-stmts/2", Bound: 2, Class: mc.P1.Class, Alts: mc.P1.Alts}}, Deep: []mc.Pass{{Name: "all-stmts/3", Bound: 3, Class: mc.P1.Class, Alts: mc.P1.Alts}}, Body: func(x *mc.X) { p18calls(x, r, 2, false) }})
	}
}
