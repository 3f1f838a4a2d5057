package main

import (
	"context"
	"time"

	"github.com/livekit/psrpc"
	"github.com/livekit/psrpc/internal/zzverif/mc"
	. "github.com/livekit/psrpc/internal/zzverif/sim"
	"github.com/livekit/psrpc/pkg/client"
)

// p11calc compares the deadlines of one call with the documented resolution, for
// every combination of where they come from and of the delivery delay.
func p11calc(rpc string) func(x *mc.X) {
	return func(x *mc.X) {
		ct := mc.Pick(x, 1, 0, 900*ms+3, 5*time.Second)
		ro := mc.Pick(x, 2, 0, 700*ms+9, 2*time.Second, 10*time.Second)
		dl := mc.Pick(x, 3, 0, 600*ms, 250*ms+1, 1250*ms+1, 1500*ms, 7700*ms+7, -ms)
		var copts []psrpc.ClientOption
		if ct > 0 {
			copts = append(copts, psrpc.WithClientTimeout(ct))
		}
		w := NewWorld(x)
		s := w.Server("A")
		time.Sleep(33 * ms)
		start := time.Now()
		ctx := context.Background()
		if dl != 0 {
			var cancel context.CancelFunc
			ctx, cancel = context.WithDeadline(ctx, start.Add(dl))
			defer cancel()
		}
		t := ro
		if t == 0 {
			t = ct
			if dl != 0 && (t == 0 || dl < t) {
				t = dl
			}
			if t == 0 {
				t = psrpc.DefaultClientTimeout
			}
		}
		if dl != 0 && dl < t {
			t = dl
		}
		end := start.Add(t)
		ran := 0
		h := func(ctx context.Context, _ *Msg) (*Msg, error) {
			ran++
			if !time.Now().Before(end) {
				x.Fail("%s: a request was started %v after its expiry", rpc, time.Since(end))
			}
			d, ok := ctx.Deadline()
			if !ok || !d.Equal(end) {
				x.Fail("%s: client timeout %v, request option %v, context %v: the handler's deadline is %v (%v) after the call, expected %v", rpc, ct, ro, dl, d.Sub(start), ok, t)
			}
			if ctx.Err() != nil {
				x.Fail("%s: the handler started with an ended context", rpc)
			}
			<-ctx.Done()
			if !time.Now().Equal(end) {
				x.Fail("%s: the handler's context ended %v off its deadline", rpc, time.Since(end))
			}
			return nil, ctx.Err()
		}
		w.Handle(s, rpc, nil, h, nil)
		c := w.Client("C", copts...)
		start2 := time.Now()
		if !start2.Equal(start) {
			x.Fail("creating a client takes time")
		}
		var delay time.Duration
		switch x.Choice(5, 4) {
		case 1:
			delay = t / 2
		case 2:
			delay = t - ms
		case 3:
			delay = t
		case 4:
			delay = t + ms
		}
		if delay > 0 {
			w.DelayBy = delay
			w.DelayNth(1)
		} else {
			delay = 0
		}
		var opts []psrpc.RequestOption
		if ro > 0 {
			opts = append(opts, psrpc.WithRequestTimeout(ro))
		}
		if x.Choice(2, 5) == 1 {
			opts = append(opts, psrpc.WithSelectionOpts(psrpc.SelectionOpts{AcceptFirstAvailable: true}))
		}
		var err error
		n := 0
		if rpc == "multi" {
			var ch <-chan *psrpc.Response[*Msg]
			if ch, err = client.RequestMulti[*Msg](ctx, c, rpc, nil, M("r"), opts...); err == nil {
				for range ch {
					n++
				}
			}
		} else {
			_, err = Call(ctx, c, rpc, nil, "r", opts...)
			if code, _ := psrpc.GetErrorCode(err); err == nil || code != psrpc.DeadlineExceeded && code != psrpc.Unavailable && t > 0 {
				x.Fail("%s: the call ended with %v", rpc, err)
			}
		}
		took := time.Since(start)
		lim := t
		if lim < 0 {
			lim = 0
		}
		if took > lim || took < lim && !(rpc == "aff" || rpc == "single") {
			x.Fail("%s: client timeout %v, request option %v, context %v: the call took %v, expected %v", rpc, ct, ro, dl, took, lim)
		}
		x.Out("%s %v %v %v %v: %v", rpc, ct, ro, dl, delay, err)
		w.Quiesce()
		want := 0
		if delay < t {
			want = 1
		}
		if ran > want || ran < want && !(rpc == "aff" || rpc == "single") {
			x.Fail("%s: timeout %v, delivered after %v: the handler ran %d times", rpc, t, delay, ran)
		}
		w.Close()
	}
}

// p11nested: deadlines along a chain of calls.
func p11nested(sched bool) func(x *mc.X) {
	return func(x *mc.X) {
		w := NewWorld(x)
		hops := []string{"aff", "one", "single"}
		var cl []func(ctx context.Context, hop int, deadline time.Time)
		call := func(ctx context.Context, hop int, deadline time.Time) {
			if hop < len(hops) {
				cl[hop](ctx, hop, deadline)
			}
		}
		reached := make([]bool, len(hops))
		lims := make([]time.Time, len(hops))
		for i, rpc := range hops {
			s := w.Server(string(rune('A' + i)))
			c := w.Client(string(rune('P'+i)), psrpc.WithClientTimeout(5*time.Second))
			w.Handle(s, rpc, nil, func(ctx context.Context, _ *Msg) (*Msg, error) {
				reached[i] = true
				d, ok := ctx.Deadline()
				if !ok || d.After(lims[i]) {
					x.Fail("hop %d: the deadline is %v after its caller's", i, d.Sub(lims[i]))
				}
				if !sched {
					time.Sleep(mc.Pick(x, uint32(20+i), 0, 300*ms))
				}
				call(ctx, i+1, d)
				<-ctx.Done()
				return nil, ctx.Err()
			}, nil)
			cl = append(cl, func(ctx context.Context, hop int, deadline time.Time) {
				var opts []psrpc.RequestOption
				o := 10 * time.Second
				if !sched {
					o = mc.Pick(x, uint32(10+i), 0, 400*ms, 10*time.Second)
				}
				lim := time.Now().Add(o)
				if o > 0 {
					opts = append(opts, psrpc.WithRequestTimeout(o))
				} else {
					lim = time.Now().Add(5 * time.Second)
				}
				if deadline.Before(lim) {
					lim = deadline
				}
				lims[i] = lim
				var err error
				late := lim.Before(time.Now())
				took := Timed(func() { _, err = Call(ctx, c, rpc, nil, "n", opts...) })
				if x.TimeDevs() == 0 && time.Now().After(lim) && !(late && took == 0) {
					x.Fail("hop %d: the call ended %v after its deadline", hop, time.Since(lim))
				}
				if err == nil {
					x.Fail("hop %d: success", hop)
				}
			})
		}
		ctx, cancel := context.WithTimeout(context.Background(), 700*ms)
		defer cancel()
		d, _ := ctx.Deadline()
		call(ctx, 0, d)
		if x.TimeDevs() == 0 && !reached[0] {
			x.Fail("the first hop was not served")
		}
		x.Out("%v", reached)
		w.Close()
	}
}

// p11stream: the deadline of a stream open.
func p11stream(x *mc.X) {
	rpc := Pick2(x, 1, "str", "strone")
	ro := mc.Pick(x, 2, 0, 700*ms, 2*time.Second)
	dl := mc.Pick(x, 3, 0, 600*ms, 250*ms+1, 1250*ms+1, 1500*ms)
	w := NewWorld(x)
	s := w.Server("A")
	ran := 0
	var end time.Time
	p := &pair{w: w}
	p.handle(s, rpc, func(st serverSt) error {
		ran++
		if !time.Now().Before(end) {
			x.Fail("%s: a stream was started %v after its expiry", rpc, time.Since(end))
		}
		return nil
	})
	c := w.Client("C")
	start := time.Now()
	t := psrpc.DefaultClientTimeout
	ctx := context.Background()
	if dl != 0 {
		var cancel context.CancelFunc
		ctx, cancel = context.WithTimeout(ctx, dl)
		defer cancel()
		t = dl
	}
	var opts []psrpc.RequestOption
	if ro > 0 {
		opts = append(opts, psrpc.WithRequestTimeout(ro))
		if t = ro; dl != 0 && dl < t {
			t = dl
		}
	}
	end = start.Add(t)
	delay := mc.Pick(x, 4, 0, t-ms, t, t+ms)
	if delay > 0 {
		w.DelayBy = delay
		w.DelayNth(1)
	}
	st, err := client.OpenStream[*Msg, *Msg](ctx, c, rpc, nil, opts...)
	if took := time.Since(start); took > t || took > 0 && delay == 0 {
		x.Fail("%s: request option %v, context %v, delay %v: the open took %v", rpc, ro, dl, delay, took)
	}
	if err == nil {
		_ = st.Close(nil)
	} else if delay == 0 {
		x.Fail("%s: open: %v", rpc, err)
	}
	w.Quiesce()
	if delay >= t && ran > 0 {
		x.Fail("%s: a stream open delivered %v after its expiry was served", rpc, delay-t)
	}
	x.Out("%v %v %v %v %v", ro, dl, delay, err, ran)
	w.Close()
}

// p11sched: the handler's deadline in every schedule.
func p11sched(rpc string) func(x *mc.X) {
	return func(x *mc.X) {
		w := NewWorld(x)
		s := w.Server("A")
		ctx, cancel := context.WithTimeout(context.Background(), 800*ms)
		defer cancel()
		end, _ := ctx.Deadline()
		w.Handle(s, rpc, nil, func(ctx context.Context, m *Msg) (*Msg, error) {
			if d, ok := ctx.Deadline(); !ok || d.After(end) {
				x.Fail("%s: the handler's deadline is %v after the caller's", rpc, d.Sub(end))
			}
			return m, nil
		}, nil)
		c := w.Client("C", psrpc.WithClientTimeout(5*time.Second))
		var opts []psrpc.RequestOption
		if x.Choice(2, 1) == 1 {
			opts = append(opts, psrpc.WithRequestTimeout(4*time.Second))
		}
		took := Timed(func() {
			if rpc == "multi" {
				ch, err := client.RequestMulti[*Msg](ctx, c, rpc, nil, M("r"), opts...)
				if err == nil {
					for range ch {
					}
				}
			} else {
				_, _ = Call(ctx, c, rpc, nil, "r", opts...)
			}
		})
		within(x, "call", took, 800*ms)
		w.Close()
	}
}

func init() {
	for _, r := range []string{"aff", "single", "one", "queue", "multi"} {
		add(mc.Scenario{Name: "P11/resolve-" + r, Passes: env, Body: p11calc(r)})
	}
	add(
		mc.Scenario{Name: "P11/nested", Passes: env, Body: p11nested(false)},
		mc.Scenario{Name: "P11/stream", Passes: env, Body: p11stream},
	)
	for _, r := range []string{"aff", "one", "multi"} {
		add(mc.Scenario{Name: "P11/sched-" + r, Passes: []mc.Pass{mc.P1, mc.P2s}, Deep: []mc.Pass{mc.P2, mc.P2a}, Body: p11sched(r)})
	}
	add(mc.Scenario{Name: "P11/sched-nested", Passes: []mc.Pass{mc.P1}, Deep: []mc.Pass{mc.P2s, mc.P2}, Body: p11nested(true)})
}
