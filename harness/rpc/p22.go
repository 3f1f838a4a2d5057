package main

import (
	"context"
	"errors"
	"runtime"
	"time"

	"google.golang.org/protobuf/proto"

	"github.com/livekit/psrpc"
	"github.com/livekit/psrpc/internal/zzverif/mc"
	. "github.com/livekit/psrpc/internal/zzverif/sim"
	"github.com/livekit/psrpc/pkg/client"
)

// refused checks that a closed client refuses everything without using the bus.
func refused(w *World, c *client.RPCClient) {
	x := w.X
	w.Idle() // what is in flight is over
	pubs, subs, seen := w.Publishes(), w.Subs(), w.Log.CountPrefix("client ")
	ctx := context.Background()
	check := func(what string, err error) {
		if !errors.Is(err, psrpc.ErrClientClosed) {
			x.Fail("%s on a closed client: %v", what, err)
		}
	}
	took := Timed(func() {
		_, err := Call(ctx, c, "aff", nil, "closed")
		check("request", err)
		_, err = Call(ctx, c, "one", []string{"t"}, "closed")
		check("request", err)
		_, err = client.RequestMulti[*Msg](ctx, c, "multi", nil, M("closed"))
		check("multi request", err)
		_, err = client.OpenStream[*Msg, *Msg](ctx, c, "str", nil)
		check("stream", err)
		_, err = client.Join[*Msg](ctx, c, "sub", nil)
		check("subscription", err)
		_, err = client.JoinQueue[*Msg](ctx, c, "subq", nil)
		check("queue subscription", err)
	})
	if p, s := w.Publishes(), w.Subs(); p != pubs || s != subs {
		x.Fail("a closed client published %d messages and subscribed %d times", p-pubs, s-subs)
	}
	if n := w.Log.CountPrefix("client ") - seen; n > 0 {
		x.Fail("hooks or interceptors were called %d times for calls on a closed client", n)
	}
	within(x, "calls on a closed client", took, 0)
}

// p22 closes a client (n times at once) while a call is in progress.
func p22(call string, closers int) func(x *mc.X) {
	return func(x *mc.X) {
		w := NewWorld(x)
		a := w.Server("A")
		w.Echo(a, "A", "aff", nil)
		w.Echo(a, "A", "one", nil)
		w.Echo(a, "A", "multi", nil)
		streamEcho(w, a, "A", "str")
		w.Idle()
		before, open := runtime.NumGoroutine(), w.Open()
		c := w.Client("C",
			psrpc.WithClientRequestHooks(func(context.Context, proto.Message, psrpc.RPCInfo) { w.Log.Add("client hook") }),
			psrpc.WithClientResponseHooks(func(context.Context, proto.Message, psrpc.RPCInfo, proto.Message, error) {
				w.Log.Add("client hook")
			}),
			psrpc.WithClientRPCInterceptors(func(_ psrpc.RPCInfo, next psrpc.ClientRPCHandler) psrpc.ClientRPCHandler {
				w.Log.Add("client interceptor")
				return next
			}))
		own := w.Open() - open
		var fs []func()
		limit := 2 * time.Second
		wrap := func(f func()) func() {
			return func() { within(x, "a call on a client being closed", Timed(f), limit) }
		}
		ctx := context.Background()
		switch call {
		case "":
		case "aff", "one":
			fs = append(fs, wrap(func() {
				res, err := Call(ctx, c, call, nil, "r", psrpc.WithRequestTimeout(limit))
				if err == nil && res != "A/"+call+"/r" {
					x.Fail("answered %q", res)
				}
				if err != nil && !errors.Is(err, psrpc.ErrClientClosed) {
					properErr(x, "request", err)
				}
				x.Out("%s", ErrString(err))
			}))
		case "multi":
			fs = append(fs, wrap(func() {
				ch, err := client.RequestMulti[*Msg](ctx, c, "multi", nil, M("r"), psrpc.WithRequestTimeout(limit))
				if err != nil {
					if !errors.Is(err, psrpc.ErrClientClosed) {
						x.Fail("multi: %v", err)
					}
					return
				}
				for range ch {
				}
			}))
		case "str":
			fs = append(fs, func() {
				var st clientSt
				var err error
				within(x, "open", Timed(func() { st, err = client.OpenStream[*Msg, *Msg](ctx, c, "str", nil, psrpc.WithRequestTimeout(limit)) }), limit)
				if err != nil {
					return
				}
				_ = st.Send(M("m"), psrpc.WithTimeout(limit))
				t := time.After(30 * time.Second)
				for {
					select {
					case _, ok := <-st.Channel():
						if !ok {
							if causeOf(st.Err()) != closed {
								x.Fail("stream of a closed client ended with %v", st.Err())
							}
							return
						}
					case <-t:
						if x.TimeDevs() == 0 {
							x.Fail("the stream outlived its client")
						}
						_ = st.Close(nil)
						return
					}
				}
			})
		}
		for i := 0; i < closers; i++ {
			fs = append(fs, func() { c.Close() })
		}
		Par(fs...)
		w.Quiesce()
		w.Idle()
		refused(w, c)
		c.Close()
		refused(w, c)
		if n := w.Open(); n != open {
			x.Fail("%d of %d bus subscriptions of the closed client are open", n-open, own)
		}
		// without time deviations the server's side is over as well
		if n := runtime.NumGoroutine(); n > before && w.X.TimeDevs() == 0 {
			x.Fail("%d goroutines before the client, %d after it was closed", before, n)
		}
		w.Close()
	}
}

func init() {
	one := []mc.Pass{mc.P1, mc.P2}
	deep := []mc.Pass{mc.P2a, mc.P3}
	for _, k := range []string{"aff", "one", "multi", "str"} {
		add(mc.Scenario{Name: "P22/close-during-" + k, Passes: one, Deep: deep, Body: p22(k, 1)})
	}
	add(
		mc.Scenario{Name: "P22/close-twice", Passes: one, Deep: deep, Body: p22("", 2)},
		mc.Scenario{Name: "P22/close-3-during", Passes: []mc.Pass{mc.P1, mc.P2s}, Deep: deep, Body: p22("aff", 3)},
		// the bus ends one of the client's subscriptions
		mc.Scenario{Name: "P22/bus-ends", Passes: one, Deep: deep, Body: func(x *mc.X) {
			w := NewWorld(x)
			a := w.Server("A")
			w.Echo(a, "A", "aff", nil)
			w.Idle()
			before, open, subs := runtime.NumGoroutine(), w.Open(), w.Subs()
			c := w.Client("C")
			k := subs + x.Choice(3, 1)
			Par(func() {
				var err error
				within(x, "request", Timed(func() {
					_, err = Call(context.Background(), c, "aff", nil, "r", psrpc.WithRequestTimeout(2*time.Second))
				}), 2*time.Second)
				if err != nil && !errors.Is(err, psrpc.ErrClientClosed) {
					properErr(x, "request", err)
				}
			}, func() { w.EndSub(k) }, func() {
				if x.Choice(2, 2) == 1 {
					c.Close()
				}
			})
			w.Quiesce()
			w.Idle()
			refused(w, c)
			if n := w.Open(); n != open {
				x.Fail("%d bus subscriptions of the client are open", n-open)
			}
			if n := runtime.NumGoroutine(); n > before && x.TimeDevs() == 0 {
				x.Fail("%d goroutines before the client, %d after", before, n)
			}
			w.Close()
		}},
		// a client that cannot subscribe leaves nothing
		mc.Scenario{Name: "P22/create-fails", Passes: []mc.Pass{mc.P1}, Deep: deep, Body: func(x *mc.X) {
			w := NewWorld(x)
			w.Quiesce()
			before, open := runtime.NumGoroutine(), w.Open()
			w.FailSubs = 1 + x.Choice(3, 1)
			c, err := NewClient(w.Bus, "C")
			if err == nil || c != nil {
				x.Fail("a client was created although it could not subscribe")
			}
			w.Quiesce()
			if n := w.Open(); n != open {
				x.Fail("%d bus subscriptions stay open", n-open)
			}
			if n := runtime.NumGoroutine(); n > before {
				x.Fail("%d goroutines stay", n-before)
			}
			w.Close()
		}},
		// another client of the same process is not affected
		mc.Scenario{Name: "P22/other-client", Passes: []mc.Pass{mc.P1, mc.P2s}, Deep: deep, Body: func(x *mc.X) {
			w := NewWorld(x)
			a := w.Server("A")
			w.Echo(a, "A", "aff", nil)
			c, d := w.Client("C"), w.Client("D")
			Par(func() { c.Close() }, func() { expectCall(w, d, "aff", nil, "r", "A") })
			expectCall(w, d, "aff", nil, "r2", "A")
			refused(w, c)
			w.Close()
		}},
	)
}
