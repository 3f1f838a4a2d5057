package main

import (
	"context"
	"strings"
	"sync/atomic"
	"time"

	"google.golang.org/protobuf/proto"

	"github.com/livekit/psrpc"
	"github.com/livekit/psrpc/internal"
	"github.com/livekit/psrpc/internal/bus"
	"github.com/livekit/psrpc/internal/zzverif/mc"
	. "github.com/livekit/psrpc/internal/zzverif/sim"
	"github.com/livekit/psrpc/pkg/client"
)

var envF = mc.Pass{Name: "env/3", Bound: 3, Class: mc.Env}

// within checks that a call returned by its deadline.
func within(x *mc.X, what string, took, limit time.Duration) {
	if x.TimeDevs() == 0 && took > limit {
		x.Fail("%s took %v, limit %v", what, took, limit)
	}
}

var okCodes = map[psrpc.ErrorCode]bool{
	psrpc.DeadlineExceeded: true, psrpc.Canceled: true, psrpc.Unavailable: true, psrpc.Internal: true,
}

func properErr(x *mc.X, what string, err error) {
	if err == nil {
		return
	}
	e, ok := err.(psrpc.Error)
	if !ok || !okCodes[e.Code()] {
		x.Fail("%s ended with an improper error: %s", what, ErrString(err))
	}
}

// usable makes a fault-free call on the same client.
func usable(w *World, c *client.RPCClient, rpc string, topic []string, servers ...string) {
	w.Faults(0)
	res, err := Call(context.Background(), c, rpc, topic, "after")
	if err != nil {
		if w.Calm() {
			w.X.Fail("the client is unusable afterwards: %v", err)
		}
		return
	}
	for _, s := range servers {
		if res == s+"/"+rpc+"/after" {
			return
		}
	}
	w.X.Fail("the call afterwards returned %q", res)
}

func p03single(rpc string, topic []string, servers int, max int, opts []psrpc.ClientOption, kinds ...string) func(x *mc.X) {
	return func(x *mc.X) {
		w := NewWorld(x)
		var ids []string
		for i := 0; i < servers; i++ {
			id := string(rune('A' + i))
			ids = append(ids, id)
			w.Echo(w.Server(id), id, rpc, topic)
		}
		c := w.Client("C", opts...)
		w.Faults(max, kinds...)
		var err error
		took := Timed(func() {
			_, err = Call(context.Background(), c, rpc, topic, "r", psrpc.WithRequestTimeout(2*time.Second))
		})
		within(x, "request", took, 2*time.Second)
		properErr(x, "request", err)
		if err != nil && w.Injected() == 0 && x.TimeDevs() == 0 {
			x.Fail("request failed without a fault: %v", err)
		}
		x.Out("%s %v", ErrString(err), took)
		time.Sleep(mc.Pick(x, 77, 10*time.Second, 0))
		usable(w, c, rpc, topic, ids...)
		w.Quiesce()
		usable(w, c, rpc, topic, ids...)
		w.Close()
	}
}

func init() {
	kinds := []string{Lost, Fail, Dup, Delay}
	small := []psrpc.ClientOption{psrpc.WithClientChannelSize(1)}
	deep := []mc.Pass{mc.P2, mc.P3}
	add(
		mc.Scenario{Name: "P03/claim", Passes: []mc.Pass{envF, mc.P1, mc.P2s}, Deep: deep, Body: p03single("aff", nil, 1, 2, nil, kinds...)},
		mc.Scenario{Name: "P03/claim-2s", Passes: []mc.Pass{envF, mc.P1}, Deep: deep, Body: p03single("aff", nil, 2, 2, nil, kinds...)},
		mc.Scenario{Name: "P03/queue", Passes: []mc.Pass{envF, mc.P1}, Deep: deep, Body: p03single("single", nil, 2, 2, nil, kinds...)},
		mc.Scenario{Name: "P03/direct", Passes: []mc.Pass{envF, mc.P1, mc.P2s}, Deep: deep, Body: p03single("one", []string{"t"}, 1, 2, nil, kinds...)},
		mc.Scenario{Name: "P03/claim-smallbuf", Passes: []mc.Pass{envF, mc.P1}, Deep: deep, Body: p03single("single", nil, 2, 2, small, kinds...)},
		mc.Scenario{Name: "P03/claim-4s-smallbuf", Passes: []mc.Pass{mc.P1}, Deep: []mc.Pass{mc.P2}, Body: p03single("aff", nil, 4, 0, small)},
		mc.Scenario{Name: "P03/first-4s-smallbuf", Passes: []mc.Pass{mc.P1}, Deep: []mc.Pass{mc.P2}, Body: p03single("claim1", nil, 4, 0, small)},
		mc.Scenario{Name: "P03/burst-aff", Passes: []mc.Pass{mc.E, mc.P1s}, Deep: []mc.Pass{mc.P1, mc.P2s}, Body: p03burst("aff")},
		mc.Scenario{Name: "P03/burst-claim1", Passes: []mc.Pass{mc.E, mc.P1s}, Deep: []mc.Pass{mc.P1, mc.P2s}, Body: p03burst("claim1")},
		mc.Scenario{Name: "P03/burst-one", Passes: []mc.Pass{mc.E, mc.P1s}, Deep: []mc.Pass{mc.P1, mc.P2s}, Body: p03burst("one")},
		mc.Scenario{Name: "P03/burst-multi", Passes: []mc.Pass{mc.E, mc.P1s}, Deep: []mc.Pass{mc.P1, mc.P2s}, Body: p03burst("multi")},
		mc.Scenario{Name: "P03/burst-str", Passes: []mc.Pass{mc.E, mc.P1s}, Deep: []mc.Pass{mc.P1, mc.P2s}, Body: p03burst("str")},
		mc.Scenario{Name: "P03/burst-strone", Passes: []mc.Pass{mc.E, mc.P1s}, Deep: []mc.Pass{mc.P1, mc.P2s}, Body: p03burst("strone")},
		mc.Scenario{Name: "P03/cancel", Passes: []mc.Pass{mc.P1, mc.P2}, Deep: deep, Body: func(x *mc.X) {
			w := NewWorld(x)
			rpc := mc.Pick(x, 1, "aff", "one")
			var topic []string
			w.Echo(w.Server("A"), "A", rpc, topic)
			c := w.Client("C")
			ctx, cancel := context.WithCancel(context.Background())
			go cancel()
			var err error
			var res string
			took := Timed(func() { res, err = Call(ctx, c, rpc, topic, "r") })
			within(x, "canceled request", took, 0)
			properErr(x, "canceled request", err)
			x.Out("%s", ErrString(err))
			w.Quiesce()
			judgeSingle(w, rpc, "r", res, err)
			usable(w, c, rpc, topic, "A")
			w.Close()
		}},
		mc.Scenario{Name: "P03/no-server", Passes: []mc.Pass{mc.P1}, Deep: deep, Body: func(x *mc.X) {
			w := NewWorld(x)
			rpc := mc.Pick(x, 1, "aff", "single", "one", "claim1", "queue")
			limit := mc.Pick(x, 2, 3*time.Second, 2*time.Second, 500*time.Millisecond)
			cancelAt := mc.Pick(x, 3, 0, 100*time.Millisecond)
			c := w.Client("C")
			ctx := context.Background()
			if cancelAt > 0 {
				var cancel context.CancelFunc
				ctx, cancel = context.WithCancel(ctx)
				time.AfterFunc(cancelAt, cancel)
			}
			var err error
			took := Timed(func() { _, err = Call(ctx, c, rpc, nil, "r", psrpc.WithRequestTimeout(limit)) })
			claim := rpc == "aff" || rpc == "single" || rpc == "claim1"
			want := limit
			code := psrpc.DeadlineExceeded
			if claim {
				code = psrpc.Unavailable
				if want > time.Second {
					want = time.Second
				}
			} else if cancelAt > 0 {
				code = psrpc.Canceled
			}
			if cancelAt > 0 {
				want = cancelAt
			}
			within(x, "request without server", took, want)
			if x.TimeDevs() == 0 && took != want {
				x.Fail("%s without server gave up after %v, expected %v", rpc, took, want)
			}
			if e, ok := err.(psrpc.Error); !ok || x.TimeDevs() == 0 && e.Code() != code {
				x.Fail("%s without server: %v, expected %v", rpc, ErrString(err), code)
			}
			w.Echo(w.Server("A"), "A", rpc, nil)
			usable(w, c, rpc, nil, "A")
			w.Close()
		}},
		mc.Scenario{Name: "P03/slow-handler", Passes: []mc.Pass{mc.P1, mc.P2s}, Deep: deep, Body: func(x *mc.X) {
			w := NewWorld(x)
			rpc := mc.Pick(x, 1, "aff", "one")
			d := mc.Pick(x, 2, 3*time.Second, 4*time.Second)
			w.Handle(w.Server("A"), rpc, nil, func(ctx context.Context, m *Msg) (*Msg, error) {
				if m.Value == "r" {
					time.Sleep(d)
				}
				return w.EchoFn("A", rpc)(ctx, m)
			}, nil)
			c := w.Client("C")
			ctx := context.Background()
			how := x.Choice(3, 3)
			if how > 0 {
				var cancel context.CancelFunc
				ctx, cancel = context.WithTimeout(ctx, time.Second)
				defer cancel()
				if how == 2 {
					time.AfterFunc(500*time.Millisecond, cancel)
				}
			}
			var err error
			took := Timed(func() { _, err = Call(ctx, c, rpc, nil, "r") })
			want := []time.Duration{3 * time.Second, time.Second, 500 * time.Millisecond}[how]
			within(x, "request", took, want)
			if x.TimeDevs() == 0 && !(d == 3*time.Second && how == 0) {
				code := psrpc.DeadlineExceeded
				if how == 2 {
					code = psrpc.Canceled
				}
				e, ok := err.(psrpc.Error)
				if !ok || e.Code() != code {
					x.Fail("request to a slow handler: %v, expected %v", ErrString(err), code)
				}
			}
			usable(w, c, rpc, nil, "A")
			w.Quiesce()
			usable(w, c, rpc, nil, "A")
			w.Close()
		}},
		mc.Scenario{Name: "P03/multi", Passes: []mc.Pass{envF, mc.P1, mc.P2s}, Deep: deep, Body: p03multi(2, 2, nil, false, kinds...)},
		mc.Scenario{Name: "P03/multi-smallbuf", Passes: []mc.Pass{mc.P1}, Deep: deep, Body: p03multi(3, 0, small, false)},
		mc.Scenario{Name: "P03/multi-abandoned", Passes: []mc.Pass{mc.P1}, Deep: deep, Body: p03multi(4, 0, small, true)},
		mc.Scenario{Name: "P03/stream-4s-smallbuf", Passes: []mc.Pass{mc.P1}, Deep: []mc.Pass{mc.P2}, Body: p03streamClaims},
		mc.Scenario{Name: "P03/stream-flood", Passes: []mc.Pass{mc.P1, mc.P2s}, Deep: deep, Body: p03flood},
		mc.Scenario{Name: "P03/stream", Passes: []mc.Pass{envF, mc.P1}, Deep: deep, Body: p03stream(2, kinds...)},
	)
}

// p03streamClaims: more servers than fit in the client's buffers claim a stream
// for which one of them has been selected already.
func p03streamClaims(x *mc.X) {
	w := NewWorld(x)
	for _, id := range []string{"A", "B", "D", "F"} {
		streamEcho(w, w.Server(id), id, "str")
	}
	w.Echo(w.Server("G"), "G", "aff", nil)
	c := w.Client("C", psrpc.WithClientChannelSize(mc.Pick(x, 1, 1, 0)), psrpc.WithClientTimeout(2*time.Second))
	var st clientSt
	var err error
	within(x, "stream open", Timed(func() {
		st, err = client.OpenStream[*Msg, *Msg](context.Background(), c, "str", nil, psrpc.WithSelectionOpts(psrpc.SelectionOpts{AcceptFirstAvailable: true}))
	}), 2*time.Second)
	properErr(x, "stream open", err)
	if err != nil && w.Calm() {
		x.Fail("the stream was not opened: %v", err)
	}
	if err == nil {
		if err := st.Send(M("m")); err != nil && w.Calm() {
			x.Fail("the stream does not work: %v", err)
		}
		_ = st.Close(nil)
	}
	w.Quiesce()
	usable(w, c, "aff", nil, "G")
	w.Close()
}

// p03flood: a stream ends in some way while more messages than fit in the client's
// buffers are on their way to it; other calls must not notice.
func p03flood(x *mc.X) {
	w := NewWorld(x)
	a := w.Server("A")
	how := mc.Pick(x, 1, "cancel", "close", "peer", "server")
	n := mc.Pick(x, 2, 4, 2)
	p := &pair{w: w}
	p.handle(a, "str", func(st serverSt) error {
		var fs []func()
		for i := 0; i < n; i++ {
			fs = append(fs, func() { _ = st.Send(M("m"), psrpc.WithTimeout(time.Second)) })
		}
		if how == "peer" {
			fs = append(fs, func() { _ = st.Close(nil) })
		}
		Par(fs...)
		<-st.Context().Done()
		return nil
	})
	w.Echo(w.Server("B"), "B", "aff", nil)
	c := w.Client("C", psrpc.WithClientChannelSize(1), psrpc.WithClientTimeout(2*time.Second))
	slow := mc.Pick(x, 3, 0, 100*ms)
	w.OnPub = func(_ bus.Channel, msg proto.Message, publish func() error) error {
		if m, ok := msg.(*internal.Stream); ok && m.GetClose() != nil {
			time.Sleep(slow)
		}
		return publish()
	}
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	st, err := client.OpenStream[*Msg, *Msg](ctx, c, "str", nil)
	properErr(x, "stream open", err)
	if err == nil {
		switch how {
		case "cancel":
			cancel()
		case "close":
			within(x, "stream close", Timed(func() { _ = st.Close(nil) }), 3*time.Second)
		case "server":
			a.Close(true)
		}
	}
	time.Sleep(mc.Pick(x, 4, 0, 200*ms))
	usable(w, c, "aff", nil, "B")
	w.Quiesce()
	usable(w, c, "aff", nil, "B")
	w.Close()
}

// p03burst: messages of one type arrive several times in a row, as those of a
// connection that sends a batch again; everything goes on.
func p03burst(rpc string) func(x *mc.X) {
	return func(x *mc.X) {
		w := NewWorld(x)
		a := w.Server("A", psrpc.WithServerChannelSize([]int{0, 1, 100}[x.Choice(3, 3)]))
		if strings.HasPrefix(rpc, "str") {
			streamEcho(w, a, "A", rpc)
		} else {
			w.Echo(a, "A", rpc, nil)
		}
		w.Echo(a, "A", "one", []string{"t"})
		c := w.Client("C", psrpc.WithClientTimeout(2*time.Second), psrpc.WithClientChannelSize([]int{1, 100}[x.Choice(2, 4)]))
		n := 2 + x.Choice(3, 2)
		which := x.Choice(6, 1)
		if rpc == "strone" && which == 0 {
			which = 4 // without claims every open is a stream of its own at the server
		}
		var off atomic.Bool
		w.OnPub = func(_ bus.Channel, msg proto.Message, publish func() error) error {
			k := 1
			switch m := msg.(type) {
			case *internal.Request:
				k = 0
			case *internal.ClaimRequest:
				k = 1
			case *internal.ClaimResponse:
				k = 2
			case *internal.Response:
				k = 3
			case *internal.Stream:
				k = 4
				if m.GetOpen() != nil {
					k = 0
				} else if m.GetMessage() != nil || m.GetClose() != nil {
					k = 5
				}
			}
			if off.Load() || k != which {
				return publish()
			}
			var err error
			for i := 0; i < n; i++ {
				err = publish()
			}
			return err
		}
		call := func() {
			switch {
			case rpc == "multi":
				var ch <-chan *psrpc.Response[*Msg]
				var err error
				within(x, "multi", Timed(func() {
					if ch, err = client.RequestMulti[*Msg](context.Background(), c, rpc, nil, M("r")); err == nil {
						for range ch {
						}
					}
				}), 2*time.Second)
				properErr(x, "multi", err)
			case strings.HasPrefix(rpc, "str"):
				var st clientSt
				var err error
				within(x, "stream open", Timed(func() { st, err = client.OpenStream[*Msg, *Msg](context.Background(), c, rpc, nil) }), 2*time.Second)
				properErr(x, "stream open", err)
				if err == nil {
					within(x, "send", Timed(func() { _ = st.Send(M("m"), psrpc.WithTimeout(time.Second)) }), time.Second)
					_ = st.Close(nil)
				}
			default:
				within(x, "request", Timed(func() {
					_, err := Call(context.Background(), c, rpc, nil, "r")
					properErr(x, "request", err)
				}), 2*time.Second)
			}
		}
		call()
		w.Quiesce()
		off.Store(true)
		usable(w, c, "one", []string{"t"}, "A")
		if rpc == "multi" {
			n := 0
			if ch, err := client.RequestMulti[*Msg](context.Background(), c, rpc, nil, M("r")); err != nil {
				x.Fail("multi afterwards: %v", err)
			} else {
				for range ch {
					n++
				}
			}
			if n != 1 && w.Calm() {
				x.Fail("%d responses afterwards", n)
			}
		} else if strings.HasPrefix(rpc, "str") {
			st, err := client.OpenStream[*Msg, *Msg](context.Background(), c, rpc, nil)
			if err != nil {
				if w.Calm() {
					x.Fail("no stream can be opened afterwards: %v", err)
				}
			} else {
				_ = st.Close(nil)
			}
		} else {
			usable(w, c, rpc, nil, "A")
		}
		w.Close()
	}
}

func p03multi(servers, max int, opts []psrpc.ClientOption, abandon bool, kinds ...string) func(x *mc.X) {
	return func(x *mc.X) {
		w := NewWorld(x)
		var ids []string
		for i := 0; i < servers; i++ {
			id := string(rune('A' + i))
			ids = append(ids, id)
			s := w.Server(id)
			w.Echo(s, id, "multi", nil)
			w.Echo(s, id, "aff", nil)
		}
		c := w.Client("C", opts...)
		w.Faults(max, kinds...)
		how := x.Choice(3, 5)
		ctx := context.Background()
		if how > 0 {
			var cancel context.CancelFunc
			ctx, cancel = context.WithCancel(ctx)
			defer cancel()
			if how == 1 {
				time.AfterFunc(time.Second, cancel)
			} else {
				go cancel()
			}
		}
		limit := []time.Duration{2 * time.Second, time.Second, 0}[how]
		t := time.Now()
		ch, err := client.RequestMulti[*Msg](ctx, c, "multi", nil, M("r"), psrpc.WithRequestTimeout(2*time.Second))
		properErr(x, "multi", err)
		if err == nil && !abandon {
			n := 0
			for r := range ch {
				n++
				if r.Err != nil {
					properErr(x, "multi response", r.Err)
				}
			}
			x.Out("%d", n)
			within(x, "multi request", time.Since(t), limit)
		}
		w.Faults(0)
		time.Sleep(10 * time.Second)
		if err == nil && abandon && x.TimeDevs() == 0 {
			// whatever was buffered, the channel must be closed by now
			open := true
			for open {
				select {
				case _, open = <-ch:
				default:
					x.Fail("the channel of an unread multi request is still open after its timeout")
					open = false
				}
			}
		}
		usable(w, c, "aff", nil, ids...)
		w.Close()
	}
}

func p03stream(max int, kinds ...string) func(x *mc.X) {
	return func(x *mc.X) {
		w := NewWorld(x)
		a := w.Server("A")
		streamEcho(w, a, "A", "str")
		w.Echo(a, "A", "aff", nil)
		c := w.Client("C")
		w.Faults(max, kinds...)
		var st psrpc.ClientStream[*Msg, *Msg]
		var err error
		took := Timed(func() {
			st, err = client.OpenStream[*Msg, *Msg](context.Background(), c, "str", nil, psrpc.WithRequestTimeout(2*time.Second))
		})
		within(x, "stream open", took, 2*time.Second)
		properErr(x, "stream open", err)
		x.Out("%s %v", ErrString(err), took)
		if err == nil {
			took := Timed(func() { err = st.Send(M("m"), psrpc.WithTimeout(time.Second)) })
			within(x, "stream send", took, time.Second)
			properErr(x, "stream send", err)
			x.Out("%s %v", ErrString(err), took)
			took = Timed(func() { _ = st.Close(nil) })
			within(x, "stream close", took, 5*time.Second)
		}
		w.Faults(0)
		w.Quiesce()
		usable(w, c, "aff", nil, "A")
		w.Close()
	}
}
