package main

import (
	"context"
	"errors"
	"fmt"
	"io"
	"time"

	"google.golang.org/protobuf/proto"

	"github.com/livekit/psrpc"
	"github.com/livekit/psrpc/internal/bus"
	"github.com/livekit/psrpc/internal/zzverif/mc"
	. "github.com/livekit/psrpc/internal/zzverif/sim"
	"github.com/livekit/psrpc/pkg/client"
	"github.com/livekit/psrpc/pkg/metadata"
	"github.com/livekit/psrpc/pkg/middleware"
	"github.com/livekit/psrpc/pkg/server"
)

// The drivers share nothing but what a user may share: servers, clients, buses,
// options, errors, contexts and messages that nobody changes.

type p23world struct {
	x   *mc.X
	bus psrpc.MessageBus
}

type p23obs struct{}

func (p23obs) OnUnaryRequest(middleware.MetricRole, psrpc.RPCInfo, time.Duration, error, int, int) {
}
func (p23obs) OnMultiRequest(middleware.MetricRole, psrpc.RPCInfo, time.Duration, int, int, int, int) {
}
func (p23obs) OnStreamSend(middleware.MetricRole, psrpc.RPCInfo, time.Duration, error, int) {}
func (p23obs) OnStreamRecv(middleware.MetricRole, psrpc.RPCInfo, error, int)                {}
func (p23obs) OnStreamOpen(middleware.MetricRole, psrpc.RPCInfo)                            {}
func (p23obs) OnStreamClose(middleware.MetricRole, psrpc.RPCInfo)                           {}

func (w *p23world) server(id string) *server.RPCServer {
	return NewServer(w.bus, id,
		psrpc.WithServerTimeout(time.Second),
		middleware.WithServerMetrics(p23obs{}),
		psrpc.WithServerRPCInterceptors(middleware.WithServerRecovery(), func(ctx context.Context, req proto.Message, i psrpc.RPCInfo, h psrpc.ServerRPCHandler) (proto.Message, error) {
			_ = metadata.IncomingHeader(ctx)
			return h(metadata.AppendMetadataToOutgoingContext(ctx, "k", "v"), req)
		}))
}

func (w *p23world) client(id string, opts ...psrpc.ClientOption) *client.RPCClient {
	c, err := NewClient(w.bus, id, append([]psrpc.ClientOption{
		middleware.WithClientMetrics(p23obs{}),
		middleware.WithRPCRetries(middleware.RetryOptions{MaxAttempts: 2, Timeout: 500 * time.Millisecond}),
	}, opts...)...)
	if err != nil {
		panic(err)
	}
	return c
}

var p23err = psrpc.NewErrorf(psrpc.NotFound, "shared")
var p23plain = errors.New("plain")
var p23res = M("shared response")
var p23req = M("shared request")

func p23handler(ctx context.Context, m *Msg) (*Msg, error) {
	_ = metadata.IncomingHeader(ctx)
	_, _ = ctx.Deadline()
	switch m.GetValue() {
	case "e":
		return nil, p23err
	case "f":
		return nil, p23plain
	case "s":
		time.Sleep(100 * time.Millisecond)
	case "p":
		panic("boom")
	case "n":
		return M("new"), nil
	}
	return p23res, nil
}

func p23aff(_ context.Context, m *Msg) float32 { return 0.5 }

func p23stream(s psrpc.ServerStream[*Msg, *Msg]) error {
	_ = metadata.IncomingHeader(s.Context())
	for m := range s.Channel() {
		if m.GetValue() == "end" {
			return nil
		}
		if m.GetValue() == "close" {
			_ = s.Close(p23err)
		}
		_ = s.Send(m)
	}
	_ = s.Err()
	return s.Err()
}

func (w *p23world) register(s *server.RPCServer) {
	for _, m := range []string{"single", "one", "queue", "multi"} {
		_ = server.RegisterHandler(s, m, nil, p23handler, nil)
	}
	_ = server.RegisterHandler(s, "aff", nil, p23handler, p23aff)
	_ = server.RegisterStreamHandler(s, "str", nil, p23stream, nil)
	_ = server.RegisterStreamHandler(s, "stra", nil, p23stream, func(context.Context) float32 { return 1 })
}

var p23opts = append(make([]psrpc.RequestOption, 0, 8), psrpc.WithRequestTimeout(time.Second), psrpc.WithSelectionOpts(psrpc.SelectionOpts{
	MinimumAffinity: 0.1, AcceptFirstAvailable: true,
}))

func p23ctx() context.Context {
	return metadata.NewContextWithOutgoingMetadata(context.Background(), metadata.Metadata{"a": "b"})
}

func p23call(ctx context.Context, c *client.RPCClient, rpc, v string) {
	m := p23req
	if v != "" {
		m = M(v)
	}
	res, err := client.RequestSingle[*Msg](metadata.AppendMetadataToOutgoingContext(ctx, "x", "y"), c, rpc, nil, m, p23opts...)
	_, _ = res.GetValue(), err
	if err != nil {
		_ = err.Error()
	}
}

func p23multi(ctx context.Context, c *client.RPCClient, v string) {
	ch, err := client.RequestMulti[*Msg](ctx, c, "multi", nil, M(v), p23opts...)
	if err != nil {
		return
	}
	for r := range ch {
		_, _ = r.Result.GetValue(), r.Err
	}
}

func p23open(ctx context.Context, c *client.RPCClient, rpc string) psrpc.ClientStream[*Msg, *Msg] {
	s, err := client.OpenStream[*Msg, *Msg](ctx, c, rpc, nil, psrpc.WithRequestTimeout(time.Second))
	if err != nil {
		return nil
	}
	return s
}

func p23run(setup func(w *p23world) []func()) func(x *mc.X) {
	return func(x *mc.X) {
		w := &p23world{x: x, bus: psrpc.NewLocalMessageBus()}
		Par(setup(w)...)
	}
}

func p23close(s *server.RPCServer, c ...*client.RPCClient) {
	for _, c := range c {
		c.Close()
	}
	s.Close(true)
}

func init() {
	passes := []mc.Pass{mc.P1s, mc.P1}
	deep := []mc.Pass{mc.P2s, mc.P2}
	sc := func(name string, setup func(w *p23world) []func()) {
		add(mc.Scenario{Name: "P23/" + name, Passes: passes, Deep: deep, AllowAlive: -1, MayHang: true, Race: true, Body: p23run(setup)})
	}
	for _, rpc := range []string{"single", "one", "queue", "aff"} {
		rpc := rpc
		sc("calls-"+rpc, func(w *p23world) []func() {
			s, t := w.server("A"), w.server("B")
			w.register(s)
			if rpc != "one" {
				w.register(t)
			}
			c := w.client("C")
			ctx := p23ctx()
			return []func(){
				func() { p23call(ctx, c, rpc, ""); p23call(ctx, c, rpc, "e") },
				func() { p23call(ctx, c, rpc, ""); p23call(ctx, c, rpc, "f") },
			}
		})
		sc("shutdown-"+rpc, func(w *p23world) []func() {
			s := w.server("A")
			w.register(s)
			c := w.client("C")
			ctx, cancel := context.WithCancel(p23ctx())
			return []func(){
				func() { p23call(ctx, c, rpc, "s"); p23call(ctx, c, rpc, "p") },
				func() { p23call(ctx, c, rpc, ""); cancel() },
				func() { s.Close(false) },
				func() { c.Close() },
			}
		})
		sc("handlers-"+rpc, func(w *p23world) []func() {
			s := w.server("A")
			c := w.client("C")
			w.register(s)
			return []func(){
				func() { p23call(context.Background(), c, rpc, "") },
				func() {
					s.DeregisterHandler(rpc, nil)
					_ = server.RegisterHandler(s, rpc, nil, p23handler, nil)
				},
				func() {
					s.DeregisterHandler(rpc, nil)
					_ = server.RegisterHandler(s, rpc, []string{"t"}, p23handler, nil)
				},
				func() { s.Close(true) },
			}
		})
	}
	sc("multi", func(w *p23world) []func() {
		s, t := w.server("A"), w.server("B")
		w.register(s)
		w.register(t)
		c := w.client("C")
		ctx, cancel := context.WithCancel(context.Background())
		return []func(){
			func() { p23multi(ctx, c, "a"); p23multi(ctx, c, "e") },
			func() { p23multi(context.Background(), c, "s") },
			func() { time.Sleep(50 * time.Millisecond); cancel() },
		}
	})
	sc("multi-close", func(w *p23world) []func() {
		s, t := w.server("A"), w.server("B")
		w.register(s)
		w.register(t)
		c := w.client("C")
		return []func(){
			func() { p23multi(context.Background(), c, "a") },
			func() { t.Close(false) },
			func() { c.Close() },
		}
	})
	for _, rpc := range []string{"str", "stra"} {
		rpc := rpc
		sc("stream-"+rpc, func(w *p23world) []func() {
			s := w.server("A")
			w.register(s)
			c := w.client("C")
			st := p23open(p23ctx(), c, rpc)
			if st == nil {
				return nil
			}
			return []func(){
				func() { _ = st.Send(M("1")); _ = st.Send(p23req) },
				func() { _ = st.Send(p23req); _ = st.Err(); _ = st.Context().Err() },
				func() {
					for range st.Channel() {
					}
					_ = st.Err()
				},
				func() { time.Sleep(time.Millisecond); _ = st.Close(nil) },
			}
		})
		sc("stream-closes-"+rpc, func(w *p23world) []func() {
			s := w.server("A")
			w.register(s)
			c := w.client("C")
			ctx, cancel := context.WithCancel(context.Background())
			st := p23open(ctx, c, rpc)
			if st == nil {
				cancel()
				return nil
			}
			return []func(){
				func() { _ = st.Send(M("close")); <-st.Context().Done(); _ = st.Err() },
				func() { _ = st.Close(io.EOF); _ = st.Err() },
				func() { cancel(); _ = st.Send(M("x")) },
				func() { s.Close(false) },
			}
		})
		sc("streams-"+rpc, func(w *p23world) []func() {
			s := w.server("A")
			w.register(s)
			c := w.client("C")
			f := func() {
				if st := p23open(context.Background(), c, rpc); st != nil {
					_ = st.Send(M("1"))
					<-st.Channel()
					_ = st.Close(nil)
				}
			}
			return []func(){f, f, func() { time.Sleep(time.Millisecond); c.Close() }, func() { time.Sleep(time.Millisecond); s.Close(true) }}
		})
	}
	sc("lifecycle", func(w *p23world) []func() {
		s := w.server("A")
		return []func(){
			func() { w.register(s) },
			func() { w.register(s) },
			func() { s.DeregisterHandler("str", nil); s.DeregisterHandler("aff", nil) },
			func() { s.Close(false); s.Close(true) },
		}
	})
	sc("group", func(w *p23world) []func() {
		s := w.server("A")
		var g server.RegistererSlice
		for _, m := range []string{"one", "aff"} {
			g = append(g, server.NewRegisterer(func() error { return server.RegisterHandler(s, m, nil, p23handler, nil) }, func() { s.DeregisterHandler(m, nil) }))
		}
		c := w.client("C")
		return []func(){func() { _ = g.Register() }, func() { g.Deregister() }, func() { p23call(context.Background(), c, "one", "") }}
	})
	sc("subscriptions", func(w *p23world) []func() {
		s := w.server("A")
		c := w.client("C")
		sub := func(queue bool) {
			f := client.Join[*Msg]
			if queue {
				f = client.JoinQueue[*Msg]
			}
			if u, err := f(context.Background(), c, "sub", nil); err == nil {
				select {
				case m := <-u.Channel():
					_ = m.GetValue()
				case <-time.After(time.Second):
				}
				_ = u.Close()
				_ = u.Close()
			}
		}
		return []func(){func() { sub(false) }, func() { sub(true) }, func() {
			for i := 0; i < 3; i++ {
				_ = s.Publish(context.Background(), "sub", nil, p23req)
			}
		}, func() { _ = s.Publish(context.Background(), "sub", nil, p23req); c.Close() }}
	})
	sc("bus", func(w *p23world) []func() {
		ch := bus.Channel{Legacy: "x", Server: "x", Local: "x"}
		f := func(queue bool, n int) func() {
			return func() {
				g := bus.Subscribe[*Msg]
				if queue {
					g = bus.SubscribeQueue[*Msg]
				}
				for i := 0; i < n; i++ {
					s, err := g(context.Background(), w.bus, ch, 1)
					if err != nil {
						panic(err)
					}
					_ = w.bus.Publish(context.Background(), ch, p23req)
					go func() { _ = s.Close() }()
				}
			}
		}
		return []func(){f(false, 2), f(true, 2), f(true, 1), func() { _ = w.bus.Publish(context.Background(), ch, p23req) }}
	})
	sc("shared-options", func(w *p23world) []func() {
		opts := append(make([]psrpc.ServerOption, 0, 4), psrpc.WithServerTimeout(time.Second), psrpc.WithServerRPCInterceptors(middleware.WithServerRecovery()))
		copts := append(make([]psrpc.ClientOption, 0, 4), psrpc.WithClientTimeout(time.Second), middleware.WithClientMetrics(p23obs{}))
		f := func(id string) func() {
			return func() {
				sd := Definition("x")
				s := server.NewRPCServer(sd, w.bus, opts...)
				_ = server.RegisterHandler(s, "one", []string{id}, p23handler, nil)
				_ = sd.GetInfo("one", []string{id}).GetRPCChannel()
				c, err := client.NewRPCClientWithStreams(Definition("x"), w.bus, copts...)
				if err == nil {
					_, _ = client.RequestSingle[*Msg](context.Background(), c, "one", []string{id}, p23req, p23opts...)
					p23close(s, c)
				}
			}
		}
		return []func(){f("a"), f("b")}
	})
	for _, same := range []bool{true, false} {
		same := same
		sc(fmt.Sprintf("metadata-%v", same), func(w *p23world) []func() {
			ctx := metadata.NewContextWithOutgoingMetadata(context.Background(), metadata.Metadata{"a": "1"})
			if same {
				ctx = metadata.AppendMetadataToOutgoingContext(ctx, "b", "2")
			}
			f := func(k string) func() {
				return func() {
					c := metadata.AppendMetadataToOutgoingContext(ctx, k, "3")
					_ = metadata.OutgoingContextMetadata(c)
					m := metadata.OutgoingContextMetadata(ctx)
					_ = len(m)
				}
			}
			return []func(){f("c"), f("d"), f("a")}
		})
	}
}
