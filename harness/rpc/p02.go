package main

import (
	"context"
	"fmt"
	"strings"
	"time"

	"github.com/livekit/psrpc"
	"github.com/livekit/psrpc/internal/zzverif/mc"
	. "github.com/livekit/psrpc/internal/zzverif/sim"
	"github.com/livekit/psrpc/pkg/client"
	"github.com/livekit/psrpc/pkg/info"
	"github.com/livekit/psrpc/pkg/server"
)

// expectCall makes a request and checks that the answer is the one computed
// from it by a server of the list.
func expectCall(w *World, c *client.RPCClient, rpc string, topic []string, req string, servers ...string) {
	x := w.X
	res, err := Call(context.Background(), c, rpc, topic, req)
	if err != nil {
		if x.TimeDevs() == 0 && w.Injected() == 0 {
			x.Fail("%s %v %s failed although nothing was lost or late: %v", rpc, topic, req, err)
		}
		x.Out("%s=%s", req, ErrString(err))
		return
	}
	for _, s := range servers {
		if res == s+"/"+rpc+"/"+req {
			x.Out("%s=%s", req, res)
			return
		}
	}
	x.Fail("%s %v %s was answered %q, expected one of %v", rpc, topic, req, res, servers)
}

// onlyHandled checks that every logged execution is one of the allowed ones.
func onlyHandled(w *World, allowed map[string]bool) {
	for _, e := range w.Log.All() {
		if !allowed[e] {
			w.X.Fail("unexpected handler run %q", e)
		}
	}
}

func init() {
	one := []mc.Pass{mc.P1, mc.P2}
	deep := []mc.Pass{mc.P2a, mc.P3}
	add(
		mc.Scenario{Name: "P02/2clients-2methods", Passes: one, Deep: deep, Body: func(x *mc.X) {
			w := NewWorld(x)
			a := w.Server("A")
			w.Echo(a, "A", "single", nil)
			w.Echo(a, "A", "second", nil)
			c, d := w.Client("C"), w.Client("D")
			Par(
				func() { expectCall(w, c, "single", nil, "c1", "A") },
				func() { expectCall(w, c, "second", nil, "c2", "A") },
				func() { expectCall(w, d, "single", nil, "d1", "A") },
			)
			w.Quiesce()
			onlyHandled(w, map[string]bool{"exec A/single/c1": true, "exec A/second/c2": true, "exec A/single/d1": true})
			w.Close()
		}},
		mc.Scenario{Name: "P02/1client-2requests", Passes: one, Deep: deep, Body: func(x *mc.X) {
			w := NewWorld(x)
			for _, id := range []string{"A", "B"} {
				w.Echo(w.Server(id), id, "aff", nil)
			}
			c := w.Client("C")
			Par(
				func() { expectCall(w, c, "aff", nil, "r1", "A", "B") },
				func() { expectCall(w, c, "aff", nil, "r2", "A", "B") },
			)
			w.Close()
		}},
		mc.Scenario{Name: "P02/topics", Passes: one, Deep: deep, Body: func(x *mc.X) {
			w := NewWorld(x)
			a, b := w.Server("A"), w.Server("B")
			w.Echo(a, "A1", "aff", []string{"t1"})
			w.Echo(a, "A2", "aff", []string{"t2"})
			w.Echo(b, "B", "one", []string{"t1", "u"})
			w.Echo(b, "B2", "one", []string{"t1"})
			c := w.Client("C")
			Par(
				func() { expectCall(w, c, "aff", []string{"t1"}, "r1", "A1") },
				func() { expectCall(w, c, "aff", []string{"t2"}, "r2", "A2") },
				func() { expectCall(w, c, "one", []string{"t1", "u"}, "r3", "B") },
			)
			w.Quiesce()
			onlyHandled(w, map[string]bool{"exec A1/aff/r1": true, "exec A2/aff/r2": true, "exec B/one/r3": true})
			w.Close()
		}},
		mc.Scenario{Name: "P02/topics-odd", Passes: env, Body: func(x *mc.X) {
			// a server for each of many topics which are nearly the same
			w := NewWorld(x)
			c := w.Client("C")
			rpc := []string{"one", "claim1", "single", "queue", "aff"}[x.Choice(5, 1)]
			topics := append([][]string{{"a", "b", "c", "d"}, {"a", "b", "c", "d", "e"}, {"a", "b", "c", "d", "f"}, {"a", "b", "c", "d", "e", "f", "g", "h"},
				{strings.Repeat("long", 100)}, {strings.Repeat("long", 100) + "x"}, {strings.Repeat("long", 100), "x"}, {"é", "é"}, {"e", "e"}}, p07topics...)
			allowed := map[string]bool{}
			for i, t := range topics {
				id := fmt.Sprint("S", i)
				w.Echo(w.Server(id), id, rpc, t)
				allowed[fmt.Sprintf("exec %s/%s/r%d", id, rpc, i)] = true
			}
			x.Idle()
			for i, t := range topics {
				expectCall(w, c, rpc, t, fmt.Sprint("r", i), fmt.Sprint("S", i))
			}
			w.Quiesce()
			onlyHandled(w, allowed)
			w.Close()
		}},
		mc.Scenario{Name: "P02/multi-and-single", Passes: []mc.Pass{mc.P1, mc.P2}, Deep: deep, Body: func(x *mc.X) {
			w := NewWorld(x)
			for _, id := range []string{"A", "B"} {
				s := w.Server(id)
				w.Echo(s, id, "multi", nil)
				w.Echo(s, id, "single", nil)
			}
			c := w.Client("C")
			Par(
				func() { expectCall(w, c, "single", nil, "s", "A", "B") },
				func() { collectMulti(w, c, "multi", nil, "m", []string{"A", "B"}) },
			)
			w.Close()
		}},
		mc.Scenario{Name: "P02/2multis", Passes: []mc.Pass{mc.P1}, Deep: deep, Body: func(x *mc.X) {
			w := NewWorld(x)
			for _, id := range []string{"A", "B"} {
				s := w.Server(id)
				w.Echo(s, id, "multi", nil)
				w.Echo(s, id, "multi2", nil)
			}
			c := w.Client("C")
			Par(
				func() { collectMulti(w, c, "multi2", nil, "m1", []string{"A", "B"}) },
				func() { collectMulti(w, c, "multi", nil, "m2", []string{"A", "B"}) },
			)
			w.Close()
		}},
		// two services with the same method names, ids and topics on one bus
		mc.Scenario{Name: "P02/services", Passes: one, Deep: deep, Body: func(x *mc.X) {
			w := NewWorld(x)
			var cs []*client.RPCClient
			for _, svc := range []string{"svc1", "svc2"} {
				sd := &info.ServiceDefinition{Name: svc, ID: "S"}
				sd.RegisterMethod("aff", true, false, true, false)
				s := server.NewRPCServer(sd, w.Bus, psrpc.WithServerID("S"))
				w.Servers = append(w.Servers, s)
				w.Echo(s, svc, "aff", []string{"t"})
				cd := &info.ServiceDefinition{Name: svc, ID: "C"}
				cd.RegisterMethod("aff", true, false, true, false)
				c, err := client.NewRPCClient(cd, w.Bus, psrpc.WithClientID("C"))
				if err != nil {
					x.Fail("client: %v", err)
					return
				}
				w.Clients = append(w.Clients, c)
				cs = append(cs, c)
			}
			Par(
				func() { expectCall(w, cs[0], "aff", []string{"t"}, "r1", "svc1") },
				func() { expectCall(w, cs[1], "aff", []string{"t"}, "r2", "svc2") },
			)
			w.Quiesce()
			onlyHandled(w, map[string]bool{"exec svc1/aff/r1": true, "exec svc2/aff/r2": true})
			w.Close()
		}},
		// an abandoned request's late answer must not reach a later request
		mc.Scenario{Name: "P02/late-answer", Passes: []mc.Pass{mc.P1, mc.P2s}, Deep: deep, Body: func(x *mc.X) {
			w := NewWorld(x)
			a := w.Server("A")
			d := mc.Pick(x, 1, 500*time.Millisecond, 900*time.Millisecond, 1500*time.Millisecond)
			w.Handle(a, "one", []string{"t"}, func(ctx context.Context, m *Msg) (*Msg, error) {
				if m.Value == "r1" {
					time.Sleep(d)
				}
				return w.EchoFn("A", "one")(ctx, m)
			}, nil)
			c := w.Client("C")
			res, err := Call(context.Background(), c, "one", []string{"t"}, "r1", psrpc.WithRequestTimeout(500*time.Millisecond))
			if err == nil && res != "A/one/r1" {
				x.Fail("r1 was answered %q", res)
			}
			expectCall(w, c, "one", []string{"t"}, "r2", "A")
			expectCall(w, c, "one", []string{"t"}, "r3", "A")
			w.Close()
		}},
		// streams of two clients
		mc.Scenario{Name: "P02/streams", Passes: []mc.Pass{mc.P1}, Deep: []mc.Pass{mc.P2}, Body: func(x *mc.X) {
			w := NewWorld(x)
			a := w.Server("A")
			streamEcho(w, a, "A", "str")
			var fs []func()
			for _, id := range []string{"C", "D"} {
				c := w.Client(id)
				for k := 0; k < 2; k++ {
					if id == "D" && k == 1 {
						continue
					}
					tag := fmt.Sprintf("%s%d", id, k)
					fs = append(fs, func() {
						st, err := client.OpenStream[*Msg, *Msg](context.Background(), c, "str", nil)
						if err != nil {
							if x.TimeDevs() == 0 {
								x.Fail("open %s: %v", tag, err)
							}
							return
						}
						if err := st.Send(M(tag)); err != nil && x.TimeDevs() == 0 {
							x.Fail("send %s: %v", tag, err)
						}
						select {
						case m, ok := <-st.Channel():
							if ok && m.Value != "A:"+tag {
								x.Fail("stream %s received %q", tag, m.Value)
							}
						case <-time.After(5 * time.Second):
							if x.TimeDevs() == 0 {
								x.Fail("stream %s received nothing", tag)
							}
						}
						_ = st.Close(nil)
						for m := range st.Channel() {
							x.Fail("stream %s also received %q", tag, m.Value)
						}
					})
				}
			}
			Par(fs...)
			w.Close()
		}},
	)
}

// streamEcho registers a stream handler echoing every message with a prefix.
func streamEcho(w *World, s *server.RPCServer, id, rpc string) {
	err := server.RegisterStreamHandler[*Msg, *Msg](s, rpc, nil, func(st psrpc.ServerStream[*Msg, *Msg]) error {
		for m := range st.Channel() {
			w.Log.Add("stream %s %s", id, m.Value)
			if err := st.Send(M(id + ":" + m.Value)); err != nil {
				return err
			}
		}
		return nil
	}, nil)
	if err != nil {
		w.X.Fail("register stream: %v", err)
	}
}

// collectMulti makes a multi request and checks that the responses are exactly
// one from each of the servers (when nothing is lost or late).
func collectMulti(w *World, c *client.RPCClient, rpc string, topic []string, req string, servers []string, opts ...psrpc.RequestOption) (got map[string]int) {
	x := w.X
	got = map[string]int{}
	ch, err := client.RequestMulti[*Msg](context.Background(), c, rpc, topic, M(req), opts...)
	if err != nil {
		if w.Injected() == 0 {
			x.Fail("multi %s: %v", req, err)
		}
		return
	}
	for r := range ch {
		if r.Err != nil {
			got[ErrString(r.Err)]++
		} else {
			got[r.Result.GetValue()]++
		}
	}
	n := 0
	for _, s := range servers {
		k := got[s+"/"+rpc+"/"+req]
		n += k
		if k > 1 {
			x.Fail("multi %s: %d responses from %s", req, k, s)
		}
		if k == 0 && x.TimeDevs() == 0 && w.Injected() == 0 {
			x.Fail("multi %s: no response from %s (got %v)", req, s, got)
		}
	}
	total := 0
	for _, k := range got {
		total += k
	}
	if total != n {
		x.Fail("multi %s: foreign responses: %v", req, got)
	}
	x.Out("multi %s %v", req, n)
	return
}
