package main

import (
	"context"
	"fmt"
	"slices"
	"sort"
	"time"

	"github.com/livekit/psrpc"
	"github.com/livekit/psrpc/internal/zzverif/mc"
	. "github.com/livekit/psrpc/internal/zzverif/sim"
	"github.com/livekit/psrpc/pkg/client"
	"github.com/livekit/psrpc/pkg/server"
)

// rpcs: every kind of call over the bus, from one process to two others, with and
// without a topic.
func rpcs(mk func(x *mc.X, procs int) *kit, kinds ...string) func(x *mc.X) {
	return func(x *mc.X) {
		k := mk(x, 3)
		log := &Log{}
		ctx := context.Background()
		var srv []*server.RPCServer
		topics := [][]string{nil, {"t"}, {"u", "v"}}
		must := func(what string, err error) {
			if err != nil {
				x.Fail("%s: %v", what, err)
			}
		}
		for i, id := range []string{"A", "B"} {
			s := NewServer(k.procs[i], id)
			srv = append(srv, s)
			for _, rpc := range kinds {
				if rpc == "str" || rpc == "sub" || rpc == "subq" {
					continue
				}
				for j, t := range topics {
					if rpc == "one" && j%2 != i {
						continue // one server each
					}
					who := fmt.Sprint(id, "/", rpc, t, "/")
					must("register", server.RegisterHandler(s, rpc, t, func(_ context.Context, m *Msg) (*Msg, error) {
						log.Add("%s", who+m.Value)
						return M(who + m.Value), nil
					}, nil))
				}
			}
			for _, t := range topics {
				if !slices.Contains(kinds, "str") {
					break
				}
				who := fmt.Sprint(id, "/str", t, "/")
				must("register", server.RegisterStreamHandler(s, "str", t, func(st psrpc.ServerStream[*Msg, *Msg]) error {
					log.Add("%s", who)
					for m := range st.Channel() {
						if err := st.Send(M(who + m.Value)); err != nil {
							return err
						}
					}
					return nil
				}, nil))
			}
		}
		c, err := NewClient(k.procs[2], "C")
		must("client", err)
		x.Idle()
		calm := func() bool { return x.TimeDevs() == 0 }
		for _, kind := range kinds {
			for _, t := range topics {
				v := fmt.Sprint("v", t)
				runs := func(want int) {
					n := 0
					for _, id := range []string{"A", "B"} {
						n += log.Count(fmt.Sprint(id, "/", kind, t, "/", v))
					}
					if n != want && calm() || n > want {
						x.Fail("%s%s: %d of %d handlers ran: %s", kind, t, n, want, log)
					}
				}
				switch kind {
				case "single", "second", "queue", "one":
					res, err := Call(ctx, c, kind, t, v)
					if err != nil && calm() {
						x.Fail("%s%s: %v", kind, t, err)
					}
					if want := fmt.Sprint("/", kind, t, "/", v); err == nil && (len(res) != len(want)+1 || res[1:] != want) {
						x.Fail("%s%s: answer %q", kind, t, res)
					}
					x.Idle()
					runs(1)
				case "multi":
					ch, err := client.RequestMulti[*Msg](ctx, c, kind, t, M(v), psrpc.WithRequestTimeout(time.Second))
					if err != nil {
						x.Fail("%s%s: %v", kind, t, err)
						continue
					}
					var got []string
					for r := range ch {
						if r.Err == nil {
							got = append(got, r.Result.Value)
						}
					}
					sort.Strings(got)
					want := []string{fmt.Sprint("A/", kind, t, "/", v), fmt.Sprint("B/", kind, t, "/", v)}
					if calm() && fmt.Sprint(got) != fmt.Sprint(want) {
						x.Fail("multi%s: answers %q", t, got)
					}
					runs(2)
				case "str":
					st, err := client.OpenStream[*Msg, *Msg](ctx, c, kind, t)
					if err != nil {
						if calm() {
							x.Fail("open stream %s: %v", t, err)
						}
						continue
					}
					for i := 0; i < 3; i++ {
						err := st.Send(M(fmt.Sprint(v, i)))
						if err != nil && calm() {
							x.Fail("send %s: %v", t, err)
						}
						select {
						case m := <-st.Channel():
							if want := fmt.Sprint("/str", t, "/", v, i); calm() && (m == nil || m.Value[1:] != want) {
								x.Fail("stream%s: answer %v", t, m)
							}
						case <-time.After(5 * time.Second):
							if calm() {
								x.Fail("stream%s: no answer", t)
							}
						}
					}
					_ = st.Close(nil)
				case "sub", "subq":
					f := client.Join[*Msg]
					if kind == "subq" {
						f = client.JoinQueue[*Msg]
					}
					a, err := f(ctx, c, kind, t)
					must("join", err)
					b, err := f(ctx, c, kind, t)
					must("join", err)
					x.Idle()
					for i := 0; i < 3; i++ {
						must("publish", srv[i%2].Publish(ctx, kind, t, M(fmt.Sprint(v, i))))
						x.Idle()
					}
					time.Sleep(time.Second)
					x.Idle()
					var got []string
					for _, s := range []interface{ Channel() <-chan *Msg }{a, b} {
						for len(s.Channel()) > 0 {
							got = append(got, (<-s.Channel()).GetValue())
						}
					}
					sort.Strings(got)
					want := fmt.Sprint([]string{v + "0", v + "1", v + "2"})
					if kind == "sub" {
						want = fmt.Sprint([]string{v + "0", v + "0", v + "1", v + "1", v + "2", v + "2"})
					}
					if calm() && fmt.Sprint(got) != want {
						x.Fail("%s%s received %q", kind, t, got)
					}
					_ = a.Close()
					_ = b.Close()
				}
			}
		}
		x.Out("%s", log.Sorted())
		c.Close()
		for _, s := range srv {
			s.Close(true)
		}
		Settle(x, 20*time.Second)
		k.checkSubjects("all closed", nil)
		k.close()
	}
}

func init() {
	for _, kind := range []string{"single", "queue", "one", "multi", "str", "sub", "subq"} {
		add(
			mc.Scenario{Name: "P14/rpc-" + kind, Passes: []mc.Pass{mc.P1s}, Deep: []mc.Pass{mc.P1}, AllowAlive: -1, Body: rpcs(redisKit, kind)},
			mc.Scenario{Name: "P15/rpc-" + kind, Passes: []mc.Pass{mc.P1s}, Deep: []mc.Pass{mc.P1}, Body: rpcs(natsKit, kind)},
		)
	}
	// not subq: queue messages of a subject are lost among processes with different
	// methods on NATS, see the known findings
	all := []string{"single", "second", "queue", "one", "multi", "str", "sub"}
	add(
		mc.Scenario{Name: "P14/rpc-all", Passes: env, AllowAlive: -1, Body: rpcs(redisKit, all...)},
		mc.Scenario{Name: "P15/rpc-all", Passes: env, Body: rpcs(natsKit, all...)},
	)
}
