package main

import (
	"context"
	"fmt"
	"time"

	"github.com/livekit/psrpc"
	"github.com/livekit/psrpc/internal/zzverif/mc"
	. "github.com/livekit/psrpc/internal/zzverif/sim"
	"github.com/livekit/psrpc/pkg/client"
	"github.com/livekit/psrpc/pkg/server"
)

// similar are ids of servers or clients that are easy to mistake for each other.
var similar = [][]string{
	{"n1", "n10", "n11"},
	{"n", "N", "nn"},
	{"ab", "b", "a"},
	{"x", "x_", "_x"},
	{"é", "e", "É"},
	{"1", "01", "1.0"},
	{"C", "RES", "CLAIM"},
}

func pickIDs(x *mc.X) []string {
	ids := similar[x.Choice(len(similar), 1)]
	n := x.Choice(3, 2)
	return []string{ids[n], ids[(n+1)%3], ids[(n+2)%3]}
}

// p01ids: servers with similar ids; the best one runs every request, alone.
func p01ids(x *mc.X) {
	ids := pickIDs(x)
	best := ids[x.Choice(3, 3)]
	kind := Pick2(x, 4, "aff", "single", "stra", "str")
	w := NewWorld(x)
	opened := map[string]int{}
	for _, id := range ids {
		s := w.Server(id)
		aff := float32(0.5)
		if id == best {
			aff = 1
		}
		switch kind {
		case "aff":
			w.Handle(s, kind, nil, w.EchoFn(id, kind), func(context.Context, *Msg) float32 { return aff })
		case "single":
			w.Echo(s, id, kind, nil)
		default:
			if err := server.RegisterStreamHandler[*Msg, *Msg](s, kind, nil, func(st psrpc.ServerStream[*Msg, *Msg]) error {
				opened[id]++
				for m := range st.Channel() {
					_ = st.Send(M(id + ":" + m.Value))
				}
				return nil
			}, func(context.Context) float32 { return aff }); err != nil {
				x.Fail("register: %v", err)
			}
		}
	}
	c := w.Client("C")
	opts := []psrpc.RequestOption{psrpc.WithSelectionOpts(psrpc.SelectionOpts{AffinityTimeout: time.Second})}
	for r := 0; r < 2; r++ {
		req := fmt.Sprint("r", r)
		switch kind {
		case "aff", "single":
			res, err := Call(context.Background(), c, kind, nil, req, opts...)
			w.Quiesce()
			judgeSingle(w, kind, req, res, err)
			if err != nil || kind == "aff" && res != best+"/aff/"+req {
				x.Fail("%s of %v, best %s: %q %v", kind, ids, best, res, err)
			}
		default:
			clear(opened)
			st, err := client.OpenStream[*Msg, *Msg](context.Background(), c, kind, nil, opts...)
			if err != nil {
				x.Fail("open: %v", err)
				continue
			}
			_ = st.Send(M(req))
			m := <-st.Channel()
			w.Quiesce()
			if len(opened) != 1 || opened[best] != 1 || val(m) != best+":"+req {
				x.Fail("stream to %v, best %s: opened by %v, %q", ids, best, opened, val(m))
			}
			_ = st.Close(nil)
		}
	}
	x.Out("%v %s", ids, best)
	w.Close()
}

// p02ids: clients with similar ids get their own answers.
func p02ids(x *mc.X) {
	ids := pickIDs(x)
	kind := Pick2(x, 3, "aff", "single", "one", "multi", "str")
	w := NewWorld(x)
	sids := []string{"A"}
	if kind != "one" {
		sids = append(sids, "B")
	}
	for _, id := range sids {
		s := w.Server(id)
		if kind == "str" {
			streamEcho(w, s, id, kind)
		} else {
			w.Echo(s, id, kind, nil)
		}
	}
	var cs []*client.RPCClient
	for _, id := range ids {
		cs = append(cs, w.Client(id))
	}
	var fs []func()
	for i, c := range cs {
		fs = append(fs, func() {
			for r := 0; r < 2; r++ {
				req := fmt.Sprintf("%d-%d", i, r)
				switch kind {
				case "multi":
					collectMulti(w, c, kind, nil, req, sids, psrpc.WithRequestTimeout(time.Second))
				case "str":
					st, err := client.OpenStream[*Msg, *Msg](context.Background(), c, kind, nil)
					if err != nil {
						x.Fail("open: %v", err)
						return
					}
					_ = st.Send(M(req))
					if m := val(<-st.Channel()); m != "A:"+req && m != "B:"+req {
						x.Fail("client %s of %v got %q for %s", ids[i], ids, m, req)
					}
					_ = st.Close(nil)
				default:
					expectCall(w, c, kind, nil, req, sids...)
				}
			}
		})
	}
	Par(fs...)
	w.Close()
}

func init() {
	env := []mc.Pass{mc.E}
	add(
		mc.Scenario{Name: "P01/ids", Passes: env, Body: p01ids},
		mc.Scenario{Name: "P02/ids", Passes: env, Body: p02ids},
	)
}
