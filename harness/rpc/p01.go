package main

import (
	"context"
	"fmt"
	"strings"
	"time"

	"github.com/livekit/psrpc"
	"github.com/livekit/psrpc/internal/zzverif/mc"
	. "github.com/livekit/psrpc/internal/zzverif/sim"
)

// judgeSingle checks that request req to rpc ran at most once and, when it
// succeeded, exactly once with the returned value.
func judgeSingle(w *World, rpc, req, res string, err error) {
	n := 0
	who := ""
	for _, e := range w.Log.All() {
		if strings.HasPrefix(e, "exec ") && strings.HasSuffix(e, "/"+rpc+"/"+req) {
			n++
			who = strings.Split(strings.TrimPrefix(e, "exec "), "/")[0]
		}
	}
	if n > 1 {
		w.X.Fail("request %s %s ran %d times", rpc, req, n)
	}
	if err == nil {
		if n != 1 {
			w.X.Fail("request %s %s succeeded but ran %d times", rpc, req, n)
		} else if res != who+"/"+rpc+"/"+req {
			w.X.Fail("request %s %s ran on %s but returned %q", rpc, req, who, res)
		}
	}
}

func p01(rpc string, topic []string, servers, requests int, faults ...string) func(x *mc.X) {
	return func(x *mc.X) {
		w := NewWorld(x)
		for i := 0; i < servers; i++ {
			id := string(rune('A' + i))
			w.Echo(w.Server(id), id, rpc, topic)
		}
		c := w.Client("C")
		if len(faults) > 0 {
			w.Faults(2, faults...)
		}
		var fs []func()
		for i := 0; i < requests; i++ {
			req := fmt.Sprint("r", i)
			fs = append(fs, func() {
				var res string
				var err error
				Timed(func() { res, err = Call(context.Background(), c, rpc, topic, req) })
				if err != nil && x.TimeDevs() == 0 && w.Injected() == 0 {
					x.Fail("request %s to live servers failed although nothing was lost or late: %v", req, err)
				}
				time.Sleep(10 * time.Second)
				judgeSingle(w, rpc, req, res, err)
				x.Out("%s=%s,%s", req, res, ErrString(err))
			})
		}
		if len(fs) == 1 {
			fs[0]()
		} else {
			Par(fs...)
		}
		w.Faults(0)
		w.Close()
	}
}

func init() {
	one := []mc.Pass{mc.P1, mc.P2}
	deep := []mc.Pass{mc.P2a, mc.P3}
	add(
		mc.Scenario{Name: "P01/claim-2s", Passes: one, Deep: deep, Body: p01("aff", nil, 2, 1)},
		mc.Scenario{Name: "P01/claim-3s", Passes: []mc.Pass{mc.P1}, Deep: []mc.Pass{mc.P2}, Body: p01("aff", nil, 3, 1)},
		mc.Scenario{Name: "P01/first-2s", Passes: []mc.Pass{mc.P1}, Deep: []mc.Pass{mc.P2}, Body: p01("claim1", nil, 2, 1)},
		mc.Scenario{Name: "P01/queue-2s-2r", Passes: one, Deep: deep, Body: p01("single", nil, 2, 2)},
		mc.Scenario{Name: "P01/qonly-2s-2r", Passes: one, Deep: deep, Body: p01("queue", nil, 2, 2)},
		mc.Scenario{Name: "P01/topic-1s-2r", Passes: one, Deep: deep, Body: p01("one", []string{"t"}, 1, 2)},
		mc.Scenario{Name: "P01/claim-2s-2r", Passes: []mc.Pass{mc.P1}, Deep: []mc.Pass{mc.P2}, Body: p01("aff", nil, 2, 2)},
		mc.Scenario{Name: "P01/claim-2s-lossy", Passes: []mc.Pass{{Name: "env/2", Bound: 2, Class: mc.Env}, mc.P2s}, Deep: []mc.Pass{mc.P2}, Body: p01("aff", nil, 2, 1, Lost, Fail, Delay)},
		mc.Scenario{Name: "P01/queue-2s-lossy", Passes: []mc.Pass{{Name: "env/2", Bound: 2, Class: mc.Env}, mc.P2s}, Deep: []mc.Pass{mc.P2}, Body: p01("single", nil, 2, 2, Lost, Fail, Delay)},
		// a server that leaves while claiming
		mc.Scenario{Name: "P01/claim-2s-leave", Passes: []mc.Pass{mc.P1}, Deep: []mc.Pass{mc.P2}, Body: func(x *mc.X) {
			w := NewWorld(x)
			a, b := w.Server("A"), w.Server("B")
			w.Echo(a, "A", "aff", nil)
			w.Echo(b, "B", "aff", nil)
			c := w.Client("C")
			Par(func() {
				res, err := Call(context.Background(), c, "aff", nil, "r")
				time.Sleep(10 * time.Second)
				judgeSingle(w, "aff", "r", res, err)
				x.Out("%s,%s", res, ErrString(err))
			}, func() { a.Close(x.Choice(2, 1) == 1) })
			w.Close()
		}},
		// selection deadline and server-side claim wait around the same time
		mc.Scenario{Name: "P01/claim-2s-slow", Passes: []mc.Pass{mc.P1, mc.P2s}, Deep: []mc.Pass{mc.P2}, Body: func(x *mc.X) {
			w := NewWorld(x)
			for _, id := range []string{"A", "B"} {
				d := mc.Pick(x, 2, 0, 200*time.Millisecond, time.Second)
				w.Handle(w.Server(id), "aff", nil, w.EchoFn(id, "aff"), func(context.Context, *Msg) float32 { time.Sleep(d); return 0.5 })
			}
			c := w.Client("C")
			res, err := Call(context.Background(), c, "aff", nil, "r", psrpc.WithRequestTimeout(mc.Pick(x, 3, 3*time.Second, time.Second, 200*time.Millisecond)))
			time.Sleep(10 * time.Second)
			judgeSingle(w, "aff", "r", res, err)
			x.Out("%s,%s", res, ErrString(err))
			w.Close()
		}},
	)
}
