package main

import (
	"context"
	"errors"
	"fmt"
	"time"

	"github.com/livekit/psrpc"
	"github.com/livekit/psrpc/internal/zzverif/mc"
	. "github.com/livekit/psrpc/internal/zzverif/sim"
	"github.com/livekit/psrpc/pkg/client"
)

// behave is what a multi handler does.
type behave struct {
	name string
	d    time.Duration
	err  error
}

var behaves = []behave{
	{"ok", 0, nil}, {"err", 0, psrpc.NewErrorf(psrpc.NotFound, "no %s", "thing")},
	{"slow", 500 * ms, nil}, {"slowerr", 500 * ms, errors.New("plain")},
	{"late", 4 * time.Second, nil}, {"nil", 0, nil},
}

// multiOnce makes one multi request to servers behaving as told and compares.
func multiOnce(w *World, c *client.RPCClient, rpc, req string, bs map[string]behave, limit time.Duration, cancelAt time.Duration) {
	x := w.X
	ctx := context.Background()
	end := limit
	if cancelAt > 0 {
		var cancel context.CancelFunc
		ctx, cancel = context.WithCancel(ctx)
		defer cancel()
		t := time.AfterFunc(cancelAt, cancel)
		defer t.Stop()
		if cancelAt < end {
			end = cancelAt
		}
	}
	start := time.Now()
	ch, err := client.RequestMulti[*Msg](ctx, c, rpc, nil, M(req), psrpc.WithRequestTimeout(limit))
	if err != nil {
		if w.Injected() == 0 {
			x.Fail("multi %s: %v", req, err)
		}
		return
	}
	want := map[string]int{}
	maxw := map[string]int{}
	for id, b := range bs {
		k := id + "/" + rpc + "/" + req
		switch {
		case b.err != nil && b.name == "slowerr":
			k = "unknown/plain " + id
		case b.err != nil:
			k = "not_found/no thing " + id
		case b.name == "nil":
			k = ""
		}
		maxw[k]++
		if b.d < end {
			want[k]++
		}
	}
	got := map[string]int{}
	for r := range ch {
		switch {
		case r.Err != nil:
			e, ok := r.Err.(psrpc.Error)
			if !ok {
				x.Fail("multi %s: not a psrpc error: %v", req, r.Err)
				continue
			}
			got[string(e.Code())+"/"+e.Error()]++
			if r.Result != nil && r.Result.Value != "" {
				x.Fail("multi %s: a result with an error: %v %v", req, r.Result, r.Err)
			}
		default:
			got[r.Result.GetValue()]++
		}
	}
	took := time.Since(start)
	for k, n := range got {
		if n > maxw[k] {
			x.Fail("multi %s: response %q received %d times, at most %d expected", req, k, n, maxw[k])
		}
	}
	if x.TimeDevs() == 0 {
		for k, n := range want {
			if got[k] != n {
				x.Fail("multi %s: response %q received %d times, expected %d (all: %v)", req, k, got[k], n, got)
			}
		}
		if took != end {
			x.Fail("multi %s: the channel closed after %v, expected %v", req, took, end)
		}
	}
	x.Out("%s %v %v", req, got, took)
	// closed for good
	time.Sleep(5 * time.Second)
	select {
	case v, ok := <-ch:
		if ok {
			x.Fail("multi %s: response %v after the end", req, v)
		}
	default:
		x.Fail("multi %s: the channel is open again", req)
	}
	for id := range bs {
		n := w.Log.Count("exec " + id + "/" + rpc + "/" + req)
		if n > 1 || n != 1 && x.TimeDevs() == 0 && w.Injected() == 0 {
			x.Fail("multi %s ran %d times on %s", req, n, id)
		}
	}
}

func p05server(w *World, id, rpc string, b behave) {
	w.Handle(w.Server(id), rpc, nil, func(ctx context.Context, m *Msg) (*Msg, error) {
		w.Log.Add("exec %s/%s/%s", id, rpc, m.Value)
		time.Sleep(b.d)
		switch {
		case b.name == "slowerr":
			return nil, errors.New("plain " + id)
		case b.err != nil:
			return nil, psrpc.NewErrorf(psrpc.NotFound, "no thing %s", id)
		case b.name == "nil":
			return nil, nil
		}
		return M(id + "/" + rpc + "/" + m.Value), nil
	}, nil)
}

func p05(n, requests int, kinds []behave, cancel bool) func(x *mc.X) {
	return func(x *mc.X) {
		w := NewWorld(x)
		bs := map[string]behave{}
		prev := 0
		for i := 0; i < n; i++ {
			id := string(rune('A' + i))
			b := kinds[0]
			if len(kinds) > 1 {
				k := x.Choice(len(kinds), 1)
				if k < prev {
					k = prev
				}
				prev = k
				b = kinds[k]
			}
			bs[id] = b
			p05server(w, id, "multi", b)
		}
		c := w.Client("C")
		var at time.Duration
		if cancel {
			at = mc.Pick(x, 2, 0, 300*ms)
		}
		var fs []func()
		for i := 0; i < requests; i++ {
			req := fmt.Sprint("m", i)
			fs = append(fs, func() { multiOnce(w, c, "multi", req, bs, 2*time.Second, at) })
		}
		if len(fs) == 1 {
			fs[0]()
		} else {
			Par(fs...)
		}
		w.Close()
	}
}

func init() {
	one := []mc.Pass{mc.P1, mc.P2}
	deep := []mc.Pass{mc.P2a, mc.P3}
	okay := behaves[:1]
	add(
		mc.Scenario{Name: "P05/behaviours-2s", Passes: []mc.Pass{mc.E, mc.P1}, Deep: []mc.Pass{mc.P2}, Body: p05(2, 1, behaves, true)},
		mc.Scenario{Name: "P05/behaviours-3s", Passes: []mc.Pass{mc.E}, Deep: []mc.Pass{mc.P1}, Body: p05(3, 1, behaves, true)},
		mc.Scenario{Name: "P05/behaviours-4s", Deep: env, Body: p05(4, 1, behaves, true)},
		mc.Scenario{Name: "P05/2s", Passes: one, Deep: deep, Body: p05(2, 1, okay, false)},
		mc.Scenario{Name: "P05/2s-2r", Passes: []mc.Pass{mc.P1, mc.P2s}, Deep: deep, Body: p05(2, 2, okay, false)},
		mc.Scenario{Name: "P05/3s", Passes: []mc.Pass{mc.P1, mc.P2s}, Deep: deep, Body: p05(3, 1, okay, false)},
		// responses arriving exactly when the request ends
		mc.Scenario{Name: "P05/edge", Passes: []mc.Pass{mc.P1, mc.P2}, Deep: deep, Body: func(x *mc.X) {
			w := NewWorld(x)
			for _, id := range []string{"A", "B"} {
				p05server(w, id, "multi", behave{"edge", mc.Pick(x, 1, 2*time.Second, 2*time.Second-1, 0), nil})
			}
			c := w.Client("C")
			ctx, cancel := context.WithCancel(context.Background())
			if x.Choice(2, 2) == 1 {
				time.AfterFunc(2*time.Second, cancel)
			} else {
				defer cancel()
			}
			ch, err := client.RequestMulti[*Msg](ctx, c, "multi", nil, M("m"), psrpc.WithRequestTimeout(2*time.Second))
			if err != nil {
				x.Fail("multi: %v", err)
				return
			}
			got := map[string]int{}
			for r := range ch {
				if r.Err != nil {
					x.Fail("multi response: %v", r.Err)
					continue
				}
				if got[r.Result.Value]++; got[r.Result.Value] > 1 {
					x.Fail("response %v twice", r.Result.Value)
				}
			}
			x.Out("%v", got)
			w.Close()
			cancel()
		}},
		// the buffers of the client are smaller than the number of responses
		mc.Scenario{Name: "P05/small-buffers", Passes: []mc.Pass{mc.E, mc.P1}, Deep: deep, Body: func(x *mc.X) {
			w := NewWorld(x)
			for _, id := range []string{"A", "B", "D"} {
				w.Echo(w.Server(id), id, "multi", nil)
			}
			c := w.Client("C", psrpc.WithClientChannelSize(mc.Pick(x, 1, 1, 0, 2)))
			slow := mc.Pick(x, 2, 0, 300*ms)
			ch, err := client.RequestMulti[*Msg](context.Background(), c, "multi", nil, M("m"), psrpc.WithRequestTimeout(2*time.Second))
			if err != nil {
				x.Fail("multi: %v", err)
				return
			}
			got := map[string]int{}
			for r := range ch {
				if r.Err != nil {
					x.Fail("multi response: %v", r.Err)
					continue
				}
				if got[r.Result.Value]++; got[r.Result.Value] > 1 {
					x.Fail("response %v twice", r.Result.Value)
				}
				time.Sleep(slow)
			}
			if len(got) != 3 && x.TimeDevs() == 0 {
				x.Fail("responses %v from three servers", got)
			}
			x.Out("%v", got)
			w.Close()
		}},
		// a server joins or leaves while the request is made
		mc.Scenario{Name: "P05/join-leave", Passes: one, Deep: deep, Body: func(x *mc.X) {
			w := NewWorld(x)
			a, b := w.Server("A"), w.Server("B")
			w.Echo(a, "A", "multi", nil)
			join := x.Choice(2, 1) == 0
			if !join {
				w.Echo(b, "B", "multi", nil)
			}
			c := w.Client("C")
			got := map[string]int{}
			Par(func() {
				ch, err := client.RequestMulti[*Msg](context.Background(), c, "multi", nil, M("m"), psrpc.WithRequestTimeout(2*time.Second))
				if err != nil {
					x.Fail("multi: %v", err)
					return
				}
				for r := range ch {
					if r.Err != nil {
						x.Fail("multi response: %v", r.Err)
					} else {
						got[r.Result.Value]++
					}
				}
			}, func() {
				if join {
					w.Echo(b, "B", "multi", nil)
				} else {
					b.Close(false)
				}
			})
			if n := got["A/multi/m"]; n != 1 && x.TimeDevs() == 0 || n > 1 {
				x.Fail("%d responses from the server that stayed", n)
			}
			nb := w.Log.Count("exec B/multi/m")
			if nb > 1 || got["B/multi/m"] > nb || got["B/multi/m"] < nb && x.TimeDevs() == 0 {
				x.Fail("the other server ran %d times, %d responses", nb, got["B/multi/m"])
			}
			if len(got) > 2 {
				x.Fail("foreign responses %v", got)
			}
			x.Out("%v", got)
			w.Close()
		}},
		// two clients and two multi methods at once
		mc.Scenario{Name: "P05/2clients", Passes: []mc.Pass{mc.P1}, Deep: []mc.Pass{mc.P2}, Body: func(x *mc.X) {
			w := NewWorld(x)
			for _, id := range []string{"A", "B"} {
				s := w.Server(id)
				w.Echo(s, id, "multi", nil)
				w.Echo(s, id, "multi2", nil)
			}
			c, d := w.Client("C"), w.Client("D")
			Par(
				func() { collectMulti(w, c, "multi", nil, "m1", []string{"A", "B"}) },
				func() { collectMulti(w, d, "multi2", nil, "m2", []string{"A", "B"}) },
			)
			w.Close()
		}},
	)
}
