package main

import (
	"context"
	"errors"
	"fmt"
	"time"

	"github.com/livekit/psrpc"
	"github.com/livekit/psrpc/internal/zzverif/mc"
	. "github.com/livekit/psrpc/internal/zzverif/sim"
	"github.com/livekit/psrpc/pkg/client"
	"github.com/livekit/psrpc/pkg/server"
)

// p07kinds are the kinds of handlers registered.
var p07kinds = []struct {
	rpc   string
	topic []string
}{{"one", []string{"t"}}, {"aff", nil}, {"queue", nil}, {"str", nil}}

// register registers a handler of the kind that tells its tag.
func register(w *World, s *server.RPCServer, kind int, tag string) error {
	k := p07kinds[kind]
	if k.rpc == "str" {
		return server.RegisterStreamHandler[*Msg, *Msg](s, k.rpc, k.topic, func(st psrpc.ServerStream[*Msg, *Msg]) error {
			w.Log.Add("open %s", tag)
			for m := range st.Channel() {
				if err := st.Send(M(tag + ":" + m.Value)); err != nil {
					return err
				}
			}
			return nil
		}, nil)
	}
	return server.RegisterHandler(s, k.rpc, k.topic, w.EchoFn(tag, k.rpc), nil)
}

// probe reports which handler serves, "" for none.
func probe(w *World, c *client.RPCClient, kind int, req string) string {
	k := p07kinds[kind]
	if k.rpc == "str" {
		st, err := client.OpenStream[*Msg, *Msg](context.Background(), c, k.rpc, k.topic, psrpc.WithRequestTimeout(time.Second))
		if err != nil {
			return ""
		}
		defer st.Close(nil)
		if err := st.Send(M(req)); err != nil {
			return ""
		}
		select {
		case m, ok := <-st.Channel():
			if ok && len(m.Value) > len(req)+1 {
				return m.Value[:len(m.Value)-len(req)-1]
			}
		case <-time.After(time.Second):
		}
		return ""
	}
	res, err := Call(context.Background(), c, k.rpc, k.topic, req, psrpc.WithRequestTimeout(time.Second))
	if err != nil {
		return ""
	}
	return res[:len(res)-len("/"+k.rpc+"/"+req)]
}

// p07topics are pairwise different topics, many of which are the same when their parts are joined,
// shortened, folded or cleaned of odd characters.
var p07topics = [][]string{nil, {"a"}, {"A"}, {"a", "b"}, {"b", "a"}, {"ab"}, {"a.b"}, {"a|b"}, {"a_b"}, {"a", "b", "c"}, {"a.b", "c"}, {"a", "b.c"},
	{"a", "b|c"}, {"a b"}, {"a-b"}, {"é"}, {"e"}, {"\U0001F600"}, {"\U0002F600"}, {"REQ"}, {"a", "REQ"}, {"b", "Q"}, {"u+00e9"}, {"*"}, {">"}}

// p07keys: handlers of two methods with two topics each are registered, served and removed independently.
func p07keys(x *mc.X) {
	w := NewWorld(x)
	i := x.Choice(len(p07topics), 1)
	j := x.Choice(len(p07topics), 2)
	if i == j {
		w.Close()
		return
	}
	s := w.Server("A")
	c := w.Client("C")
	rpcs := []string{"claim1", "multi"}
	type key struct {
		rpc   string
		topic int
	}
	var keys []key
	state := map[key]bool{}
	for _, r := range rpcs {
		for _, t := range []int{i, j} {
			k := key{r, t}
			if err := server.RegisterHandler(s, r, p07topics[t], func(_ context.Context, m *Msg) (*Msg, error) {
				return M(fmt.Sprint(k, m.Value)), nil
			}, nil); err != nil {
				x.Fail("register %s %q beside %v: %v", r, p07topics[t], state, err)
			}
			keys = append(keys, k)
			state[k] = true
		}
	}
	look := func(when string) {
		for _, k := range keys {
			ctx, cancel := context.WithTimeout(context.Background(), 300*ms)
			got := ""
			if k.rpc == "multi" {
				ch, err := client.RequestMulti[*Msg](ctx, c, k.rpc, p07topics[k.topic], M("m"))
				if err != nil {
					x.Fail("multi: %v", err)
				}
				for r := range ch {
					got += r.Result.GetValue()
				}
			} else if r, err := client.RequestSingle[*Msg](ctx, c, k.rpc, p07topics[k.topic], M("m")); err == nil {
				got = r.Value
			}
			cancel()
			want := ""
			if state[k] {
				want = fmt.Sprint(k, "m")
			}
			if got != want {
				x.Fail("%s of topics %q and %q %s: %q, expected %q", k.rpc, p07topics[i], p07topics[j], when, got, want)
			}
		}
	}
	look("registered")
	gone := keys[x.Choice(len(keys), 3)]
	s.DeregisterHandler(gone.rpc, p07topics[gone.topic])
	delete(state, gone)
	look("after one was removed")
	s.Close(false)
	for k := range state {
		delete(state, k)
	}
	look("after the server was closed")
	x.Out("%v", gone)
	w.Close()
}

func p07race(kind int, fs ...string) func(x *mc.X) {
	return func(x *mc.X) {
		w := NewWorld(x)
		s := w.Server("A")
		c := w.Client("C")
		errs := make([]error, len(fs))
		pre := false
		var run []func()
		closed := false
		for i, f := range fs {
			tag := fmt.Sprint("h", i)
			switch f {
			case "pre":
				pre = true
				if err := register(w, s, kind, tag); err != nil {
					x.Fail("register: %v", err)
				}
			case "reg":
				run = append(run, func() { errs[i] = register(w, s, kind, tag) })
			case "dereg":
				run = append(run, func() { s.DeregisterHandler(p07kinds[kind].rpc, p07kinds[kind].topic) })
			case "close":
				closed = true
				run = append(run, func() { s.Close(false) })
			case "force":
				closed = true
				run = append(run, func() { s.Close(true) })
			case "call":
				run = append(run, func() { _ = probe(w, c, kind, "during") })
			}
		}
		Par(run...)
		ok := []string{}
		regs, deregs := 0, 0
		for i, f := range fs {
			switch f {
			case "reg":
				regs++
				if errs[i] == nil {
					ok = append(ok, fmt.Sprint("h", i))
				} else if closed && !errors.Is(errs[i], psrpc.ErrServerClosed) && errs[i].Error() != "handler already exists" {
					x.Fail("registering failed with %v", errs[i])
				}
			case "dereg":
				deregs++
			}
		}
		lim := 1 + deregs
		if pre {
			lim--
		}
		if closed {
			lim++
		}
		if len(ok) > lim {
			x.Fail("%d concurrent registrations of one handler succeeded", len(ok))
		}
		if !pre && !closed && deregs == 0 && len(ok) != 1 {
			x.Fail("%d of %d registrations succeeded: %v", len(ok), regs, errs)
		}
		got := probe(w, c, kind, "after")
		if closed {
			if got != "" {
				x.Fail("%s serves on the closed server", got)
			}
			if err := register(w, s, kind, "late"); err == nil || !errors.Is(err, psrpc.ErrServerClosed) {
				x.Fail("registering on the closed server: %v", err)
			}
			if got := probe(w, c, kind, "after2"); got != "" {
				x.Fail("%s serves on the closed server", got)
			}
		} else if deregs == 0 && x.TimeDevs() == 0 {
			if pre && got != "h0" || !pre && (len(ok) != 1 || got != ok[0]) {
				x.Fail("%q serves, registered: %v", got, ok)
			}
		}
		// the key is either served or free
		if !closed {
			s.DeregisterHandler(p07kinds[kind].rpc, p07kinds[kind].topic)
			if got := probe(w, c, kind, "gone"); got != "" {
				x.Fail("%s serves after deregistration", got)
			}
			if err := register(w, s, kind, "again"); err != nil {
				x.Fail("the key cannot be registered again: %v", err)
			}
			if err := register(w, s, kind, "twice"); err == nil {
				x.Fail("registered twice")
			}
			if got := probe(w, c, kind, "again"); got != "again" && w.Calm() {
				x.Fail("%q serves after registering again", got)
			}
		}
		x.Out("%v %q", errs, got)
		w.Close()
	}
}

// p07seq is every sequence of n operations on two keys against the reference.
func p07seq(n int) func(x *mc.X) {
	return func(x *mc.X) {
		w := NewWorld(x)
		s := w.Server("A")
		c := w.Client("C")
		ka := x.Choice(len(p07kinds), 9)
		kinds := [2]int{ka, (ka + 1) % len(p07kinds)}
		var state [2]string
		closed := false
		trace := ""
		for i := 0; i < n; i++ {
			op := x.Choice(9, 10)
			k := op % 2
			kind := kinds[k]
			tag := fmt.Sprint("h", i)
			fail := 0
			switch op {
			case 0, 1, 4, 5, 6, 7:
				if op >= 4 {
					fail = 1 + (op-4)/2
				}
				// the subscription that fails, if any
				subs := 1
				if p07kinds[kind].rpc == "aff" || p07kinds[kind].rpc == "str" {
					subs = 2
				}
				w.FailSubs = fail
				err := register(w, s, kind, tag)
				w.FailSubs = 0
				trace += fmt.Sprintf(" reg%d(fail %d)", k, fail)
				switch {
				case closed:
					if !errors.Is(err, psrpc.ErrServerClosed) {
						x.Fail("%s: registering on a closed server: %v", trace, err)
					}
				case state[k] != "" || fail > 0 && fail <= subs:
					if err == nil {
						x.Fail("%s: registered", trace)
					}
				default:
					if err != nil {
						x.Fail("%s: %v", trace, err)
					}
					state[k] = tag
				}
			case 2, 3:
				trace += fmt.Sprintf(" dereg%d", k)
				s.DeregisterHandler(p07kinds[kind].rpc, p07kinds[kind].topic)
				state[k] = ""
			case 8:
				trace += " close"
				s.Close(i%2 == 0)
				closed = true
				state = [2]string{}
			}
			for q := 0; q < 2; q++ {
				if got := probe(w, c, kinds[q], fmt.Sprint("p", i)); got != state[q] && x.TimeDevs() == 0 {
					x.Fail("%s: %q serves %s, expected %q", trace, got, p07kinds[kinds[q]].rpc, state[q])
				}
			}
		}
		x.Out("%s", trace)
		w.Close()
	}
}

func init() {
	one := []mc.Pass{mc.P1, mc.P2}
	deep := []mc.Pass{mc.P2a, mc.P3}
	add(
		mc.Scenario{Name: "P07/keys", Passes: env, Body: p07keys},
		mc.Scenario{Name: "P07/sequences-2", Passes: env, Body: p07seq(2)},
		mc.Scenario{Name: "P07/sequences-3", Passes: env, Body: p07seq(3)},
		mc.Scenario{Name: "P07/sequences-4", Deep: env, Body: p07seq(4)},
	)
	for kind, k := range p07kinds {
		n := k.rpc
		add(
			mc.Scenario{Name: "P07/2reg-" + n, Passes: one, Deep: deep, Body: p07race(kind, "reg", "reg")},
			mc.Scenario{Name: "P07/reg-close-" + n, Passes: one, Deep: deep, Body: p07race(kind, "reg", "close")},
			mc.Scenario{Name: "P07/reg-force-" + n, Passes: []mc.Pass{mc.P1, mc.P2s}, Deep: deep, Body: p07race(kind, "reg", "force")},
			mc.Scenario{Name: "P07/reg-dereg-" + n, Passes: one, Deep: deep, Body: p07race(kind, "pre", "reg", "dereg")},
			mc.Scenario{Name: "P07/dereg-call-" + n, Passes: []mc.Pass{mc.P1, mc.P2s}, Deep: deep, Body: p07race(kind, "pre", "dereg", "call")},
			mc.Scenario{Name: "P07/dereg-close-" + n, Passes: []mc.Pass{mc.P1, mc.P2s}, Deep: deep, Body: p07race(kind, "pre", "dereg", "close", "dereg")},
		)
	}
	add(
		// a request made after deregistration returned is never handled
		mc.Scenario{Name: "P07/dereg-then-call", Passes: one, Deep: deep, Body: func(x *mc.X) {
			w := NewWorld(x)
			s := w.Server("A")
			kind := x.Choice(3, 1)
			k := p07kinds[kind]
			_ = register(w, s, kind, "h")
			c := w.Client("C")
			Par(func() {
				_, _ = Call(context.Background(), c, k.rpc, k.topic, "before", psrpc.WithRequestTimeout(time.Second))
			}, func() {
				if x.Choice(2, 2) == 0 {
					s.DeregisterHandler(k.rpc, k.topic)
				} else {
					s.Close(x.Choice(2, 3) == 0)
				}
				_, _ = Call(context.Background(), c, k.rpc, k.topic, "after", psrpc.WithRequestTimeout(time.Second))
			})
			w.Quiesce()
			if n := w.Log.Count("exec h/" + k.rpc + "/after"); n > 0 {
				x.Fail("a request made after deregistration was handled: %s", w.Log)
			}
			x.Out("%s", w.Log)
			w.Close()
		}},
		// registering serves immediately, with requests in flight
		mc.Scenario{Name: "P07/register-serves", Passes: []mc.Pass{mc.P1, mc.P2s}, Deep: deep, Body: func(x *mc.X) {
			w := NewWorld(x)
			s := w.Server("A")
			c := w.Client("C")
			kind := x.Choice(len(p07kinds), 1)
			Par(func() {
				if err := register(w, s, kind, "h"); err != nil {
					x.Fail("register: %v", err)
				}
				if got := probe(w, c, kind, "p"); got != "h" && x.TimeDevs() == 0 {
					x.Fail("a registered handler does not serve: %q", got)
				}
			}, func() { _ = probe(w, c, kind, "q") })
			w.Close()
		}},
	)
	for i := 1; i <= 6; i++ {
		if i <= len(p07kinds) {
			add(mc.Scenario{Name: fmt.Sprintf("P07/group-taken%d", i-1), Passes: []mc.Pass{mc.P1}, Body: p07groupTaken(i - 1)})
		}
		add(mc.Scenario{Name: fmt.Sprintf("P07/group-fail%d", i), Passes: []mc.Pass{mc.P1}, Body: p07group(i)})
	}
}

// p07group: a registration group with a failing subscription registers nothing.
// p07groupTaken: a group one of whose handlers is registered already, separately.
func p07groupTaken(taken int) func(x *mc.X) {
	return func(x *mc.X) {
		w := NewWorld(x)
		s := w.Server("A")
		c := w.Client("C")
		if err := register(w, s, taken, "own"); err != nil {
			x.Fail("register: %v", err)
		}
		var g server.RegistererSlice
		for kind := range p07kinds {
			g = append(g, server.NewRegisterer(
				func() error { return register(w, s, kind, fmt.Sprint("g", kind)) },
				func() { s.DeregisterHandler(p07kinds[kind].rpc, p07kinds[kind].topic) },
			))
		}
		for i := 0; i < 2; i++ {
			if g.Register() == nil {
				x.Fail("the group registered although a handler of it was registered")
			}
			for kind := range p07kinds {
				want := ""
				if kind == taken {
					want = "own"
				}
				if got := probe(w, c, kind, "p"); got != want && x.TimeDevs() == 0 {
					x.Fail("%q serves %s after the group failed, expected %q", got, p07kinds[kind].rpc, want)
				}
			}
		}
		s.DeregisterHandler(p07kinds[taken].rpc, p07kinds[taken].topic)
		if err := g.Register(); err != nil {
			x.Fail("the group cannot be registered: %v", err)
		}
		w.Close()
	}
}

func p07group(fail int) func(x *mc.X) {
	return func(x *mc.X) {
		w := NewWorld(x)
		s := w.Server("A")
		c := w.Client("C")
		var g server.RegistererSlice
		for kind := range p07kinds {
			g = append(g, server.NewRegisterer(
				func() error { return register(w, s, kind, fmt.Sprint("g", kind)) },
				func() { s.DeregisterHandler(p07kinds[kind].rpc, p07kinds[kind].topic) },
			))
		}
		w.FailSubs = fail // 6 subscriptions in all
		err := g.Register()
		w.FailSubs = 0
		if err == nil {
			x.Fail("the group registered although subscription %d failed", fail)
		}
		for kind := range p07kinds {
			if got := probe(w, c, kind, "p"); got != "" {
				x.Fail("%s serves after the group failed", got)
			}
		}
		if err := g.Register(); err != nil {
			x.Fail("the group cannot be registered again: %v", err)
		}
		for kind := range p07kinds {
			if got := probe(w, c, kind, "p"); got != fmt.Sprint("g", kind) && x.TimeDevs() == 0 {
				x.Fail("%q serves %s", got, p07kinds[kind].rpc)
			}
		}
		g.Deregister()
		for kind := range p07kinds {
			if got := probe(w, c, kind, "q"); got != "" {
				x.Fail("%s serves after the group was deregistered", got)
			}
		}
		w.Close()
	}
}
