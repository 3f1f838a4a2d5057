package main

import (
	"context"
	"fmt"
	"strings"
	"sync/atomic"
	"time"

	"github.com/livekit/psrpc"
	"github.com/livekit/psrpc/internal/bus"
	"github.com/livekit/psrpc/internal/zzverif/mc"
	. "github.com/livekit/psrpc/internal/zzverif/sim"
)

func p13chan(i int) bus.Channel {
	n := fmt.Sprint("chan", i)
	return bus.Channel{Legacy: n, Server: "server" + n, Local: "local"}
}

func p13sub(x *mc.X, b psrpc.MessageBus, ch int, queue bool, size int) *p24sub {
	f := bus.Subscribe[*Msg]
	if queue {
		f = bus.SubscribeQueue[*Msg]
	}
	s, err := f(context.Background(), b, p13chan(ch), size)
	if err != nil || s == nil {
		x.Fail("subscribe: %v", err)
		panic("subscribe")
	}
	return &p24sub{key: ch, queue: queue, sub: s, open: true}
}

func p13pub(x *mc.X, b psrpc.MessageBus, ch int, vals ...string) {
	for _, v := range vals {
		if err := b.Publish(context.Background(), p13chan(ch), M(v)); err != nil {
			x.Fail("publish: %v", err)
		}
	}
}

// p13seq: all sequences of subscribing, publishing and closing.
func p13seq(depth, chans int) func(x *mc.X) {
	return func(x *mc.X) {
		b := psrpc.NewLocalMessageBus()
		var subs []*p24sub
		trace := ""
		// the queue members served since the membership changed
		served := make([]map[*p24sub]bool, chans)
		n := 0
		pub := func(ch int) {
			n++
			v := fmt.Sprint("m", n/2) // equal to the one before now and then
			p13pub(x, b, ch, v)
			x.Idle()
			members, got := 0, 0
			for _, s := range subs {
				fresh := s.drain()
				match := s.open && s.key == ch
				if match && s.queue {
					members++
				}
				exact := len(fresh) == 1 && fresh[0] == v
				switch {
				case len(fresh) > 0 && !(match && exact), match && !s.queue && !exact:
					x.Fail("%s: %s received %q after %q on %d", trace, s.name, fresh, v, ch)
				case len(fresh) > 0 && s.queue:
					got++
					if served[ch] == nil {
						served[ch] = map[*p24sub]bool{}
					}
					if served[ch][s] {
						x.Fail("%s: queue member %s is served again before the others", trace, s.name)
					}
					served[ch][s] = true
				}
			}
			if members > 0 && got != 1 {
				x.Fail("%s: %d of %d queue members received %q", trace, got, members, v)
			}
			if len(served[ch]) == members {
				served[ch] = nil
			}
		}
		for i := 0; i < depth; i++ {
			var open []*p24sub
			for _, s := range subs {
				if s.open {
					open = append(open, s)
				}
			}
			op := x.Choice(3*chans+len(open), 1)
			switch {
			case op < 2*chans:
				s := p13sub(x, b, op/2, op%2 == 1, []int{100, 1, 0}[len(subs)%3])
				s.name = fmt.Sprintf("%d:%d/queue=%v", len(subs), s.key, s.queue)
				subs = append(subs, s)
				trace += fmt.Sprintf(" sub%d%v", s.key, s.queue)
				if s.queue {
					served[s.key] = nil
				}
			case op < 3*chans:
				trace += fmt.Sprintf(" pub%d", op-2*chans)
				pub(op - 2*chans)
			default:
				s := open[op-3*chans]
				trace += " close" + s.name
				if err := s.sub.Close(); err != nil {
					x.Fail("%s: %v", trace, err)
				}
				s.open = false
				if s.queue {
					served[s.key] = nil
				}
			}
			x.Idle()
			for _, s := range subs {
				if fresh := s.drain(); len(fresh) > 0 || s.ended == s.open {
					x.Fail("%s: %s received %q, ended %v", trace, s.name, fresh, s.ended)
				}
			}
		}
		for ch := 0; ch < chans; ch++ {
			for r := 0; r < 5; r++ {
				pub(ch)
			}
		}
		// unread messages do not keep a subscription from closing
		for ch := 0; ch < chans; ch++ {
			ch := ch
			go p13pub(x, b, ch, "u1", "u2", "u3", "u4", "u5", "u6")
		}
		x.Idle()
		for _, s := range subs {
			_ = s.sub.Close()
			_ = s.sub.Close()
		}
		x.Idle()
		for _, s := range subs {
			if s.drain(); !s.ended {
				x.Fail("%s: the channel of %s stays open", trace, s.name)
			}
		}
		for ch := 0; ch < chans; ch++ {
			s, q := p13sub(x, b, ch, false, 10), p13sub(x, b, ch, true, 10)
			p13pub(x, b, ch, "", "", "again", "again")
			x.Idle()
			for _, s := range []*p24sub{s, q} {
				if s.drain(); fmt.Sprintf("%q", s.got) != `["" "" "again" "again"]` {
					x.Fail("%s: a new subscription received %q", trace, s.got)
				}
				_ = s.sub.Close()
			}
		}
		x.Out("%s", trace)
	}
}

// p13par: the operations of a few goroutines at once. Each script is a list of
// steps: "p" publishes the next message of the goroutine, "c<i>" closes
// subscription i, "s"/"q" subscribes, "r<i>" reads a message of subscription i.
func p13par(subs string, size int, scripts ...string) func(x *mc.X) {
	return func(x *mc.X) {
		b := psrpc.NewLocalMessageBus()
		var all []*p24sub
		for _, k := range subs {
			all = append(all, p13sub(x, b, 0, k == 'q', size))
		}
		initial := len(all)
		closing := map[int]bool{}
		done := make([]atomic.Bool, len(scripts))
		perG := make([][]string, len(scripts))
		var fs []func()
		added := make([][]*p24sub, len(scripts))
		before := make([][]int, len(scripts)) // messages published by the goroutine before
		for g, script := range scripts {
			for _, st := range strings.Fields(script) {
				if st[0] == 'c' {
					closing[int(st[1]-'0')] = true
				}
			}
			g, script := g, script
			fs = append(fs, func() {
				defer done[g].Store(true)
				for _, st := range strings.Fields(script) {
					switch st[0] {
					case 'p':
						v := fmt.Sprintf("%c%d", 'a'+g, len(perG[g]))
						perG[g] = append(perG[g], v)
						p13pub(x, b, 0, v)
					case 'c':
						_ = all[st[1]-'0'].sub.Close()
					case 's', 'q':
						s := p13sub(x, b, 0, st[0] == 'q', size)
						added[g] = append(added[g], s)
						before[g] = append(before[g], len(perG[g]))
					case 'r':
						s := all[st[1]-'0']
						select {
						case m, ok := <-s.sub.Channel():
							if ok {
								s.got = append(s.got, m.GetValue())
							}
						case <-time.After(time.Second):
						}
					}
				}
			})
		}
		ended := make(chan struct{})
		go func() {
			Par(fs...)
			close(ended)
		}()
		// slow subscribers: messages are read while publishers wait
		quiet := func() { Settle(x, 10*time.Second) }
		quiet()
		for g, script := range scripts {
			if !done[g].Load() && !strings.Contains(script, "p") {
				x.Fail("%q does not return while messages are unread", script)
			}
		}
		for r := 0; r < 40; r++ {
			n := 0
			for i, s := range all {
				if !closing[i] {
					n += len(s.drain())
				}
			}
			x.Idle()
			if n == 0 {
				break
			}
		}
		select {
		case <-ended:
		default:
			x.Fail("publishing or closing does not return")
			return
		}
		for i := range closing {
			all[i].open = false
		}
		addedAt := map[*p24sub][2]int{}
		for g, a := range added {
			for i, s := range a {
				addedAt[s] = [2]int{g, before[g][i]}
			}
			all = append(all, a...)
		}
		// later messages
		for i := 0; i < 4; i++ {
			v := fmt.Sprint("z", i)
			go p13pub(x, b, 0, v)
			quiet()
			n, members := 0, 0
			for _, s := range all {
				fresh := s.drain()
				has := len(fresh) > 0 && fresh[len(fresh)-1] == v
				if s.queue && s.open {
					members++
				}
				if s.queue && has {
					n++
				}
				if has && !s.open || !has && s.open && !s.queue {
					x.Fail("subscriber received %q of %s, open %v", s.got, v, s.open)
				}
			}
			if members > 0 && n != 1 {
				x.Fail("%d queue members received %s", n, v)
			}
		}
		count := map[string]int{}
		for i, s := range all {
			s.drain()
			if s.ended == s.open {
				x.Fail("subscriber %d: open %v, channel closed %v", i, s.open, s.ended)
			}
			for g, want := range perG {
				var got []string
				for _, v := range s.got {
					if v[0] == byte('a'+g) {
						got = append(got, v)
						if s.queue {
							count[v]++
						}
					}
				}
				if !increasing(got, want) {
					x.Fail("subscriber %d received %q of %q", i, got, want)
				}
				if s.queue || !s.open {
					continue
				}
				if i < initial && len(got) != len(want) {
					x.Fail("subscriber %d received %q of %q", i, got, want)
				}
				if at, ok := addedAt[s]; ok && len(got) > 0 && got[len(got)-1] != want[len(want)-1] || ok && at[0] == g && len(got) != len(want)-at[1] {
					x.Fail("new subscriber received %q of %q", got, want)
				}
			}
		}
		queues, leaving := 0, 0
		for i, s := range all[:initial] {
			if s.queue {
				queues++
				if closing[i] {
					leaving++
				}
			}
		}
		for _, want := range perG {
			for _, v := range want {
				if count[v] > 1 || queues > 0 && leaving == 0 && count[v] != 1 {
					x.Fail("message %s was received by %d queue members", v, count[v])
				}
			}
		}
		out := ""
		for _, s := range all {
			out += fmt.Sprint(s.got)
			_ = s.sub.Close()
		}
		x.Out("%s", out)
	}
}

func init() {
	one := []mc.Pass{mc.P1, mc.P2}
	deep := []mc.Pass{mc.P2a, mc.P3}
	add(
		mc.Scenario{Name: "P13/sequences-5", Passes: env, Body: p13seq(5, 2)},
		mc.Scenario{Name: "P13/sequences-6", Passes: env, Body: p13seq(6, 1)},
		mc.Scenario{Name: "P13/sequences-7", Deep: env, Body: p13seq(7, 1)},
		mc.Scenario{Name: "P13/sequences-6x2", Deep: env, Body: p13seq(6, 2)},
		mc.Scenario{Name: "P13/sequences-8", Deep: env, Body: p13seq(8, 1)},
	)
	for i, c := range []struct {
		subs    string
		size    int
		scripts []string
	}{
		{"ss", 100, []string{"p p p", "c0"}},
		{"qq", 100, []string{"p p p", "c0"}},
		{"qqq", 100, []string{"p p p", "c1", "p"}},
		{"sq", 1, []string{"p p p p p", "c0", "c1"}},
		{"ss", 0, []string{"p p p p", "r0 c0"}},
		{"qq", 0, []string{"p p p p p p", "r0 c0"}},
		{"s", 100, []string{"p p", "p p", "s p"}},
		{"q", 100, []string{"p p", "p p", "q p"}},
		{"s", 100, []string{"c0", "s p", "p"}},
		{"q", 100, []string{"c0", "q p", "p"}},
		{"ss", 100, []string{"c0 s p", "c1 s p"}},
		{"qq", 100, []string{"c0 q p", "c1 q p"}},
		{"sq", 100, []string{"c0 c1 s", "p q", "c0"}},
		{"sqs", 0, []string{"p p p p", "c2", "c1"}},
	} {
		name := fmt.Sprintf("P13/par-%02d-%s-%d", i, c.subs, c.size)
		add(mc.Scenario{Name: name, Passes: one, Deep: deep, Body: p13par(c.subs, c.size, c.scripts...)})
	}
}
