// Command bus holds the drivers of the Redis and NATS buses: the real client
// libraries over connections to scripted servers.
package main

import (
	"context"
	"fmt"
	"slices"
	"strings"
	"sync/atomic"
	"time"

	"github.com/livekit/psrpc"
	"github.com/livekit/psrpc/internal/bus"
	"github.com/livekit/psrpc/internal/zzverif/mc"
	. "github.com/livekit/psrpc/internal/zzverif/sim"
	"github.com/livekit/psrpc/internal/zzverif/wire"
)

var (
	scenarios []mc.Scenario
	env       = []mc.Pass{mc.E}
)

func add(s ...mc.Scenario) { scenarios = append(scenarios, s...) }

func main() { mc.Main(scenarios, nil) }

// kit is what the drivers need to know about a bus.
type kit struct {
	x     *mc.X
	procs []psrpc.MessageBus
	close func()
	// subjects is the sorted list of process:channel subscribed at the server.
	subjects func() string
	// subject of a channel at the server.
	subject func(bus.Channel) string
	// excused is whether the loss of the last queue message on the channel is the
	// listed finding.
	excused func(ch byte, subs []*bsub) string
	// mixed is whether queue and plain subscriptions of one subject can coexist.
	mixed bool
	// ordered is whether a subscription is effective for what the same process
	// publishes after it returned.
	ordered bool
	// expires is whether a message delayed for 5 s may be delivered again.
	expires bool
}

type chanDef struct {
	ch    bus.Channel
	queue bool
}

// the channels: a, b and x, y share a server subject each; t and u have none
// local; A and X mix plain and queue subscriptions on the subject of a and x.
var chans = map[byte]chanDef{
	'a': {bus.Channel{Legacy: "S|a", Server: "SRV.S", Local: "a.REQ"}, false},
	'b': {bus.Channel{Legacy: "S|b", Server: "SRV.S", Local: "b.REQ"}, false},
	'A': {bus.Channel{Legacy: "S|a", Server: "SRV.S", Local: "a.REQ"}, true},
	'x': {bus.Channel{Legacy: "Q|x", Server: "SRV.Q", Local: "x.REQ"}, true},
	'y': {bus.Channel{Legacy: "Q|y", Server: "SRV.Q", Local: "y.REQ"}, true},
	'X': {bus.Channel{Legacy: "Q|x", Server: "SRV.Q", Local: "x.REQ"}, false},
	't': {bus.Channel{Legacy: "T", Server: "CLI.T"}, false},
	'u': {bus.Channel{Legacy: "U", Server: "CLI.U"}, true},
}

type bsub struct {
	name  string
	proc  int
	c     byte
	queue bool
	sub   bus.Subscription[*Msg]
	got   []string
	ended bool
	open  bool
}

func (s *bsub) drain() (fresh []string) {
	for !s.ended {
		select {
		case m, ok := <-s.sub.Channel():
			if !ok {
				s.ended = true
				continue
			}
			fresh = append(fresh, m.GetValue())
			continue
		default:
		}
		break
	}
	s.got = append(s.got, fresh...)
	return
}

func (k *kit) trySub(proc int, c byte, size int) (*bsub, error) {
	d := chans[c]
	f := bus.Subscribe[*Msg]
	if d.queue {
		f = bus.SubscribeQueue[*Msg]
	}
	s, err := f(context.Background(), k.procs[proc], d.ch, size)
	if err != nil {
		return nil, err
	}
	return &bsub{name: fmt.Sprintf("%d%c", proc, c), proc: proc, c: c, queue: d.queue, sub: s, open: true}, nil
}

func (k *kit) sub(proc int, c byte, size int) *bsub {
	s, err := k.trySub(proc, c, size)
	if err != nil {
		k.x.Fail("subscribe %d%c: %v", proc, c, err)
		panic("subscribe")
	}
	return s
}

func (k *kit) pub(proc int, c byte, v string) {
	if err := k.procs[proc].Publish(context.Background(), chans[c].ch, M(v)); err != nil {
		k.x.Fail("publish: %v", err)
	}
}

// same is whether two channels carry the same messages.
func same(a, b byte) bool { return chans[a].ch == chans[b].ch }

// judge checks who received v, published on c while nothing else went on.
func (k *kit) judge(trace string, subs []*bsub, c byte, v string) {
	members, got := 0, 0
	for _, s := range subs {
		fresh := s.drain()
		match := s.open && same(s.c, c)
		if match && s.queue {
			members++
		}
		exact := len(fresh) == 1 && fresh[0] == v
		switch {
		case len(fresh) > 0 && !(match && exact), match && !s.queue && !exact:
			k.x.Fail("%s: %s received %q after %q on %c", trace, s.name, fresh, v, c)
		case len(fresh) > 0 && s.queue:
			got++
		}
	}
	if got > 1 && k.x.TimeDevs() > 0 && k.expires {
		return // delayed past the lifetime of the lock
	}
	if members > 0 && got != 1 {
		if got == 0 && k.excused != nil {
			if f := k.excused(c, subs); f != "" {
				k.x.Fail("%s: no queue member received the message: %s", trace, f)
				return
			}
		}
		k.x.Fail("%s: %d of %d queue members received %q", trace, got, members, v)
	}
}

// wantSubjects is the server state that the open subscriptions call for.
func (k *kit) checkSubjects(trace string, subs []*bsub) {
	want := map[string]bool{}
	for _, s := range subs {
		if s.open {
			want[fmt.Sprintf("%d:%s", s.proc, k.subject(chans[s.c].ch))] = true
		}
	}
	if got := k.subjects(); got != wire.Keys(want) {
		k.x.Fail("%s: subscribed at the server: %s, want %s", trace, got, wire.Keys(want))
	}
}

// refused is whether a subscription has to be refused.
func (k *kit) refused(subs []*bsub, proc int, c byte) bool {
	if k.mixed {
		return false
	}
	for _, s := range subs {
		d := chans[s.c]
		if s.open && s.proc == proc && d.ch.Server == chans[c].ch.Server && d.ch.Local != "" && d.queue != chans[c].queue {
			return true
		}
	}
	return false
}

// sequences: all sequences of subscribing, publishing and closing.
func sequences(mk func(x *mc.X, procs int) *kit, depth, procs int, channels string) func(x *mc.X) {
	return func(x *mc.X) {
		k := mk(x, procs)
		var subs []*bsub
		trace := ""
		n := 0
		pub := func(c byte) {
			n++
			v := fmt.Sprint("m", n)
			k.pub(n%procs, c, v)
			x.Idle()
			k.judge(trace, subs, c, v)
		}
		nc := len(channels)
		for i := 0; i < depth; i++ {
			var open []*bsub
			for _, s := range subs {
				if s.open {
					open = append(open, s)
				}
			}
			op := x.Choice((procs+1)*nc+len(open), 1)
			switch {
			case op < procs*nc:
				proc, c := op/nc, channels[op%nc]
				trace += fmt.Sprintf(" sub%d%c", proc, c)
				s, err := k.trySub(proc, c, []int{100, 1, 0}[len(subs)%3])
				if (err != nil) != k.refused(subs, proc, c) {
					x.Fail("%s: subscribe: %v", trace, err)
				}
				if err == nil {
					s.name += fmt.Sprint("#", len(subs))
					subs = append(subs, s)
				}
			case op < (procs+1)*nc:
				trace += fmt.Sprintf(" pub%c", channels[op-procs*nc])
				pub(channels[op-procs*nc])
			default:
				s := open[op-(procs+1)*nc]
				trace += " close" + s.name
				if err := s.sub.Close(); err != nil {
					x.Fail("%s: %v", trace, err)
				}
				s.open = false
			}
			x.Idle()
			for _, s := range subs {
				if fresh := s.drain(); len(fresh) > 0 || s.ended == s.open {
					x.Fail("%s: %s received %q, ended %v", trace, s.name, fresh, s.ended)
				}
			}
			k.checkSubjects(trace, subs)
		}
		for _, c := range []byte(channels) {
			pub(c)
			pub(c)
			pub(c)
		}
		for _, s := range subs {
			if s.open {
				_ = s.sub.Close()
			}
			s.open = false
		}
		x.Idle()
		for _, s := range subs {
			if s.drain(); !s.ended {
				x.Fail("%s: the channel of %s stays open", trace, s.name)
			}
		}
		k.checkSubjects(trace, subs)
		x.Out("%s", trace)
		k.close()
	}
}

// values: messages of any size and text, equal ones in a row too, arrive unaltered,
// each once and in order.
func values(mk func(x *mc.X, procs int) *kit, procs int, channels string) func(x *mc.X) {
	return func(x *mc.X) {
		k := mk(x, procs)
		var subs []*bsub
		for p := 0; p < procs; p++ {
			for _, c := range []byte(channels) {
				subs = append(subs, k.sub(p, c, []int{100, 1, 0}[p%3]))
			}
		}
		x.Idle()
		vals := []string{"", "", "a", "a", "a", "é\U0001d11e\x00", "é\U0001d11e\x00", strings.Repeat("x", 70000), "", strings.Repeat("x", 70000), "a"}
		want := map[byte][]string{}
		for i, v := range vals {
			for _, c := range []byte(channels) {
				k.pub(i%procs, c, v)
				want[c] = append(want[c], v)
				x.Idle()
				for _, s := range subs {
					s.drain()
				}
			}
		}
		got := map[byte][]string{}
		for _, s := range subs {
			if s.queue {
				got[s.c] = append(got[s.c], s.got...)
			} else if fmt.Sprintf("%q", s.got) != fmt.Sprintf("%q", want[s.c]) {
				x.Fail("%s received %.300q instead of %.300q", s.name, s.got, want[s.c])
			}
		}
		for _, c := range []byte(channels) {
			if chans[c].queue {
				slices.Sort(got[c])
				slices.Sort(want[c])
				if fmt.Sprintf("%q", got[c]) != fmt.Sprintf("%q", want[c]) {
					x.Fail("the members of queue %c received %.300q instead of %.300q", c, got[c], want[c])
				}
			}
		}
		for _, s := range subs {
			_ = s.sub.Close()
		}
		x.Idle()
		k.close()
	}
}

// par: the operations of a few goroutines at once. subs lists the initial
// subscriptions as process and channel. Each script is a list of steps: "p0a"
// publishes from process 0 on a, "c1" closes subscription 1, "s0a" subscribes,
// "r1" reads a message of subscription 1, "C" closes what was subscribed last.
func par(mk func(x *mc.X, procs int) *kit, procs int, subs string, size int, scripts ...string) func(x *mc.X) {
	return func(x *mc.X) {
		k := mk(x, procs)
		var all []*bsub
		for _, d := range strings.Fields(subs) {
			s := k.sub(int(d[0]-'0'), d[1], size)
			s.name += fmt.Sprint("#", len(all))
			all = append(all, s)
		}
		x.Idle()
		initial := len(all)
		closing := map[int]bool{}
		done := make([]atomic.Bool, len(scripts))
		type pubT struct {
			c byte
			v string
		}
		perG := make([][]pubT, len(scripts))
		var fs []func()
		added := make([][]*bsub, len(scripts))
		before := make([][]int, len(scripts))
		procOf := make([]int, len(scripts))
		for g, script := range scripts {
			for _, st := range strings.Fields(script) {
				switch st[0] {
				case 'c':
					closing[int(st[1]-'0')] = true
				case 'p':
					procOf[g] = int(st[1] - '0')
				}
			}
			g, script := g, script
			fs = append(fs, func() {
				defer done[g].Store(true)
				for _, st := range strings.Fields(script) {
					switch st[0] {
					case 'p':
						v := fmt.Sprintf("%c%d", 'a'+g, len(perG[g]))
						perG[g] = append(perG[g], pubT{st[2], v})
						k.pub(int(st[1]-'0'), st[2], v)
					case 'c':
						_ = all[st[1]-'0'].sub.Close()
					case 's':
						s, err := k.trySub(int(st[1]-'0'), st[2], size)
						if err != nil {
							x.Fail("subscribe: %v", err)
							return
						}
						s.name += fmt.Sprintf("#+%d", g)
						added[g] = append(added[g], s)
						before[g] = append(before[g], len(perG[g]))
					case 'C': // the last subscription of the goroutine
						s := added[g][len(added[g])-1]
						_ = s.sub.Close()
						s.open = false
					case 'r':
						s := all[st[1]-'0']
						select {
						case m, ok := <-s.sub.Channel():
							if ok {
								s.got = append(s.got, m.GetValue())
							}
						case <-time.After(time.Second):
						}
					}
				}
			})
		}
		ended := make(chan struct{})
		go func() {
			Par(fs...)
			close(ended)
		}()
		quiet := func() {
			Settle(x, 10*time.Second)
		}
		quiet()
		select {
		case <-ended:
		default:
			for g, script := range scripts {
				if !done[g].Load() {
					x.Fail("%q does not return", script)
				}
			}
			return
		}
		for r := 0; r < 40; r++ {
			n := 0
			for i, s := range all {
				if !closing[i] {
					n += len(s.drain())
				}
			}
			quiet()
			if n == 0 {
				break
			}
		}
		for i := range closing {
			all[i].open = false
		}
		addedAt := map[*bsub][2]int{}
		for g, a := range added {
			for i, s := range a {
				addedAt[s] = [2]int{g, before[g][i]}
			}
			all = append(all, a...)
		}
		for _, s := range all {
			s.drain()
		}
		for i, s := range all {
			if s.ended == s.open {
				x.Fail("subscriber %s: open %v, channel closed %v", s.name, s.open, s.ended)
			}
			for g, pubs := range perG {
				var got, want, mine []string
				for _, v := range s.got {
					if v[0] == byte('a'+g) {
						got = append(got, v)
					}
				}
				for j, p := range pubs {
					if same(p.c, s.c) {
						want = append(want, p.v)
						if at, ok := addedAt[s]; ok && at[0] == g && at[1] <= j && s.proc == procOf[g] {
							mine = append(mine, p.v)
						}
					}
				}
				if !increasing(got, want) {
					x.Fail("subscriber %s received %q of %q", s.name, got, want)
				}
				if s.queue || !s.open {
					continue
				}
				if i < initial && len(got) != len(want) {
					x.Fail("subscriber %s received %q of %q", s.name, got, want)
				}
				if k.ordered && i >= initial && !increasing(mine, got) {
					x.Fail("new subscriber %s received %q of %q, published afterwards: %q", s.name, got, want, mine)
				}
			}
		}
		for _, pubs := range perG {
			for _, p := range pubs {
				count, members, leaving := 0, 0, 0
				for i, s := range all {
					if !s.queue || !same(s.c, p.c) {
						continue
					}
					if i < initial {
						members++
						if closing[i] {
							leaving++
						}
					}
					for _, v := range s.got {
						if v == p.v {
							count++
						}
					}
				}
				if count > 1 && !(k.expires && x.TimeDevs() > 0) || count == 0 && members > 0 && leaving == 0 {
					x.Fail("message %s was received by %d of %d queue members", p.v, count, members)
				}
			}
		}
		// later messages
		for i, c := range "abxytu" {
			for r := 0; r < 3; r++ {
				v := fmt.Sprintf("z%d.%d", i, r)
				k.pub(r%procs, byte(c), v)
				quiet()
				k.judge("later", all, byte(c), v)
			}
		}
		k.checkSubjects("at the end", all)
		out := ""
		for _, s := range all {
			out += fmt.Sprint(s.got)
			_ = s.sub.Close()
			s.open = false
		}
		quiet()
		k.checkSubjects("all closed", all)
		x.Out("%s", out)
		k.close()
	}
}

// increasing: sub is a subsequence of all.
func increasing(sub, all []string) bool {
	j := 0
	for _, v := range sub {
		for j < len(all) && all[j] != v {
			j++
		}
		if j == len(all) {
			return false
		}
		j++
	}
	return true
}
