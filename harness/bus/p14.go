package main

import (
	"fmt"
	"strings"
	"time"

	"github.com/livekit/psrpc/internal/bus"
	"github.com/livekit/psrpc/internal/zzverif/mc"
	. "github.com/livekit/psrpc/internal/zzverif/sim"
	"github.com/livekit/psrpc/internal/zzverif/wire"
)

func redisKit(x *mc.X, procs int) *kit {
	k, _ := redisKitS(x, procs)
	return k
}

func redisKitS(x *mc.X, procs int) (*kit, *wire.RedisServer) {
	s, buses, close := wire.NewRedis(x, procs)
	return &kit{
		x: x, procs: buses, close: close, mixed: true, expires: true,
		subject:  func(ch bus.Channel) string { return ch.Legacy },
		subjects: s.Subjects,
	}, s
}

// faults: a script of operations during which up to max commands or connection
// attempts fail; afterwards everything works again. "w" and "v" let time pass.
func faults(procs, max int, script string) func(x *mc.X) {
	return func(x *mc.X) {
		k, s := redisKitS(x, procs)
		n, on := 0, true
		var where []string
		s.Mu.Lock()
		s.Fault = func(st *wire.RedisState, cmd []string) string {
			name := strings.ToLower(cmd[0])
			if !on || n >= max || name == "hello" || name == "client" {
				return ""
			}
			kinds := []string{"", "write", "lost", "reply"}
			if name == "set" || name == "setnx" {
				kinds = append(kinds, "error")
			}
			f := mc.Pick(x, 3, kinds...)
			if f != "" {
				n++
				where = append(where, f+" "+name)
			}
			return f
		}
		s.Dial = func(proc int) error {
			if !on || n >= max || mc.Pick(x, 4, false, true) == false {
				return nil
			}
			n++
			where = append(where, "dial")
			return wire.ErrConn
		}
		s.Mu.Unlock()
		quiet := func() { Settle(x, 20*time.Second) }
		var all []*bsub
		members := map[string]int{}
		for i, st := range strings.Fields(script) {
			switch st[0] {
			case 's':
				b := k.sub(int(st[1]-'0'), st[2], 100)
				b.name += fmt.Sprint("#", len(all))
				all = append(all, b)
			case 'c':
				b := all[st[1]-'0']
				_ = b.sub.Close()
				b.open = false
			case 'p':
				k.pub(int(st[1]-'0'), st[2], fmt.Sprintf("%c%d", st[2], i))
			case 'w':
				quiet()
			case 'v': // before anything is tried again
				time.Sleep(100 * time.Millisecond)
				x.Idle()
			}
		}
		quiet()
		s.Mu.Lock()
		on = false
		s.Mu.Unlock()
		quiet()
		trace := fmt.Sprintf("%s with %q", script, where)
		for _, b := range all {
			for _, v := range b.drain() {
				if !same(v[0], b.c) {
					x.Fail("%s: %s received %s", trace, b.name, v)
				}
				if b.queue {
					members[v]++
				}
				// unless the client sent it again
				if members[v] > 1 && x.TimeDevs() == 0 && !strings.Contains(trace, "publish") {
					x.Fail("%s: %d queue members received %s", trace, members[v], v)
				}
			}
			if b.ended == b.open {
				x.Fail("%s: %s: open %v, channel closed %v", trace, b.name, b.open, b.ended)
			}
		}
		k.checkSubjects(trace, all)
		for i, c := range "abxytu" {
			for r := 0; r < 2; r++ {
				v := fmt.Sprintf("%c-%d.%d", c, i, r)
				k.pub(r%procs, byte(c), v)
				quiet()
				k.judge(trace, all, byte(c), v)
			}
		}
		for _, b := range all {
			if b.open {
				_ = b.sub.Close()
				b.open = false
			}
		}
		quiet()
		k.checkSubjects(trace+", all closed", all)
		x.Out("%s %v", trace, members)
		k.close()
	}
}

// faultSeqs: all scripts of one process up to a length, with faults.
func faultSeqs(max, length int, channels string) func(x *mc.X) {
	return func(x *mc.X) {
		var script []string
		var open []int
		subs := 0
		for i := 0; i < length; i++ {
			ops := []string{"", "v", "w"}
			for _, c := range channels {
				ops = append(ops, fmt.Sprintf("s0%c", c))
			}
			for _, o := range open {
				ops = append(ops, fmt.Sprint("c", o))
			}
			op := ops[x.Choice(len(ops), 6)]
			if op == "" {
				break
			}
			switch op[0] {
			case 's':
				open = append(open, subs)
				subs++
			case 'c':
				for j, o := range open {
					if op == fmt.Sprint("c", o) {
						open = append(open[:j:j], open[j+1:]...)
						break
					}
				}
			}
			script = append(script, op)
		}
		faults(1, max, strings.Join(script, " "))(x)
	}
}

// outage: the server is away for a while during a script, in which "o" is the
// start and "i" the end.
func outage(procs int, script string) func(x *mc.X) {
	return func(x *mc.X) {
		k, s := redisKitS(x, procs)
		d := mc.Pick(x, 5, 50*time.Millisecond, 400*time.Millisecond, 3*time.Second, 40*time.Second)
		quiet := func() { Settle(x, 30*time.Second) }
		var all []*bsub
		for i, st := range strings.Fields(script) {
			switch st[0] {
			case 's':
				b := k.sub(int(st[1]-'0'), st[2], 100)
				b.name += fmt.Sprint("#", len(all))
				all = append(all, b)
			case 'c':
				b := all[st[1]-'0']
				_ = b.sub.Close()
				b.open = false
			case 'p':
				k.pub(int(st[1]-'0'), st[2], fmt.Sprintf("%c%d", st[2], i))
			case 'w':
				quiet()
			case 'o':
				s.Mu.Lock()
				s.Dial = func(int) error { return wire.ErrConn }
				for _, c := range s.Conns {
					s.Drop(c)
				}
				s.Mu.Unlock()
			case 'i':
				time.Sleep(d)
				s.Mu.Lock()
				s.Dial = nil
				s.Mu.Unlock()
			}
		}
		quiet()
		trace := fmt.Sprintf("%s (%v)", script, d)
		for _, b := range all {
			for _, v := range b.drain() {
				if !same(v[0], b.c) {
					x.Fail("%s: %s received %s", trace, b.name, v)
				}
			}
			if b.ended == b.open {
				x.Fail("%s: %s: open %v, channel closed %v", trace, b.name, b.open, b.ended)
			}
		}
		k.checkSubjects(trace, all)
		for i, c := range "abxytu" {
			for r := 0; r < 2; r++ {
				v := fmt.Sprintf("%c-%d.%d", c, i, r)
				k.pub(r%procs, byte(c), v)
				quiet()
				k.judge(trace, all, byte(c), v)
			}
		}
		x.Out("%s", trace)
		k.close()
	}
}

// payloads: equal messages in a row reach one queue member each.
func payloads(procs int, gap time.Duration, script string) func(x *mc.X) {
	return func(x *mc.X) {
		k := redisKit(x, procs)
		var all []*bsub
		for i := 0; i < procs; i++ {
			all = append(all, k.sub(i, 'x', 10), k.sub(i, 'y', 10))
		}
		x.Idle()
		want := map[byte]int{}
		for _, c := range []byte(script) {
			k.pub(0, c, "same")
			want[c]++
			time.Sleep(gap)
			x.Idle()
		}
		got := map[byte]int{}
		for _, s := range all {
			got[s.c] += len(s.drain())
		}
		for c, n := range want {
			if got[c] != n {
				if got[c] == 0 || got[c] > n || gap > 5*time.Second {
					x.Fail("%d of %d messages on %c received", got[c], n, c)
				} else {
					x.Fail("equal messages within 5 s: %d of %d received", got[c], n)
				}
			}
		}
		k.close()
	}
}

func init() {
	one := []mc.Pass{mc.P1, mc.P2s}
	deep := []mc.Pass{mc.P2, mc.P2a, mc.P3}
	add(
		mc.Scenario{Name: "P14/sequences-plain", Passes: env, Body: sequences(redisKit, 6, 1, "ab")},
		mc.Scenario{Name: "P14/sequences-mixed", Passes: env, Body: sequences(redisKit, 6, 1, "aA")},
		mc.Scenario{Name: "P14/sequences-procs", Passes: env, Body: sequences(redisKit, 5, 2, "ax")},
		mc.Scenario{Name: "P14/sequences-queue", Passes: env, Body: sequences(redisKit, 6, 2, "x")},
		mc.Scenario{Name: "P14/values-plain", Passes: env, Body: values(redisKit, 3, "abtX")},
		mc.Scenario{Name: "P14/payloads-near", Passes: env, Body: payloads(2, 0, "xx")},
		mc.Scenario{Name: "P14/payloads-channels", Passes: env, Body: payloads(2, 0, "xy")},
		mc.Scenario{Name: "P14/payloads-far", Passes: env, Body: payloads(2, 6*time.Second, "xxyxy")},
	)
	for i, c := range []struct {
		procs int
		sc    string
	}{
		{1, "s0a p0a s0b c0 w p0b"},
		{1, "s0a w c0 s0a w"},
		{2, "s0x s1x w p0x c0 w s0x"},
		{1, "s0a s0b s0x c1 w c0 s0a"},
		{2, "s0a s1a p0a c0 s0t w c1 p1t"},
		{2, "s0x s1x w p0x p1x w p0x w"},
		{1, "s0a w c0 v s0a w"},
		{1, "s0a v c0 v s0x w c1 v s0x s0a"},
	} {
		add(
			mc.Scenario{Name: fmt.Sprintf("P14/faults-%d", i), Passes: []mc.Pass{mc.E}, Body: faults(c.procs, 3, c.sc)},
			mc.Scenario{Name: fmt.Sprintf("P14/fault-%d", i), Passes: []mc.Pass{mc.P1s}, Deep: []mc.Pass{mc.P1, mc.P2}, Body: faults(c.procs, 2, c.sc)},
		)
	}
	add(
		mc.Scenario{Name: "P14/faultseqs-5", Passes: env, Body: faultSeqs(1, 5, "a")},
		mc.Scenario{Name: "P14/faultseqs-4x2", Passes: env, Body: faultSeqs(1, 4, "aA")},
		mc.Scenario{Name: "P14/faultseqs-5f2", Deep: env, Body: faultSeqs(2, 5, "a")},
		mc.Scenario{Name: "P14/faultseqs-5x2", Deep: env, Body: faultSeqs(1, 5, "ax")},
		mc.Scenario{Name: "P14/faultseqs-6", Deep: env, Body: faultSeqs(1, 6, "a")},
	)
	for i, sc := range []string{
		"s0a s1x w o p0a i w",
		"s0a s1x w o s0b c0 p1a i w",
		"s0x s1x w o p0x c0 s1a i s0t",
		"o s0a s1a s0x i c0",
	} {
		add(
			mc.Scenario{Name: fmt.Sprintf("P14/outage-%d", i), Passes: env, Body: outage(2, sc)},
			mc.Scenario{Name: fmt.Sprintf("P14/outage-%d-sched", i), Passes: []mc.Pass{mc.P1s}, Deep: []mc.Pass{mc.P1}, Body: outage(2, sc)},
		)
	}
	for i, c := range []struct {
		procs   int
		subs    string
		size    int
		scripts []string
	}{
		{1, "0a 0a", 10, []string{"p0a p0a", "c0"}},
		{1, "0x 0x", 10, []string{"p0x p0x", "p0x"}},
		{2, "0x 1x", 10, []string{"p0x p0x", "p1x", "c1"}},
		{1, "", 10, []string{"s0a", "s0a", "s0b"}},
		{1, "0a", 10, []string{"c0", "s0a p0a"}},
		{1, "0a 0A", 10, []string{"c0", "c1", "s0a"}},
		{1, "0a 0b", 10, []string{"c0 s0a", "c1 s0b"}},
		{1, "0a 0b", 0, []string{"p0a p0a p0b", "c1"}},
		{1, "", 10, []string{"s0a C", "s0b p0a"}},
		{1, "0b", 10, []string{"s0a C s0a", "c0 s0x C"}},
		{2, "0a 1a 0x 1x", 1, []string{"p0a p0x p0a", "p1a p1x", "c0 c3"}},
	} {
		ps := one
		if c.procs > 1 {
			ps = []mc.Pass{mc.P1}
		}
		name := fmt.Sprintf("P14/par-%02d-%s-%d", i, strings.ReplaceAll(c.subs, " ", "_"), c.size)
		add(mc.Scenario{Name: name, Passes: ps, Deep: deep, Body: par(redisKit, c.procs, c.subs, c.size, c.scripts...)})
	}
	for i := range scenarios {
		if strings.HasPrefix(scenarios[i].Name, "P14/") {
			scenarios[i].AllowAlive = -1 // the bus cannot be closed
		}
	}
}
