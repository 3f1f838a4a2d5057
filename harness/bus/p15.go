package main

import (
	"fmt"
	"strings"

	"github.com/livekit/psrpc/internal/bus"
	"github.com/livekit/psrpc/internal/zzverif/mc"
	"github.com/livekit/psrpc/internal/zzverif/wire"
)

func natsKit(x *mc.X, procs int) *kit {
	s, buses, close := wire.NewNats(x, procs)
	k := &kit{
		x: x, procs: buses, close: close, ordered: true,
		subject:  func(ch bus.Channel) string { return ch.Server },
		subjects: s.Subjects,
	}
	k.excused = func(c byte, subs []*bsub) string {
		s.Mu.Lock()
		defer s.Mu.Unlock()
		other := false
		for _, b := range subs {
			if b.open && b.queue && b.proc == s.LastQueue && chans[b.c].ch.Server == chans[c].ch.Server {
				if same(b.c, c) {
					return ""
				}
				other = true
			}
		}
		if other {
			return "the server chose a process of the queue group that has only other methods"
		}
		return ""
	}
	return k
}

func init() {
	one := []mc.Pass{mc.P1, mc.P2}
	deep := []mc.Pass{mc.P2a, mc.P3}
	add(
		mc.Scenario{Name: "P15/sequences-plain", Passes: env, Body: sequences(natsKit, 6, 1, "ab")},
		mc.Scenario{Name: "P15/sequences-queue", Passes: env, Body: sequences(natsKit, 5, 2, "x")},
		mc.Scenario{Name: "P15/sequences-methods", Passes: env, Body: sequences(natsKit, 4, 2, "xy")},
		mc.Scenario{Name: "P15/sequences-plain2", Passes: env, Body: sequences(natsKit, 4, 2, "ab")},
		mc.Scenario{Name: "P15/sequences-direct", Passes: env, Body: sequences(natsKit, 5, 1, "tu")},
		mc.Scenario{Name: "P15/values-plain", Passes: env, Body: values(natsKit, 3, "abt")},
		mc.Scenario{Name: "P15/values-queue", Passes: env, Body: values(natsKit, 2, "x")},
		mc.Scenario{Name: "P15/values-queue2", Passes: env, Body: values(natsKit, 1, "xu")},
		mc.Scenario{Name: "P15/sequences-mixed", Passes: env, Body: sequences(natsKit, 4, 1, "aAb")},
		mc.Scenario{Name: "P15/sequences-mixed2", Passes: env, Body: sequences(natsKit, 4, 1, "xXy")},
	)
	for i, c := range []struct {
		procs   int
		subs    string
		size    int
		scripts []string
	}{
		{1, "0a 0a", 10, []string{"p0a p0a", "c0"}},
		{1, "0a 0b", 0, []string{"p0a p0a p0b", "c1"}},
		{1, "0t", 0, []string{"p0t p0t p0t", "c0"}},
		{1, "0u 0u", 0, []string{"p0u p0u p0u", "c0"}},
		{1, "0x 0x", 10, []string{"p0x p0x", "p0x"}},
		{2, "0x 1x", 10, []string{"p0x p0x", "p1x", "c1"}},
		{1, "", 10, []string{"s0a p0a", "s0a p0a"}},
		{1, "", 10, []string{"s0a p0a", "s0b p0b"}},
		{1, "0a", 10, []string{"c0", "s0a p0a p0a"}},
		{1, "0x", 10, []string{"c0", "s0x p0x p0x"}},
		{1, "0a 0b", 10, []string{"c0", "c1", "s0a p0a"}},
		{1, "0t 0u", 10, []string{"c0 c1", "s0t p0t p0u"}},
		{1, "0b", 10, []string{"s0a C", "c0 s0b p0b"}},
		{1, "", 10, []string{"s0x C", "s0x C", "s0x p0x"}},
		{1, "0a 0a", 0, []string{"p0a p0a", "c0", "c1"}},
		{2, "0a 1a 0x 1x", 1, []string{"p0a p0x p0a", "p1a p1x", "c0 c3"}},
	} {
		name := fmt.Sprintf("P15/par-%02d-%s-%d", i, strings.ReplaceAll(c.subs, " ", "_"), c.size)
		add(mc.Scenario{Name: name, Passes: one, Deep: deep, Body: par(natsKit, c.procs, c.subs, c.size, c.scripts...)})
	}
}
