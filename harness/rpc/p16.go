package main

import (
	"context"
	"fmt"
	"hash/fnv"
	"strings"
	"time"
	"unicode/utf8"

	"github.com/livekit/psrpc/internal/bus"
	"github.com/livekit/psrpc/internal/zzverif/mc"
	. "github.com/livekit/psrpc/internal/zzverif/sim"
	"github.com/livekit/psrpc/pkg/client"
	"github.com/livekit/psrpc/pkg/info"
)

// p16id is what a channel stands for.
type p16id struct {
	service, method, topic, purpose string
	parts                           []string
}

func (i p16id) String() string {
	return fmt.Sprintf("%s %s %q %s", i.service, i.method, i.parts, i.purpose)
}

// why classifies two identities with one name.
func why(a, b p16id) string {
	empty, invalid, marker := false, false, false
	for _, p := range append(append([]string{}, a.parts...), b.parts...) {
		empty = empty || p == ""
		invalid = invalid || !utf8.ValidString(p)
		marker = marker || p == "Q"
	}
	switch {
	case empty:
		return "empty topic part"
	case invalid:
		return "topic that is not UTF-8"
	case marker:
		return "topic Q"
	}
	return "distinct texts"
}

// table finds names that stand for several things; it keeps the names of a shard.
type p16table struct {
	s     *mc.S
	kind  string
	names map[string]p16id
	said  map[string]bool
	shard uint32
	of    uint32
}

func (t *p16table) add(name string, id p16id) bool {
	h := fnv.New32a()
	h.Write([]byte(name))
	if h.Sum32()%t.of != t.shard {
		return true
	}
	old, ok := t.names[name]
	if !ok {
		t.names[name] = id
		return true
	}
	if old.service == id.service && old.method == id.method && old.topic == id.topic && old.purpose == id.purpose {
		return true
	}
	w := why(old, id)
	if t.said[w] {
		return true
	}
	t.said[w] = true
	t.s.Fail("%s name %q stands for %v and for %v (%s)", t.kind, name, old, id, w)
	return w != "distinct texts"
}

func validChars(name string, extra string) bool {
	for _, r := range name {
		if !(r >= '0' && r <= '9' || r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r == '_' || r == '+' || strings.ContainsRune(extra, r)) {
			return false
		}
	}
	return name != "" && !strings.HasPrefix(name, ".") && !strings.HasSuffix(name, ".") && !strings.Contains(name, "..")
}

func p16topics(thorough bool) (texts []string, lists [][]string) {
	al := []string{"a", "A", "_", "0", "u", "U", "+", ".", "|", "*", ">", " ", "é", "𝄞", "\x00", "-"}
	texts = append(texts, "")
	texts = append(texts, al...)
	for _, a := range al {
		for _, b := range al {
			texts = append(texts, a+b)
		}
	}
	texts = append(texts, "Q", "a.Q", "REQ", "RES", "STR", "CLAIM", "RCLAIM", "SRV", "CLI", "u+002e", "u+00e9", "U+0001d11e", "u+", "+002e", "a|b", "a.b",
		"\xff", "\xfe", "\uFFFD", strings.Repeat("x", 600), strings.Repeat("x", 600)+"y", strings.Repeat("é", 300), "ü", "İ", "\U0010ffff", "￿", "日本", "u+65e5u+672c", "٣", "ａ", "K")
	lists = append(lists, nil)
	for _, a := range texts {
		lists = append(lists, []string{a})
	}
	second := texts
	if !thorough {
		second = append(append([]string{}, texts[:len(al)+1]...), texts[len(al)+1+len(al)*len(al):]...)
	}
	for _, a := range second {
		for _, b := range second {
			lists = append(lists, []string{a, b})
		}
	}
	third := []string{"", "a", ".", "Q", "REQ", "a.a", "a|a"}
	for _, a := range third {
		for _, b := range third {
			for _, c := range third {
				lists = append(lists, []string{a, b, c})
			}
		}
	}
	for n := 4; n <= 8; n++ {
		for i := range n {
			for _, v := range []string{"a", "b", "."} {
				l := make([]string, n)
				for j := range l {
					l[j] = "a"
				}
				l[i] = v
				lists = append(lists, l)
			}
		}
	}
	return
}

func p16names(s *mc.S) {
	shard, of := s.Shard()
	tab := func(kind string) *p16table {
		return &p16table{s: s, kind: kind, names: map[string]p16id{}, said: map[string]bool{}, shard: uint32(shard), of: uint32(of)}
	}
	legacy, nats, subjects, keys := tab("channel"), tab("bus channel"), tab("queue subject"), tab("handler key")
	_, lists := p16topics(s.Thorough())
	n := 0
	for _, svc := range []string{"svc", "svc2", "Svc_a"} {
		sd := &info.ServiceDefinition{Name: svc, ID: "x"}
		sd.RegisterMethod("M", false, false, true, false)
		sd.RegisterMethod("MQ", false, false, true, true)
		sd.RegisterMethod("REQ", true, true, false, false)
		for _, m := range []string{"M", "MQ", "REQ"} {
			for _, l := range lists {
				i := sd.GetInfo(m, l)
				join := fmt.Sprintf("%d%q", len(l), l)
				for _, p := range []struct {
					purpose string
					ch      bus.Channel
					queue   bool
				}{{"request", i.GetRPCChannel(), i.Queue}, {"claim", i.GetClaimResponseChannel(), false}, {"stream", i.GetStreamServerChannel(), false}} {
					id := p16id{svc, m, join, p.purpose, l}
					ok := legacy.add(p.ch.Legacy, id)
					ok = nats.add(p.ch.Server+" + "+p.ch.Local, id) && ok
					// a subject is either one of queues or not: methods and purposes share it
					ok = subjects.add(p.ch.Server, p16id{svc, "", "", fmt.Sprintf("queue=%v", p.queue), l}) && ok
					if !ok {
						return
					}
					if !validChars(p.ch.Legacy, "|") || !validChars(p.ch.Server, ".") || !validChars(p.ch.Local, ".") {
						s.Fail("%v: invalid characters in %+v", id, p.ch)
						return
					}
					n++
				}
				if svc == "svc" && !keys.add(i.GetHandlerKey(), p16id{svc, m, join, "handler", l}) {
					return
				}
				// the same request yields the same channels, whatever else was asked in between
				j := sd.GetInfo(m, append([]string{}, l...))
				if i.GetRPCChannel() != j.GetRPCChannel() || i.GetClaimResponseChannel() != j.GetClaimResponseChannel() || i.GetStreamServerChannel() != j.GetStreamServerChannel() || i.GetHandlerKey() != j.GetHandlerKey() {
					s.Fail("%s %s %q: the channels differ the second time", svc, m, l)
					return
				}
			}
		}
		for _, c := range []string{"CLI_a", "CLI_b", "CLI_ab", "SRV_x", "A", "a", strings.Repeat("c", 600)} {
			for _, p := range []struct {
				purpose string
				ch      bus.Channel
			}{{"claims", info.GetClaimRequestChannel(svc, c)}, {"streams", info.GetStreamChannel(svc, c)}, {"responses", info.GetResponseChannel(svc, c)}} {
				id := p16id{svc, "client " + c, "", p.purpose, nil}
				if !legacy.add(p.ch.Legacy, id) || !nats.add(p.ch.Server+" + "+p.ch.Local, id) || !subjects.add(p.ch.Server, p16id{svc, "client " + c, "", p.purpose, nil}) {
					return
				}
				if !validChars(p.ch.Legacy, "|") || !validChars(p.ch.Server, ".") || p.ch.Local != "" {
					s.Fail("%v: invalid channel %+v", id, p.ch)
					return
				}
			}
		}
		s.Steps(n)
		s.Case(svc)
	}
	for k := range legacy.names {
		s.Case(k)
	}
	s.Sample("%d topic lists x 3 methods x 3 services x 3 purposes, %d channel names kept by this shard", len(lists), len(legacy.names))
}

// nasty topics that must not be confused with each other
var nasty = [][]string{nil, {"a"}, {"a", "b"}, {"a.b"}, {"a|b"}, {"au+002eb"}, {"b", "a"}, {"ab"}, {"A"}, {"*"}, {">"}, {"REQ"}, {"é"}, {"e"}, {"𝄞"}, {"u+d834u+dd1e"}, {"a "}, {" a"}}

// p16wire calls and subscribes to one of two topics.
func p16wire(x *mc.X) {
	t1 := nasty[x.Choice(len(nasty), 1)]
	t2 := nasty[x.Choice(len(nasty), 2)]
	if fmt.Sprintf("%q", t1) == fmt.Sprintf("%q", t2) {
		return
	}
	rpc := Pick2(x, 3, "aff", "one", "single", "multi")
	w := NewWorld(x)
	a, b := w.Server("A"), w.Server("B")
	w.Echo(a, "A", rpc, t1)
	w.Echo(b, "B", rpc, t2)
	c := w.Client("C")
	s1, err1 := client.Join[*Msg](context.Background(), c, "sub", t1)
	s2, err2 := client.Join[*Msg](context.Background(), c, "sub", t2)
	if err1 != nil || err2 != nil {
		x.Fail("join: %v %v", err1, err2)
		return
	}
	for i, t := range [][]string{t1, t2} {
		want := []string{"A", "B"}[i]
		if rpc == "multi" {
			ch, err := client.RequestMulti[*Msg](context.Background(), c, rpc, t, M("r"))
			if err != nil {
				x.Fail("multi: %v", err)
				continue
			}
			for r := range ch {
				if r.Err != nil || r.Result.Value != want+"/multi/r" && len(t) > 0 {
					x.Fail("topic %q of %q and %q: %v %v", t, t1, t2, r.Result, r.Err)
				}
			}
		} else if res, err := Call(context.Background(), c, rpc, t, "r"); err != nil || res != want+"/"+rpc+"/r" && len(t) > 0 {
			x.Fail("topic %q of %q and %q: answered %q, %v", t, t1, t2, res, err)
		}
		if err := a.Publish(context.Background(), "sub", t, M(fmt.Sprint("u", i))); err != nil {
			x.Fail("publish: %v", err)
		}
	}
	for i, s := range []interface {
		Channel() <-chan *Msg
		Close() error
	}{s1, s2} {
		x.Idle()
		if n := len(s.Channel()); n != 1 {
			x.Fail("topics %q and %q: %d updates instead of 1", t1, t2, n)
		} else if m := <-s.Channel(); m.Value != fmt.Sprint("u", i) {
			x.Fail("topics %q and %q: update %q on subscription %d", t1, t2, m.Value, i)
		}
		_ = s.Close()
	}
	time.Sleep(time.Second)
	w.Close()
}

func init() {
	addSeq(mc.Seq{Name: "P16/names", Run: p16names})
	add(mc.Scenario{Name: "P16/wire", Passes: env, Body: p16wire})
}
