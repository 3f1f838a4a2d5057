package main

import (
	"context"
	"fmt"
	"slices"
	"strings"
	"sync/atomic"
	"time"

	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protodesc"
	"google.golang.org/protobuf/types/descriptorpb"
	"google.golang.org/protobuf/types/dynamicpb"
	"google.golang.org/protobuf/types/known/emptypb"

	"github.com/livekit/psrpc"
	"github.com/livekit/psrpc/internal/bus"
	"github.com/livekit/psrpc/internal/zzverif/mc"
	. "github.com/livekit/psrpc/internal/zzverif/sim"
	"github.com/livekit/psrpc/pkg/client"
	"github.com/livekit/psrpc/pkg/server"
)

type p24key struct {
	rpc   string
	topic []string
}

var p24keys = []p24key{{"sub", []string{"a"}}, {"sub", []string{"b"}}, {"multi2", []string{"a"}}, {"sub", nil}}

// p24nats are the keys over NATS, where a method is for plain or for queue
// subscriptions; subscriptions of several queue methods of a topic by several
// processes do not get on, see the known findings.
var p24nats = []p24key{{"sub", []string{"a"}}, {"subq", []string{"a"}}, {"multi2", []string{"a"}}, {"subq", []string{"b"}}, {"subq2", []string{"a"}}}

func onNats() bool { return strings.HasPrefix(Backend, "nats") }

// p24keyOf is a key and whether it is joined as a queue.
func p24keyOf(key int, queue bool) (p24key, bool) {
	if !onNats() {
		return p24keys[key], queue
	}
	if Backend == "nats+" && key == 3 {
		key = 4
	}
	return p24nats[key], key%2 == 1 || key == 4
}

// undecodable is a message of a type unknown to receivers.
var undecodable = func() proto.Message {
	f, err := protodesc.NewFile(&descriptorpb.FileDescriptorProto{
		Name: proto.String("zz.proto"), Package: proto.String("zz"), Syntax: proto.String("proto3"),
		MessageType: []*descriptorpb.DescriptorProto{{Name: proto.String("Unknown"), Field: []*descriptorpb.FieldDescriptorProto{{
			Name: proto.String("v"), Number: proto.Int32(1), Type: descriptorpb.FieldDescriptorProto_TYPE_STRING.Enum(), Label: descriptorpb.FieldDescriptorProto_LABEL_OPTIONAL.Enum(),
		}}}},
	}, nil)
	if err != nil {
		panic(err)
	}
	d := f.Messages().Get(0)
	m := dynamicpb.NewMessage(d)
	m.Set(d.Fields().Get(0), dynamicpb.NewMessage(d).NewField(d.Fields().Get(0)))
	return m
}()

type p24sub struct {
	name  string
	key   int
	queue bool
	sub   bus.Subscription[*Msg]
	got   []string
	want  []string // plain
	ended bool     // the channel was seen closed
	open  bool
}

// drain reads what is there.
func (s *p24sub) drain() (fresh []string) {
	for !s.ended {
		select {
		case m, ok := <-s.sub.Channel():
			if !ok {
				s.ended = true
				continue
			}
			v := "<nil>"
			if m != nil {
				v = m.Value
			}
			fresh = append(fresh, v)
			s.got = append(s.got, v)
			continue
		default:
		}
		return
	}
	return
}

func p24join(x *mc.X, c *client.RPCClient, key int, queue bool, name string) *p24sub {
	s := p24joinKey(x, c, p24keys[key], queue)
	s.name, s.key = name, key
	return s
}

func p24joinKey(x *mc.X, c *client.RPCClient, k p24key, queue bool) *p24sub {
	f := client.Join[*Msg]
	if queue {
		f = client.JoinQueue[*Msg]
	}
	sub, err := f(context.Background(), c, k.rpc, k.topic)
	if err != nil || sub == nil {
		x.Fail("join: %v", err)
		panic("join")
	}
	return &p24sub{queue: queue, sub: sub, open: true}
}

// p24text is equal to the one before now and then, unless the bus is Redis: see the
// known findings of P14.
func p24text(s string, i int) string {
	if !strings.HasPrefix(Backend, "redis") {
		i /= 2
	}
	return fmt.Sprint(s, i)
}

func p24seq(depth, keys int) func(x *mc.X) {
	return func(x *mc.X) {
		w := NewWorld(x)
		srv := []*server.RPCServer{w.Server("A"), w.Server("B")}
		cli := []*client.RPCClient{w.Client("C"), w.Client("D")}
		var subs []*p24sub
		trace := ""
		pub := func(i, key int, msg proto.Message, v string) {
			k, _ := p24keyOf(key, false)
			if err := srv[i%2].Publish(context.Background(), k.rpc, k.topic, msg); err != nil {
				x.Fail("%s: publish: %v", trace, err)
			}
			w.Idle()
			queued, members := 0, 0
			for _, s := range subs {
				fresh := s.drain()
				match := s.open && s.key == key && v != ""
				if s.queue && match {
					members++
					if len(fresh) > 0 {
						queued++
					}
				}
				exact := v != "" && len(fresh) == 1 && fresh[0] == v
				if len(fresh) > 0 && !(match && exact) || match && !s.queue && !exact {
					x.Fail("%s: %s received %q after the update %q of %v", trace, s.name, fresh, v, p24keys[key])
				}
			}
			if members > 0 && queued != 1 {
				x.Fail("%s: %d of %d queue members received the update %q", trace, queued, members, v)
			}
		}
		for i := 0; i < depth; i++ {
			var open []*p24sub
			for _, s := range subs {
				if s.open {
					open = append(open, s)
				}
			}
			op := x.Choice(3*keys+2+len(open), 1)
			switch {
			case op < 2*keys:
				c, queue := cli[len(subs)%2], op%2 == 1
				if onNats() {
					c = cli[op%2]
				}
				k, queue := p24keyOf(op/2, queue)
				s := p24joinKey(x, c, k, queue)
				s.key = op / 2
				s.name = fmt.Sprintf("%d:%v/queue=%v", len(subs), p24keys[s.key], s.queue)
				subs = append(subs, s)
				trace += fmt.Sprintf(" join%d%v", s.key, s.queue)
			case op < 3*keys:
				trace += fmt.Sprintf(" pub%d", op-2*keys)
				v := p24text("m", i)
				pub(i, op-2*keys, M(v), v)
			case op == 3*keys:
				trace += " wrong"
				pub(i, 0, &emptypb.Empty{}, "")
			case op == 3*keys+1:
				trace += " unknown"
				pub(i, 0, undecodable, "")
			default:
				s := open[op-3*keys-2]
				trace += " close" + s.name
				if err := s.sub.Close(); err != nil {
					x.Fail("%s: %v", trace, err)
				}
				s.open = false
			}
			w.Idle()
			for _, s := range subs {
				if fresh := s.drain(); len(fresh) > 0 || s.ended == s.open {
					x.Fail("%s: %s received %q, ended %v", trace, s.name, fresh, s.ended)
				}
			}
		}
		for k := 0; k < keys; k++ {
			for r := 0; r < 3; r++ {
				v := fmt.Sprint(k, p24text("end", r))
				pub(r, k, M(v), v)
			}
		}
		for _, s := range subs {
			_ = s.sub.Close()
			_ = s.sub.Close()
		}
		w.Close()
		for _, s := range subs {
			if fresh := s.drain(); len(fresh) > 0 || !s.ended {
				x.Fail("%s: %s received %q, ended %v", trace, s.name, fresh, s.ended)
			}
		}
		x.Out("%s", trace)
	}
}

// p24values: updates arrive unaltered and the publisher keeps its message.
func p24values(x *mc.X) {
	w := NewWorld(x)
	s := w.Server("A")
	c := w.Client("C")
	key := x.Choice(len(p24keys), 1)
	queue := x.Choice(2, 2) == 1
	sub := p24join(x, c, key, queue, "s")
	other := p24join(x, c, key, queue && onNats(), "o")
	if queue && onNats() {
		_ = other.sub.Close()
		other = sub
	}
	vals := []string{"", "a", "é\U0001d11e\x00", strings.Repeat("x", 5000)}
	if !queue || !strings.HasPrefix(Backend, "redis") {
		vals = append(vals, vals[3], "", "", "a", "a", "a")
	}
	for _, v := range vals {
		m := M(v)
		_ = s.Publish(context.Background(), p24keys[key].rpc, p24keys[key].topic, m)
		m.Value = "changed"
	}
	w.Idle()
	for _, u := range []*p24sub{sub, other} {
		u.drain()
		if fmt.Sprintf("%q", u.got) != fmt.Sprintf("%q", vals) {
			x.Fail("received %.200q", u.got)
		}
		_ = u.sub.Close()
	}
	c.Close()
	if _, err := client.Join[*Msg](context.Background(), c, "sub", nil); err != psrpc.ErrClientClosed {
		x.Fail("joining on a closed client: %v", err)
	}
	if _, err := client.JoinQueue[*Msg](context.Background(), c, "sub", nil); err != psrpc.ErrClientClosed {
		x.Fail("joining on a closed client: %v", err)
	}
	w.FailSubs = 0
	w.Close()
}

// p24fail: a join that fails at the bus returns the failure and leaves nothing behind.
func p24fail(x *mc.X) {
	w := NewWorld(x)
	s := w.Server("A")
	c := w.Client("C")
	n := w.Open()
	f := client.Join[*Msg]
	if x.Choice(2, 1) == 1 {
		f = client.JoinQueue[*Msg]
	}
	w.FailSubs = 1
	sub, err := f(context.Background(), c, "sub", nil)
	if e, ok := err.(psrpc.Error); !ok || sub != nil || e.Code() != psrpc.Internal {
		x.Fail("join: %v %v", sub, err)
	}
	if w.Open() != n {
		x.Fail("a failed join leaves a subscription")
	}
	sub, err = f(context.Background(), c, "sub", nil)
	if err != nil {
		x.Fail("join: %v", err)
	}
	_ = s.Publish(context.Background(), "sub", nil, M("m"))
	w.Idle()
	select {
	case m := <-sub.Channel():
		if m.GetValue() != "m" {
			x.Fail("received %v", m)
		}
	default:
		x.Fail("received nothing")
	}
	_ = sub.Close()
	if w.Open() != n {
		x.Fail("a closed subscription is still open at the bus")
	}
	w.Close()
}

// increasing checks that got is a duplicate-free selection of want in order.
func increasing(got, want []string) bool {
	i := 0
	for _, g := range got {
		for i < len(want) && want[i] != g {
			i++
		}
		if i == len(want) {
			return false
		}
		i++
	}
	return true
}

func p24pub(x *mc.X, s *server.RPCServer, key int, vals ...string) {
	for _, v := range vals {
		if err := s.Publish(context.Background(), p24keys[key].rpc, p24keys[key].topic, M(v)); err != nil {
			x.Fail("publish %s: %v", v, err)
		}
	}
}

// p24close: a subscription is closed while updates are published.
func p24close(queue bool, size int, reading bool) func(x *mc.X) {
	return func(x *mc.X) {
		w := NewWorld(x)
		s := w.Server("A")
		c := w.Client("C", psrpc.WithClientChannelSize(size))
		d := w.Client("D")
		leaving := p24join(x, c, 0, queue, "leaving")
		stay := p24join(x, d, 0, queue, "staying")
		other := p24join(x, d, 1, false, "other")
		var closed atomic.Bool
		before := []string{"1", "2", "3", "4", "5"}
		Par(func() {
			p24pub(x, s, 0, before...)
		}, func() {
			if reading {
				select {
				case m := <-leaving.sub.Channel():
					leaving.got = append(leaving.got, m.Value)
				case <-time.After(time.Second):
				}
			}
			_ = leaving.sub.Close()
			closed.Store(true)
		})
		if onNats() {
			// the server learns of the end of a subscription after Close returned: what it hands to the
			// leaving queue member until then is lost with it
			w.Quiesce()
		}
		p24pub(x, s, 0, "6", "7")
		p24pub(x, s, 1, "x")
		w.Quiesce()
		leaving.drain()
		stay.drain()
		other.drain()
		if !leaving.ended {
			x.Fail("the channel of a closed subscription does not close")
		}
		all := append(append([]string{}, before...), "6", "7")
		if !increasing(leaving.got, before) {
			x.Fail("the closed subscription received %q", leaving.got)
		}
		if fmt.Sprint(other.got) != "[x]" || stay.ended || other.ended {
			x.Fail("another subscription received %q, ended %v %v", other.got, stay.ended, other.ended)
		}
		if !queue {
			if fmt.Sprint(stay.got) != fmt.Sprint(all) {
				x.Fail("the remaining subscription received %q", stay.got)
			}
		} else {
			if !increasing(stay.got, all) || !strings.HasSuffix(strings.Join(stay.got, ""), "67") {
				x.Fail("the remaining queue member received %q", stay.got)
			}
			for _, v := range stay.got {
				for _, u := range leaving.got {
					// a member delayed for longer than the Redis lock lasts gets the message too
					if u == v && !(Backend == "redis" && x.TimeDevs() > 0) {
						x.Fail("both queue members received %s", v)
					}
				}
			}
		}
		x.Out("%v %v", leaving.got, stay.got)
		_ = stay.sub.Close()
		_ = other.sub.Close()
		w.Close()
	}
}

// p24join: a subscription is made while two servers publish.
func p24joining(queue bool) func(x *mc.X) {
	return func(x *mc.X) {
		w := NewWorld(x)
		a, b := w.Server("A"), w.Server("B")
		c := w.Client("C")
		first := p24join(x, c, 0, queue, "first")
		var second *p24sub
		Par(func() { p24pub(x, a, 0, "a1", "a2") }, func() { p24pub(x, b, 0, "b1", "b2") }, func() {
			second = p24join(x, c, 0, queue, "second")
			p24pub(x, b, 0, "c1")
		})
		w.Quiesce()
		first.drain()
		second.drain()
		per := func(s *p24sub, p string) (r []string) {
			for _, v := range s.got {
				if v[:1] == p {
					r = append(r, v)
				}
			}
			return
		}
		for _, p := range []string{"a", "b", "c"} {
			all := []string{p + "1", p + "2"}
			if p == "c" {
				all = all[:1]
			}
			g1, g2 := per(first, p), per(second, p)
			if !increasing(g1, all) || !increasing(g2, all) {
				x.Fail("out of order or twice: %q and %q", g1, g2)
			}
			if !queue {
				if len(g1) != len(all) {
					x.Fail("the first subscription received %q of %q", g1, all)
				}
				if len(g2) > 0 && g2[len(g2)-1] != all[len(all)-1] || p == "c" && len(g2) != 1 {
					x.Fail("the second subscription received %q of %q", g2, all)
				}
			} else if len(g1)+len(g2) != len(all) {
				x.Fail("queue members received %q and %q of %q", g1, g2, all)
			}
		}
		x.Out("%v %v", first.got, second.got)
		_ = first.sub.Close()
		_ = second.sub.Close()
		w.Close()
	}
}

// p24ends: the last subscriptions leave and new ones come.
func p24ends(queue bool) func(x *mc.X) {
	return func(x *mc.X) {
		w := NewWorld(x)
		a := w.Server("A")
		c := w.Client("C")
		s1, s2 := p24join(x, c, 0, queue, "1"), p24join(x, c, 0, queue, "2")
		s4 := s1
		if !onNats() {
			s4 = p24join(x, c, 0, !queue, "4")
		}
		var s3 *p24sub
		Par(func() { _ = s1.sub.Close() }, func() { _ = s2.sub.Close() }, func() { s3 = p24join(x, c, 0, queue, "3") }, func() { p24pub(x, a, 0, "0") })
		p24pub(x, a, 0, "1", "2")
		w.Quiesce()
		s3.drain()
		s4.drain()
		s1.drain()
		s2.drain()
		if got := strings.TrimPrefix(strings.Join(s3.got, ""), "0"); got != "12" {
			x.Fail("the remaining subscription received %q", s3.got)
		}
		if s4 != s1 && (fmt.Sprint(s4.got) != "[0 1 2]" || s4.ended) || !s1.ended || !s2.ended || s3.ended {
			x.Fail("received %q %q %q", s1.got, s2.got, s4.got)
		}
		_ = s3.sub.Close()
		_ = s4.sub.Close()
		w.Close()
	}
}

// p24queueMethods: one client joins several queue methods and topics.
func p24queueMethods(x *mc.X) {
	w := NewWorld(x)
	a, b := w.Server("A"), w.Server("B")
	c := w.Client("C")
	keys := []p24key{{"subq", []string{"a"}}, {"subq2", []string{"a"}}, {"subq", nil}, {"subq2", []string{"b"}}}
	// in any order
	first := x.Choice(len(keys), 1)
	var subs []*p24sub
	for i := range keys {
		s := p24joinKey(x, c, keys[(i+first)%len(keys)], true)
		s.key = (i + first) % len(keys)
		subs = append(subs, s)
	}
	left := x.Choice(len(keys)+1, 2) - 1
	if left >= 0 {
		_ = subs[left].sub.Close()
	}
	pub := func(s *server.RPCServer, p string) {
		for i := 0; i < 2; i++ {
			for j, k := range keys {
				if err := s.Publish(context.Background(), k.rpc, k.topic, M(fmt.Sprintf("%s%d%d", p, j, i))); err != nil {
					x.Fail("publish: %v", err)
				}
			}
		}
	}
	Par(func() { pub(a, "a") }, func() { pub(b, "b") })
	w.Quiesce()
	for i, s := range subs {
		s.drain()
		want := fmt.Sprintf("a%[1]d0 a%[1]d1 b%[1]d0 b%[1]d1", s.key)
		if i == left {
			want = ""
		}
		slices.Sort(s.got)
		if got := strings.Join(s.got, " "); got != want {
			x.Fail("the subscription of %v received %q, expected %q", keys[s.key], got, want)
		}
		_ = s.sub.Close()
	}
	w.Close()
	x.Out("%d %d", first, left)
}

func init() {
	one := []mc.Pass{mc.P1, mc.P2}
	deep := []mc.Pass{mc.P2a, mc.P3}
	add(
		mc.Scenario{Name: "P24/sequences-3", Passes: env, Body: p24seq(3, 4)},
		mc.Scenario{Name: "P24/queue-methods", Passes: []mc.Pass{mc.E, mc.P1, mc.P2s}, Deep: deep, Body: p24queueMethods},
		mc.Scenario{Name: "P24/sequences-4", Passes: env, Body: p24seq(4, 4)},
		mc.Scenario{Name: "P24/sequences-5", Passes: env, Body: p24seq(5, 2)},
		mc.Scenario{Name: "P24/sequences-6", Deep: env, Body: p24seq(6, 2)},
		mc.Scenario{Name: "P24/sequences-7", Deep: env, Body: p24seq(7, 1)},
		mc.Scenario{Name: "P24/values", Passes: env, Body: p24values},
		mc.Scenario{Name: "P24/failing", Passes: env, Body: p24fail},
	)
	for _, queue := range []bool{false, true} {
		n := map[bool]string{false: "plain", true: "queue"}[queue]
		add(
			mc.Scenario{Name: "P24/close-" + n, Passes: one, Deep: deep, Body: p24close(queue, 100, false)},
			mc.Scenario{Name: "P24/close-full-" + n, Passes: one, Deep: deep, Body: p24close(queue, 1, false)},
			mc.Scenario{Name: "P24/close-reading-" + n, Passes: one, Deep: deep, Body: p24close(queue, 1, true)},
			mc.Scenario{Name: "P24/join-" + n, Passes: one, Deep: deep, Body: p24joining(queue)},
			mc.Scenario{Name: "P24/ends-" + n, Passes: one, Deep: deep, Body: p24ends(queue)},
		)
	}
}
