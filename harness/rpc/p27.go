package main

import (
	"context"
	"errors"
	"fmt"
	"slices"
	"sort"
	"strings"
	"sync"
	"time"

	"google.golang.org/protobuf/proto"

	"github.com/livekit/psrpc"
	"github.com/livekit/psrpc/internal/bus"
	"github.com/livekit/psrpc/internal/zzverif/mc"
	. "github.com/livekit/psrpc/internal/zzverif/sim"
	"github.com/livekit/psrpc/pkg/client"
	"github.com/livekit/psrpc/pkg/server"
	"github.com/livekit/psrpc/testutils"
)

// lags are the latencies between the ends a, b and c.
var lags = map[string]time.Duration{
	"aa": 0, "ab": 50 * ms, "ac": 7 * ms, "ad": time.Second,
	"ba": 20 * ms, "bb": ms, "bc": 50 * ms, "bd": 0,
}

func lag(from, to string) time.Duration { return lags[from+to] }

// p27sub reads a subscription all the time.
type p27sub struct {
	id    string
	queue bool
	sub   bus.Subscription[*Msg]
	mu    sync.Mutex
	got   []string
	at    []time.Time
	ended int
	end   time.Time
}

func p27join(x *mc.X, b psrpc.MessageBus, id string, ch bus.Channel, queue bool, size int) *p27sub {
	f := bus.Subscribe[*Msg]
	if queue {
		f = bus.SubscribeQueue[*Msg]
	}
	sub, err := f(context.Background(), b, ch, size)
	if err != nil || sub == nil {
		x.Fail("subscribe: %v", err)
		panic("subscribe")
	}
	s := &p27sub{id: id, queue: queue, sub: sub}
	go func() {
		for m := range sub.Channel() {
			s.mu.Lock()
			s.got = append(s.got, m.GetValue())
			s.at = append(s.at, time.Now())
			s.mu.Unlock()
		}
		s.mu.Lock()
		s.ended++
		s.end = time.Now()
		s.mu.Unlock()
	}()
	return s
}

type p27msg struct {
	v    string
	from string
	at   time.Time
}

// p27judge compares what a subscriber received with what was sent to it until it was
// closed (never: the zero time).
func p27judge(x *mc.X, s *p27sub, sent []p27msg, closed time.Time, exact bool) {
	s.mu.Lock()
	defer s.mu.Unlock()
	due := map[string]time.Time{}
	for _, m := range sent {
		due[m.v] = m.at.Add(lag(m.from, s.id))
	}
	seen := map[string]bool{}
	last := time.Time{}
	for i, v := range s.got {
		d, ok := due[v]
		if !ok || seen[v] {
			x.Fail("%s received %.80q, which was not sent to it or was received before", s.id, v)
			return
		}
		seen[v] = true
		if s.at[i].Before(d) {
			x.Fail("%s received %.80q %v too early", s.id, v, d.Sub(s.at[i]))
		}
		if exact && s.at[i] != d {
			x.Fail("%s received %.80q %v late", s.id, v, s.at[i].Sub(d))
		}
		if exact && d.Before(last) {
			x.Fail("%s received %.80q after a message due later", s.id, v)
		}
		last = d
	}
	for v, d := range due {
		if !seen[v] && (closed.IsZero() || exact && d.Before(closed)) {
			x.Fail("%s did not receive %.80q", s.id, v)
		}
	}
	if want := 0; closed.IsZero() == (s.ended > want) {
		x.Fail("the channel of %s was closed %d times", s.id, s.ended)
	}
}

// p27lag: messages of two origins at various times to subscribers at three ends, one
// of which may be closed on the way.
func p27lag(n int, queue bool) func(x *mc.X) {
	return func(x *mc.X) {
		raw := psrpc.NewLocalMessageBus()
		at := func(id string) psrpc.MessageBus {
			return testutils.NewTestBus(raw, testutils.WithLaggyBus(id, lag))
		}
		ch := bus.Channel{Legacy: "l", Server: "s", Local: "c"}
		pubs := map[string]psrpc.MessageBus{"a": at("a"), "b": at("b")}
		var subs []*p27sub
		for _, id := range strings.Split("bcd", "") {
			subs = append(subs, p27join(x, at(id), id, ch, queue, 20))
		}
		time.Sleep(time.Duration(x.Choice(2, 2)) * 33 * ms)
		var sent []p27msg
		closed := time.Time{}
		for i := 0; i < n; i++ {
			switch k := x.Choice(3, uint32(20+i)); {
			case k < 2:
				m := p27msg{fmt.Sprint("m", i), "ab"[k : k+1], time.Now()}
				if i == 1 {
					m.v = strings.Repeat("é", 5000)
				} else if i == 2 {
					m.v = ""
				}
				if err := pubs[m.from].Publish(context.Background(), ch, M(m.v)); err != nil {
					x.Fail("publish: %v", err)
				}
				sent = append(sent, m)
			case closed.IsZero() && !queue:
				closed = time.Now()
				_ = subs[0].sub.Close()
			}
			time.Sleep([]time.Duration{ms, 45 * ms, 300 * ms}[x.Choice(3, uint32(40+i))])
		}
		Settle(x, 10*time.Second)
		if !queue {
			for i, s := range subs {
				c := time.Time{}
				l := sent
				if i == 0 && !closed.IsZero() {
					c = closed
					// what was sent after the close is nobody's
					l = slices.DeleteFunc(slices.Clone(sent), func(m p27msg) bool { return m.at.After(closed) })
				}
				p27judge(x, s, l, c, x.TimeDevs() == 0)
			}
		} else {
			var got, want []string
			for _, s := range subs {
				got = append(got, s.got...)
				for i, v := range s.got {
					for _, m := range sent {
						if d := m.at.Add(lag(m.from, s.id)); m.v == v && (s.at[i].Before(d) || x.TimeDevs() == 0 && s.at[i] != d) {
							x.Fail("%s received %.80q at %v instead of %v", s.id, v, s.at[i], d)
						}
					}
				}
			}
			for _, m := range sent {
				want = append(want, m.v)
			}
			sort.Strings(got)
			sort.Strings(want)
			if fmt.Sprint(got) != fmt.Sprint(want) {
				x.Fail("the queue received %.200q of %.200q", got, want)
			}
		}
		for _, s := range subs {
			_ = s.sub.Close()
		}
		Settle(x, 10*time.Second)
		for _, s := range subs {
			if s.ended != 1 {
				x.Fail("the channel of %s stays open", s.id)
			}
		}
		x.Out("%d %v", len(sent), closed.IsZero())
	}
}

// p27slow: the wrapped bus takes time itself, which counts.
func p27slow(x *mc.X) {
	var mu sync.Mutex
	var read []time.Time // when the wrapped bus had the messages
	d := mc.Pick(x, 1, 0, 20*ms, 200*ms)
	b := testutils.NewTestBus(psrpc.NewLocalMessageBus(), testutils.WithLaggyBus("a", func(string, string) time.Duration { return 50 * ms }),
		testutils.WithSubscribeInterceptor(func(_ context.Context, _ testutils.Channel, next testutils.ReadHandler) testutils.ReadHandler {
			return func() ([]byte, bool) {
				m, ok := next()
				time.Sleep(d)
				mu.Lock()
				read = append(read, time.Now())
				mu.Unlock()
				return m, ok
			}
		}))
	ch := bus.Channel{Legacy: "l", Server: "s", Local: "c"}
	s := p27join(x, b, "a", ch, false, 20)
	x.Idle()
	var sent []time.Time
	for i := 0; i < 4; i++ {
		sent = append(sent, time.Now())
		if err := b.Publish(context.Background(), ch, M(fmt.Sprint(i))); err != nil {
			x.Fail("publish: %v", err)
		}
		time.Sleep(mc.Pick(x, uint32(10+i), ms, 30*ms, 300*ms))
	}
	Settle(x, 10*time.Second)
	if fmt.Sprint(s.got) != "[0 1 2 3]" {
		x.Fail("received %q", s.got)
	} else {
		for i := range sent {
			due := sent[i].Add(50 * ms)
			if read[i].After(due) {
				due = read[i]
			}
			if s.at[i] != due {
				x.Fail("message %d arrived %v after it was sent, the wrapped bus had it after %v", i, s.at[i].Sub(sent[i]), read[i].Sub(sent[i]))
			}
		}
	}
	_ = s.sub.Close()
	Settle(x, 10*time.Second)
	x.Out("%v", s.ended)
}

// p27par: publishers and closes at once.
func p27par(scripts ...string) func(x *mc.X) {
	return func(x *mc.X) {
		raw := psrpc.NewLocalMessageBus()
		at := func(id string) psrpc.MessageBus {
			return testutils.NewTestBus(raw, testutils.WithLaggyBus(id, lag))
		}
		ch := bus.Channel{Legacy: "l", Server: "s", Local: "c"}
		subs := []*p27sub{p27join(x, at("b"), "b", ch, false, 20), p27join(x, at("d"), "d", ch, false, 20)}
		x.Idle()
		var mu sync.Mutex
		var sent []p27msg
		closed := time.Time{}
		var fs []func()
		for g, script := range scripts {
			b := map[string]psrpc.MessageBus{"a": at("a"), "b": at("b")}
			fs = append(fs, func() {
				for i, st := range script {
					switch st {
					case 'a', 'b':
						m := p27msg{fmt.Sprint("m", g, i), string(st), time.Now()}
						if err := b[m.from].Publish(context.Background(), ch, M(m.v)); err != nil {
							x.Fail("publish: %v", err)
						}
						mu.Lock()
						sent = append(sent, m)
						mu.Unlock()
					case 'w':
						time.Sleep(50 * ms)
					case 'c':
						now := time.Now()
						mu.Lock()
						closed = now
						mu.Unlock()
						_ = subs[0].sub.Close()
					}
				}
			})
		}
		Par(fs...)
		Settle(x, 10*time.Second)
		for i, s := range subs {
			c := time.Time{}
			if i == 0 {
				c = closed
			}
			p27judge(x, s, sent, c, x.TimeDevs() == 0 && closed.IsZero())
		}
		for _, s := range subs {
			_ = s.sub.Close()
		}
		Settle(x, 10*time.Second)
		for _, s := range subs {
			x.Out("%q", s.got)
			if s.ended != 1 {
				x.Fail("the channel of %s stays open", s.id)
			}
		}
	}
}

// p27unreliable: rates of 0, 1 and between, changed on the way, for a channel or all.
func p27unreliable(x *mc.X) {
	raw := psrpc.NewLocalMessageBus()
	rates := []float64{0, 1, 0.5}
	r := rates[x.Choice(3, 1)]
	rate := testutils.NewAtomicFailureRate(r)
	filter := []string{"", "one", "none"}[x.Choice(3, 2)]
	opt := testutils.WithUnreliableBus(rate)
	if filter != "" {
		opt = testutils.WithUnreliableBusChannel(rate, filter)
	}
	b := testutils.NewTestBus(raw, opt)
	queue := x.Choice(2, 3) == 1
	var subs []*p27sub
	names := []string{"one", "two"}
	for _, n := range names {
		subs = append(subs, p27join(x, b, n, bus.Channel{Legacy: n, Server: "s" + n, Local: "one"}, queue, 500))
	}
	x.Idle()
	var lists [][]string
	for step := 0; step < 3; step++ {
		if rate.Rate() != r {
			x.Fail("the rate is %v instead of %v", rate.Rate(), r)
		}
		var sent []string
		for i := 0; i < 60; i++ {
			v := fmt.Sprint("m", step, ".", i)
			sent = append(sent, v)
			for _, n := range names {
				if err := b.Publish(context.Background(), bus.Channel{Legacy: n, Server: "s" + n, Local: "one"}, M(v)); err != nil {
					x.Fail("publish: %v", err)
				}
			}
			x.Idle()
		}
		for _, s := range subs {
			s.mu.Lock()
			got := s.got
			s.got = nil
			s.mu.Unlock()
			lists = append(lists, got)
			lossy := r > 0 && (filter == "" || filter == s.id)
			k := 0
			for _, v := range got {
				for k < len(sent) && sent[k] != v {
					k++
				}
				if k == len(sent) {
					x.Fail("%s received %q out of order, twice or never sent: %q", s.id, v, got)
					break
				}
				k++
			}
			switch {
			case !lossy && len(got) != len(sent):
				x.Fail("%s received %d messages of %d at rate %v", s.id, len(got), len(sent), r)
			case lossy && r == 1 && len(got) != 0:
				x.Fail("%s received %d messages at rate 1", s.id, len(got))
			case lossy && r == 0.5 && (len(got) < 10 || len(got) > 50):
				x.Fail("%s received %d messages of %d at rate 0.5", s.id, len(got), len(sent))
			}
		}
		r = rates[x.Choice(3, uint32(10+step))]
		rate.SetRate(r)
	}
	for _, s := range subs {
		_ = s.sub.Close()
	}
	Settle(x, time.Second)
	for _, s := range subs {
		if s.ended != 1 {
			x.Fail("the channel of %s stays open", s.id)
		}
	}
	x.Out("%v", len(lists))
}

// p27chain: the interceptors of nested test buses are called in the order given.
func p27chain(x *mc.X) {
	raw := psrpc.NewLocalMessageBus()
	var mu sync.Mutex
	var trace []string
	note := func(format string, a ...any) {
		mu.Lock()
		trace = append(trace, fmt.Sprintf(format, a...))
		mu.Unlock()
	}
	take := func() string {
		mu.Lock()
		defer mu.Unlock()
		t := strings.Join(trace, " ")
		trace = nil
		return t
	}
	boom := errors.New("refused")
	ch := bus.Channel{Legacy: "l", Server: "s", Local: "c"}
	npub, nsub := x.Choice(4, 1), x.Choice(4, 2)
	refuse := x.Choice(npub+1, 3) - 1 // the interceptor that fails
	drop := x.Choice(nsub+1, 4) - 1   // the interceptor that loses messages called "lost"
	split := x.Choice(3, 5)           // options as they are, in a group, in two buses
	queue := x.Choice(2, 6) == 1
	var opts []testutils.TestBusOption
	for i := 0; i < npub; i++ {
		opts = append(opts, testutils.WithPublishInterceptor(func(next testutils.PublishHandler) testutils.PublishHandler {
			return func(ctx context.Context, c testutils.Channel, msg proto.Message) error {
				if c != ch || ctx.Value(p27key{}) != "v" {
					x.Fail("publish interceptor %d saw channel %v", i, c)
				}
				note("p%d", i)
				m := msg.(*Msg)
				if i == refuse && strings.HasPrefix(m.Value, "refused") {
					return boom
				}
				err := next(ctx, c, M(fmt.Sprint(m.Value, i)))
				note("/p%d", i)
				return err
			}
		}))
	}
	for i := 0; i < nsub; i++ {
		opts = append(opts, testutils.WithSubscribeInterceptor(func(ctx context.Context, c testutils.Channel, next testutils.ReadHandler) testutils.ReadHandler {
			note("s%d", i)
			if c != ch || ctx.Value(p27key{}) != "v" {
				x.Fail("subscribe interceptor %d saw channel %v", i, c)
			}
			return func() ([]byte, bool) {
				for {
					b, ok := next()
					note("r%d=%v", i, ok)
					if i == drop && ok && strings.Contains(string(b), "lost") {
						continue
					}
					return b, ok
				}
			}
		}))
	}
	var b psrpc.MessageBus
	switch split {
	case 0:
		b = testutils.NewTestBus(raw, opts...)
	case 1:
		b = testutils.NewTestBus(raw, testutils.WithBusOptions(opts...))
	default: // the first ones are the outer ones
		half := len(opts) / 2
		b = testutils.NewTestBus(testutils.NewTestBus(raw, opts[half:]...), opts[:half]...)
	}
	ctx := context.WithValue(context.Background(), p27key{}, "v")
	f := bus.Subscribe[*Msg]
	if queue {
		f = bus.SubscribeQueue[*Msg]
	}
	sub, err := f(ctx, b, ch, 10)
	if err != nil {
		x.Fail("subscribe: %v", err)
		return
	}
	x.Idle()
	order := func(prefix, suffix string, n int, rev bool) (s []string) {
		for i := 0; i < n; i++ {
			k := i
			if rev {
				k = n - 1 - i
			}
			s = append(s, fmt.Sprint(prefix, k, suffix))
		}
		return
	}
	// an interceptor wraps those that follow, whose readers are made first
	if got, want := take(), strings.Join(order("s", "", nsub, true), " "); got != want {
		x.Fail("subscribing called %q instead of %q", got, want)
	}
	for _, v := range []string{"hello", "refused", "lost", "last"} {
		err := b.Publish(ctx, ch, M(v))
		x.Idle()
		want := strings.Join(append(order("p", "", npub, false), order("/p", "", npub, true)...), " ")
		text := v + strings.Join(order("", "", npub, false), "")
		delivered := true
		reads := order("r", "=true", nsub, true)
		if v == "refused" && refuse >= 0 {
			delivered = false
			reads = nil
			var w []string
			w = append(w, order("p", "", refuse+1, false)...)
			w = append(w, order("/p", "", refuse, true)...)
			want = strings.Join(w, " ")
			if err != boom {
				x.Fail("publish returned %v", err)
			}
		} else if err != nil {
			x.Fail("publish: %v", err)
		}
		if v == "lost" && drop >= 0 {
			delivered = false
			reads = reads[:nsub-drop]
		}
		var pubs, rds []string
		for _, t := range strings.Fields(take()) {
			if strings.HasPrefix(t, "r") {
				rds = append(rds, t)
			} else {
				pubs = append(pubs, t)
			}
		}
		if strings.Join(pubs, " ") != want {
			x.Fail("publishing called %q instead of %q", pubs, want)
		}
		if fmt.Sprint(rds) != fmt.Sprint(reads) {
			x.Fail("reading called %q instead of %q", rds, reads)
		}
		select {
		case m := <-sub.Channel():
			if !delivered || m.GetValue() != text {
				x.Fail("received %q, expected %q (%v)", m.GetValue(), text, delivered)
			}
		default:
			if delivered {
				x.Fail("%q was not received", v)
			}
		}
	}
	_ = sub.Close()
	Settle(x, time.Second)
	if got, want := take(), strings.Join(order("r", "=false", nsub, true), " "); got != want {
		x.Fail("closing called %q instead of %q", got, want)
	}
	if _, ok := <-sub.Channel(); ok {
		x.Fail("a message after the close")
	}
	x.Out("%d %d", npub, nsub)
}

type p27key struct{}

// p27rpc: calls and streams between a client at a and servers at b take the
// latencies of their messages, and have the results that they have without.
func p27rpc(kind string, faulty bool) func(x *mc.X) {
	return func(x *mc.X) {
		w := NewWorld(x)
		loss := testutils.NewAtomicFailureRate(0)
		w.Wrap = func(id string, b psrpc.MessageBus) psrpc.MessageBus {
			end := map[string]string{"C": "a", "A": "b", "B": "b"}[id]
			opts := []testutils.TestBusOption{testutils.WithLaggyBus(end, lag), testutils.WithUnreliableBus(loss)}
			if x.Choice(2, 1) == 1 {
				slices.Reverse(opts)
			}
			return testutils.NewTestBus(b, opts...)
		}
		there, back := lag("a", "b"), lag("b", "a")
		hops := map[string]time.Duration{"one": 1, "queue": 1, "multi": 1, "single": 2, "claim1": 2, "str": 2}[kind]
		s := w.Server("A", psrpc.WithServerTimeout(time.Second))
		c := w.Client("C", psrpc.WithClientTimeout(2*time.Second))
		if kind == "str" {
			if err := server.RegisterStreamHandler[*Msg, *Msg](s, "str", nil, func(st psrpc.ServerStream[*Msg, *Msg]) error {
				for m := range st.Channel() {
					if err := st.Send(M("re:" + m.Value)); err != nil {
						return err
					}
				}
				return nil
			}, nil); err != nil {
				x.Fail("register: %v", err)
			}
		} else {
			w.Echo(s, "A", kind, nil)
		}
		time.Sleep(time.Second)
		for i := 0; i < 2; i++ {
			lost := faulty && i == 0
			if lost {
				loss.SetRate(1)
			} else {
				loss.SetRate(0)
			}
			start := time.Now()
			var err error
			var got string
			want := fmt.Sprintf("A/%s/r%d", kind, i)
			due := hops * (there + back)
			switch kind {
			case "multi":
				var rs <-chan *psrpc.Response[*Msg]
				if rs, err = client.RequestMulti[*Msg](context.Background(), c, kind, nil, M(fmt.Sprint("r", i))); err == nil {
					n := 0
					for r := range rs {
						n++
						got = r.Result.GetValue()
						if took := time.Since(start); x.TimeDevs() == 0 && took != due {
							x.Fail("the response took %v instead of %v", took, due)
						}
					}
					if n != 1 && w.Calm() && !lost || n > 1 {
						x.Fail("%d responses", n)
					}
					if n == 0 {
						err = psrpc.ErrRequestTimedOut
					}
				}
			case "str":
				var st psrpc.ClientStream[*Msg, *Msg]
				if st, err = client.OpenStream[*Msg, *Msg](context.Background(), c, kind, nil); err == nil {
					if took := time.Since(start); x.TimeDevs() == 0 && took != due {
						x.Fail("the stream took %v to open instead of %v", took, due)
					}
					start = time.Now()
					if err = st.Send(M("x")); err == nil {
						if took := time.Since(start); x.TimeDevs() == 0 && took != there+back {
							x.Fail("the message took %v instead of %v", took, there+back)
						}
						if m, ok := <-st.Channel(); ok {
							got, want = m.Value, "re:x"
						}
					}
					if e := st.Close(nil); e != nil && x.TimeDevs() == 0 {
						x.Fail("close: %v", e)
					}
				}
			default:
				got, err = Call(context.Background(), c, kind, nil, fmt.Sprint("r", i))
				if took := time.Since(start); err == nil && x.TimeDevs() == 0 && took != due {
					x.Fail("the call took %v instead of %v", took, due)
				}
			}
			switch {
			case lost && err == nil:
				x.Fail("a call without any message delivered succeeded")
			case !lost && err != nil && x.TimeDevs() == 0:
				x.Fail("%s failed: %v", kind, err)
			case err == nil && got != want:
				x.Fail("%s returned %q instead of %q", kind, got, want)
			}
			x.Out("%v", err)
		}
		w.Close()
	}
}

func init() {
	quick, deep := []mc.Pass{mc.P1, mc.P2}, []mc.Pass{mc.P2a, mc.P3}
	add(
		mc.Scenario{Name: "P27/chain", Passes: env, Body: p27chain},
		mc.Scenario{Name: "P27/unreliable", Passes: env, Body: p27unreliable},
		mc.Scenario{Name: "P27/lag-4", Passes: env, Body: p27lag(4, false)},
		mc.Scenario{Name: "P27/lag-slow", Passes: env, Body: p27slow},
		mc.Scenario{Name: "P27/lag-queue-3", Passes: env, Body: p27lag(3, true)},
	)
	for _, s := range []string{"chain", "unreliable", "lag-4", "lag-queue-3", "lag-slow", "par-0", "par-1", "par-2", "par-3", "par-4", "par-5"} {
		localOnly["P27/"+s] = true
	}
	for i, l := range [][]string{
		{"a", "b"}, {"aa", "b"}, {"a", "c"}, {"ab", "wc"}, {"a", "b", "c"}, {"awb", "wa"},
	} {
		add(mc.Scenario{Name: fmt.Sprintf("P27/par-%d", i), Passes: quick, Deep: deep, Body: p27par(l...)})
	}
	for _, k := range []string{"one", "queue", "multi", "single", "claim1", "str"} {
		add(
			mc.Scenario{Name: "P27/rpc-" + k, Passes: append(slices.Clone(env), mc.P1s), Deep: []mc.Pass{mc.P1, mc.P2s}, Body: p27rpc(k, false)},
			mc.Scenario{Name: "P27/rpc-lossy-" + k, Passes: append(slices.Clone(env), mc.P1s), Deep: []mc.Pass{mc.P1}, Body: p27rpc(k, true)},
		)
	}
}
