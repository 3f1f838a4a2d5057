package main

import (
	"context"
	"fmt"
	"strings"
	"sync"
	"time"

	"github.com/livekit/psrpc"
	"github.com/livekit/psrpc/internal/zzverif/mc"
	. "github.com/livekit/psrpc/internal/zzverif/sim"
	"github.com/livekit/psrpc/pkg/client"
	"github.com/livekit/psrpc/pkg/server"
)

type (
	clientSt = psrpc.ClientStream[*Msg, *Msg]
	serverSt = psrpc.ServerStream[*Msg, *Msg]
)

// strm is one end of a stream.
type strm interface {
	Channel() <-chan *Msg
	Send(*Msg, ...psrpc.StreamOption) error
	Close(error) error
	Context() context.Context
	Err() error
}

// handleStream registers a stream handler.
func (p *pair) handle(s *server.RPCServer, rpc string, h func(serverSt) error) {
	if err := server.RegisterStreamHandler[*Msg, *Msg](s, rpc, nil, h, nil); err != nil {
		p.w.X.Fail("register stream: %v", err)
	}
}

// pair is a stream seen from both sides; the server side is hijacked.
type pair struct {
	w  *World
	s  *server.RPCServer
	c  *client.RPCClient
	cl clientSt
	sv serverSt
}

// openPair opens a stream and hands out both of its sides.
func openPair(w *World, rpc string, so []psrpc.ServerOption, co []psrpc.ClientOption, ro ...psrpc.RequestOption) *pair {
	p := &pair{w: w, s: w.Server("A", so...)}
	got := make(chan serverSt, 1)
	p.handle(p.s, rpc, func(st serverSt) error {
		st.Hijack()
		got <- st
		return nil
	})
	p.c = w.Client("C", co...)
	var err error
	p.cl, err = client.OpenStream[*Msg, *Msg](context.Background(), p.c, rpc, nil, ro...)
	if err != nil {
		if w.X.TimeDevs() == 0 && w.Injected() == 0 {
			w.X.Fail("open: %v", err)
		}
		return nil
	}
	select {
	case p.sv = <-got:
	case <-time.After(10 * time.Second):
		if w.X.TimeDevs() == 0 {
			w.X.Fail("the stream was opened but its handler never ran")
		}
		return nil
	}
	return p
}

// side is what one end received, and what the other sent.
type side struct {
	mu   sync.Mutex
	recv []string
	sent []string
	oks  map[string]bool
	errs map[string]error
}

func (d *side) send(st strm, v string, opts ...psrpc.StreamOption) error {
	d.mu.Lock()
	d.sent = append(d.sent, v)
	d.mu.Unlock()
	err := st.Send(M(v), opts...)
	d.mu.Lock()
	defer d.mu.Unlock()
	if d.oks == nil {
		d.oks, d.errs = map[string]bool{}, map[string]error{}
	}
	if err == nil {
		d.oks[v] = true
	} else {
		d.errs[v] = err
	}
	return err
}

// drain reads until the channel closes.
func (d *side) drain(st strm) {
	for m := range st.Channel() {
		d.mu.Lock()
		d.recv = append(d.recv, m.Value)
		d.mu.Unlock()
	}
}

// judge: received is a subsequence of sent that contains every acknowledged
// message.
func (d *side) judge(x *mc.X, what string, ordered bool) {
	d.mu.Lock()
	defer d.mu.Unlock()
	seen := map[string]int{}
	for _, v := range d.recv {
		if seen[v]++; seen[v] > 1 {
			x.Fail("%s: %q was received twice: %v", what, v, d.recv)
		}
	}
	pos := map[string]int{}
	for i, v := range d.sent {
		pos[v] = i + 1
		if d.oks[v] && seen[v] == 0 {
			x.Fail("%s: %q was acknowledged but not received: sent %v received %v", what, v, d.sent, d.recv)
		}
	}
	last := 0
	for _, v := range d.recv {
		if pos[v] == 0 {
			x.Fail("%s: received %q which was never sent on the stream", what, v)
		} else if ordered && pos[v] < last {
			x.Fail("%s: received out of order: sent %v received %v", what, d.sent, d.recv)
		} else {
			last = pos[v]
		}
	}
	x.Out("%s sent %d ok %d received %d", what, len(d.sent), len(d.oks), len(d.recv))
}

// failures fails the execution when sends failed without a reason.
func (d *side) failures(w *World, what string) {
	if w.X.TimeDevs() == 0 && w.Injected() == 0 && len(d.errs) > 0 {
		w.X.Fail("%s: sends failed although nothing was lost or late: %v", what, d.errs)
	}
}

// p08 sends n messages in the given directions ("c": by the client, "s": by the
// server, upper case: by two concurrent senders).
func p08(rpc, dirs string, n, faults int, kinds ...string) func(x *mc.X) {
	return func(x *mc.X) {
		w := NewWorld(x)
		p := openPair(w, rpc, nil, nil)
		if p == nil {
			w.Close()
			return
		}
		w.Faults(faults, kinds...)
		var toS, toC side
		var wg sync.WaitGroup
		wg.Add(2)
		go func() { defer wg.Done(); toS.drain(p.sv) }()
		go func() { defer wg.Done(); toC.drain(p.cl) }()
		var fs []func()
		for _, dir := range dirs {
			var d *side
			var st strm
			if dir == 'c' || dir == 'C' {
				d, st = &toS, p.cl
			} else {
				d, st = &toC, p.sv
			}
			snd := func(tag string) func() {
				return func() {
					for i := 0; i < n; i++ {
						_ = d.send(st, fmt.Sprint(tag, i), psrpc.WithTimeout(time.Second))
					}
				}
			}
			fs = append(fs, snd("a"))
			if strings.ToUpper(string(dir)) == string(dir) {
				fs = append(fs, snd("b"))
			}
		}
		Par(fs...)
		w.Faults(0)
		time.Sleep(5 * time.Second)
		_ = p.cl.Close(nil)
		_ = p.sv.Close(nil)
		wg.Wait()
		ordered := strings.ToLower(dirs) == dirs
		for what, d := range map[string]*side{"client to server": &toS, "server to client": &toC} {
			d.judge(x, what, ordered)
			d.failures(w, what)
		}
		w.Close()
	}
}

// p08full: the receiver does not read; sends beyond the buffer fail and are
// dropped, the others are kept, and the stream works again after reading.
func p08full(byClient bool) func(x *mc.X) {
	return func(x *mc.X) {
		w := NewWorld(x)
		size := mc.Pick(x, 1, 1, 2)
		so := []psrpc.ServerOption{psrpc.WithServerChannelSize(size), psrpc.WithServerTimeout(time.Second)}
		co := []psrpc.ClientOption{psrpc.WithClientChannelSize(size)}
		p := openPair(w, "str", so, co)
		if p == nil {
			w.Close()
			return
		}
		var d side
		var from, to strm = p.cl, p.sv
		if !byClient {
			from, to = p.sv, p.cl
		}
		acked := 0
		for i := 0; i < size+2; i++ {
			var err error
			took := Timed(func() { err = d.send(from, fmt.Sprint("m", i), psrpc.WithTimeout(time.Second)) })
			within(x, "send", took, time.Second)
			if x.TimeDevs() == 0 && (err == nil) != (i < size) {
				x.Fail("send %d into a channel of %d: %v", i, size, err)
			}
			if err != nil {
				properErr(x, "send", err)
			}
			if err == nil {
				acked++
			}
			if n := len(to.Channel()); n < acked || x.TimeDevs() == 0 && n > acked {
				x.Fail("%d sends were acknowledged but %d messages are in the channel", acked, n)
			}
		}
		if len(to.Channel()) > 0 {
			m := <-to.Channel()
			d.recv = append(d.recv, m.Value)
		}
		if err := d.send(from, "more", psrpc.WithTimeout(time.Second)); err != nil && x.TimeDevs() == 0 {
			x.Fail("the stream does not recover from a full channel: %v", err)
		}
		_ = from.Close(nil)
		time.Sleep(time.Second)
		_ = to.Close(nil) // should the first have come too late
		d.drain(to)
		d.judge(x, "full", true)
		for range from.Channel() {
		}
		w.Close()
	}
}

func init() {
	one := []mc.Pass{mc.P1, mc.P2}
	deep := []mc.Pass{mc.P2a, mc.P3}
	p12s := []mc.Pass{mc.P1, mc.P2s}
	add(
		mc.Scenario{Name: "P08/client-2m", Passes: one, Deep: deep, Body: p08("str", "c", 2, 0)},
		mc.Scenario{Name: "P08/server-2m", Passes: one, Deep: deep, Body: p08("str", "s", 2, 0)},
		mc.Scenario{Name: "P08/both-2m", Passes: p12s, Deep: deep, Body: p08("str", "cs", 2, 0)},
		mc.Scenario{Name: "P08/client-2senders", Passes: p12s, Deep: deep, Body: p08("str", "C", 1, 0)},
		mc.Scenario{Name: "P08/server-2senders", Passes: p12s, Deep: deep, Body: p08("stra", "S", 1, 0)},
		mc.Scenario{Name: "P08/client-faults", Passes: []mc.Pass{envF, mc.P1}, Deep: deep, Body: p08("str", "c", 3, 2, Lost, Fail, Delay)},
		mc.Scenario{Name: "P08/server-faults", Passes: []mc.Pass{envF, mc.P1}, Deep: deep, Body: p08("str", "s", 3, 2, Lost, Fail, Delay)},
		mc.Scenario{Name: "P08/both-faults", Passes: []mc.Pass{envF}, Deep: deep, Body: p08("strone", "cs", 2, 2, Lost, Fail, Delay)},
		mc.Scenario{Name: "P08/full-server", Passes: []mc.Pass{mc.P1}, Deep: deep, Body: p08full(true)},
		mc.Scenario{Name: "P08/full-client", Passes: []mc.Pass{mc.P1}, Deep: deep, Body: p08full(false)},
		// the buffers of the client are smaller than the number of acknowledgments
		mc.Scenario{Name: "P08/small-buffers", Passes: []mc.Pass{mc.E, mc.P1}, Deep: []mc.Pass{mc.P2}, Body: func(x *mc.X) {
			w := NewWorld(x)
			s := w.Server("A")
			p := &pair{w: w}
			received := make(chan string, 10)
			p.handle(s, "str", func(st serverSt) error {
				for m := range st.Channel() {
					received <- m.Value
				}
				return nil
			})
			c := w.Client("C", psrpc.WithClientChannelSize(mc.Pick(x, 1, 1, 0)))
			st, err := client.OpenStream[*Msg, *Msg](context.Background(), c, "str", nil)
			if err != nil {
				if x.TimeDevs() == 0 {
					x.Fail("open: %v", err)
				}
				w.Close()
				return
			}
			var fs []func()
			for i := 0; i < 3; i++ {
				fs = append(fs, func() {
					if err := st.Send(M(fmt.Sprint(i))); err != nil && x.TimeDevs() == 0 {
						x.Fail("send %d: %v", i, err)
					}
				})
			}
			Par(fs...)
			time.Sleep(time.Second)
			if len(received) != 3 && x.TimeDevs() == 0 {
				x.Fail("%d of 3 messages received", len(received))
			}
			_ = st.Close(nil)
			w.Close()
		}},
		// several streams of several clients on one handler do not mix
		mc.Scenario{Name: "P08/3streams", Passes: p12s, Deep: deep, Body: func(x *mc.X) {
			w := NewWorld(x)
			s := w.Server("A")
			p := &pair{w: w}
			p.handle(s, "str", func(st serverSt) error {
				for m := range st.Channel() {
					if err := st.Send(M("re:" + m.Value)); err != nil {
						return nil
					}
				}
				return nil
			})
			c, d := w.Client("C"), w.Client("D")
			var fs []func()
			for i, cl := range []*client.RPCClient{c, c, d} {
				fs = append(fs, func() {
					st, err := client.OpenStream[*Msg, *Msg](context.Background(), cl, "str", nil)
					if err != nil {
						if x.TimeDevs() == 0 {
							x.Fail("open %d: %v", i, err)
						}
						return
					}
					v := fmt.Sprint("m", i)
					if err := st.Send(M(v)); err != nil && x.TimeDevs() == 0 {
						x.Fail("send %d: %v", i, err)
					}
					n := 0
					t := time.After(5 * time.Second)
				loop:
					for {
						select {
						case m, ok := <-st.Channel():
							if !ok {
								break loop
							}
							if n++; m.Value != "re:"+v || n > 1 {
								x.Fail("stream %d received %q", i, m.Value)
							}
						case <-t:
							break loop
						}
					}
					if n != 1 && x.TimeDevs() == 0 {
						x.Fail("stream %d received %d answers", i, n)
					}
					_ = st.Close(nil)
				})
			}
			Par(fs...)
			w.Close()
		}},
	)
}
