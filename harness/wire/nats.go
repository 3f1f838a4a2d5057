package wire

import (
	"context"
	"fmt"
	"net"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/nats-io/nats.go"

	"github.com/livekit/psrpc"
	"github.com/livekit/psrpc/internal/bus"
	"github.com/livekit/psrpc/internal/zzverif/mc"
)

// NatsServer is a scripted NATS server.
type NatsServer struct {
	X     *mc.X
	Mu    sync.Mutex
	Conns []*Conn
	// LastQueue is the process that got the last message for a queue group.
	LastQueue int
	clients   []*nats.Conn
}

type natsSub struct{ subject, queue, sid string }

type NatsState struct {
	Proc int
	in   []byte
	Subs []*natsSub
}

func (s *NatsServer) InProcessConn() (net.Conn, error) {
	s.Mu.Lock()
	defer s.Mu.Unlock()
	c := newConn(s.data, nil)
	c.State = &NatsState{Proc: len(s.Conns)}
	s.Conns = append(s.Conns, c)
	c.send(`INFO {"server_id":"S","version":"2.10.0","proto":1,"headers":true,"max_payload":1048576}` + "\r\n")
	return c, nil
}

func (s *NatsServer) data(c *Conn, b []byte) error {
	s.Mu.Lock()
	defer s.Mu.Unlock()
	st := c.State.(*NatsState)
	st.in = append(st.in, b...)
	for {
		i := strings.Index(string(st.in), "\r\n")
		if i < 0 {
			return nil
		}
		line := string(st.in[:i])
		f := strings.Fields(line)
		rest := st.in[i+2:]
		switch strings.ToUpper(f[0]) {
		case "CONNECT", "PONG":
		case "PING":
			c.send("PONG\r\n")
		case "SUB":
			sub := &natsSub{subject: f[1], sid: f[len(f)-1]}
			if len(f) == 4 {
				sub.queue = f[2]
			}
			st.Subs = append(st.Subs, sub)
		case "UNSUB":
			for j, sub := range st.Subs {
				if sub.sid == f[1] {
					st.Subs = append(st.Subs[:j:j], st.Subs[j+1:]...)
					break
				}
			}
		case "PUB":
			n, err := strconv.Atoi(f[len(f)-1])
			if err != nil {
				panic(line)
			}
			if len(rest) < n+2 {
				return nil
			}
			s.route(f[1], string(rest[:n]))
			rest = rest[n+2:]
		default:
			panic("unknown NATS command: " + line)
		}
		st.in = append([]byte(nil), rest...)
	}
}

func (s *NatsServer) route(subject, payload string) {
	type target struct {
		c   *Conn
		sub *natsSub
	}
	var plain []target
	groups := map[string][]target{}
	var names []string
	for _, c := range s.Conns {
		for _, sub := range c.State.(*NatsState).Subs {
			if sub.subject != subject {
				continue
			}
			if sub.queue == "" {
				plain = append(plain, target{c, sub})
				continue
			}
			if groups[sub.queue] == nil {
				names = append(names, sub.queue)
			}
			groups[sub.queue] = append(groups[sub.queue], target{c, sub})
		}
	}
	for _, n := range names {
		g := groups[n]
		t := g[0]
		if len(g) > 1 {
			t = g[s.X.Choice(len(g), 2)]
		}
		s.LastQueue = t.c.State.(*NatsState).Proc
		plain = append(plain, t)
	}
	for _, t := range plain {
		t.c.send(fmt.Sprintf("MSG %s %s %d\r\n%s\r\n", subject, t.sub.sid, len(payload), payload))
	}
}

// NewNats is a server with procs processes that have a connection each.
func NewNats(x *mc.X, procs int) (*NatsServer, []psrpc.MessageBus, func()) {
	s := &NatsServer{X: x}
	var buses []psrpc.MessageBus
	for i := 0; i < procs; i++ {
		buses = append(buses, s.Proc())
	}
	return s, buses, s.Close
}

// Proc is the bus of another process.
func (s *NatsServer) Proc() psrpc.MessageBus {
	nc, err := nats.Connect("nats://127.0.0.1:4222", nats.InProcessServer(s), nats.NoReconnect(),
		nats.PingInterval(1000*time.Hour))
	if err != nil {
		s.X.Fail("connect: %v", err)
		panic(err)
	}
	s.Mu.Lock()
	s.clients = append(s.clients, nc)
	s.Mu.Unlock()
	return psrpc.NewNatsMessageBus(nc)
}

// Sync is the bus of another process, whose subscriptions are effective at the
// server when they return.
func (s *NatsServer) Sync() psrpc.MessageBus {
	b := s.Proc()
	s.Mu.Lock()
	defer s.Mu.Unlock()
	nc := s.clients[len(s.clients)-1]
	return &syncBus{b, func(bus.Channel) { _ = nc.Flush() }}
}

type syncBus struct {
	psrpc.MessageBus
	wait func(ch bus.Channel)
}

func (b *syncBus) Subscribe(ctx context.Context, ch bus.Channel, size int) (bus.Reader, error) {
	r, err := b.MessageBus.Subscribe(ctx, ch, size)
	if err == nil {
		b.wait(ch)
	}
	return r, err
}

func (b *syncBus) SubscribeQueue(ctx context.Context, ch bus.Channel, size int) (bus.Reader, error) {
	r, err := b.MessageBus.SubscribeQueue(ctx, ch, size)
	if err == nil {
		b.wait(ch)
	}
	return r, err
}

// Close closes the connections.
func (s *NatsServer) Close() {
	s.Mu.Lock()
	l := s.clients
	s.Mu.Unlock()
	for _, nc := range l {
		nc.Close()
	}
}

// Subjects is the sorted list of process:subject subscribed at the server.
func (s *NatsServer) Subjects() string {
	s.Mu.Lock()
	defer s.Mu.Unlock()
	set := map[string]bool{}
	for _, c := range s.Conns {
		st := c.State.(*NatsState)
		for _, sub := range st.Subs {
			set[fmt.Sprintf("%d:%s", st.Proc, sub.subject)] = true
		}
	}
	return Keys(set)
}

// Keys is the sorted list of keys.
func Keys(m map[string]bool) string {
	var l []string
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	return strings.Join(l, " ")
}
