package wire

import (
	"context"
	"errors"
	"fmt"
	"net"
	"slices"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/redis/go-redis/v9"
	"github.com/redis/go-redis/v9/maintnotifications"

	"github.com/livekit/psrpc"
	"github.com/livekit/psrpc/internal/bus"
	"github.com/livekit/psrpc/internal/zzverif/mc"
)

// RedisServer is a scripted Redis server.
type RedisServer struct {
	X       *mc.X
	Mu      sync.Mutex
	Conns   []*Conn
	Keys    map[string]time.Time
	clients []*redis.Client
	changed *sync.Cond
	closed  bool
	locks   int
	// Fault is asked before every command and answers how to fail it, if set.
	Fault func(st *RedisState, cmd []string) string
	// Dial is asked before every new connection.
	Dial func(proc int) error
}

type RedisState struct {
	Proc int
	in   []byte
	Subs []string
	dead bool
}

var ErrConn = errors.New("connection reset")

func (s *RedisServer) connect(proc int) (net.Conn, error) {
	s.Mu.Lock()
	defer s.Mu.Unlock()
	if s.Dial != nil {
		if err := s.Dial(proc); err != nil {
			return nil, err
		}
	}
	c := newConn(s.data, s.end)
	c.State = &RedisState{Proc: proc}
	s.Conns = append(s.Conns, c)
	return c, nil
}

// end: the client closed the connection.
func (s *RedisServer) end(c *Conn) {
	s.Mu.Lock()
	defer s.Mu.Unlock()
	st := c.State.(*RedisState)
	st.dead, st.Subs = true, nil
}

// Drop: the server side closes the connection.
func (s *RedisServer) Drop(c *Conn) {
	st := c.State.(*RedisState)
	st.dead, st.Subs = true, nil
	c.mu.Lock()
	c.closed = true
	c.cond.Broadcast()
	c.mu.Unlock()
}

// parse takes a command off the input.
func (st *RedisState) parse() ([]string, bool) {
	in := string(st.in)
	line := func() (string, bool) {
		i := strings.Index(in, "\r\n")
		if i < 0 {
			return "", false
		}
		l := in[:i]
		in = in[i+2:]
		return l, true
	}
	l, ok := line()
	if !ok {
		return nil, false
	}
	n, err := strconv.Atoi(l[1:])
	if err != nil || l[0] != '*' {
		panic("redis protocol: " + l)
	}
	var cmd []string
	for ; n > 0; n-- {
		l, ok := line()
		if !ok {
			return nil, false
		}
		k, err := strconv.Atoi(l[1:])
		if err != nil {
			panic("redis protocol: " + l)
		}
		if len(in) < k+2 {
			return nil, false
		}
		cmd = append(cmd, in[:k])
		in = in[k+2:]
	}
	st.in = append([]byte(nil), in...)
	return cmd, true
}

func bulk(s string) string { return fmt.Sprintf("$%d\r\n%s\r\n", len(s), s) }

func (s *RedisServer) data(c *Conn, b []byte) error {
	s.Mu.Lock()
	defer s.Mu.Unlock()
	st := c.State.(*RedisState)
	st.in = append(st.in, b...)
	for !st.dead {
		cmd, ok := st.parse()
		if !ok {
			return nil
		}
		name := strings.ToLower(cmd[0])
		if s.Fault != nil {
			switch s.Fault(st, cmd) {
			case "write": // the command does not reach the server
				s.Drop(c)
				return ErrConn
			case "lost": // it does not reach the server, which is noticed later
				s.Drop(c)
				return nil
			case "error": // the server answers with an error
				c.send("-ERR failed\r\n")
				continue
			case "reply": // it does but the reply does not arrive
				s.run(c, st, name, cmd[1:], func(string) {})
				s.Drop(c)
				return nil
			}
		}
		s.run(c, st, name, cmd[1:], c.send)
	}
	return nil
}

func (s *RedisServer) run(c *Conn, st *RedisState, name string, args []string, reply func(string)) {
	switch name {
	case "hello":
		reply("-ERR unknown command 'HELLO'\r\n")
	case "client":
		reply("+OK\r\n")
	case "ping":
		if len(st.Subs) > 0 {
			reply("*2\r\n" + bulk("pong") + bulk(""))
		} else {
			reply("+PONG\r\n")
		}
	case "subscribe":
		for _, ch := range args {
			st.Subs = append(del(st.Subs, ch), ch)
			s.changed.Broadcast()
			reply("*3\r\n" + bulk("subscribe") + bulk(ch) + fmt.Sprintf(":%d\r\n", len(st.Subs)))
		}
	case "unsubscribe":
		for _, ch := range args {
			st.Subs = del(st.Subs, ch)
			reply("*3\r\n" + bulk("unsubscribe") + bulk(ch) + fmt.Sprintf(":%d\r\n", len(st.Subs)))
		}
	case "publish":
		n := 0
		for _, o := range s.Conns {
			for _, ch := range o.State.(*RedisState).Subs {
				if ch == args[0] {
					n++
					o.send("*3\r\n" + bulk("message") + bulk(ch) + bulk(args[1]))
				}
			}
		}
		reply(fmt.Sprintf(":%d\r\n", n))
	case "setnx", "set":
		s.locks++
		nx := name == "setnx"
		var ttl time.Duration
		for i := 2; i < len(args); i++ {
			switch strings.ToLower(args[i]) {
			case "nx":
				nx = true
			case "ex":
				v, _ := strconv.Atoi(args[i+1])
				ttl = time.Duration(v) * time.Second
			case "px":
				v, _ := strconv.Atoi(args[i+1])
				ttl = time.Duration(v) * time.Millisecond
			}
		}
		if t, ok := s.Keys[args[0]]; ok && nx && (t.IsZero() || time.Now().Before(t)) {
			if name == "setnx" {
				reply(":0\r\n")
			} else {
				reply("$-1\r\n")
			}
			return
		}
		s.Keys[args[0]] = time.Time{}
		if ttl > 0 {
			s.Keys[args[0]] = time.Now().Add(ttl)
		}
		if name == "setnx" {
			reply(":1\r\n")
		} else {
			reply("+OK\r\n")
		}
	default:
		panic("unknown Redis command: " + name)
	}
}

func del(l []string, v string) (r []string) {
	for _, o := range l {
		if o != v {
			r = append(r, o)
		}
	}
	return
}

type noLog struct{}

func (noLog) Printf(context.Context, string, ...any) {}

func init() { redis.SetLogger(noLog{}) }

// NewRedis is a server with procs processes that have a client each.
func NewRedis(x *mc.X, procs int) (*RedisServer, []psrpc.MessageBus, func()) {
	s := &RedisServer{X: x, Keys: map[string]time.Time{}}
	s.changed = sync.NewCond(&s.Mu)
	var buses []psrpc.MessageBus
	for i := 0; i < procs; i++ {
		buses = append(buses, s.Proc())
	}
	return s, buses, s.Close
}

// Proc is the bus of another process.
func (s *RedisServer) Proc() psrpc.MessageBus {
	s.Mu.Lock()
	i := len(s.clients)
	rc := redis.NewClient(&redis.Options{
		Addr:     "127.0.0.1:6379",
		Dialer:   func(context.Context, string, string) (net.Conn, error) { return s.connect(i) },
		Protocol: 2, DisableIdentity: true, PoolSize: 4,
		MaintNotificationsConfig: &maintnotifications.Config{Mode: maintnotifications.ModeDisabled},
	})
	s.clients = append(s.clients, rc)
	s.Mu.Unlock()
	return psrpc.NewRedisMessageBus(rc)
}

// Sync is the bus of another process, whose subscriptions are effective at the
// server when they return.
func (s *RedisServer) Sync() psrpc.MessageBus {
	b := s.Proc()
	s.Mu.Lock()
	defer s.Mu.Unlock()
	i := len(s.clients) - 1
	return &syncBus{b, func(ch bus.Channel) {
		s.Mu.Lock()
		defer s.Mu.Unlock()
		for !s.subscribed(i, ch.Legacy) {
			s.changed.Wait()
		}
	}}
}

func (s *RedisServer) subscribed(proc int, ch string) bool {
	if s.closed {
		return true
	}
	for _, c := range s.Conns {
		if st := c.State.(*RedisState); st.Proc == proc && slices.Contains(st.Subs, ch) {
			return true
		}
	}
	return false
}

// Close closes the clients.
func (s *RedisServer) Close() {
	s.Mu.Lock()
	l := s.clients
	s.closed = true
	s.changed.Broadcast()
	s.Mu.Unlock()
	for _, rc := range l {
		_ = rc.Close()
	}
}

// Subjects is the sorted list of process:channel subscribed at the server.
func (s *RedisServer) Subjects() string {
	s.Mu.Lock()
	defer s.Mu.Unlock()
	set := map[string]bool{}
	for _, c := range s.Conns {
		st := c.State.(*RedisState)
		for _, ch := range st.Subs {
			set[fmt.Sprintf("%d:%s", st.Proc, ch)] = true
		}
	}
	return Keys(set)
}
