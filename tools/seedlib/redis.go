package main

import (
	"bufio"
	"context"
	"fmt"
	"io"
	"net"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/redis/go-redis/v9"
)

// fakeRedis is a minimal Redis server.
type fakeRedis struct {
	mu    sync.Mutex
	conns map[*redisConn]bool
	keys  map[string]time.Time
	on    func(c *redisConn, args []string) // called before a command, without the lock
	after func(c *redisConn, args []string) // called after it, before its reply
}

type redisConn struct {
	net.Conn
	wmu  sync.Mutex
	subs map[string]bool
}

func (c *redisConn) send(s string) {
	c.wmu.Lock()
	defer c.wmu.Unlock()
	_, _ = io.WriteString(c.Conn, s)
}

func newFakeRedis() *fakeRedis {
	return &fakeRedis{conns: map[*redisConn]bool{}, keys: map[string]time.Time{}}
}

func (f *fakeRedis) client() redis.UniversalClient {
	return redis.NewClient(&redis.Options{Addr: "127.0.0.1:1", Protocol: 2, DisableIdentity: true, MaxRetries: -1,
		Dialer: func(context.Context, string, string) (net.Conn, error) {
			a, b := pipe()
			c := &redisConn{Conn: b, subs: map[string]bool{}}
			f.mu.Lock()
			f.conns[c] = true
			f.mu.Unlock()
			go f.serve(c)
			return a, nil
		}})
}

// pipe is a connection over loopback.
func pipe() (net.Conn, net.Conn) {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	must(err)
	defer l.Close()
	a, err := net.Dial("tcp", l.Addr().String())
	must(err)
	b, err := l.Accept()
	must(err)
	return a, b
}

func (f *fakeRedis) subscribed(ch string) (n int) {
	f.mu.Lock()
	defer f.mu.Unlock()
	for c := range f.conns {
		if c.subs[ch] {
			n++
		}
	}
	return
}

// drop closes the connections which are subscribed to channels (or the others).
func (f *fakeRedis) drop(subscribed bool) {
	f.mu.Lock()
	defer f.mu.Unlock()
	for c := range f.conns {
		if (len(c.subs) > 0) == subscribed {
			_ = c.Close()
			delete(f.conns, c)
		}
	}
}

func (f *fakeRedis) serve(c *redisConn) {
	defer func() {
		_ = c.Close()
		f.mu.Lock()
		delete(f.conns, c)
		f.mu.Unlock()
	}()
	r := bufio.NewReader(c)
	line := func() string {
		s, err := r.ReadString('\n')
		if err != nil {
			return ""
		}
		return strings.TrimSpace(s)
	}
	for {
		l := line()
		if !strings.HasPrefix(l, "*") {
			return
		}
		n, _ := strconv.Atoi(l[1:])
		var args []string
		for i := 0; i < n; i++ {
			size, _ := strconv.Atoi(strings.TrimPrefix(line(), "$"))
			b := make([]byte, size+2)
			if _, err := io.ReadFull(r, b); err != nil {
				return
			}
			args = append(args, string(b[:size]))
		}
		if f.on != nil {
			f.on(c, args)
		}
		reply := f.run(c, args)
		if f.after != nil {
			f.after(c, args)
		}
		c.send(reply)
	}
}

func (f *fakeRedis) run(c *redisConn, args []string) string {
	f.mu.Lock()
	defer f.mu.Unlock()
	bulk := func(s string) string { return fmt.Sprintf("$%d\r\n%s\r\n", len(s), s) }
	switch name := strings.ToLower(args[0]); name {
	case "subscribe", "unsubscribe":
		r := ""
		for _, ch := range args[1:] {
			if name == "subscribe" {
				c.subs[ch] = true
			} else {
				delete(c.subs, ch)
			}
			r += "*3\r\n" + bulk(name) + bulk(ch) + fmt.Sprintf(":%d\r\n", len(c.subs))
		}
		return r
	case "publish":
		n := 0
		for o := range f.conns {
			if o.subs[args[1]] {
				n++
				o.send("*3\r\n" + bulk("message") + bulk(args[1]) + bulk(args[2]))
			}
		}
		return fmt.Sprintf(":%d\r\n", n)
	case "set": // key value ex seconds nx
		if time.Now().Before(f.keys[args[1]]) {
			return "$-1\r\n"
		}
		f.keys[args[1]] = time.Now().Add(5 * time.Second)
		return "+OK\r\n"
	case "ping":
		if len(c.subs) > 0 {
			return "*2\r\n" + bulk("pong") + bulk("")
		}
		return "+PONG\r\n"
	case "setnx":
		return ":1\r\n"
	}
	return "-ERR unknown command '" + args[0] + "'\r\n"
}

// eventually waits for f to become true.
func eventually(what string, f func() bool) {
	for end := time.Now().Add(5 * time.Second); !f(); time.Sleep(5 * time.Millisecond) {
		if time.Now().After(end) {
			fail("%s: not within 5 s", what)
		}
	}
}
