package main

import (
	"bufio"
	"fmt"
	"io"
	"net"
	"strconv"
	"strings"
	"sync"

	"github.com/nats-io/nats.go"
)

// fakeNats is a minimal NATS server.
type fakeNats struct {
	mu    sync.Mutex
	conns map[*natsConn]bool
}

type natsConn struct {
	net.Conn
	wmu  sync.Mutex
	subs map[string][2]string // sid -> subject, queue
}

func (c *natsConn) send(s string) {
	c.wmu.Lock()
	defer c.wmu.Unlock()
	_, _ = io.WriteString(c.Conn, s)
}

func (f *fakeNats) InProcessConn() (net.Conn, error) {
	a, b := net.Pipe()
	c := &natsConn{Conn: b, subs: map[string][2]string{}}
	f.mu.Lock()
	if f.conns == nil {
		f.conns = map[*natsConn]bool{}
	}
	f.conns[c] = true
	f.mu.Unlock()
	go f.serve(c)
	return a, nil
}

func (f *fakeNats) connect() *nats.Conn {
	nc, err := nats.Connect("nats://127.0.0.1:1", nats.InProcessServer(f))
	must(err)
	return nc
}

// subjects lists the subscriptions the server has.
func (f *fakeNats) subjects() (l []string) {
	f.mu.Lock()
	defer f.mu.Unlock()
	for c := range f.conns {
		for _, s := range c.subs {
			l = append(l, s[0])
		}
	}
	return
}

func (f *fakeNats) serve(c *natsConn) {
	c.send(`INFO {"server_id":"x","version":"2.10.0","proto":1,"max_payload":1048576,"headers":true}` + "\r\n")
	r := bufio.NewReader(c)
	for {
		l, err := r.ReadString('\n')
		if err != nil {
			return
		}
		a := strings.Fields(l)
		if len(a) == 0 {
			continue
		}
		switch strings.ToUpper(a[0]) {
		case "PING":
			c.send("PONG\r\n")
		case "SUB":
			f.mu.Lock()
			if len(a) == 4 {
				c.subs[a[3]] = [2]string{a[1], a[2]}
			} else {
				c.subs[a[2]] = [2]string{a[1], ""}
			}
			f.mu.Unlock()
		case "UNSUB":
			f.mu.Lock()
			delete(c.subs, a[1])
			f.mu.Unlock()
		case "PUB":
			n, _ := strconv.Atoi(a[len(a)-1])
			b := make([]byte, n+2)
			if _, err := io.ReadFull(r, b); err != nil {
				return
			}
			type to struct {
				c   *natsConn
				sid string
			}
			var tos []to
			queues := map[string]bool{}
			f.mu.Lock()
			for o := range f.conns {
				for sid, s := range o.subs {
					if s[0] != a[1] || s[1] != "" && queues[s[1]] {
						continue
					}
					queues[s[1]] = true
					tos = append(tos, to{o, sid})
				}
			}
			f.mu.Unlock()
			for _, t := range tos {
				t.c.send(fmt.Sprintf("MSG %s %s %d\r\n%s", a[1], t.sid, n, b))
			}
		}
	}
}
