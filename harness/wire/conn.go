// Package wire has scripted Redis and NATS servers for the real client libraries.
package wire

import (
	"net"
	"sync"
	"time"
)

// Conn is the client's end of a connection to a scripted server: what the client
// writes is handled at once, what the server writes is buffered without limit.
type Conn struct {
	mu     sync.Mutex
	cond   *sync.Cond
	buf    []byte
	closed bool
	onData func(c *Conn, b []byte) error
	onEnd  func(c *Conn)
	State  any
}

func newConn(onData func(c *Conn, b []byte) error, onEnd func(c *Conn)) *Conn {
	c := &Conn{onData: onData, onEnd: onEnd}
	c.cond = sync.NewCond(&c.mu)
	return c
}

func (c *Conn) Read(b []byte) (int, error) {
	c.mu.Lock()
	defer c.mu.Unlock()
	for len(c.buf) == 0 {
		if c.closed {
			return 0, net.ErrClosed
		}
		c.cond.Wait()
	}
	n := copy(b, c.buf)
	c.buf = append(c.buf[:0], c.buf[n:]...)
	return n, nil
}

func (c *Conn) Write(b []byte) (int, error) {
	c.mu.Lock()
	closed := c.closed
	c.mu.Unlock()
	if closed {
		return 0, net.ErrClosed
	}
	if err := c.onData(c, b); err != nil {
		return 0, err
	}
	return len(b), nil
}

// send is the server's write.
func (c *Conn) send(s string) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if !c.closed {
		c.buf = append(c.buf, s...)
		c.cond.Broadcast()
	}
}

func (c *Conn) Close() error {
	c.mu.Lock()
	was := c.closed
	c.closed = true
	c.cond.Broadcast()
	c.mu.Unlock()
	if !was && c.onEnd != nil {
		c.onEnd(c)
	}
	return nil
}

type addr struct{}

func (addr) Network() string { return "tcp" }
func (addr) String() string  { return "127.0.0.1:1" }

func (c *Conn) LocalAddr() net.Addr              { return addr{} }
func (c *Conn) RemoteAddr() net.Addr             { return addr{} }
func (c *Conn) SetDeadline(time.Time) error      { return nil }
func (c *Conn) SetReadDeadline(time.Time) error  { return nil }
func (c *Conn) SetWriteDeadline(time.Time) error { return nil }
