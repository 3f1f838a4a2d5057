package sim

import (
	"context"
	"errors"
	"strings"
	"sync"
	"time"

	"google.golang.org/protobuf/proto"

	"github.com/livekit/psrpc"
	"github.com/livekit/psrpc/internal/bus"
	"github.com/livekit/psrpc/internal/zzverif/mc"
	"github.com/livekit/psrpc/internal/zzverif/wire"
	"github.com/livekit/psrpc/pkg/client"
	"github.com/livekit/psrpc/pkg/server"
)

// Fault kinds.
const (
	Lost  = "lost"
	Fail  = "fail"
	Dup   = "dup"
	Delay = "delay"
)

var ErrBus = errors.New("bus failure")

// World is a local bus with enumerated faults, servers and clients.
type World struct {
	X    *mc.X
	Bus  psrpc.MessageBus
	Raw  psrpc.MessageBus
	Log  *Log
	Info map[string]int

	mu       sync.Mutex
	kinds    []string
	max      int
	n        int // faults so far
	pubs     int
	DelayBy  time.Duration
	delayNth int
	OnPub    func(ch bus.Channel, msg proto.Message, publish func() error) error // wraps publishes, if set
	FailSubs int                                                                 // the n-th subscribe from now on fails (1-based), 0: none
	subs     int
	calm     int
	net      network
	shared   bool
	readers  []*countReader

	Servers []*server.RPCServer
	Clients []*client.RPCClient

	Wrap func(id string, b psrpc.MessageBus) psrpc.MessageBus // the bus of a server or client, if set
}

// Backend is the bus of the worlds: "" is the local one, "nats" and "redis" the real
// clients of scripted servers, each server and client of the world being a process of
// its own; with a "+" they all share one process.
var Backend string

// network is what connects the processes of a world.
type network interface {
	Sync() psrpc.MessageBus
	Close()
	Subjects() string
}

func NewWorld(x *mc.X) *World {
	w := &World{X: x, Log: &Log{}, DelayBy: 1500 * time.Millisecond}
	switch strings.TrimSuffix(Backend, "+") {
	case "nats":
		w.net, _, _ = wire.NewNats(x, 0)
	case "redis":
		w.net, _, _ = wire.NewRedis(x, 0)
	}
	w.shared = strings.HasSuffix(Backend, "+")
	if w.net == nil {
		w.Raw = psrpc.NewLocalMessageBus()
	} else {
		w.Raw = w.net.Sync()
	}
	w.Bus = &faultBus{w.Raw, w}
	// the virtual clock starts at a whole second: nothing should depend on that
	time.Sleep(123456789)
	return w
}

// Proc is the bus of a new process.
func (w *World) Proc(id string) psrpc.MessageBus {
	if b := w.proc(); w.Wrap == nil {
		return b
	} else {
		return w.Wrap(id, b)
	}
}

func (w *World) proc() psrpc.MessageBus {
	if w.net == nil || w.shared {
		return w.Bus
	}
	return &faultBus{w.net.Sync(), w}
}

// Disconnect ends the processes of the world.
func (w *World) Disconnect() {
	if w.net != nil {
		w.net.Close()
	}
}

// Faults lets the explorer inject up to max faults of the given kinds into the
// publishes from now on.
func (w *World) Faults(max int, kinds ...string) {
	w.mu.Lock()
	defer w.mu.Unlock()
	w.kinds, w.max = kinds, w.n+max
}

// DelayNth delays the n-th publish from now on by DelayBy.
func (w *World) DelayNth(n int) {
	w.mu.Lock()
	defer w.mu.Unlock()
	w.delayNth = n
}

// Injected is the number of faults so far.
func (w *World) Injected() int {
	w.mu.Lock()
	defer w.mu.Unlock()
	return w.n
}

// Publishes counts publishes so far.
func (w *World) Publishes() int {
	w.mu.Lock()
	defer w.mu.Unlock()
	return w.pubs
}

// faultless has no effect on the race detector.
//
//go:norace
func (w *World) faultless() bool {
	return len(w.kinds) == 0 && w.delayNth == 0 && w.FailSubs == 0 && w.OnPub == nil
}

type faultBus struct {
	psrpc.MessageBus
	w *World
}

func (b *faultBus) Publish(ctx context.Context, ch bus.Channel, msg proto.Message) error {
	w := b.w
	if mc.RaceOnly && w.faultless() {
		return b.MessageBus.Publish(ctx, ch, msg)
	}
	if w.OnPub != nil {
		return w.OnPub(ch, msg, func() error { return b.publish(ctx, ch, msg) })
	}
	return b.publish(ctx, ch, msg)
}

func (b *faultBus) publish(ctx context.Context, ch bus.Channel, msg proto.Message) error {
	w := b.w
	w.mu.Lock()
	w.pubs++
	kind := ""
	if w.n < w.max {
		if k := w.X.Choice(len(w.kinds)+1, 7000); k > 0 {
			kind = w.kinds[k-1]
			w.n++
		}
	}
	if w.delayNth > 0 {
		if w.delayNth--; w.delayNth == 0 {
			kind = Delay
		}
	}
	d := w.DelayBy
	w.mu.Unlock()
	switch kind {
	case Lost:
		return nil
	case Fail:
		return ErrBus
	case Dup:
		if err := b.MessageBus.Publish(ctx, ch, msg); err != nil {
			return err
		}
	case Delay:
		msg = proto.Clone(msg)
		go func() {
			time.Sleep(d)
			_ = b.MessageBus.Publish(context.Background(), ch, msg)
		}()
		return nil
	}
	return b.MessageBus.Publish(ctx, ch, msg)
}

func (b *faultBus) sub() error {
	w := b.w
	w.mu.Lock()
	defer w.mu.Unlock()
	w.subs++
	if w.FailSubs > 0 {
		if w.FailSubs--; w.FailSubs == 0 {
			return ErrBus
		}
	}
	return nil
}

func (b *faultBus) Subscribe(ctx context.Context, ch bus.Channel, size int) (bus.Reader, error) {
	if mc.RaceOnly && b.w.faultless() {
		return b.MessageBus.Subscribe(ctx, ch, size)
	}
	if err := b.sub(); err != nil {
		return nil, err
	}
	return b.count(b.MessageBus.Subscribe(ctx, ch, size))
}

func (b *faultBus) SubscribeQueue(ctx context.Context, ch bus.Channel, size int) (bus.Reader, error) {
	if mc.RaceOnly && b.w.faultless() {
		return b.MessageBus.SubscribeQueue(ctx, ch, size)
	}
	if err := b.sub(); err != nil {
		return nil, err
	}
	return b.count(b.MessageBus.SubscribeQueue(ctx, ch, size))
}

// countReader counts the open bus subscriptions.
type countReader struct {
	bus.Reader
	w      *World
	closed bool
}

func (b *faultBus) count(r bus.Reader, err error) (bus.Reader, error) {
	if err != nil {
		return nil, err
	}
	c := &countReader{r, b.w, false}
	b.w.mu.Lock()
	defer b.w.mu.Unlock()
	b.w.readers = append(b.w.readers, c)
	return c, nil
}

func (c *countReader) Close() error {
	c.w.mu.Lock()
	was := c.closed
	c.closed = true
	c.w.mu.Unlock()
	if was {
		return nil
	}
	return c.Reader.Close()
}

// Open is the number of open bus subscriptions.
func (w *World) Open() (n int) {
	w.mu.Lock()
	defer w.mu.Unlock()
	for _, r := range w.readers {
		if !r.closed {
			n++
		}
	}
	return
}

// Subs is the number of subscriptions made.
func (w *World) Subs() int {
	w.mu.Lock()
	defer w.mu.Unlock()
	return w.subs
}

// EndSub ends the i-th subscription from the bus's side.
func (w *World) EndSub(i int) {
	w.mu.Lock()
	var r *countReader
	if i < len(w.readers) {
		r = w.readers[i]
	}
	w.mu.Unlock()
	if r == nil { // not counted in race mode
		return
	}
	_ = r.Close()
}

func (w *World) Server(id string, opts ...psrpc.ServerOption) *server.RPCServer {
	s := NewServer(w.Proc(id), id, opts...)
	w.Servers = append(w.Servers, s)
	return s
}

func (w *World) Client(id string, opts ...psrpc.ClientOption) *client.RPCClient {
	c, err := NewClient(w.Proc(id), id, opts...)
	if err != nil {
		w.X.Fail("cannot create client %s: %v", id, err)
		panic(err)
	}
	w.Clients = append(w.Clients, c)
	return c
}

type Handler = func(context.Context, *Msg) (*Msg, error)

func (w *World) Handle(s *server.RPCServer, rpc string, topic []string, h Handler, aff server.AffinityFunc[*Msg]) {
	if err := server.RegisterHandler(s, rpc, topic, h, aff); err != nil {
		w.X.Fail("register %s %v: %v", rpc, topic, err)
	}
}

// Echo registers an echo handler "<server>/<rpc>/<payload>" which logs
// "exec <server>/<rpc>/<payload>".
func (w *World) Echo(s *server.RPCServer, id, rpc string, topic []string) {
	w.Handle(s, rpc, topic, w.EchoFn(id, rpc), nil)
}

func (w *World) EchoFn(id, rpc string) Handler {
	return func(_ context.Context, m *Msg) (*Msg, error) {
		w.Log.Add("exec %s/%s/%s", id, rpc, m.Value)
		return M(id + "/" + rpc + "/" + m.Value), nil
	}
}

func Call(ctx context.Context, c *client.RPCClient, rpc string, topic []string, req string, opts ...psrpc.RequestOption) (string, error) {
	res, err := client.RequestSingle[*Msg](ctx, c, rpc, topic, M(req), opts...)
	if err != nil {
		return "", err
	}
	if res == nil {
		return "<nil>", nil
	}
	return res.Value, nil
}

// Quiesce lets everything settle, all timeouts included.
func (w *World) Quiesce() {
	Settle(w.X, 30*time.Second)
	w.calm = w.X.TimeDevs()
}

// Settle lets time pass, d at a time and twice at least, until no step was delayed
// past the last of these: what was delayed past the one before goes on after it.
func Settle(x *mc.X, d time.Duration) {
	for i := 0; ; i++ {
		devs := x.TimeDevs()
		time.Sleep(d)
		x.Idle()
		if i > 0 && x.TimeDevs() == devs {
			return
		}
	}
}

// Calm reports whether no execution step has been delayed in time since the last
// Quiesce (or the start).
func (w *World) Calm() bool { return w.X.TimeDevs() == w.calm }

// Close closes everything and lets it settle.
func (w *World) Close() {
	for _, c := range w.Clients {
		c.Close()
	}
	for _, s := range w.Servers {
		s.Close(true)
	}
	w.Quiesce()
	w.Disconnect()
}

// Timed runs f and returns how much time it took.
func Timed(f func()) time.Duration {
	t := time.Now()
	f()
	return time.Since(t)
}

// Idle waits until nothing moves without time advancing.
func (w *World) Idle() { w.X.Idle() }
