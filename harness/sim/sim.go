// Package sim holds what the drivers share.
package sim

import (
	"context"
	"fmt"
	"sort"
	"strings"
	"sync"
	"time"

	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/known/wrapperspb"

	"github.com/livekit/psrpc"
	"github.com/livekit/psrpc/internal/zzverif/mc"
	"github.com/livekit/psrpc/pkg/client"
	"github.com/livekit/psrpc/pkg/info"
	"github.com/livekit/psrpc/pkg/server"
)

// Msg is the request and response type of all drivers.
type Msg = wrapperspb.StringValue

func M(s string) *Msg { return wrapperspb.String(s) }

// Definition returns a service with the method shapes the generator produces.
//
//	single: claim, queue       (default rpc)
//	aff:    claim, affinity
//	one:    no claim, no queue (routed to a single server)
//	multi:  multi
//	str:    stream with claim
//	stra:   stream with affinity
//	sub, subq, subq2: subscriptions
func Definition(id string) *info.ServiceDefinition {
	sd := &info.ServiceDefinition{Name: "svc", ID: id}
	//                name   aff    multi  claim  queue
	sd.RegisterMethod("single", false, false, true, true)
	sd.RegisterMethod("second", false, false, true, true)
	sd.RegisterMethod("aff", true, false, true, false)
	sd.RegisterMethod("claim1", false, false, true, false)
	sd.RegisterMethod("queue", false, false, false, true)
	sd.RegisterMethod("one", false, false, false, false)
	sd.RegisterMethod("multi", false, true, false, false)
	sd.RegisterMethod("multi2", false, true, false, false)
	sd.RegisterMethod("str", false, false, true, false)
	sd.RegisterMethod("stra", true, false, true, false)
	sd.RegisterMethod("strone", false, false, false, false)
	sd.RegisterMethod("sub", false, true, false, false)
	sd.RegisterMethod("subq", false, false, false, true)
	sd.RegisterMethod("subq2", false, false, false, true)
	return sd
}

func NewServer(bus psrpc.MessageBus, id string, opts ...psrpc.ServerOption) *server.RPCServer {
	return server.NewRPCServer(Definition(id), bus, append([]psrpc.ServerOption{psrpc.WithServerID(id)}, opts...)...)
}

func NewClient(bus psrpc.MessageBus, id string, opts ...psrpc.ClientOption) (*client.RPCClient, error) {
	return client.NewRPCClientWithStreams(Definition(id), bus, append([]psrpc.ClientOption{psrpc.WithClientID(id)}, opts...)...)
}

// Log is a concurrency-safe event log.
type Log struct {
	mu  sync.Mutex
	evs []string
	cnt map[string]int
}

func (l *Log) Add(format string, a ...any) {
	if mc.RaceOnly {
		return
	}
	l.mu.Lock()
	defer l.mu.Unlock()
	e := fmt.Sprintf(format, a...)
	l.evs = append(l.evs, e)
	if l.cnt == nil {
		l.cnt = map[string]int{}
	}
	l.cnt[e]++
}

func (l *Log) Count(e string) int {
	l.mu.Lock()
	defer l.mu.Unlock()
	return l.cnt[e]
}

func (l *Log) CountPrefix(p string) (n int) {
	l.mu.Lock()
	defer l.mu.Unlock()
	for _, e := range l.evs {
		if strings.HasPrefix(e, p) {
			n++
		}
	}
	return
}

func (l *Log) All() []string {
	l.mu.Lock()
	defer l.mu.Unlock()
	return append([]string(nil), l.evs...)
}

// Index of the first occurrence of e, or -1.
func (l *Log) Index(e string) int {
	l.mu.Lock()
	defer l.mu.Unlock()
	for i, v := range l.evs {
		if v == e {
			return i
		}
	}
	return -1
}

func (l *Log) String() string {
	return strings.Join(l.All(), ",")
}

// Sorted is an order-insensitive rendering.
func (l *Log) Sorted() string {
	a := l.All()
	sort.Strings(a)
	return strings.Join(a, ",")
}

// Echo is a handler answering "<server>:<request>" and logging its run.
func Echo(log *Log, srv string) func(context.Context, *Msg) (*Msg, error) {
	return func(_ context.Context, m *Msg) (*Msg, error) {
		log.Add("exec %s %s", srv, m.Value)
		return M(srv + ":" + m.Value), nil
	}
}

// ErrString canonicalises an error.
func ErrString(err error) string {
	if err == nil {
		return "ok"
	}
	if e, ok := err.(psrpc.Error); ok {
		return string(e.Code()) + "/" + e.Error()
	}
	return "raw/" + err.Error()
}

// Par runs the functions concurrently and waits for all.
func Par(fs ...func()) {
	var wg sync.WaitGroup
	for _, f := range fs {
		wg.Add(1)
		go func() {
			defer wg.Done()
			f()
		}()
	}
	wg.Wait()
}

func Sleep(d time.Duration) { time.Sleep(d) }

var _ proto.Message = (*Msg)(nil)

// Counter is a counter that the race detector does not see.
type Counter struct{ n int }

//go:norace
func (c *Counter) Inc() { c.n++ }

//go:norace
func (c *Counter) Dec() { c.n-- }

//go:norace
func (c *Counter) Get() int { return c.n }
