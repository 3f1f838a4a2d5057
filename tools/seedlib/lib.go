package main

import (
	"context"
	"fmt"
	"os"
	"time"

	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/known/wrapperspb"

	"github.com/livekit/psrpc"
	"github.com/livekit/psrpc/internal/bus"
	"github.com/livekit/psrpc/pkg/client"
	"github.com/livekit/psrpc/pkg/info"
	"github.com/livekit/psrpc/pkg/server"
)

type Str = wrapperspb.StringValue

func str(s string) *Str { return wrapperspb.String(s) }

// hookBus calls on for every message to publish.
type hookBus struct {
	bus.MessageBus
	on func(ch bus.Channel, msg proto.Message, publish func() error) error
}

func (h *hookBus) Publish(ctx context.Context, ch bus.Channel, msg proto.Message) error {
	publish := func() error { return h.MessageBus.Publish(ctx, ch, msg) }
	if h.on == nil {
		return publish()
	}
	return h.on(ch, msg, publish)
}

// sd has the methods claim, queue, direct, multi, affinity and stream.
func sd() *info.ServiceDefinition {
	s := &info.ServiceDefinition{Name: "Svc", ID: fmt.Sprintf("ID_%d", time.Now().UnixNano())}
	s.RegisterMethod("claim", false, false, true, false)
	s.RegisterMethod("affinity", true, false, true, false)
	s.RegisterMethod("queue", false, false, false, true)
	s.RegisterMethod("direct", false, false, false, false)
	s.RegisterMethod("multi", false, true, false, false)
	s.RegisterMethod("stream", false, false, true, false)
	return s
}

func newServer(b bus.MessageBus, opts ...psrpc.ServerOption) *server.RPCServer {
	return server.NewRPCServer(sd(), b, opts...)
}

func newClient(b bus.MessageBus, opts ...psrpc.ClientOption) *client.RPCClient {
	c, err := client.NewRPCClientWithStreams(sd(), b, opts...)
	must(err)
	return c
}

func must(err error) {
	if err != nil {
		fail("unexpected error: %v", err)
	}
}

func fail(format string, a ...any) {
	fmt.Printf("FAIL: "+format+"\n", a...)
	os.Exit(1)
}

func expect(ok bool, format string, a ...any) {
	if !ok {
		fail(format, a...)
	}
}

// within fails unless f returns in time.
func within(d time.Duration, what string, f func()) {
	done := make(chan struct{})
	go func() { defer close(done); f() }()
	select {
	case <-done:
	case <-time.After(d):
		fail("%s did not return within %v", what, d)
	}
}

var bg = context.Background()

func main() {
	go func() {
		time.Sleep(150 * time.Second)
		fail("the demonstration hangs")
	}()
	demo()
	fmt.Println("ok")
}
