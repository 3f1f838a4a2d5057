import re
exec(open(__file__.replace("s2.py", "s1.py") if "__file__" in globals() else "tools/seedsrc/s1.py").read().split('seed("p01')[0])
SEEDS.clear()
BUS = P + "/internal/bus"
OPT = P + "/protoc-gen-psrpc/options"

# --- P14: Redis ---

RECON_OLD = """		maps.Clear(r.dirtyChannels)
		r.mu.Unlock()

		var subscribeErr"""
seed("p14-marked-while-reconciling", "P14", [("internal/bus/bus_redis.go", RECON_OLD, """		r.mu.Unlock()

		var subscribeErr"""), ("internal/bus/bus_redis.go", """			time.Sleep(reconcilerRetryInterval)
		}

		r.mu.Lock()
""", """			time.Sleep(reconcilerRetryInterval)
		}

		r.mu.Lock()
		maps.Clear(r.dirtyChannels)
""")], "a subscription opens while the server commands for another channel are being sent",
"the channel is never subscribed at the server: the subscriber gets nothing", (f"context net time github.com/redis/go-redis/v9 {BUS}", """
// slowConn delays the first command that names slow.
type slowConn struct {
	net.Conn
	f func(b []byte)
}

func (s slowConn) Write(b []byte) (int, error) { s.f(b); return s.Conn.Write(b) }

func demo() {
	f := newFakeRedis()
	sending, release := make(chan struct{}), make(chan struct{})
	done := false
	rc := f.client().(*redis.Client)
	dial := rc.Options().Dialer
	rc.Options().Dialer = func(ctx context.Context, n, a string) (net.Conn, error) {
		c, err := dial(ctx, n, a)
		return slowConn{c, func(b []byte) {
			if !done && contains(string(b), "slow") {
				done = true
				close(sending)
				<-release
			}
		}}, err
	}
	b := bus.NewRedisMessageBus(rc)
	_, err := bus.Subscribe[*Str](bg, b, bus.Channel{Legacy: "slow"}, 4)
	must(err)
	<-sending
	sub, err := bus.Subscribe[*Str](bg, b, bus.Channel{Legacy: "other"}, 4)
	must(err)
	time.Sleep(20 * time.Millisecond)
	close(release)
	eventually("subscribed", func() bool { return f.subscribed("other") == 1 })
	must(b.Publish(bg, bus.Channel{Legacy: "other"}, str("x")))
	within(3*time.Second, "receive", func() { <-sub.Channel() })
}

func contains(s, t string) bool {
	for i := 0; i+len(t) <= len(s); i++ {
		if s[i:i+len(t)] == t {
			return true
		}
	}
	return false
}
"""))

seed("p14-publish-wakeup-lost", "P14", [("internal/bus/bus_redis.go", """		rc:     rc,
		wakeup: make(chan struct{}, 1),
	}

	go r.worker()""", """		rc:     rc,
		wakeup: make(chan struct{}),
	}

	go r.worker()""")], "a message is published while the previous one is on its way to the server, and none follows",
"the message stays in the queue until the next publish", (f"time {BUS}", """
func demo() {
	f := newFakeRedis()
	f.on = func(_ *redisConn, args []string) {
		if args[0] == "publish" {
			time.Sleep(100 * time.Millisecond)
		}
	}
	b := bus.NewRedisMessageBus(f.client())
	ch := bus.Channel{Legacy: "ch"}
	sub, err := bus.Subscribe[*Str](bg, b, ch, 4)
	must(err)
	eventually("subscribed", func() bool { return f.subscribed("ch") == 1 })
	time.Sleep(50 * time.Millisecond)
	must(b.Publish(bg, ch, str("a")))
	time.Sleep(30 * time.Millisecond)
	must(b.Publish(bg, ch, str("b")))
	within(3*time.Second, "receive a", func() { expect((<-sub.Channel()).GetValue() == "a", "not a") })
	within(3*time.Second, "receive b", func() { expect((<-sub.Channel()).GetValue() == "b", "not b") })
}
"""))

seed("p14-batch-sent-again", "P14", [("internal/bus/bus_redis.go", """			logger.Error(err, "pipeline execution failed", "numCommands", len(cmds))
""", """			logger.Error(err, "pipeline execution failed", "numCommands", len(cmds))

			// send what failed again
			r.lock.Lock()
			r.messages = append(messages, r.messages...)
			r.lock.Unlock()
""")], "the connection is lost after the server has executed a publish and before its reply; a later message is published in the same bucket",
"a message reaches its subscribers twice", (f"time {BUS}", """
func demo() {
	f := newFakeRedis()
	n := 0
	f.after = func(c *redisConn, args []string) {
		if args[0] == "publish" {
			if n++; n == 1 {
				_ = c.Close()
			}
		}
	}
	b := bus.NewRedisMessageBus(f.client())
	ch := bus.Channel{Legacy: "ch"}
	sub, err := bus.Subscribe[*Str](bg, b, ch, 4)
	must(err)
	eventually("subscribed", func() bool { return f.subscribed("ch") == 1 })
	must(b.Publish(bg, ch, str("a")))
	within(3*time.Second, "receive a", func() { expect((<-sub.Channel()).GetValue() == "a", "not a") })
	time.Sleep(100 * time.Millisecond)
	must(b.Publish(bg, ch, str("b")))
	within(3*time.Second, "receive b", func() {
		m := <-sub.Channel()
		expect(m.GetValue() == "b", "received %v after a", m)
	})
}
"""))

seed("p14-read-ends-with-connection", "P14", [("internal/bus/bus_redis.go", """			logger.Error(err, "redis receive message failed")

			time.Sleep(delay)
""", """			logger.Error(err, "redis receive message failed")
			if delay == maxReadRetryInterval {
				// the server does not come back
				return
			}

			time.Sleep(delay)
""")], "the server is away for some seconds", "after it has come back no subscriber of the process ever receives anything", (f"time {BUS}", """
func demo() {
	f := newFakeRedis()
	b := bus.NewRedisMessageBus(f.client())
	ch := bus.Channel{Legacy: "ch"}
	sub, err := bus.Subscribe[*Str](bg, b, ch, 4)
	must(err)
	eventually("subscribed", func() bool { return f.subscribed("ch") == 1 })
	for end := time.Now().Add(6 * time.Second); time.Now().Before(end); time.Sleep(time.Millisecond) {
		f.drop(true)
	}
	eventually("subscribed again", func() bool { return f.subscribed("ch") == 1 })
	time.Sleep(1500 * time.Millisecond)
	must(b.Publish(bg, ch, str("a")))
	within(5*time.Second, "receive a", func() { expect((<-sub.Channel()).GetValue() == "a", "not a") })
}
"""))

# --- P15: NATS ---

seed("p15-wrong-local-closed", "P15", [("internal/bus/bus_nats.go", "n.routes[channel] = slices.Delete(subs, i, i+1)", "n.routes[channel] = subs[1:]")],
"two subscriptions of one process share a channel, and the later one is closed first",
"the closed one stays routed and the open one gets nothing more", (f"time {BUS}", """
func demo() {
	b := bus.NewNatsMessageBus((&fakeNats{}).connect())
	ch := bus.Channel{Server: "srv", Local: "a"}
	s1, err := bus.Subscribe[*Str](bg, b, ch, 4)
	must(err)
	s2, err := bus.Subscribe[*Str](bg, b, ch, 4)
	must(err)
	must(s2.Close())
	must(b.Publish(bg, ch, str("x")))
	within(3*time.Second, "receive", func() { expect((<-s1.Channel()).GetValue() == "x", "not x") })
}
"""))

seed("p15-close-then-forget", "P15", [("internal/bus/bus_nats.go", """	n.mu.Lock()
	defer n.mu.Unlock()
	if r.close(channel, s) {
		delete(n.routers, r.channel)
	}
""", """	if !r.close(channel, s) {
		return
	}

	n.mu.Lock()
	defer n.mu.Unlock()
	delete(n.routers, r.channel)
""")], "a subscription of a subject opens between the close of its last one on the server and its removal from the map",
"the new subscription is never effective", (f"context time fmt {R} {BUS}", """
func demo() {
	b := bus.NewNatsMessageBus((&fakeNats{}).connect())
	for i := 0; i < 8; i++ {
		go func() { // other subscriptions come and go
			for {
				s, err := bus.Subscribe[*Str](bg, b, bus.Channel{Server: fmt.Sprintf("other%d", i), Local: "a"}, 4)
				must(err)
				_ = s.Close()
			}
		}()
	}
	for end := time.Now().Add(20 * time.Second); time.Now().Before(end); {
		ch := bus.Channel{Server: "srv", Local: "a"}
		s1, err := bus.Subscribe[*Str](bg, b, ch, 4)
		must(err)
		done := make(chan struct{})
		go func() { defer close(done); _ = s1.Close() }()
		s2, err := bus.Subscribe[*Str](bg, b, ch, 4)
		must(err)
		must(b.Publish(context.Background(), ch, proto.Message(str("x"))))
		select {
		case m := <-s2.Channel():
			expect(m.GetValue() == "x", "not x")
		case <-time.After(2 * time.Second):
			fail("the subscription is not effective")
		}
		<-done
		_ = s2.Close()
	}
}
"""))

seed("p15-other-method-ends", "P15", [("internal/bus/bus_nats.go", """	delete(n.routes, channel)
	if len(n.routes) == 0 {
		n.sub.Unsubscribe()
		return true
	}
	return false
""", """	n.routes[channel] = nil
	for _, l := range n.routes {
		if len(l) > 0 {
			return false
		}
	}
	n.sub.Unsubscribe()
	return len(n.routes) == 1
""")], "methods of a subject are subscribed and all closed, more than one method having been used",
"the ended subject stays in the map, so that later subscriptions get nothing", (f"time {BUS}", """
func demo() {
	f := &fakeNats{}
	b := bus.NewNatsMessageBus(f.connect())
	a, c := bus.Channel{Server: "srv", Local: "a"}, bus.Channel{Server: "srv", Local: "c"}
	s1, err := bus.Subscribe[*Str](bg, b, a, 4)
	must(err)
	s2, err := bus.Subscribe[*Str](bg, b, c, 4)
	must(err)
	must(s1.Close())
	must(s2.Close())
	s3, err := bus.Subscribe[*Str](bg, b, a, 4)
	must(err)
	must(b.Publish(bg, a, str("x")))
	within(3*time.Second, "receive", func() { expect((<-s3.Channel()).GetValue() == "x", "not x") })
}
"""))

# --- P13: local ---

seed("p13-list-removed-late", "P13", [("internal/bus/bus_local.go", """			// lock localMessageBus before localSubList
			l.Lock()
			subList.Lock()

			subList.subs[index] = nil
			subList.subCount--
			if subList.subCount == 0 {
				delete(subLists, channel)
			}

			subList.Unlock()
			l.Unlock()
""", """			subList.Lock()
			subList.subs[index] = nil
			subList.subCount--
			last := subList.subCount == 0
			subList.Unlock()

			if last {
				l.Lock()
				delete(subLists, channel)
				l.Unlock()
			}
""")], "a subscription opens between the removal of the channel's last one and that of the channel", "the new subscription gets nothing", (f"fmt runtime time {BUS}", """
func demo() {
	b := bus.NewLocalMessageBus()
	for i := 0; i < 20000; i++ {
		ch := bus.Channel{Legacy: fmt.Sprint(i)}
		s1, err := bus.Subscribe[*Str](bg, b, ch, 4)
		must(err)
		go func() { _ = s1.Close() }()
		if i%2 == 0 {
			runtime.Gosched()
		}
		s2, err := bus.Subscribe[*Str](bg, b, ch, 4)
		must(err)
		time.Sleep(10 * time.Microsecond)
		must(b.Publish(bg, ch, str("x")))
		select {
		case <-s2.Channel():
		case <-time.After(2 * time.Second):
			fail("subscription %d gets nothing", i)
		}
		_ = s2.Close()
	}
}
"""))

seed("p13-compact-on-close", "P13", [("internal/bus/bus_local.go", """			subList.subs[index] = nil
			subList.subCount--
""", """			if index == len(subList.subs)-1 {
				// do not visit trailing gaps
				subList.subs = subList.subs[:subList.subCount-1]
			} else {
				subList.subs[index] = nil
			}
			subList.subCount--
""")], "three subscriptions of a channel, the first and then the last of which are closed", "the remaining subscription is forgotten", (f"time {BUS}", """
func demo() {
	b := bus.NewLocalMessageBus()
	ch := bus.Channel{Legacy: "x"}
	var subs []bus.Subscription[*Str]
	for i := 0; i < 3; i++ {
		s, err := bus.Subscribe[*Str](bg, b, ch, 4)
		must(err)
		subs = append(subs, s)
	}
	must(subs[0].Close())
	must(subs[2].Close())
	must(b.Publish(bg, ch, str("x")))
	within(3*time.Second, "receive", func() { expect((<-subs[1].Channel()).GetValue() == "x", "not x") })
}
"""))

# --- P02 ---

seed("p02-buffers-reused", "P02", [("internal/bus/serialization.go", """func serialize(msg proto.Message, channel string) ([]byte, error) {
	value, err := proto.Marshal(msg)
	if err != nil {
		return nil, err
	}

	return proto.Marshal(&internal.Msg{
		TypeUrl: "type.googleapis.com/" + string(msg.ProtoReflect().Descriptor().FullName()),
		Value:   value,
		Channel: channel,
	})
}
""", """var buffers = sync.Pool{New: func() any { return new([]byte) }}

func serialize(msg proto.Message, channel string) ([]byte, error) {
	value, err := proto.Marshal(msg)
	if err != nil {
		return nil, err
	}

	// most messages are small
	buf := buffers.Get().(*[]byte)
	defer buffers.Put(buf)
	*buf, err = proto.MarshalOptions{}.MarshalAppend((*buf)[:0], &internal.Msg{
		TypeUrl: "type.googleapis.com/" + string(msg.ProtoReflect().Descriptor().FullName()),
		Value:   value,
		Channel: channel,
	})
	if err != nil {
		return nil, err
	}
	if len(*buf) > 512 {
		return slices.Clone(*buf), nil
	}
	return *buf, nil
}
"""), ("internal/bus/serialization.go", """import (
""", """import (
	"slices"
	"sync"

""")], "a message is published while an earlier one is waiting to be read", "the waiting message turns into the later one: requests see other requests' payloads", (f"time {R} {BUS}", """
func demo() {
	b := bus.NewLocalMessageBus()
	slow, quick := bus.Channel{Legacy: "slow"}, bus.Channel{Legacy: "quick"}
	s, err := bus.Subscribe[*Str](bg, b, slow, 0)
	must(err)
	_, err = bus.Subscribe[*Str](bg, b, quick, 100)
	must(err)
	must(b.Publish(bg, slow, str("a"))) // taken by the reader, which waits for the subscriber
	time.Sleep(20 * time.Millisecond)
	done := make(chan struct{})
	go func() {
		defer close(done)
		_ = b.Publish(bg, slow, str("b")) // waits
	}()
	time.Sleep(20 * time.Millisecond)
	for i := 0; i < 50; i++ {
		must(b.Publish(bg, quick, str("q")))
	}
	within(5*time.Second, "receive", func() {
		for _, want := range []string{"a", "b"} {
			m := <-s.Channel()
			expect(m.GetValue() == want, "received %v, not %v", m, want)
		}
	})
	_ = proto.Equal
}
"""))

# --- P24 ---

seed("p24-undecodable-ends", "P24", [("internal/bus/subscription.go", """			p, err := deserialize(b)
			if err != nil {
				continue
			}
""", """			p, err := deserialize(b)
			if err != nil {
				close(msgChan)
				return
			}
""")], "a message of a type the client does not know, or garbage, arrives on the channel", "the subscription ends", (f"time {R} google.golang.org/protobuf/reflect/protodesc google.golang.org/protobuf/types/descriptorpb google.golang.org/protobuf/types/dynamicpb {BUS}", """
func demo() {
	b := bus.NewLocalMessageBus()
	ch := bus.Channel{Legacy: "x"}
	s, err := bus.Subscribe[*Str](bg, b, ch, 4)
	must(err)
	fd, err := protodesc.NewFile(&descriptorpb.FileDescriptorProto{Name: proto.String("u.proto"), Package: proto.String("u"), MessageType: []*descriptorpb.DescriptorProto{{Name: proto.String("Unknown")}}}, nil)
	must(err)
	must(b.Publish(bg, ch, dynamicpb.NewMessage(fd.Messages().Get(0))))
	must(b.Publish(bg, ch, str("x")))
	within(3*time.Second, "receive", func() { expect((<-s.Channel()).GetValue() == "x", "not x") })
}
"""))

seed("p24-queue-topic-order", "P24", [("pkg/client/subscription.go", """	i := c.GetInfo(rpc, topic)
	sub, err := bus.SubscribeQueue[ResponseType](ctx, c.bus, i.GetRPCChannel(), c.ChannelSize)
""", """	i := c.GetInfo(rpc, topic)
	ch := i.GetRPCChannel()
	ch.Local = ""
	sub, err := bus.SubscribeQueue[ResponseType](ctx, c.bus, ch, c.ChannelSize)
""")], "a client on NATS joins two subscription methods as a queue", "an update of one method is taken by the subscription of another, which hands it out as its own", (f"context time {PKG}client {PKG}info {PKG}server {BUS}", """
func demo() {
	f := &fakeNats{}
	b := bus.NewNatsMessageBus(f.connect())
	def := func(id string) *info.ServiceDefinition {
		d := &info.ServiceDefinition{Name: "Svc", ID: id}
		d.RegisterMethod("m1", false, false, false, true)
		d.RegisterMethod("m2", false, false, false, true)
		return d
	}
	c, err := client.NewRPCClient(def("c"), b)
	must(err)
	s1, err := client.JoinQueue[*Str](context.Background(), c, "m1", []string{"t"})
	must(err)
	s2, err := client.JoinQueue[*Str](context.Background(), c, "m2", []string{"t"})
	must(err)
	s := server.NewRPCServer(def("s"), b)
	for i := 0; i < 200; i++ {
		must(s.Publish(bg, "m1", []string{"t"}, str("x")))
		select {
		case <-s1.Channel():
		case <-s2.Channel():
			fail("the subscription of another method got the update")
		case <-time.After(3 * time.Second):
			fail("update lost")
		}
	}
}
"""))

# --- P21: generator ---

seed("p21-last-method-decides", "P21", [("protoc-gen-psrpc/generator.go", """		if t.getOptions(method).Stream {
			clientConstructor = `NewRPCClientWithStreams`
		}
""", """		clientConstructor = `NewRPCClient`
		if t.getOptions(method).Stream {
			clientConstructor = `NewRPCClientWithStreams`
		}
""")], "a service with a stream method which is not its last method", "the generated client cannot open streams", (f"{OPT}", '''
func demo() {
	runGenerated(program, method("Flow", &options.Options{Stream: true}), method("Get", &options.Options{}))
}

const program = `package main
import (
	"context"
	"time"
	"google.golang.org/protobuf/types/known/wrapperspb"
	"github.com/livekit/psrpc"
	"github.com/livekit/psrpc/internal/zzgen"
)
type impl struct{ zzgen.UnimplementedDemoServer }
func (impl) Flow(s psrpc.ServerStream[*wrapperspb.StringValue, *wrapperspb.StringValue]) error {
	for m := range s.Channel() { _ = s.Send(m) }
	return nil
}
func main() {
	b := psrpc.NewLocalMessageBus()
	if _, err := zzgen.NewDemoServer(impl{}, b); err != nil { panic(err) }
	c, err := zzgen.NewDemoClient(b)
	if err != nil { panic(err) }
	ctx, cancel := context.WithTimeout(context.Background(), 5*time.Second)
	defer cancel()
	s, err := c.Flow(ctx)
	if err != nil { panic(err) }
	if err := s.Send(wrapperspb.String("x")); err != nil { panic(err) }
	if m := <-s.Channel(); m.GetValue() != "x" { panic(m) }
}`
'''))

seed("p21-topic-stream-affinity", "P21", [("protoc-gen-psrpc/generator.go", """ topics.FormatCastToStringSlice(), `, s.svc.`, methName)
			if t.getOptions(method).Type == options.Routing_AFFINITY {
""", """ topics.FormatCastToStringSlice(), `, s.svc.`, methName)
			if t.getOptions(method).Type == options.Routing_AFFINITY && !opts.Stream {
""")], "a stream method with affinity routing and topics", "the server's affinity function is never asked: an unwilling server is selected", (f"{OPT}", '''
func demo() {
	runGenerated(program, method("Flow", &options.Options{Stream: true, Topics: true, Type: options.Routing_AFFINITY}))
}

const program = `package main
import (
	"context"
	"time"
	"google.golang.org/protobuf/types/known/wrapperspb"
	"github.com/livekit/psrpc"
	"github.com/livekit/psrpc/internal/zzgen"
)
type impl struct { zzgen.UnimplementedDemoServer; willing bool }
func (i impl) Flow(s psrpc.ServerStream[*wrapperspb.StringValue, *wrapperspb.StringValue]) error {
	if !i.willing { panic("the unwilling server got the stream") }
	for range s.Channel() { }
	return nil
}
func (i impl) FlowAffinity(context.Context) float32 {
	if i.willing { time.Sleep(10*time.Millisecond); return 1 }
	return -1
}
func main() {
	b := psrpc.NewLocalMessageBus()
	for _, w := range []bool{false, true} {
		s, err := zzgen.NewDemoServer(impl{willing: w}, b)
		if err != nil { panic(err) }
		if err := s.RegisterFlowTopic("t"); err != nil { panic(err) }
	}
	c, err := zzgen.NewDemoClient(b)
	if err != nil { panic(err) }
	ctx, cancel := context.WithTimeout(context.Background(), 60*time.Second)
	defer cancel()
	for i := 0; i < 12; i++ {
		s, err := c.Flow(ctx, "t")
		if err != nil { panic(err) }
		_ = s.Close(nil)
		time.Sleep(20*time.Millisecond)
	}
}`
'''))

seed("p21-single-server-queue", "P21", [("protoc-gen-psrpc/generator.go", """	for _, method := range service.Method {
		opts := t.getOptions(method)

		methName := methodNameCamelCased(method)
		t.P(`  sd.RegisterMethod("`, methName, `", `,
			fmt.Sprint(opts.Type == options.Routing_AFFINITY), `, `,
			fmt.Sprint(opts.Type == options.Routing_MULTI), `, `,
			fmt.Sprint(t.getRequireClaim(opts)), `, `,
			fmt.Sprint(opts.Type == options.Routing_QUEUE), `)`,
		)

		if opts.Subscription || opts.Topics {
""", """	for _, method := range service.Method {
		opts := t.getOptions(method)

		methName := methodNameCamelCased(method)
		t.P(`  sd.RegisterMethod("`, methName, `", `,
			fmt.Sprint(opts.Type == options.Routing_AFFINITY), `, `,
			fmt.Sprint(opts.Type == options.Routing_MULTI), `, `,
			fmt.Sprint(t.getRequireClaim(opts)), `, `,
			fmt.Sprint(opts.Type == options.Routing_QUEUE && t.getRequireClaim(opts)), `)`,
		)

		if opts.Subscription || opts.Topics {
""")], "a single_server queue method two servers of which are registered for the same topic", "the request runs on every server", (f"{OPT}", '''
func demo() {
	runGenerated(program, method("Get", &options.Options{Topics: true, TopicParams: &options.TopicParamOptions{SingleServer: true}}))
}

const program = `package main
import (
	"context"
	"sync/atomic"
	"time"
	"google.golang.org/protobuf/types/known/wrapperspb"
	"github.com/livekit/psrpc"
	"github.com/livekit/psrpc/internal/zzgen"
)
var n atomic.Int32
type impl struct{}
func (impl) Get(_ context.Context, r *wrapperspb.StringValue) (*wrapperspb.StringValue, error) { n.Add(1); return r, nil }
func main() {
	b := psrpc.NewLocalMessageBus()
	for i := 0; i < 2; i++ {
		s, err := zzgen.NewDemoServer(impl{}, b)
		if err != nil { panic(err) }
		if err := s.RegisterGetTopic("t"); err != nil { panic(err) }
	}
	c, err := zzgen.NewDemoClient(b)
	if err != nil { panic(err) }
	ctx, cancel := context.WithTimeout(context.Background(), 5*time.Second)
	defer cancel()
	if _, err := c.Get(ctx, "t", wrapperspb.String("x")); err != nil { panic(err) }
	time.Sleep(200*time.Millisecond)
	if n.Load() != 1 { panic(n.Load()) }
}`
'''))

seed("p21-unimplemented-claims", "P21", [("protoc-gen-psrpc/generator.go", "methName, `Affinity(context.Context, *`, inputType, `) float32 { return -1 }`)", "methName, `Affinity(context.Context, *`, inputType, `) float32 { return 0 }`)")],
"a server that embeds the Unimplemented server runs next to one that implements the affinity method", "the unimplemented server claims requests: a client which accepts any server gets unimplemented errors", (f"{OPT}", '''
func demo() {
	runGenerated(program, method("Get", &options.Options{Type: options.Routing_AFFINITY}))
}

const program = `package main
import (
	"context"
	"time"
	"google.golang.org/protobuf/types/known/wrapperspb"
	"github.com/livekit/psrpc"
	"github.com/livekit/psrpc/internal/zzgen"
)
type impl struct{}
func (impl) Get(_ context.Context, r *wrapperspb.StringValue) (*wrapperspb.StringValue, error) { return r, nil }
func (impl) GetAffinity(context.Context, *wrapperspb.StringValue) float32 { time.Sleep(50*time.Millisecond); return 1 }
func main() {
	b := psrpc.NewLocalMessageBus()
	if _, err := zzgen.NewDemoServer(zzgen.UnimplementedDemoServer{}, b); err != nil { panic(err) }
	if _, err := zzgen.NewDemoServer(impl{}, b); err != nil { panic(err) }
	c, err := zzgen.NewDemoClient(b)
	if err != nil { panic(err) }
	ctx, cancel := context.WithTimeout(context.Background(), 5*time.Second)
	defer cancel()
	if _, err := c.Get(ctx, wrapperspb.String("x"), psrpc.WithSelectionOpts(psrpc.SelectionOpts{AcceptFirstAvailable: true, MinimumAffinity: -1, AffinityTimeout: time.Second})); err != nil { panic(err) }
}`
'''))
