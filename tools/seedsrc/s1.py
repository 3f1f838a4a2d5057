SEEDS = []
def seed(id, prop, edits, needs, what, main):
    imports = main[0]
    src = "package main\n\nimport (\n" + "".join(f'\t"{i}"\n' if not i.startswith("//") else "" for i in imports.split()) + ")\n" + main[1]
    SEEDS.append((id, prop, edits, needs, what, src))

R, P = "google.golang.org/protobuf/proto", "github.com/livekit/psrpc"
PKG = P + "/pkg/"

seed("p01-claim-registered-late", "P01", [("pkg/server/rpc.go", """	h.mu.Lock()
	h.claims[ir.RequestId] = claimResponseChan
	h.mu.Unlock()

	defer func() {
		h.mu.Lock()
		delete(h.claims, ir.RequestId)
		h.mu.Unlock()
	}()

	err := s.bus.Publish(ctx, info.GetClaimRequestChannel(s.Name, ir.ClientId), &internal.ClaimRequest{
		RequestId: ir.RequestId,
		ServerId:  s.ID,
		Affinity:  affinity,
	})
	if err != nil {
		return false, err
	}
""", """	err := s.bus.Publish(ctx, info.GetClaimRequestChannel(s.Name, ir.ClientId), &internal.ClaimRequest{
		RequestId: ir.RequestId,
		ServerId:  s.ID,
		Affinity:  affinity,
	})
	if err != nil {
		return false, err
	}

	h.mu.Lock()
	h.claims[ir.RequestId] = claimResponseChan
	h.mu.Unlock()

	defer func() {
		h.mu.Lock()
		delete(h.claims, ir.RequestId)
		h.mu.Unlock()
	}()
""")], "the client's grant arrives before the publish of the claim has returned on the server",
"the grant is dropped, so no server runs the request although the server is live and no message was lost", (f"context time {R} {P}/internal {P}/internal/bus {PKG}client {PKG}server", """
func demo() {
	b := bus.NewLocalMessageBus()
	slow := &hookBus{MessageBus: b, on: func(ch bus.Channel, msg proto.Message, publish func() error) error {
		err := publish()
		if _, ok := msg.(*internal.ClaimRequest); ok {
			// the publisher is slow to continue
			time.Sleep(300 * time.Millisecond)
		}
		return err
	}}
	s := newServer(slow)
	must(server.RegisterHandler[*Str, *Str](s, "claim", nil, func(_ context.Context, r *Str) (*Str, error) { return r, nil }, nil))
	c := newClient(b)
	ctx, cancel := context.WithTimeout(bg, 2*time.Second)
	defer cancel()
	res, err := client.RequestSingle[*Str](ctx, c, "claim", nil, str("x"))
	expect(err == nil && res.GetValue() == "x", "request not served: %v %v", res, err)
}
"""))

seed("p08-ack-before-delivery", "P08", [("internal/stream/stream.go", """		if err := s.handler.Recv(v); err != nil {
			return err
		}

		ctx, cancel := context.WithDeadline(s.ctx, time.Unix(0, is.Expiry))
		defer cancel()
		if err := s.Ack(ctx, is); err != nil {
			return err
		}
""", """		ctx, cancel := context.WithDeadline(s.ctx, time.Unix(0, is.Expiry))
		defer cancel()
		if err := s.Ack(ctx, is); err != nil {
			return err
		}

		if err := s.handler.Recv(v); err != nil {
			return err
		}
""")], "the receiver's channel is full", "Send returns nil for a message which was dropped by the receiver", (f"time {P} {P}/internal/bus {PKG}client {PKG}server", """
func demo() {
	b := bus.NewLocalMessageBus()
	s := newServer(b, psrpc.WithServerChannelSize(2))
	release := make(chan struct{})
	got := make(chan int, 1)
	must(server.RegisterStreamHandler[*Str, *Str](s, "stream", nil, func(st psrpc.ServerStream[*Str, *Str]) error {
		<-release
		n := 0
		for range st.Channel() {
			n++
		}
		got <- n
		return nil
	}, nil))
	c := newClient(b)
	st, err := client.OpenStream[*Str, *Str](bg, c, "stream", nil)
	must(err)
	acked := 0
	for i := 0; i < 4; i++ {
		if err := st.Send(str("m"), psrpc.WithTimeout(300*time.Millisecond)); err == nil {
			acked++
		}
	}
	close(release)
	must(st.Close(nil))
	n := <-got
	expect(n == acked, "%d sends succeeded, %d messages were received", acked, n)
}
"""))

seed("p09-later-send-error", "P09", [("internal/stream/stream.go", """	if !s.closed {
		s.pending.Add(1)
	}
	return s.err
}""", """	if s.closed {
		return psrpc.ErrStreamClosed
	}
	s.pending.Add(1)
	return nil
}""")], "a send on a stream which the peer has closed with an error", "the send fails with stream closed instead of the cause", (f"errors time {P} {P}/internal/bus {PKG}client {PKG}server", """
func demo() {
	b := bus.NewLocalMessageBus()
	s := newServer(b)
	must(server.RegisterStreamHandler[*Str, *Str](s, "stream", nil, func(st psrpc.ServerStream[*Str, *Str]) error {
		return psrpc.NewErrorf(psrpc.NotFound, "gone")
	}, nil))
	c := newClient(b)
	st, err := client.OpenStream[*Str, *Str](bg, c, "stream", nil)
	must(err)
	for range st.Channel() {
	}
	time.Sleep(10 * time.Millisecond)
	err = st.Send(str("m"))
	var e psrpc.Error
	expect(errors.As(err, &e) && e.Code() == psrpc.NotFound, "send failed with %v", err)
}
"""))

seed("p09-close-does-not-wait-pending", "P09", [("internal/stream/stream.go", """	s.pending.Wait()
	s.adapter.Close(s.streamID)""", """	s.adapter.Close(s.streamID)""")],
"a message is being received (passing its interceptors) while the stream is closed locally",
"the message is sent to the closed channel, which panics", (f"time sync/atomic {R} {P} {P}/internal/bus {PKG}client {PKG}server", """
type slowRecv struct {
	psrpc.StreamHandler
}

var received atomic.Bool

func (s slowRecv) Recv(msg proto.Message) error {
	received.Store(true)
	time.Sleep(300 * time.Millisecond)
	return s.StreamHandler.Recv(msg)
}

func demo() {
	b := bus.NewLocalMessageBus()
	s := newServer(b, psrpc.WithServerStreamInterceptors(func(_ psrpc.RPCInfo, next psrpc.StreamHandler) psrpc.StreamHandler {
		return slowRecv{next}
	}))
	must(server.RegisterStreamHandler[*Str, *Str](s, "stream", nil, func(st psrpc.ServerStream[*Str, *Str]) error {
		for !received.Load() {
			time.Sleep(time.Millisecond)
		}
		return nil
	}, nil))
	c := newClient(b)
	st, err := client.OpenStream[*Str, *Str](bg, c, "stream", nil)
	must(err)
	_ = st.Send(str("m"), psrpc.WithTimeout(time.Second))
	time.Sleep(time.Second)
	expect(st.Err() != nil, "not closed")
}
"""))

seed("p04-unwilling-stream-server", "P04", [("pkg/server/stream.go", """		affinity = h.affinityFunc(ctx)
		if affinity < 0 {
			return false, nil
		}
""", """		affinity = max(h.affinityFunc(ctx), 0)
""")], "a stream with a selection that accepts affinity 0 (AcceptFirstAvailable) and a server with a negative affinity",
"the stream is opened on a server which refused it", (f"context time {P} {P}/internal/bus {PKG}client {PKG}server", """
func demo() {
	b := bus.NewLocalMessageBus()
	s := newServer(b)
	must(server.RegisterStreamHandler[*Str, *Str](s, "stream", nil, func(st psrpc.ServerStream[*Str, *Str]) error {
		<-st.Context().Done()
		return nil
	}, func(context.Context) float32 { return -1 }))
	c := newClient(b)
	_, err := client.OpenStream[*Str, *Str](bg, c, "stream", nil, psrpc.WithRequestTimeout(time.Second))
	expect(err != nil, "opened on a server with affinity -1")
}
"""))

seed("p10-wrapped-error", "P10", [("pkg/server/rpc.go", "		if errors.As(err, &e) {", "		if se, ok := err.(psrpc.Error); ok {\n			e = se"), ("pkg/server/rpc.go", '	"errors"\n', "")],
"the handler wraps a psrpc error whose code has no gRPC equivalent", "the caller gets another code", (f"context fmt {P} {P}/internal/bus {PKG}client {PKG}server", """
func demo() {
	b := bus.NewLocalMessageBus()
	s := newServer(b)
	must(server.RegisterHandler[*Str, *Str](s, "direct", nil, func(context.Context, *Str) (*Str, error) {
		return nil, fmt.Errorf("while working: %w", psrpc.NewErrorf(psrpc.NotAcceptable, "no"))
	}, nil))
	c := newClient(b)
	_, err := client.RequestSingle[*Str](bg, c, "direct", nil, str("x"))
	code, _ := psrpc.GetErrorCode(err)
	expect(code == psrpc.NotAcceptable, "got code %q (%v)", code, err)
}
"""))

seed("p12-incoming-header-shared", "P12", [("pkg/metadata/metadata.go", """	return &Header{
		RemoteID: head.RemoteID,
		SentAt:   head.SentAt,
		Metadata: maps.Clone(head.Metadata),
	}""", """	h := *head
	return &h""")], "code of a handler changes the metadata it has read, and reads it again",
"the change is seen by other readers of the same context", (f"context {P}/internal/bus {PKG}client {PKG}server {PKG}metadata", """
func demo() {
	b := bus.NewLocalMessageBus()
	s := newServer(b)
	must(server.RegisterHandler[*Str, *Str](s, "direct", nil, func(ctx context.Context, _ *Str) (*Str, error) {
		metadata.IncomingHeader(ctx).Metadata["k"] = "changed"
		return str(metadata.IncomingHeader(ctx).Metadata["k"]), nil
	}, nil))
	c := newClient(b)
	ctx := metadata.AppendMetadataToOutgoingContext(bg, "k", "v")
	res, err := client.RequestSingle[*Str](ctx, c, "direct", nil, str("x"))
	must(err)
	expect(res.GetValue() == "v", "got %q", res.GetValue())
}
"""))

seed("p12-append-aliases-siblings", "P12", [("pkg/metadata/metadata.go", """	added := make([][]string, len(md.added)+1)
	copy(added, md.added)
	added[len(added)-1] = make([]string, len(kv))
	copy(added[len(added)-1], kv)
	return context.WithValue(ctx, metadataKey{}, ctxMD{md.md, added})""", """	pairs := make([]string, len(kv))
	copy(pairs, kv)
	return context.WithValue(ctx, metadataKey{}, ctxMD{md.md, append(md.added, pairs)})""")],
"two contexts are derived from one to which at least three pairs have been appended one after another",
"the metadata appended to the second replaces that of the first", (f"{PKG}metadata", """
func demo() {
	ctx := bg
	for _, k := range []string{"a", "b", "c"} {
		ctx = metadata.AppendMetadataToOutgoingContext(ctx, k, k)
	}
	first := metadata.AppendMetadataToOutgoingContext(ctx, "who", "first")
	second := metadata.AppendMetadataToOutgoingContext(ctx, "who", "second")
	expect(metadata.OutgoingContextMetadata(second)["who"] == "second", "second")
	got := metadata.OutgoingContextMetadata(first)["who"]
	expect(got == "first", "the first context sends %q", got)
}
"""))

seed("p18-options-alias", "P18", [("pkg/middleware/retry.go", """					nextOpts = make([]psrpc.RequestOption, len(opts)+1)
					copy(nextOpts, opts)
					nextOpts[len(opts)] = psrpc.WithRequestTimeout(timeout)""", """					nextOpts = append(opts, psrpc.WithRequestTimeout(timeout))""")],
"two concurrent calls pass the same options slice, which has spare capacity, and are in different attempts",
"an attempt of one call uses the timeout of the other call's attempt", (f"context time {R} {P} {PKG}middleware", """
func timeoutOf(opts []psrpc.RequestOption) time.Duration {
	o := &psrpc.RequestOpts{}
	for _, f := range opts {
		f(o)
	}
	return o.Timeout
}

func demo() {
	shared := make([]psrpc.RequestOption, 0, 4)
	shared = append(shared, psrpc.WithRequestTimeout(time.Hour))
	ic := middleware.NewRPCRetryInterceptor(middleware.RetryOptions{MaxAttempts: 2, Timeout: time.Second, Backoff: time.Second})
	started, resume := make(chan struct{}), make(chan struct{})
	result := make(chan time.Duration, 1)
	slow := ic(psrpc.RPCInfo{}, func(_ context.Context, _ proto.Message, opts ...psrpc.RequestOption) (proto.Message, error) {
		close(started)
		<-resume
		result <- timeoutOf(opts)
		return nil, nil
	})
	go slow(bg, str("slow"), shared...)
	<-started
	fast := ic(psrpc.RPCInfo{}, func(_ context.Context, _ proto.Message, opts ...psrpc.RequestOption) (proto.Message, error) {
		return nil, psrpc.ErrRequestTimedOut
	})
	fast(bg, str("fast"), shared...)
	close(resume)
	d := <-result
	expect(d == time.Second, "first attempt has timeout %v", d)
}
"""))

seed("p18-backoff-across-calls", "P18", [("pkg/middleware/retry.go", """	return func(rpcInfo psrpc.RPCInfo, next psrpc.ClientRPCHandler) psrpc.ClientRPCHandler {
		return func(""", """	opt = withDefaults(opt)
	return func(rpcInfo psrpc.RPCInfo, next psrpc.ClientRPCHandler) psrpc.ClientRPCHandler {
		return func("""), ("pkg/middleware/retry.go", """	timeout := opt.Timeout
	attempt := 1
	if opt.IsRecoverable == nil {
		opt.IsRecoverable = isTimeout
	}

	if opt.GetRetryParameters == nil {
		opt.GetRetryParameters = getRetryWithBackoffParameters(opt)
	}
""", """	opt = withDefaults(opt)
	timeout := opt.Timeout
	attempt := 1
"""), ("pkg/middleware/retry.go", """func retry(opt""", """func withDefaults(opt RetryOptions) RetryOptions {
	if opt.IsRecoverable == nil {
		opt.IsRecoverable = isTimeout
	}
	if opt.GetRetryParameters == nil {
		opt.GetRetryParameters = getRetryWithBackoffParameters(opt)
	}
	return opt
}

func retry(opt""")], "a second call with retries through the same client",
"the backoff of earlier calls is added to the timeouts of later calls", (f"context time {R} {P} {PKG}middleware", """
func demo() {
	ic := middleware.NewRPCRetryInterceptor(middleware.RetryOptions{MaxAttempts: 2, Timeout: time.Second, Backoff: time.Second})
	for call := 0; call < 2; call++ {
		var got []time.Duration
		h := ic(psrpc.RPCInfo{}, func(_ context.Context, _ proto.Message, opts ...psrpc.RequestOption) (proto.Message, error) {
			o := &psrpc.RequestOpts{}
			for _, f := range opts {
				f(o)
			}
			got = append(got, o.Timeout)
			return nil, psrpc.ErrRequestTimedOut
		})
		h(bg, str("x"))
		expect(len(got) == 2 && got[0] == time.Second && got[1] == 2*time.Second, "call %d: timeouts %v", call, got)
	}
}
"""))

seed("p19-stream-close-twice", "P19", [("pkg/middleware/metrics.go", """	if !s.closed.Swap(true) {
		s.observer.OnStreamClose(s.role, s.info)
	}""", """	if !s.closed.Load() {
		s.observer.OnStreamClose(s.role, s.info)
		s.closed.Store(true)
	}""")], "two goroutines close the same stream at once", "the stream is reported closed twice", (f"sync sync/atomic time {P} {P}/internal/bus {PKG}client {PKG}server {PKG}middleware", """
type observer struct {
	middleware.MetricsObserver
	closes atomic.Int32
}

func (o *observer) OnStreamOpen(middleware.MetricRole, psrpc.RPCInfo) {}
func (o *observer) OnStreamClose(middleware.MetricRole, psrpc.RPCInfo) {
	o.closes.Add(1)
	time.Sleep(100 * time.Millisecond)
}

func demo() {
	b := bus.NewLocalMessageBus()
	s := newServer(b)
	must(server.RegisterStreamHandler[*Str, *Str](s, "stream", nil, func(st psrpc.ServerStream[*Str, *Str]) error {
		for range st.Channel() {
		}
		return nil
	}, nil))
	o := &observer{}
	c := newClient(b, middleware.WithClientMetrics(o))
	st, err := client.OpenStream[*Str, *Str](bg, c, "stream", nil)
	must(err)
	var wg sync.WaitGroup
	for i := 0; i < 2; i++ {
		wg.Add(1)
		go func() { defer wg.Done(); _ = st.Close(nil) }()
	}
	wg.Wait()
	expect(o.closes.Load() == 1, "%d closes reported", o.closes.Load())
}
"""))

seed("p20-error-panics", "P20", [("pkg/middleware/recovery.go", """			if r := recover(); r != nil {
				err""", """			if r := recover(); r != nil {
				if e, ok := r.(error); ok {
					err = e
					return
				}
				err""")], "the handler panics with an error value (such as a runtime error)",
"the caller gets an unknown error instead of an internal one", (f"context {P} {P}/internal/bus {PKG}client {PKG}server {PKG}middleware", """
func demo() {
	b := bus.NewLocalMessageBus()
	s := newServer(b, psrpc.WithServerRPCInterceptors(middleware.WithServerRecovery()))
	must(server.RegisterHandler[*Str, *Str](s, "direct", nil, func(context.Context, *Str) (*Str, error) {
		var m map[string]int
		m["x"] = 1
		return nil, nil
	}, nil))
	c := newClient(b)
	_, err := client.RequestSingle[*Str](bg, c, "direct", nil, str("x"))
	code, _ := psrpc.GetErrorCode(err)
	expect(code == psrpc.Internal, "got code %q (%v)", code, err)
}
"""))

seed("p16-info-cache", "P16", [("pkg/info/info.go", """	return &RequestInfo{
		RPCInfo: psrpc.RPCInfo{""", """	key := strings.Join(topic, ".")
	if i, ok := m.infos.Load(key); ok {
		return i.(*RequestInfo)
	}
	i := &RequestInfo{
		RPCInfo: psrpc.RPCInfo{"""), ("pkg/info/info.go", """		Queue:           m.Queue,
	}
}""", """		Queue:           m.Queue,
	}
	m.infos.Store(key, i)
	return i
}"""), ("pkg/info/info.go", '	"sync"\n', '	"strings"\n	"sync"\n'), ("pkg/info/info.go", """	RequireClaim    bool
	Queue           bool
}

type RequestInfo""", """	RequireClaim    bool
	Queue           bool

	infos sync.Map
}

type RequestInfo""")], "two topics of a method whose parts are the same when joined with dots",
"a request for one topic is sent to the other topic's channel", (f"{PKG}info", """
func demo() {
	d := sd()
	a, b := d.GetInfo("direct", []string{"x.y"}), d.GetInfo("direct", []string{"x", "y"})
	expect(a.GetRPCChannel() != b.GetRPCChannel(), "same channel %v", a.GetRPCChannel())
	var _ *info.RequestInfo = a
}
"""))

seed("p17-request-interceptors-alias", "P17", [("pkg/client/options.go", """	c := make([]T, len(base), len(base)+len(as))
	copy(c, base)
	for""", """	c := base
	for""")], "a client with three interceptors, and two requests with their own interceptors whose chains are built at the same time or nested",
"a request runs the interceptor of another request", (f"context {R} {P} {P}/internal/bus {PKG}client {PKG}server", """
func demo() {
	b := bus.NewLocalMessageBus()
	s := newServer(b)
	must(server.RegisterHandler[*Str, *Str](s, "direct", nil, func(_ context.Context, r *Str) (*Str, error) { return r, nil }, nil))
	pass := func(_ psrpc.RPCInfo, next psrpc.ClientRPCHandler) psrpc.ClientRPCHandler { return next }
	tag := func(t string, on func()) psrpc.RequestOption {
		return psrpc.WithRequestInterceptors[psrpc.ClientRPCInterceptor](func(_ psrpc.RPCInfo, next psrpc.ClientRPCHandler) psrpc.ClientRPCHandler {
			return func(ctx context.Context, r proto.Message, opts ...psrpc.RequestOption) (proto.Message, error) {
				return next(ctx, str(r.(*Str).Value+t), opts...)
			}
		})
	}
	var nested func()
	// building the chain of one request while another one is made
	building := psrpc.WithRequestInterceptors[psrpc.ClientRPCInterceptor](func(_ psrpc.RPCInfo, next psrpc.ClientRPCHandler) psrpc.ClientRPCHandler {
		if f := nested; f != nil {
			nested = nil
			f()
		}
		return next
	})
	c := newClient(b, psrpc.WithClientRPCInterceptors(pass), psrpc.WithClientRPCInterceptors(pass), psrpc.WithClientRPCInterceptors(pass), psrpc.WithClientRPCInterceptors(pass), psrpc.WithClientRPCInterceptors(pass))
	nested = func() {
		res, err := client.RequestSingle[*Str](bg, c, "direct", nil, str("inner"), tag("-b", nil))
		must(err)
		expect(res.GetValue() == "inner-b", "inner got %q", res.GetValue())
	}
	res, err := client.RequestSingle[*Str](bg, c, "direct", nil, str("outer"), tag("-a", nil), building)
	must(err)
	expect(res.GetValue() == "outer-a", "outer got %q", res.GetValue())
}
"""))

seed("p07-group-rollback-too-far", "P07", [("pkg/server/registration.go", "rs[:i].Deregister", "rs[:i+1].Deregister")],
"a group whose registration fails because one of its handlers exists already",
"the handler registered before, by someone else, is removed", (f"context {P}/internal/bus {PKG}client {PKG}server", """
func demo() {
	b := bus.NewLocalMessageBus()
	s := newServer(b)
	echo := func(_ context.Context, r *Str) (*Str, error) { return r, nil }
	must(server.RegisterHandler[*Str, *Str](s, "direct", []string{"t"}, echo, nil))
	reg := func(m string) server.Registerer {
		return server.NewRegisterer(
			func(t string) error { return server.RegisterHandler[*Str, *Str](s, m, []string{t}, echo, nil) },
			func(t string) { s.DeregisterHandler(m, []string{t}) },
		)
	}
	expect(server.RegistererSlice{reg("claim"), reg("direct")}.Register("t") != nil, "registered twice")
	c := newClient(b)
	_, err := client.RequestSingle[*Str](bg, c, "direct", []string{"t"}, str("x"))
	must(err)
}
"""))

seed("p11-deadline-from-arrival", "P11", [("pkg/server/rpc.go", "context.WithDeadline(ctx, time.Unix(0, ir.Expiry))", "context.WithTimeout(ctx, time.Duration(ir.Expiry-ir.SentAt))")],
"a request which takes a while to arrive", "the handler's deadline is later than the caller's", (f"context time {R} {P} {P}/internal {P}/internal/bus {PKG}client {PKG}server", """
func demo() {
	b := bus.NewLocalMessageBus()
	s := newServer(b)
	var late time.Duration
	must(server.RegisterHandler[*Str, *Str](s, "direct", nil, func(ctx context.Context, r *Str) (*Str, error) {
		d, _ := ctx.Deadline()
		late = time.Until(d)
		return r, nil
	}, nil))
	c := newClient(&hookBus{MessageBus: b, on: func(_ bus.Channel, msg proto.Message, publish func() error) error {
		if _, ok := msg.(*internal.Request); ok {
			time.Sleep(500 * time.Millisecond)
		}
		return publish()
	}})
	_, err := client.RequestSingle[*Str](bg, c, "direct", nil, str("x"), psrpc.WithRequestTimeout(2*time.Second))
	must(err)
	expect(late < 1700*time.Millisecond, "handler may run for %v", late)
}
"""))

seed("p03-closed-stream-blocks-client", "P03", [("pkg/client/stream.go", """	s.c.mu.Unlock()
	close(s.closed)
}""", """	s.c.mu.Unlock()
}""")], "the context of a stream ends, and more messages than the channel size of the client arrive for it while its close message is being published",
"the client waits for the closed stream to read them, and no longer receives anything", (f"context time {R} {P} {P}/internal {P}/internal/bus {PKG}client {PKG}server", """
func demo() {
	b := bus.NewLocalMessageBus()
	s := newServer(b)
	must(server.RegisterHandler[*Str, *Str](s, "direct", nil, func(_ context.Context, r *Str) (*Str, error) { return r, nil }, nil))
	flood := make(chan struct{})
	must(server.RegisterStreamHandler[*Str, *Str](s, "stream", nil, func(st psrpc.ServerStream[*Str, *Str]) error {
		<-flood
		for i := 0; i < 6; i++ {
			go st.Send(str("m"), psrpc.WithTimeout(time.Second))
		}
		<-st.Context().Done()
		return nil
	}, nil))
	c := newClient(&hookBus{MessageBus: b, on: func(_ bus.Channel, msg proto.Message, publish func() error) error {
		if m, ok := msg.(*internal.Stream); ok && m.GetClose() != nil {
			close(flood)
			time.Sleep(300 * time.Millisecond)
		}
		return publish()
	}}, psrpc.WithClientChannelSize(1))
	ctx, cancel := context.WithCancel(bg)
	_, err := client.OpenStream[*Str, *Str](ctx, c, "stream", nil)
	must(err)
	cancel()
	time.Sleep(500 * time.Millisecond)
	_, err = client.RequestSingle[*Str](bg, c, "direct", nil, str("x"), psrpc.WithRequestTimeout(3*time.Second))
	must(err)
}
"""))

seed("p05-stale-result", "P05", [("pkg/client/multi.go", """	for {
		select {
		case res := <-resChan:
			var v ResponseType
			var err error
""", """	var v ResponseType
	var err error
	for {
		select {
		case res := <-resChan:
""")], "a server's error response arrives after another server's result", "the error is delivered with the other server's result", (f"context errors time {P} {P}/internal/bus {PKG}client {PKG}server", """
func demo() {
	b := bus.NewLocalMessageBus()
	s1, s2 := newServer(b), newServer(b)
	must(server.RegisterHandler[*Str, *Str](s1, "multi", nil, func(_ context.Context, r *Str) (*Str, error) { return str("one"), nil }, nil))
	must(server.RegisterHandler[*Str, *Str](s2, "multi", nil, func(_ context.Context, r *Str) (*Str, error) {
		time.Sleep(200 * time.Millisecond)
		return nil, errors.New("failed")
	}, nil))
	c := newClient(b)
	ch, err := client.RequestMulti[*Str](bg, c, "multi", nil, str("x"), psrpc.WithRequestTimeout(time.Second))
	must(err)
	for r := range ch {
		expect(r.Err == nil || r.Result == nil, "error %v with result %v", r.Err, r.Result)
	}
}
"""))

seed("p06-response-in-background", "P06", [("pkg/server/rpc.go", "	return h.sendResponse(s, ctx, ir, response, err)\n}\n\nfunc (h *rpcHandlerImpl[RequestType, ResponseType]) claimRequest(", """	go func() {
		if err := h.sendResponse(s, ctx, ir, response, err); err != nil {
			logger.Error(err, "failed to send response", "requestID", ir.RequestId)
		}
	}()
	return nil
}

func (h *rpcHandlerImpl[RequestType, ResponseType]) claimRequest(""")], "a graceful shutdown while a request is being handled, and a response which takes a while to publish",
"the shutdown returns before the response has been published", (f"context sync/atomic time {R} {P} {P}/internal {P}/internal/bus {PKG}client {PKG}server", """
func demo() {
	b := bus.NewLocalMessageBus()
	var sent atomic.Bool
	s := newServer(&hookBus{MessageBus: b, on: func(_ bus.Channel, msg proto.Message, publish func() error) error {
		if _, ok := msg.(*internal.Response); ok {
			time.Sleep(300 * time.Millisecond)
			defer sent.Store(true)
		}
		return publish()
	}})
	started := make(chan struct{})
	must(server.RegisterHandler[*Str, *Str](s, "direct", nil, func(_ context.Context, r *Str) (*Str, error) {
		close(started)
		time.Sleep(100 * time.Millisecond)
		return r, nil
	}, nil))
	c := newClient(b)
	go client.RequestSingle[*Str](bg, c, "direct", nil, str("x"), psrpc.WithRequestTimeout(3*time.Second))
	<-started
	s.Close(false)
	expect(sent.Load(), "closed before the response was published")
}
"""))

seed("p23-err-unlocked", "P23", [("internal/stream/stream.go", """func (s *streamBase[SendType, RecvType]) Err() error {
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.err""", """func (s *streamBase[SendType, RecvType]) Err() error {
	return s.err""")], "Err is called while another goroutine or the peer closes the stream", "a data race on the error of the stream", (f"//race {P} {P}/internal/bus {PKG}client {PKG}server", """
//race

func demo() {
	b := bus.NewLocalMessageBus()
	s := newServer(b)
	must(server.RegisterStreamHandler[*Str, *Str](s, "stream", nil, func(st psrpc.ServerStream[*Str, *Str]) error {
		<-st.Channel()
		return nil
	}, nil))
	c := newClient(b)
	st, err := client.OpenStream[*Str, *Str](bg, c, "stream", nil)
	must(err)
	go st.Send(str("x"))
	for st.Err() == nil {
	}
}
"""))

seed("p22-bus-ended-leaks", "P22", [("pkg/client/client.go", """			case claim := <-claims.Channel():
				if claim == nil {
					c.Close()
					continue
				}""", """			case claim := <-claims.Channel():
				if claim == nil {
					return
				}""")], "the bus ends the subscription for claims", "the client's other subscriptions are not released, and it accepts requests it will never get an answer to", (f"context sync time {P} {P}/internal/bus {PKG}client", """
type endingBus struct {
	bus.MessageBus
	subs []bus.Reader
}

func (e *endingBus) Subscribe(ctx context.Context, ch bus.Channel, n int) (bus.Reader, error) {
	r, err := e.MessageBus.Subscribe(ctx, ch, n)
	o := &onceReader{Reader: r}
	e.subs = append(e.subs, o)
	return o, err
}

type onceReader struct {
	bus.Reader
	once sync.Once
}

func (o *onceReader) Close() (err error) {
	o.once.Do(func() { err = o.Reader.Close() })
	return
}

func demo() {
	b := &endingBus{MessageBus: bus.NewLocalMessageBus()}
	c := newClient(b)
	_ = b.subs[1].Close() // claims
	time.Sleep(200 * time.Millisecond)
	_, err := client.RequestSingle[*Str](bg, c, "direct", nil, str("x"), psrpc.WithRequestTimeout(time.Second))
	expect(err == psrpc.ErrClientClosed, "got %v", err)
}
"""))

seed("p09-failed-open-stays", "P09", [("pkg/client/stream.go", """		stopClaims()
		if err != nil {
			_ = cs.Close(err)
			return nil, err
		}
""", """		stopClaims()
		if err != nil {
			return nil, err
		}
""")], "a stream open for which no server claims, with a context which goes on", "the stream and its goroutine stay behind on the client", (f"runtime time context {P} {P}/internal/bus {PKG}client", """
func demo() {
	b := bus.NewLocalMessageBus()
	c := newClient(b)
	ctx, cancel := context.WithCancel(bg)
	defer cancel()
	time.Sleep(100 * time.Millisecond)
	n := runtime.NumGoroutine()
	for i := 0; i < 5; i++ {
		_, err := client.OpenStream[*Str, *Str](ctx, c, "stream", nil, psrpc.WithRequestTimeout(100*time.Millisecond))
		expect(err != nil, "opened")
	}
	time.Sleep(500 * time.Millisecond)
	expect(runtime.NumGoroutine() <= n, "%d goroutines before, %d after", n, runtime.NumGoroutine())
}
"""))
