exec(open("/verif/tools/seedsrc/s1.py").read().split('seed("p01')[0])
SEEDS.clear()
ST, RPC, SST = "pkg/server/stream.go", "pkg/server/rpc.go", "internal/stream/stream.go"

seed("p04-claim-wait-own-timeout", "P04", [(RPC, """	timeout := time.NewTimer(time.Duration(ir.Expiry - time.Now().UnixNano()))
""", """	wait := time.Duration(ir.Expiry - time.Now().UnixNano())
	if s.Timeout > 0 && wait > s.Timeout {
		wait = s.Timeout
	}
	timeout := time.NewTimer(wait)
""")], "a client that selects a server for longer than the timeout which the server has for its own calls", "the server that the client selects has given up its claim: the call fails",
(f"context time {P} {P}/internal/bus {PKG}client {PKG}server", """
func demo() {
	b := bus.NewLocalMessageBus()
	s := newServer(b, psrpc.WithServerTimeout(150 * time.Millisecond))
	must(server.RegisterHandler[*Str, *Str](s, "affinity", nil, func(_ context.Context, r *Str) (*Str, error) { return r, nil },
		func(context.Context, *Str) float32 { return 0.5 }))
	_, err := client.RequestSingle[*Str](bg, newClient(b), "affinity", nil, str("x"), psrpc.WithRequestTimeout(3*time.Second),
		psrpc.WithSelectionOpts(psrpc.SelectionOpts{AffinityTimeout: 700 * time.Millisecond}))
	must(err)
}
"""))

seed("p09-close-cause-cut", "P09", [(SST, """	now := time.Now()
	err := s.adapter.Send(context.Background()""", """	if len(msg.Error) > 512 {
		msg.Error = msg.Error[:512]
	}
	now := time.Now()
	err := s.adapter.Send(context.Background()""")], "a stream closed with a cause whose text is long", "the other side reports another text, or the close is not delivered when the cut splits a character",
(f"strings time {P} {P}/internal/bus {PKG}client {PKG}server", """
func demo() {
	b := bus.NewLocalMessageBus()
	s := newServer(b)
	cause := psrpc.NewErrorf(psrpc.NotFound, "%s", strings.Repeat("é", 700))
	must(server.RegisterStreamHandler[*Str, *Str](s, "stream", nil, func(st psrpc.ServerStream[*Str, *Str]) error { return cause }, nil))
	st, err := client.OpenStream[*Str, *Str](bg, newClient(b), "stream", nil)
	must(err)
	select {
	case <-st.Context().Done():
	case <-time.After(3 * time.Second):
		fail("the stream was not closed")
	}
	expect(st.Err() != nil && st.Err().Error() == cause.Error(), "Err is %v", st.Err())
}
"""))

seed("p16-topic-parts-capped", "P16", [("pkg/info/channels.go", """	for _, t := range topic {
		if len(t) != 0 {
			b = append(b, '.')""", """	for i, t := range topic {
		if len(t) != 0 && i < 4 {
			b = append(b, '.')""")], "topics of five parts or more", "topics which differ in later parts share a channel of the server",
(f"{PKG}info", """
func demo() {
	d := sd()
	n := func(topic ...string) string { return d.GetInfo("claim", topic).GetRPCChannel().Server }
	expect(n("a", "b", "c", "d", "e") != n("a", "b", "c", "d", "f"), "the channels of two topics are equal: %s", n("a", "b", "c", "d", "e"))
	_ = info.ServiceDefinition{}
}
"""))

seed("p20-abort-goes-on", "P20", [("pkg/middleware/recovery.go", """			if r := recover(); r != nil {""", """			if r := recover(); r != nil {
				if err, ok := r.(error); ok && errors.Is(err, http.ErrAbortHandler) {
					panic(r) // the recovery of net/http knows it
				}""")] + [("pkg/middleware/recovery.go", '''import (
''', '''import (
	"errors"
	"net/http"
''')], "a handler that panics with http.ErrAbortHandler", "the process ends",
(f"context errors fmt net/http time {P} {P}/internal/bus {PKG}client {PKG}server {PKG}middleware", """
func demo() {
	b := bus.NewLocalMessageBus()
	s := newServer(b, psrpc.WithServerRPCInterceptors(middleware.WithServerRecovery()))
	must(server.RegisterHandler[*Str, *Str](s, "direct", nil, func(_ context.Context, r *Str) (*Str, error) { panic(fmt.Errorf("proxy: %w", http.ErrAbortHandler)) }, nil))
	_, err := client.RequestSingle[*Str](bg, newClient(b), "direct", nil, str("x"), psrpc.WithRequestTimeout(2*time.Second))
	var e psrpc.Error
	expect(errors.As(err, &e) && e.Code() == psrpc.Internal, "the caller got %v", err)
}
"""))

seed("p09-hijacked-failure-closes", "P09", [(ST, """	if !ss.Hijacked() {
""", """	if err != nil || !ss.Hijacked() {
""")], "a handler which hijacks its stream and returns an error", "the stream is closed although it was hijacked",
(f"time {P} {P}/internal/bus {PKG}client {PKG}server", """
func demo() {
	b := bus.NewLocalMessageBus()
	s := newServer(b)
	must(server.RegisterStreamHandler[*Str, *Str](s, "stream", nil, func(st psrpc.ServerStream[*Str, *Str]) error {
		st.Hijack()
		return psrpc.ErrSlowConsumer
	}, nil))
	st, err := client.OpenStream[*Str, *Str](bg, newClient(b), "stream", nil)
	must(err)
	time.Sleep(300 * time.Millisecond)
	expect(st.Err() == nil, "the stream was closed: %v", st.Err())
	must(st.Send(str("x")))
}
"""))

seed("p12-empty-values-dropped", "P12", [("pkg/metadata/metadata.go", """			clone[a[i-1]] = a[i]
""", """			if a[i-1] == "" || a[i] == "" {
				continue
			}
			clone[a[i-1]] = a[i]
""")], "metadata appended with an empty value, over one that was set before", "the handler reads the value set before, or none",
(f"context {P}/internal/bus {PKG}client {PKG}server {PKG}metadata", """
func demo() {
	b := bus.NewLocalMessageBus()
	s := newServer(b)
	var md metadata.Metadata
	must(server.RegisterHandler[*Str, *Str](s, "claim", nil, func(ctx context.Context, r *Str) (*Str, error) {
		md = metadata.IncomingHeader(ctx).Metadata
		return r, nil
	}, nil))
	ctx := metadata.NewContextWithOutgoingMetadata(bg, metadata.Metadata{"tenant": "a"})
	_, err := client.RequestSingle[*Str](metadata.AppendMetadataToOutgoingContext(ctx, "tenant", ""), newClient(b), "claim", nil, str("x"))
	must(err)
	v, ok := md["tenant"]
	expect(ok && v == "", "the handler reads %q", md)
}
"""))

seed("p24-repeat-taken-for-duplicate", "P24", [("internal/bus/subscription.go", """	go func() {
		for {
			b, ok := sub.read()
""", """	go func() {
		var last []byte
		for {
			b, ok := sub.read()
"""), ("internal/bus/subscription.go", """			p, err := deserialize(b)
""", """			// sent again by a connection that was lost
			if len(b) > 0 && bytes.Equal(b, last) {
				continue
			}
			last = b

			p, err := deserialize(b)
"""), ("internal/bus/subscription.go", '''import (
''', '''import (
	"bytes"
''')], "two equal messages in a row", "a subscriber gets one of them",
(f"time {P}/internal/bus {PKG}client", """
func demo() {
	b := bus.NewLocalMessageBus()
	sub, err := client.Join[*Str](bg, newClient(b), "multi", nil)
	must(err)
	time.Sleep(100 * time.Millisecond)
	s := newServer(b)
	for i := 0; i < 3; i++ {
		must(s.Publish(bg, "multi", nil, str("tick")))
	}
	for i := 0; i < 3; i++ {
		select {
		case <-sub.Channel():
		case <-time.After(2 * time.Second):
			fail("%d of 3 updates arrived", i)
		}
	}
}
"""))

seed("p12-incoming-goes-on", "P12", [(ST, """	ctx := metadata.NewContextWithIncomingHeader(context.Background(), head)
""", """	ctx := metadata.NewContextWithIncomingHeader(context.Background(), head)
	if len(open.Metadata) != 0 {
		ctx = metadata.NewContextWithOutgoingMetadata(ctx, open.Metadata)
	}
""")], "a stream handler that calls another service with the context of its stream, opened with metadata", "the metadata of the stream reaches the other service, whose caller never set any",
(f"context {P} {P}/internal/bus {PKG}client {PKG}server {PKG}metadata", """
func demo() {
	b := bus.NewLocalMessageBus()
	s, c := newServer(b), newClient(b)
	var md metadata.Metadata
	must(server.RegisterHandler[*Str, *Str](s, "claim", nil, func(ctx context.Context, r *Str) (*Str, error) {
		md = metadata.IncomingHeader(ctx).Metadata
		return r, nil
	}, nil))
	done := make(chan error, 1)
	must(server.RegisterStreamHandler[*Str, *Str](s, "stream", nil, func(st psrpc.ServerStream[*Str, *Str]) error {
		_, err := client.RequestSingle[*Str](st.Context(), c, "claim", nil, str("x"))
		done <- err
		return nil
	}, nil))
	_, err := client.OpenStream[*Str, *Str](metadata.NewContextWithOutgoingMetadata(bg, metadata.Metadata{"token": "t"}), c, "stream", nil)
	must(err)
	must(<-done)
	expect(len(md) == 0, "the other service got %q", md)
}
"""))
