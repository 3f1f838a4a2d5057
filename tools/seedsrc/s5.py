exec(open("/verif/tools/seedsrc/s1.py").read().split('seed("p01')[0])
SEEDS.clear()
ST, RPC, GEN = "pkg/server/stream.go", "pkg/server/rpc.go", "protoc-gen-psrpc/generator.go"

seed("p01-id-fold", "P01", [(RPC, """		if claim.ServerId == s.ID {
			return true, nil
""", """		// ids may have been normalized on the way
		if strings.EqualFold(claim.ServerId, s.ID) {
			return true, nil
""")], "two servers whose ids differ in case only", "a request is handled by both servers",
(f"context sync/atomic time {P} {P}/internal/bus {PKG}client {PKG}server", """
func demo() {
	b := bus.NewLocalMessageBus()
	var n atomic.Int32
	for _, id := range []string{"SRV_aBcDeF", "SRV_AbCdEf"} {
		s := newServer(b, psrpc.WithServerID(id))
		must(server.RegisterHandler[*Str, *Str](s, "claim", nil, func(_ context.Context, r *Str) (*Str, error) { n.Add(1); return r, nil }, nil))
	}
	c := newClient(b)
	for i := 0; i < 5; i++ {
		_, err := client.RequestSingle[*Str](bg, c, "claim", nil, str("x"))
		must(err)
	}
	time.Sleep(300 * time.Millisecond)
	expect(n.Load() == 5, "5 requests were handled %d times", n.Load())
}
"""))

seed("p07-key-joined", "P07", [("pkg/info/channels.go", """	return formatChannel('.', i.Method, i.Topic)
""", """	key := i.Method
	for _, t := range i.Topic {
		key += "." + t
	}
	return key
""")], "two topics whose parts are the same when joined with dots", "the second registration is refused, or a deregistration removes the other handler",
(f"context {PKG}client {PKG}server {P}/internal/bus", """
func demo() {
	b := bus.NewLocalMessageBus()
	s := newServer(b)
	h := func(_ context.Context, r *Str) (*Str, error) { return r, nil }
	must(server.RegisterHandler[*Str, *Str](s, "claim", []string{"a.b", "c"}, h, nil))
	must(server.RegisterHandler[*Str, *Str](s, "claim", []string{"a", "b.c"}, h, nil))
	s.DeregisterHandler("claim", []string{"a", "b.c"})
	_, err := client.RequestSingle[*Str](bg, newClient(b), "claim", []string{"a.b", "c"}, str("x"))
	must(err)
}
"""))

seed("p12-sent-at-seconds", "P12", [(RPC, """		SentAt:   time.Unix(0, ir.SentAt),
""", """		SentAt:   time.UnixMilli(ir.SentAt / int64(time.Millisecond)),
""")], "a handler reads when its request was sent, to less than a millisecond", "the time sent is not the caller's",
(f"context time {PKG}client {PKG}server {PKG}metadata {P}/internal/bus", """
func demo() {
	b := bus.NewLocalMessageBus()
	s := newServer(b)
	var at time.Time
	must(server.RegisterHandler[*Str, *Str](s, "claim", nil, func(ctx context.Context, r *Str) (*Str, error) {
		at = metadata.IncomingHeader(ctx).SentAt
		return r, nil
	}, nil))
	c := newClient(b)
	for i := 0; i < 20; i++ {
		from := time.Now().Round(0)
		_, err := client.RequestSingle[*Str](bg, c, "claim", nil, str("x"))
		must(err)
		expect(!at.Before(from), "the request was sent at %v, before it was made at %v", at, from)
	}
}
"""))

seed("p16-astral-truncated", "P16", [("pkg/info/channels.go", """		} else if r < 0x10000 {
			buf""", """		} else if r <= 0x10ffff {
			buf""")], "two topics that differ in a character outside of the basic plane", "they share a channel: a request reaches the server of another topic",
(f"context {PKG}client {PKG}server {P}/internal/bus", """
func demo() {
	b := bus.NewLocalMessageBus()
	for _, t := range []string{"\\U0001F600", "\\U0002F600"} {
		s := newServer(b)
		must(server.RegisterHandler[*Str, *Str](s, "claim", []string{t}, func(context.Context, *Str) (*Str, error) { return str(t), nil }, nil))
	}
	c := newClient(b)
	for i := 0; i < 20; i++ {
		for _, t := range []string{"\\U0001F600", "\\U0002F600"} {
			r, err := client.RequestSingle[*Str](bg, c, "claim", []string{t}, str("x"))
			must(err)
			expect(r.Value == t, "%q answered for %q", r.Value, t)
		}
	}
}
"""))

seed("p18-timeout-first", "P18", [("pkg/middleware/retry.go", """					nextOpts = make([]psrpc.RequestOption, len(opts)+1)
					copy(nextOpts, opts)
					nextOpts[len(opts)] = psrpc.WithRequestTimeout(timeout)
""", """					nextOpts = append([]psrpc.RequestOption{psrpc.WithRequestTimeout(timeout)}, opts...)
""")], "a call with retries has a request timeout of its own", "the attempts do not have the timeouts of the retry options",
(f"time {P} {PKG}client {PKG}middleware {P}/internal/bus", """
func demo() {
	c := newClient(bus.NewLocalMessageBus(), middleware.WithRPCRetries(middleware.RetryOptions{MaxAttempts: 3, Timeout: 100 * time.Millisecond}))
	start := time.Now()
	_, err := client.RequestSingle[*Str](bg, c, "direct", nil, str("x"), psrpc.WithRequestTimeout(5*time.Second))
	expect(err != nil, "no error")
	expect(time.Since(start) < 3*time.Second, "three attempts of 100 ms took %v", time.Since(start))
}
"""))

seed("p19-recv-error-lost", "P19", [("pkg/middleware/metrics.go", """	defer func() { s.observer.OnStreamRecv(s.role, s.info, err, size) }()
	return s.StreamHandler.Recv(msg)
""", """	defer s.observer.OnStreamRecv(s.role, s.info, err, size)
	return s.StreamHandler.Recv(msg)
""")], "a stream message arrives while the channel of the receiver is full", "the failure is not reported",
(f"time {P} {PKG}client {PKG}server {PKG}middleware {P}/internal/bus", """
type obs struct{ errs chan error }

func (o obs) OnUnaryRequest(middleware.MetricRole, psrpc.RPCInfo, time.Duration, error, int, int) {}
func (o obs) OnMultiRequest(middleware.MetricRole, psrpc.RPCInfo, time.Duration, int, int, int, int) {}
func (o obs) OnStreamSend(middleware.MetricRole, psrpc.RPCInfo, time.Duration, error, int) {}
func (o obs) OnStreamRecv(_ middleware.MetricRole, _ psrpc.RPCInfo, err error, _ int) { o.errs <- err }
func (o obs) OnStreamOpen(middleware.MetricRole, psrpc.RPCInfo)  {}
func (o obs) OnStreamClose(middleware.MetricRole, psrpc.RPCInfo) {}

func demo() {
	b := bus.NewLocalMessageBus()
	o := obs{make(chan error, 10)}
	s := newServer(b, psrpc.WithServerChannelSize(1), middleware.WithServerMetrics(o))
	stop := make(chan bool)
	must(server.RegisterStreamHandler[*Str, *Str](s, "stream", nil, func(psrpc.ServerStream[*Str, *Str]) error { <-stop; return nil }, nil))
	st, err := client.OpenStream[*Str, *Str](bg, newClient(b), "stream", nil)
	must(err)
	must(st.Send(str("1"), psrpc.WithTimeout(time.Second)))
	expect(st.Send(str("2"), psrpc.WithTimeout(time.Second)) != nil, "the second message was received")
	expect(<-o.errs == nil && <-o.errs != nil, "the message that was not received is reported as received")
	close(stop)
}
"""))

seed("p25-metadata-reset", "P25", [("pkg/middleware/otelpsrpc/otel.go", """				ctx = metadata.WithOutgoingMetadata(ctx, m)
""", """				ctx = metadata.NewContextWithOutgoingMetadata(ctx, m)
""")], "a traced call with outgoing metadata", "the metadata of the caller is lost",
(f"context {PKG}client {PKG}server {PKG}metadata {PKG}middleware/otelpsrpc {P}/internal/bus", """
func demo() {
	b := bus.NewLocalMessageBus()
	s := newServer(b)
	must(server.RegisterHandler[*Str, *Str](s, "claim", nil, func(ctx context.Context, r *Str) (*Str, error) {
		return str(metadata.IncomingHeader(ctx).Metadata["k"]), nil
	}, nil))
	c := newClient(b, otelpsrpc.ClientOptions(otelpsrpc.Config{}))
	r, err := client.RequestSingle[*Str](metadata.AppendMetadataToOutgoingContext(bg, "k", "v"), c, "claim", nil, str("x"))
	must(err)
	expect(r.Value == "v", "the handler read %q", r.Value)
}
"""))

seed("p17-recv-bypass", "P17", [("pkg/client/multi.go", """				err = psrpc.NewErrorFromResponse(res.Code, res.Error, res.ErrorDetails...)
			} else {
				v, err""", """				err = psrpc.NewErrorFromResponse(res.Code, res.Error, res.ErrorDetails...)
				if c := psrpc.ErrorCode(res.Code); c == psrpc.Unimplemented {
					// nothing for the interceptors to see
					m.Recv(v, err)
					continue
				}
			} else {
				v, err""")], "a server answers a multi request with an unimplemented error, and the client has multi interceptors or response hooks", "the response passes neither hooks nor interceptors",
(f"context {P} {PKG}client {PKG}server {P}/internal/bus google.golang.org/protobuf/proto", """
func demo() {
	b := bus.NewLocalMessageBus()
	s := newServer(b)
	must(server.RegisterHandler[*Str, *Str](s, "multi", nil, func(context.Context, *Str) (*Str, error) { return nil, psrpc.ErrUnimplemented }, nil))
	seen := 0
	c := newClient(b, psrpc.WithClientResponseHooks(func(context.Context, proto.Message, psrpc.RPCInfo, proto.Message, error) { seen++ }))
	ch, err := client.RequestMulti[*Str](bg, c, "multi", nil, str("x"))
	must(err)
	n := 0
	for range ch {
		n++
	}
	expect(n == 1 && seen == 1, "%d responses, %d seen by the hook", n, seen)
}
"""))

seed("p23-claims-unlocked", "P23", [(ST, """				h.mu.RLock()
				claimChan, ok := h.claims[claim.RequestId]
				h.mu.RUnlock()
				if ok {""", """				claimChan, ok := h.claims[claim.RequestId]
				if ok {""")], "a stream is granted while another is being claimed", "the map of claims is read while it is written",
(f"sync {P} {PKG}client {PKG}server {P}/internal/bus", """
//race
func demo() {
	b := bus.NewLocalMessageBus()
	s := newServer(b)
	must(server.RegisterStreamHandler[*Str, *Str](s, "stream", nil, func(psrpc.ServerStream[*Str, *Str]) error { return nil }, nil))
	var wg sync.WaitGroup
	for i := 0; i < 8; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			c := newClient(b)
			for j := 0; j < 20; j++ {
				if st, err := client.OpenStream[*Str, *Str](bg, c, "stream", nil); err == nil {
					_ = st.Close(nil)
				}
			}
		}()
	}
	wg.Wait()
}
"""))

seed("p24-update-type-ends", "P24", [("internal/bus/subscription.go", """			m, ok := p.(MessageType)
			if !ok {
				continue
			}
""", """			m, ok := p.(MessageType)
			if !ok {
				close(msgChan)
				return
			}
""")], "an update of another known type arrives", "the subscription ends",
(f"time {PKG}client {P}/internal/bus google.golang.org/protobuf/types/known/wrapperspb", """
func demo() {
	b := bus.NewLocalMessageBus()
	s := newServer(b)
	sub, err := client.Join[*Str](bg, newClient(b), "multi", nil)
	must(err)
	must(s.Publish(bg, "multi", nil, wrapperspb.Int64(1)))
	must(s.Publish(bg, "multi", nil, str("x")))
	select {
	case m := <-sub.Channel():
		expect(m != nil && m.Value == "x", "received %v", m)
	case <-time.After(5 * time.Second):
		fail("received nothing")
	}
}
"""))

seed("p11-shorter-of-both", "P11", [("pkg/client/options.go", """		if dt := time.Until(deadline); o.Timeout == 0 || o.Timeout > dt {
			o.Timeout = dt
		}
""", """		if dt := time.Until(deadline).Round(time.Second); o.Timeout == 0 || o.Timeout > dt {
			o.Timeout = dt
		}
""")], "a context deadline which is not a whole number of seconds away", "a call ends before or after its context, with a timeout of no time at all for short ones",
(f"context time {PKG}client {PKG}server {P}/internal/bus", """
func demo() {
	b := bus.NewLocalMessageBus()
	s := newServer(b)
	must(server.RegisterHandler[*Str, *Str](s, "claim", nil, func(_ context.Context, r *Str) (*Str, error) { time.Sleep(1200 * time.Millisecond); return r, nil }, nil))
	ctx, cancel := context.WithTimeout(bg, 1450*time.Millisecond)
	defer cancel()
	_, err := client.RequestSingle[*Str](ctx, newClient(b), "claim", nil, str("x"))
	must(err)
}
"""))

seed("p22-streams-outlive", "P22", [("pkg/client/stream.go", """		case <-closed:
			_ = stream.Close(nil)
			return
""", """		case <-closed:
			if len(recvChan) > 0 {
				// handle what has been received first
				closed = nil
				continue
			}
			_ = stream.Close(nil)
			return
""")], "the client is closed while a stream message is waiting to be handled", "the stream never ends",
(f"time {P} {PKG}client {PKG}server {P}/internal/bus google.golang.org/protobuf/proto", """
type slow struct{ psrpc.StreamHandler }

func (s slow) Recv(msg proto.Message) error {
	time.Sleep(200 * time.Millisecond)
	return s.StreamHandler.Recv(msg)
}

func demo() {
	b := bus.NewLocalMessageBus()
	s := newServer(b)
	ready := make(chan bool)
	must(server.RegisterStreamHandler[*Str, *Str](s, "stream", nil, func(st psrpc.ServerStream[*Str, *Str]) error {
		for i := 0; i < 5; i++ {
			go func() { _ = st.Send(str("x")) }()
		}
		time.Sleep(100 * time.Millisecond)
		close(ready)
		<-st.Context().Done()
		return nil
	}, nil))
	c := newClient(b, psrpc.WithClientStreamInterceptors(func(_ psrpc.RPCInfo, next psrpc.StreamHandler) psrpc.StreamHandler { return slow{next} }))
	st, err := client.OpenStream[*Str, *Str](bg, c, "stream", nil)
	must(err)
	<-ready
	c.Close()
	select {
	case <-st.Context().Done():
	case <-time.After(10 * time.Second):
		fail("the stream of a closed client does not end")
	}
}
"""))
