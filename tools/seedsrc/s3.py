exec(open("/verif/tools/seedsrc/s1.py").read().split('seed("p01')[0])
SEEDS.clear()
OT = "pkg/middleware/otelpsrpc/otel.go"

SPANS = """
// spans is a tracer provider that remembers what happens to its spans.
type spans struct {
	noop.TracerProvider
	mu  sync.Mutex
	log []string
}

type span struct {
	noop.Span
	s    *spans
	name string
}

func (s *spans) Tracer(string, ...trace.TracerOption) trace.Tracer { return tracer{s: s} }

type tracer struct {
	noop.Tracer
	s *spans
}

func (t tracer) Start(ctx context.Context, name string, _ ...trace.SpanStartOption) (context.Context, trace.Span) {
	sp := span{s: t.s, name: name}
	return trace.ContextWithSpan(ctx, sp), sp
}

func (s span) add(what string) {
	s.s.mu.Lock()
	defer s.s.mu.Unlock()
	s.s.log = append(s.s.log, what)
}

func (s span) End(...trace.SpanEndOption)        { s.add("end") }
func (s span) SetStatus(c codes.Code, d string)  { s.add("status " + c.String()) }
func (s span) SetAttributes(kv ...attribute.KeyValue) {
	for _, a := range kv {
		s.add(string(a.Key) + "=" + a.Value.Emit())
	}
}

func (s *spans) has(what string) bool {
	s.mu.Lock()
	defer s.mu.Unlock()
	for _, l := range s.log {
		if l == what {
			return true
		}
	}
	return false
}
"""
OTI = f"context sync go.opentelemetry.io/otel/attribute go.opentelemetry.io/otel/codes go.opentelemetry.io/otel/trace go.opentelemetry.io/otel/trace/noop {P} {P}/internal/bus {PKG}client {PKG}server {PKG}middleware/otelpsrpc"

seed("p25-panic-leaves-span", "P25", [(OT, """				trace.WithSpanKind(trace.SpanKindServer),
			)
			defer span.End()
""", """				trace.WithSpanKind(trace.SpanKindServer),
			)
"""), (OT, """			resp, err := handler(ctx, req)
			span.AddEvent("Inbound message")
			setSpanError(span, err)
""", """			resp, err := handler(ctx, req)
			span.AddEvent("Inbound message")
			setSpanError(span, err)
			span.End()
""")], "a handler panics, and the recovery is installed outside of the tracing", "the span of the request never ends",
(OTI + f" time {PKG}middleware", SPANS + """
func demo() {
	b := bus.NewLocalMessageBus()
	r := &spans{}
	s := newServer(b, psrpc.WithServerRPCInterceptors(middleware.WithServerRecovery()), otelpsrpc.ServerOptions(otelpsrpc.Config{TracerProvider: r}))
	must(server.RegisterHandler[*Str, *Str](s, "direct", nil, func(context.Context, *Str) (*Str, error) { panic("x") }, nil))
	c := newClient(b)
	_, err := client.RequestSingle[*Str](bg, c, "direct", nil, str("x"))
	expect(err != nil, "no error")
	time.Sleep(100 * time.Millisecond)
	expect(r.has("end"), "the span did not end: %v", r.log)
}
"""))

seed("p25-wrapped-error-code", "P25", [(OT, "	if e := psrpc.Error(nil); errors.As(err, &e) {", "	if e, ok := err.(psrpc.Error); ok {"), (OT, '	"errors"\n', "")],
"a handler returns a psrpc error wrapped in another one", "the span of the request lacks the code which the client is told",
(OTI + " fmt time", SPANS + """
func demo() {
	b := bus.NewLocalMessageBus()
	r := &spans{}
	s := newServer(b, otelpsrpc.ServerOptions(otelpsrpc.Config{TracerProvider: r}))
	must(server.RegisterHandler[*Str, *Str](s, "direct", nil, func(context.Context, *Str) (*Str, error) {
		return nil, fmt.Errorf("while working: %w", psrpc.NewErrorf(psrpc.NotFound, "no"))
	}, nil))
	c := newClient(b)
	_, err := client.RequestSingle[*Str](bg, c, "direct", nil, str("x"))
	expect(err != nil, "no error")
	time.Sleep(100 * time.Millisecond)
	expect(r.has("rpc.psrpc.status_code=not_found"), "the span has no code: %v", r.log)
}
"""))

seed("p04-short-circuit-needs-better", "P04", [("pkg/client/rpc.go", """				} else if claim.Affinity > affinity {
					serverID = claim.ServerId
					affinity = claim.Affinity
				}

				if opts.ShortCircuitTimeout > 0 && !shorted {
					shorted = true
					time.AfterFunc(opts.ShortCircuitTimeout, cancel)
				}
""", """					continue
				}
				if claim.Affinity > affinity {
					serverID = claim.ServerId
					affinity = claim.Affinity
				}

				if opts.ShortCircuitTimeout > 0 && !shorted {
					shorted = true
					time.AfterFunc(opts.ShortCircuitTimeout, cancel)
				}
""")], "a request with a selection function and a short circuit timeout", "the selection waits for the whole affinity timeout",
(f"context time {P} {P}/internal/bus {PKG}client {PKG}server", """
func demo() {
	b := bus.NewLocalMessageBus()
	s := newServer(b)
	must(server.RegisterHandler[*Str, *Str](s, "claim", nil, func(_ context.Context, r *Str) (*Str, error) { return r, nil }, nil))
	c := newClient(b)
	start := time.Now()
	_, err := client.RequestSingle[*Str](bg, c, "claim", nil, str("x"), psrpc.WithRequestTimeout(10*time.Second), psrpc.WithSelectionOpts(psrpc.SelectionOpts{
		AffinityTimeout: 5 * time.Second, ShortCircuitTimeout: 50 * time.Millisecond,
		SelectionFunc: func(cl []*psrpc.Claim) (string, error) { return cl[0].ServerID, nil },
	}))
	must(err)
	expect(time.Since(start) < 3*time.Second, "the selection took %v", time.Since(start))
}
"""))

seed("p01-granted-prefix", "P01", [("pkg/server/rpc.go", """		if claim.ServerId == s.ID {
			return true, nil""", """		if strings.HasPrefix(s.ID, claim.ServerId) {
			return true, nil""")], "the id of the granted server is a prefix of the id of another one", "both servers run the request",
(f"context sync/atomic time {P} {P}/internal/bus {PKG}client {PKG}server", """
func demo() {
	b := bus.NewLocalMessageBus()
	var n atomic.Int32
	for _, id := range []string{"node1", "node10", "node11"} {
		s := newServer(b, psrpc.WithServerID(id))
		must(server.RegisterHandler[*Str, *Str](s, "affinity", nil, func(_ context.Context, r *Str) (*Str, error) {
			n.Add(1)
			return r, nil
		}, func(context.Context, *Str) float32 {
			if id == "node1" {
				return 1
			}
			return 0.5
		}))
	}
	c := newClient(b)
	_, err := client.RequestSingle[*Str](bg, c, "affinity", nil, str("x"), psrpc.WithSelectionOpts(psrpc.SelectionOpts{AffinityTimeout: 300 * time.Millisecond}))
	must(err)
	time.Sleep(200 * time.Millisecond)
	expect(n.Load() == 1, "%d servers ran the request", n.Load())
}
"""))

seed("p03-expired-context", "P03", [("pkg/client/rpc.go", """	if opts.AffinityTimeout > 0 {
		time.AfterFunc(opts.AffinityTimeout, cancel)
	}
""", """	if opts.AffinityTimeout > 0 {
		ctx, cancel = context.WithTimeout(context.WithoutCancel(ctx), opts.AffinityTimeout)
		defer cancel()
	}
""")], "a request whose timeout or context ends before its affinity timeout", "the call returns only when the affinity timeout ends",
(f"context time {P} {P}/internal/bus {PKG}client", """
func demo() {
	b := bus.NewLocalMessageBus()
	c := newClient(b)
	ctx, cancel := context.WithTimeout(bg, 100*time.Millisecond)
	defer cancel()
	start := time.Now()
	_, err := client.RequestSingle[*Str](ctx, c, "claim", nil, str("x"), psrpc.WithSelectionOpts(psrpc.SelectionOpts{AffinityTimeout: 4 * time.Second}))
	expect(err != nil, "no error")
	expect(time.Since(start) < 2*time.Second, "the call took %v", time.Since(start))
}
"""))

seed("p05-multi-response-channel", "P05", [("pkg/client/multi.go", """	resCtx, cancel := context.WithTimeout(ctx, o.Timeout)
	m.done = resCtx.Done()
""", """	resCtx, cancel := context.WithDeadline(ctx, now.Add(o.Timeout).Truncate(time.Second))
	m.done = resCtx.Done()
""")], "the timeout of a multi request ends within a second, but not at its start", "responses that arrive in time are not delivered",
(f"context time {P} {P}/internal/bus {PKG}client {PKG}server", """
func demo() {
	b := bus.NewLocalMessageBus()
	s := newServer(b)
	must(server.RegisterHandler[*Str, *Str](s, "multi", nil, func(_ context.Context, r *Str) (*Str, error) {
		time.Sleep(500 * time.Millisecond)
		return r, nil
	}, nil))
	c := newClient(b)
	// the request ends late in a second
	now := time.Now()
	time.Sleep(now.Truncate(time.Second).Add(1900*time.Millisecond).Sub(now) % time.Second)
	ch, err := client.RequestMulti[*Str](bg, c, "multi", nil, str("x"), psrpc.WithRequestTimeout(time.Second))
	must(err)
	n := 0
	for r := range ch {
		must(r.Err)
		n++
	}
	expect(n == 1, "%d responses", n)
}
"""))

seed("p22-late-close-multi", "P22", [("pkg/client/multi.go", """	if c.closed.IsBroken() {
		return nil, psrpc.ErrClientClosed
	}

	i := c.GetInfo(rpc, topic)

	// request hooks
	for _, hook := range c.RequestHooks {
		hook(ctx, request, i.RPCInfo)
	}
""", """	i := c.GetInfo(rpc, topic)

	// request hooks
	for _, hook := range c.RequestHooks {
		hook(ctx, request, i.RPCInfo)
	}

	if c.closed.IsBroken() {
		return nil, psrpc.ErrClientClosed
	}
""")], "a multi request is made on a closed client which has request hooks", "its request hooks are called for a request that is refused, without a response hook",
(f"context {P}  google.golang.org/protobuf/proto {P}/internal/bus {PKG}client", """
func demo() {
	b := bus.NewLocalMessageBus()
	n := 0
	c := newClient(b, psrpc.WithClientRequestHooks(func(context.Context, proto.Message, psrpc.RPCInfo) { n++ }))
	c.Close()
	_, err := client.RequestMulti[*Str](bg, c, "multi", nil, str("x"))
	expect(err == psrpc.ErrClientClosed, "got %v", err)
	expect(n == 0, "the hook was called")
}
"""))

seed("p10-details-of-wrapped", "P10", [("pkg/server/rpc.go", """			res.ErrorDetails = append(res.ErrorDetails, e.DetailsProto()...)
""", """			if d, ok := err.(psrpc.Error); ok {
				res.ErrorDetails = append(res.ErrorDetails, d.DetailsProto()...)
			}
""")], "a handler returns an error with details wrapped in another one", "the caller gets the error without its details",
(f"context errors fmt {P} {P}/internal/bus {PKG}client {PKG}server", """
func demo() {
	b := bus.NewLocalMessageBus()
	s := newServer(b)
	must(server.RegisterHandler[*Str, *Str](s, "direct", nil, func(context.Context, *Str) (*Str, error) {
		return nil, fmt.Errorf("while working: %w", psrpc.NewError(psrpc.NotFound, errors.New("no"), str("detail")))
	}, nil))
	c := newClient(b)
	_, err := client.RequestSingle[*Str](bg, c, "direct", nil, str("x"))
	e, ok := err.(psrpc.Error)
	expect(ok && len(e.Details()) == 1, "got %v", err)
}
"""))

