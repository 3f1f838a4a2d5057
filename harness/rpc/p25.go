package main

import (
	"context"
	"encoding/binary"
	"errors"
	"fmt"
	"strings"
	"sync"
	"time"

	"go.opentelemetry.io/otel"
	"go.opentelemetry.io/otel/attribute"
	"go.opentelemetry.io/otel/codes"
	"go.opentelemetry.io/otel/propagation"
	otrace "go.opentelemetry.io/otel/trace"
	"go.opentelemetry.io/otel/trace/embedded"
	"go.opentelemetry.io/otel/trace/noop"
	grpccodes "google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"

	"github.com/livekit/psrpc"
	"github.com/livekit/psrpc/internal/zzverif/mc"
	. "github.com/livekit/psrpc/internal/zzverif/sim"
	"github.com/livekit/psrpc/pkg/client"
	"github.com/livekit/psrpc/pkg/metadata"
	"github.com/livekit/psrpc/pkg/middleware"
	"github.com/livekit/psrpc/pkg/middleware/otelpsrpc"
	"github.com/livekit/psrpc/pkg/server"
)

// recorder is a tracer provider that keeps every span.
type recorder struct {
	embedded.TracerProvider
	mu    sync.Mutex
	spans []*span
}

type tracer struct {
	embedded.Tracer
	*recorder
}

type span struct {
	embedded.Span
	rec    *recorder
	name   string
	kind   otrace.SpanKind
	sc     otrace.SpanContext
	parent otrace.SpanContext
	attrs  map[attribute.Key]attribute.Value
	status codes.Code
	desc   string
	errs   []error
	ends   int
	late   bool // changed after its end
}

func (r *recorder) Tracer(string, ...otrace.TracerOption) otrace.Tracer {
	return tracer{recorder: r}
}

func (r *recorder) Start(ctx context.Context, name string, opts ...otrace.SpanStartOption) (context.Context, otrace.Span) {
	cfg := otrace.NewSpanStartConfig(opts...)
	s := &span{rec: r, name: name, kind: cfg.SpanKind(), attrs: map[attribute.Key]attribute.Value{}}
	if !cfg.NewRoot() {
		s.parent = otrace.SpanContextFromContext(ctx)
	}
	r.mu.Lock()
	defer r.mu.Unlock()
	r.spans = append(r.spans, s)
	n := uint64(len(r.spans))
	sc := otrace.SpanContextConfig{TraceID: s.parent.TraceID(), TraceFlags: otrace.FlagsSampled, TraceState: s.parent.TraceState()}
	if !sc.TraceID.IsValid() {
		binary.BigEndian.PutUint64(sc.TraceID[8:], n)
	}
	binary.BigEndian.PutUint64(sc.SpanID[:], n)
	s.sc = otrace.NewSpanContext(sc)
	for _, a := range cfg.Attributes() {
		s.attrs[a.Key] = a.Value
	}
	return otrace.ContextWithSpan(ctx, s), s
}

func (s *span) change(f func()) {
	s.rec.mu.Lock()
	defer s.rec.mu.Unlock()
	s.late = s.late || s.ends > 0
	f()
}

func (s *span) End(...otrace.SpanEndOption) {
	s.rec.mu.Lock()
	s.ends++
	s.rec.mu.Unlock()
}
func (s *span) AddEvent(string, ...otrace.EventOption) { s.change(func() {}) }
func (s *span) AddLink(otrace.Link)                    { s.change(func() {}) }
func (s *span) IsRecording() bool                      { return true }
func (s *span) RecordError(err error, _ ...otrace.EventOption) {
	s.change(func() { s.errs = append(s.errs, err) })
}
func (s *span) SpanContext() otrace.SpanContext       { return s.sc }
func (s *span) SetStatus(c codes.Code, d string)      { s.change(func() { s.status, s.desc = c, d }) }
func (s *span) SetName(n string)                      { s.change(func() { s.name = n }) }
func (s *span) TracerProvider() otrace.TracerProvider { return s.rec }
func (s *span) SetAttributes(kv ...attribute.KeyValue) {
	s.change(func() {
		for _, a := range kv {
			s.attrs[a.Key] = a.Value
		}
	})
}

func (r *recorder) find(sc otrace.SpanContext) *span {
	r.mu.Lock()
	defer r.mu.Unlock()
	for _, s := range r.spans {
		if s.sc.SpanID() == sc.SpanID() {
			return s
		}
	}
	return nil
}

func (r *recorder) prefix(p string) (l []*span) {
	r.mu.Lock()
	defer r.mu.Unlock()
	for _, s := range r.spans {
		if strings.HasPrefix(s.name, p) {
			l = append(l, s)
		}
	}
	return
}

// checkSpan compares a span with the outcome of what it covers.
func checkSpan(x *mc.X, what string, s *span, name string, kind otrace.SpanKind, parent otrace.SpanContext, err error) {
	if s == nil {
		x.Fail("%s: there is no span", what)
		return
	}
	if s.name != name || s.kind != kind {
		x.Fail("%s: the span is %s (%v), expected %s (%v)", what, s.name, s.kind, name, kind)
	}
	if s.parent.SpanID() != parent.SpanID() || s.parent.TraceID() != parent.TraceID() && parent.IsValid() {
		x.Fail("%s: the parent of span %s is %s/%s, expected %s/%s", what, name, s.parent.TraceID(), s.parent.SpanID(), parent.TraceID(), parent.SpanID())
	}
	if s.ends != 1 || s.late {
		x.Fail("%s: span %s was ended %d times (changed after its end: %v)", what, name, s.ends, s.late)
	}
	code, hasCode := s.attrs[otelpsrpc.StatusCodeKey]
	grpc, hasGRPC := s.attrs["rpc.grpc.status_code"]
	if err == nil {
		if s.status != codes.Ok || len(s.errs) != 0 || hasCode && code.AsString() != "" || hasGRPC && grpc.AsInt64() != 0 {
			x.Fail("%s: a success is recorded in %s as %v %q, errors %v, codes %v %v", what, name, s.status, s.desc, s.errs, code.AsString(), grpc.AsInt64())
		}
		return
	}
	if s.status != codes.Error || s.desc != err.Error() || len(s.errs) != 1 || s.errs[0].Error() != err.Error() {
		x.Fail("%s: error %q is recorded in %s as %v %q, errors %v", what, err, name, s.status, s.desc, s.errs)
	}
	var pe psrpc.Error
	if errors.As(err, &pe) != hasCode || hasCode && code.AsString() != string(pe.Code()) {
		x.Fail("%s: error %q (%T) has the psrpc code %q in %s", what, err, err, code.AsString(), name)
	}
	if st, ok := status.FromError(err); ok != hasGRPC || ok && grpc.AsInt64() != int64(st.Code()) {
		x.Fail("%s: error %q (%T) has the gRPC code %v in %s", what, err, err, grpc.AsInt64(), name)
	}
}

var p25errs = []error{
	nil,
	psrpc.NewErrorf(psrpc.NotFound, "missing"),
	errors.New("plain"),
	status.Error(grpccodes.ResourceExhausted, "grpc"),
	fmt.Errorf("outside: %w", psrpc.NewErrorf(psrpc.Aborted, "inside")),
	context.Canceled,
	errors.New(""),
}

// keyed is a propagator with a key of its own.
type keyed struct{ propagation.TraceContext }

func (keyed) Inject(ctx context.Context, c propagation.TextMapCarrier) {
	m := propagation.MapCarrier{}
	propagation.TraceContext{}.Inject(ctx, m)
	for k, v := range m {
		c.Set("x-"+k, v)
	}
}

func (keyed) Extract(ctx context.Context, c propagation.TextMapCarrier) context.Context {
	m := propagation.MapCarrier{}
	for _, k := range c.Keys() {
		if strings.HasPrefix(k, "x-") {
			m[k[2:]] = c.Get(k)
		}
	}
	return propagation.TraceContext{}.Extract(ctx, m)
}

const otherParent = "00-000000000000000000000000000000aa-00000000000000bb-01"

// p25call is one call through traced or untraced ends.
func p25calls(x *mc.X) {
	rpc := Pick2(x, 1, "one", "aff", "single", "queue", "multi")
	ei := x.Choice(len(p25errs)+3, 2)
	traced := x.Choice(4, 3) // both, only the client, only the server, both with a client that does not record
	meta := x.Choice(4, 4)   // none, own, appended, a foreign span
	caller := x.Choice(2, 5) == 1
	custom := x.Choice(2, 6) == 1
	inHandler := x.Choice(2, 7) == 1 // the call is made by the handler of another request
	const noServer, slow, panics = 7, 8, 9
	rec := &recorder{}
	global := traced == 0 && !custom && x.Choice(2, 9) == 1 // the tracer provider of the process
	if global {
		otel.SetTracerProvider(rec)
	}
	cfg := func(p otrace.TracerProvider) otelpsrpc.Config {
		c := otelpsrpc.Config{TracerProvider: p}
		if global {
			c.TracerProvider = nil
		}
		if custom {
			c.TextMapPropagator = keyed{}
		}
		return c
	}
	w := NewWorld(x)
	var sopts []psrpc.ServerOption
	var copts []psrpc.ClientOption
	clientRecords, serverRecords := traced < 2, traced != 1
	switch traced {
	case 0, 1:
		copts = append(copts, otelpsrpc.ClientOptions(cfg(rec)))
	case 3:
		copts = append(copts, otelpsrpc.ClientOptions(cfg(noop.NewTracerProvider())))
	}
	// the panic passes through the tracing before something recovers it
	through := ei == panics && x.Choice(2, 8) == 1
	if through {
		sopts = append(sopts, psrpc.WithServerRPCInterceptors(middleware.WithServerRecovery()))
	}
	if serverRecords {
		sopts = append(sopts, otelpsrpc.ServerOptions(cfg(rec)))
	}
	if !through {
		sopts = append(sopts, psrpc.WithServerRPCInterceptors(middleware.WithServerRecovery()))
	}
	s := w.Server("A", sopts...)
	inbound := map[string]otrace.SpanContext{}
	if ei != noServer {
		w.Handle(s, rpc, []string{"t"}, func(ctx context.Context, m *Msg) (*Msg, error) {
			inbound[m.Value] = otrace.SpanContextFromContext(ctx)
			got := metadata.IncomingHeader(ctx).Metadata
			want := map[string]string{}
			if meta == 1 || meta == 2 {
				want["user"] = m.Value
			}
			for k, v := range got {
				if strings.HasSuffix(k, "traceparent") || strings.HasSuffix(k, "tracestate") {
					continue
				}
				if want[k] != v {
					x.Fail("the handler of %s sees metadata %v", m.Value, got)
				}
				delete(want, k)
			}
			if len(want) > 0 {
				x.Fail("the handler of %s sees metadata %v", m.Value, got)
			}
			if meta == 3 && (custom || traced == 2) && got["traceparent"] != otherParent {
				x.Fail("the handler of %s sees metadata %v instead of the caller's", m.Value, got)
			}
			switch {
			case ei == slow:
				time.Sleep(2 * time.Second)
			case ei == panics:
				panic("boom")
			case p25errs[ei] != nil:
				return nil, p25errs[ei]
			}
			return M("ok " + m.Value), nil
		}, nil)
	}
	c := w.Client("C", copts...)
	call := func(ctx context.Context, req string) {
		before := len(rec.prefix("Sent."))
		var own otrace.Span
		if caller {
			ctx, own = rec.Start(ctx, "own."+req)
		}
		parent := otrace.SpanContextFromContext(ctx)
		switch meta {
		case 1:
			ctx = metadata.NewContextWithOutgoingMetadata(ctx, metadata.Metadata{"user": req})
		case 2:
			ctx = metadata.AppendMetadataToOutgoingContext(ctx, "user", req)
		case 3:
			ctx = metadata.NewContextWithOutgoingMetadata(ctx, metadata.Metadata{"traceparent": otherParent})
		}
		var res string
		var err error
		if rpc == "multi" {
			var ch <-chan *psrpc.Response[*Msg]
			ch, err = client.RequestMulti[*Msg](ctx, c, rpc, []string{"t"}, M(req), psrpc.WithRequestTimeout(time.Second))
			n := 0
			if err == nil {
				for r := range ch {
					n++
					if err = r.Err; err == nil {
						res = val(r.Result)
					}
				}
			}
			if want := 1; n != want && ei != noServer && ei != slow {
				x.Fail("%d responses", n)
			}
		} else {
			res, err = Call(ctx, c, rpc, []string{"t"}, req, psrpc.WithRequestTimeout(time.Second))
		}
		// the outcome is that without tracing
		code, _ := psrpc.GetErrorCode(err)
		switch {
		case ei == noServer || ei == slow:
			if rpc != "multi" && (err == nil || code != psrpc.DeadlineExceeded && code != psrpc.Unavailable) {
				x.Fail("%s without an answer: %q %v", rpc, res, err)
			}
		case ei == panics:
			panicErr(x, rpc, err)
		case ei == 0:
			if err != nil || res != "ok "+req {
				x.Fail("%s %s: %q %v", rpc, req, res, err)
			}
		default:
			want := p25errs[ei]
			if err == nil || (ei == 1 || ei == 2) && err.Error() != want.Error() {
				x.Fail("%s: the handler's error %q became %v", rpc, want, err)
			}
		}
		sent := rec.prefix("Sent.")[before:]
		var inner *span
		switch {
		case rpc == "multi":
		case !clientRecords && len(sent) > 0:
			x.Fail("an untraced client has %d spans", len(sent))
		case clientRecords && len(sent) != 1:
			x.Fail("%s: the call has %d client spans", rpc, len(sent))
		case clientRecords:
			inner = sent[0]
			checkSpan(x, rpc, inner, "Sent.svc."+rpc, otrace.SpanKindClient, parent, err)
		}
		if ei == slow {
			time.Sleep(3 * time.Second)
		}
		w.Quiesce()
		var recv []*span
		for _, s := range rec.prefix("Recv.") {
			if s.sc.SpanID() == inbound[req].SpanID() {
				recv = append(recv, s)
			}
		}
		switch {
		case !serverRecords || ei == noServer:
			if len(recv) > 0 {
				x.Fail("%s: %d server spans", rpc, len(recv))
			}
		case len(recv) != 1:
			x.Fail("%s: the request has %d server spans that its handler sees", rpc, len(recv))
		default:
			up := otrace.SpanContext{}
			foreign := otrace.SpanContextFromContext(propagation.TraceContext{}.Extract(context.Background(), propagation.MapCarrier{"traceparent": otherParent}))
			switch {
			case inner != nil:
				up = inner.sc
			case traced == 3 && parent.IsValid() && rpc != "multi":
				up = parent // a client that does not record passes its caller's span on
			case meta == 3 && !custom:
				up = foreign
			}
			herr := error(nil)
			switch {
			case ei == panics:
				herr = err
				if rpc == "multi" || recv[0].desc == "" {
					herr = errors.New(recv[0].desc)
					if recv[0].status != codes.Error && !through {
						x.Fail("a panic is recorded as %v", recv[0].status)
					}
				}
			case ei < len(p25errs):
				herr = p25errs[ei]
			}
			if rpc == "multi" && parent.IsValid() {
				up = recv[0].parent // whether multi requests carry their caller's span is not specified
			}
			if ei == panics {
				if recv[0].ends != 1 || recv[0].late || recv[0].status == codes.Ok || (recv[0].status != codes.Error && !through) || recv[0].parent.SpanID() != up.SpanID() {
					x.Fail("the span of a request whose handler panicked: ended %d times, %v, parent %v", recv[0].ends, recv[0].status, recv[0].parent.SpanID())
				}
			} else {
				checkSpan(x, rpc, recv[0], "Recv.svc."+rpc, otrace.SpanKindServer, up, herr)
			}
		}
		if own != nil {
			own.End()
			if o := own.(*span); o.ends != 1 || o.late || len(o.attrs) > 0 || len(o.errs) > 0 {
				x.Fail("the caller's own span was changed")
			}
		}
	}
	if inHandler {
		// made by the handler of an outer request that is traced by the same options
		outer := w.Server("B", sopts...)
		oc := w.Client("D", copts...)
		w.Handle(outer, "second", nil, func(ctx context.Context, m *Msg) (*Msg, error) {
			if serverRecords {
				if s := rec.find(otrace.SpanContextFromContext(ctx)); s == nil || s.name != "Recv.svc.second" {
					x.Fail("a handler does not see the span of its own request")
				}
			}
			call(ctx, m.Value)
			return M("out " + m.Value), nil
		}, nil)
		for _, req := range []string{"a", "b"} {
			if res, err := Call(context.Background(), oc, "second", nil, req, psrpc.WithRequestTimeout(10*time.Minute)); err != nil || res != "out "+req {
				x.Fail("outer call: %q %v", res, err)
			}
		}
	} else {
		call(context.Background(), "a")
		call(context.Background(), "b")
	}
	w.Close()
	n := 0
	for _, s := range rec.prefix("") {
		if s.ends != 1 {
			x.Fail("span %s was ended %d times", s.name, s.ends)
		}
		n++
	}
	x.Out("%s %d %d", rpc, ei, n)
}

// p25retry: retries outside and inside of the traced call.
func p25retry(x *mc.X) {
	outside := x.Choice(2, 1) == 1
	fails := x.Choice(4, 2)
	max := 1 + x.Choice(3, 3)
	caller := x.Choice(2, 4) == 1
	rec := &recorder{}
	w := NewWorld(x)
	s := w.Server("A", otelpsrpc.ServerOptions(otelpsrpc.Config{TracerProvider: rec}))
	n := 0
	e := psrpc.NewErrorf(psrpc.Unavailable, "busy")
	w.Handle(s, "one", nil, func(ctx context.Context, m *Msg) (*Msg, error) {
		n++
		if n <= fails {
			return nil, e
		}
		return M("ok"), nil
	}, nil)
	retry := psrpc.WithClientRPCInterceptors(middleware.NewRPCRetryInterceptor(middleware.RetryOptions{MaxAttempts: max, Timeout: 100 * ms, Backoff: 10 * ms}))
	tr := otelpsrpc.ClientOptions(otelpsrpc.Config{TracerProvider: rec})
	opts := []psrpc.ClientOption{tr, retry}
	if outside {
		opts = []psrpc.ClientOption{retry, tr}
	}
	c := w.Client("C", opts...)
	ctx := context.Background()
	if caller {
		var own otrace.Span
		ctx, own = rec.Start(ctx, "own")
		defer own.End()
	}
	parent := otrace.SpanContextFromContext(ctx)
	_, err := Call(ctx, c, "one", nil, "q")
	w.Quiesce()
	attempts := min(fails+1, max)
	if (err == nil) != (fails < max) || n != attempts {
		x.Fail("%d failures, at most %d attempts: %d attempts, %v", fails, max, n, err)
	}
	sent, recv := rec.prefix("Sent."), rec.prefix("Recv.")
	want := 1
	if outside {
		want = attempts
	}
	if len(sent) != want || len(recv) != attempts {
		x.Fail("%d attempts have %d client spans and %d server spans", attempts, len(sent), len(recv))
		return
	}
	outcome := func(i int) error {
		if i < fails {
			return e
		}
		return nil
	}
	for i, s := range sent {
		o := outcome(i)
		if !outside {
			o = outcome(attempts - 1)
		}
		checkSpan(x, "retried call", s, "Sent.svc.one", otrace.SpanKindClient, parent, o)
	}
	for i, s := range recv {
		up := sent[0]
		if outside {
			up = sent[i]
		}
		checkSpan(x, "retried request", s, "Recv.svc.one", otrace.SpanKindServer, up.sc, outcome(i))
	}
	w.Close()
	x.Out("%d", len(sent))
}

// p25concurrent: calls of two clients made with the same options, and with one context.
func p25concurrent(rpc string, shared bool) func(x *mc.X) {
	return func(x *mc.X) {
		rec := &recorder{}
		w := NewWorld(x)
		so := otelpsrpc.ServerOptions(otelpsrpc.Config{TracerProvider: rec})
		co := otelpsrpc.ClientOptions(otelpsrpc.Config{TracerProvider: rec})
		s := w.Server("A", so)
		var mu sync.Mutex
		seen := map[string]otrace.SpanContext{}
		w.Handle(s, rpc, nil, func(ctx context.Context, m *Msg) (*Msg, error) {
			mu.Lock()
			seen[m.Value] = otrace.SpanContextFromContext(ctx)
			mu.Unlock()
			if md := metadata.IncomingHeader(ctx).Metadata; md["user"] != "u" || md["more"] != m.Value {
				x.Fail("metadata %v", md)
			}
			if m.Value == "q" {
				return nil, psrpc.NewErrorf(psrpc.NotFound, "no q")
			}
			return M("ok " + m.Value), nil
		}, nil)
		c := w.Client("C", co)
		d := c
		if !shared {
			d = w.Client("D", co)
		}
		base := metadata.NewContextWithOutgoingMetadata(context.Background(), metadata.Metadata{"user": "u"})
		base, root := rec.Start(base, "root")
		call := func(c *client.RPCClient, req string) {
			ctx, own := rec.Start(base, "own."+req)
			ctx = metadata.AppendMetadataToOutgoingContext(ctx, "more", req)
			res, err := Call(ctx, c, rpc, nil, req, psrpc.WithRequestTimeout(2*time.Second))
			own.End()
			code, _ := psrpc.GetErrorCode(err)
			if x.TimeDevs() == 0 || code != psrpc.DeadlineExceeded && code != psrpc.Unavailable {
				if req == "q" && errVal(err) != "not_found/no q" || req == "p" && res != "ok p" {
					x.Fail("%s: %q %v", req, res, err)
				}
			}
			var mine []*span
			for _, s := range rec.prefix("Sent.") {
				if s.parent.SpanID() == own.SpanContext().SpanID() {
					mine = append(mine, s)
				}
			}
			if len(mine) != 1 {
				x.Fail("the call of %s has %d client spans", req, len(mine))
				return
			}
			checkSpan(x, req, mine[0], "Sent.svc."+rpc, otrace.SpanKindClient, own.SpanContext(), err)
			mu.Lock()
			in, ok := seen[req]
			mu.Unlock()
			if !ok {
				return
			}
			r := rec.find(in)
			if r == nil || r.name != "Recv.svc."+rpc || r.parent.SpanID() != mine[0].sc.SpanID() {
				x.Fail("the handler of %s runs in another span", req)
			}
		}
		Par(func() { call(c, "p") }, func() { call(d, "q") })
		root.End()
		w.Quiesce()
		w.Close()
		if l := rec.prefix("Recv."); len(l) != len(seen) {
			x.Fail("%d server spans for %d requests", len(l), len(seen))
		}
		for _, s := range rec.prefix("") {
			if s.ends != 1 || s.late {
				x.Fail("span %s was ended %d times", s.name, s.ends)
			}
		}
		x.Out("%d", len(rec.prefix("Recv.")))
	}
}

// p25streams: the options change nothing for streams.
func p25streams(x *mc.X) {
	rec := &recorder{}
	w := NewWorld(x)
	s := w.Server("A", otelpsrpc.ServerOptions(otelpsrpc.Config{TracerProvider: rec}))
	n := 1 + x.Choice(3, 1)
	fail := x.Choice(2, 2) == 1
	e := psrpc.NewErrorf(psrpc.NotFound, "the end")
	if err := server.RegisterStreamHandler[*Msg, *Msg](s, "str", nil, func(st psrpc.ServerStream[*Msg, *Msg]) error {
		for m := range st.Channel() {
			_ = st.Send(M("re " + val(m)))
		}
		if fail {
			return e
		}
		return nil
	}, nil); err != nil {
		x.Fail("register: %v", err)
	}
	c := w.Client("C", otelpsrpc.ClientOptions(otelpsrpc.Config{TracerProvider: rec}))
	st, err := client.OpenStream[*Msg, *Msg](context.Background(), c, "str", nil, psrpc.WithRequestTimeout(time.Second))
	if err != nil {
		x.Fail("open: %v", err)
		return
	}
	for i := 0; i < n; i++ {
		if err := st.Send(M(fmt.Sprint(i))); err != nil {
			x.Fail("send: %v", err)
		}
		if m := <-st.Channel(); val(m) != fmt.Sprint("re ", i) {
			x.Fail("received %s", val(m))
		}
	}
	_ = st.Close(nil)
	w.Quiesce()
	w.Close()
	for _, s := range rec.prefix("") {
		if s.ends != 1 {
			x.Fail("span %s was ended %d times", s.name, s.ends)
		}
	}
	x.Out("%d", n)
}

func init() {
	add(
		mc.Scenario{Name: "P25/calls", Passes: env, Body: p25calls},
		mc.Scenario{Name: "P25/retry", Passes: env, Body: p25retry},
		mc.Scenario{Name: "P25/concurrent-one", Passes: []mc.Pass{mc.P1, mc.P2s}, Deep: []mc.Pass{mc.P2}, Body: p25concurrent("one", true)},
		mc.Scenario{Name: "P25/concurrent-two", Passes: []mc.Pass{mc.P1}, Deep: []mc.Pass{mc.P2s, mc.P2a}, Body: p25concurrent("one", false)},
		mc.Scenario{Name: "P25/concurrent-aff", Passes: []mc.Pass{mc.P1}, Deep: []mc.Pass{mc.P2s, mc.P2}, Body: p25concurrent("aff", true)},
		mc.Scenario{Name: "P25/streams", Passes: env, Body: p25streams},
	)
}
