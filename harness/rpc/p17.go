package main

import (
	"context"
	"fmt"
	"sort"
	"strings"
	"sync"
	"time"

	"google.golang.org/protobuf/proto"

	"github.com/livekit/psrpc"
	"github.com/livekit/psrpc/internal/zzverif/mc"
	. "github.com/livekit/psrpc/internal/zzverif/sim"
	"github.com/livekit/psrpc/pkg/client"
	"github.com/livekit/psrpc/pkg/server"
)

// Behaviours of a layer around a unary call.
const (
	bPass = iota
	bReq
	bRes
	bErr
	bShort
	bFail
	bTwice
	bSwallow
	bNil
	nBehav
)

type layer struct {
	name  string
	behav int
}

type traceKey struct{}

func trace(ctx context.Context) string { s, _ := ctx.Value(traceKey{}).(string); return s }

// events of each request, keyed by the first letter of its text.
type events struct {
	mu sync.Mutex
	m  map[byte][]string
}

func (e *events) add(req string, format string, a ...any) {
	e.mu.Lock()
	defer e.mu.Unlock()
	if e.m == nil {
		e.m = map[byte][]string{}
	}
	k := byte('?')
	if req != "" {
		k = req[0]
	}
	e.m[k] = append(e.m[k], fmt.Sprintf(format, a...))
}

func (e *events) get(k byte) string {
	e.mu.Lock()
	defer e.mu.Unlock()
	return strings.Join(e.m[k], " ")
}

func val(m proto.Message) string {
	if m == nil {
		return "<nil>"
	}
	v, ok := m.(*Msg)
	if !ok {
		return fmt.Sprintf("%T", m)
	}
	if v == nil {
		return "<nil>"
	}
	return v.Value
}

func errVal(err error) string {
	if err == nil {
		return "ok"
	}
	code, _ := psrpc.GetErrorCode(err)
	return string(code) + "/" + err.Error()
}

func (l layer) fail() error { return psrpc.NewErrorf(psrpc.NotFound, "e_%s", l.name) }

// around runs the behaviour of l around next.
func (l layer) around(ev *events, ctx context.Context, req proto.Message, next func(context.Context, proto.Message) (proto.Message, error)) (res proto.Message, err error) {
	r := val(req)
	ev.add(r, "%s>%s@%s", l.name, r, trace(ctx))
	ctx = context.WithValue(ctx, traceKey{}, trace(ctx)+l.name)
	switch l.behav {
	case bShort:
		res = M("s_" + l.name)
	case bFail:
		err = l.fail()
	case bReq:
		res, err = next(ctx, M(r+l.name))
	case bTwice:
		_, _ = next(ctx, req)
		res, err = next(ctx, req)
	default:
		res, err = next(ctx, req)
	}
	switch {
	case l.behav == bRes && err == nil:
		res = M(val(res) + l.name)
	case l.behav == bErr:
		res, err = nil, l.fail()
	case l.behav == bSwallow && err != nil:
		res, err = M("ok_"+l.name), nil
	case l.behav == bNil && err == nil:
		res = nil
	}
	if err != nil {
		ev.add(r, "%s<%s", l.name, errVal(err))
	} else {
		ev.add(r, "%s<%s", l.name, val(res))
	}
	return
}

// expect computes what a call through the layers does. Layers from server on are on
// the server's side: what they return travels.
func expect(layers []layer, nclient int, fails psrpc.ErrorCode, req string) (res, err string, ev []string) {
	var rec func(i int, req, tr string) (string, string)
	rec = func(i int, req, tr string) (res string, err string) {
		if i == nclient {
			tr = ""
		}
		if i == len(layers) {
			ev = append(ev, "h>"+req+"@"+tr)
			if fails != "" {
				return "<nil>", string(fails) + "/bad " + req
			}
			return "h(" + req + ")", "ok"
		}
		l := layers[i]
		ev = append(ev, l.name+">"+req+"@"+tr)
		res, err = "<nil>", "ok"
		in := tr + l.name
		switch l.behav {
		case bShort:
			res = "s_" + l.name
		case bFail:
			err = errVal(l.fail())
		case bReq:
			res, err = rec(i+1, req+l.name, in)
		case bTwice:
			rec(i+1, req, in)
			res, err = rec(i+1, req, in)
		default:
			res, err = rec(i+1, req, in)
		}
		switch {
		case l.behav == bRes && err == "ok":
			res += l.name
		case l.behav == bErr:
			res, err = "<nil>", errVal(l.fail())
		case l.behav == bSwallow && err != "ok":
			res, err = "ok_"+l.name, "ok"
		case l.behav == bNil && err == "ok":
			res = "<nil>"
		}
		if err != "ok" {
			res = "<nil>"
			ev = append(ev, l.name+"<"+err)
		} else {
			ev = append(ev, l.name+"<"+res)
		}
		if i == nclient && err == "ok" && res == "<nil>" {
			res = "" // an empty message
		}
		return
	}
	res, err = rec(0, req, "")
	return
}

// p17rig is a client and server with layers.
type p17rig struct {
	x       *mc.X
	w       *World
	ev      events
	layers  []layer
	nclient int
	opts    []psrpc.RequestOption
	c       *client.RPCClient
	fails   psrpc.ErrorCode // of the handler's errors
	hooks   int
	rpc     string
	topic   []string
}

func (r *p17rig) info(i psrpc.RPCInfo) {
	if i.Service != "svc" || i.Method != r.rpc || fmt.Sprint(i.Topic) != fmt.Sprint(r.topic) || i.Multi != strings.HasPrefix(r.rpc, "multi") {
		r.x.Fail("interceptors or hooks see %+v for %s %v", i, r.rpc, r.topic)
	}
}

func newRig(x *mc.X, rpc string, topic []string, nc, nr, ns, hooks int, fails psrpc.ErrorCode, set func(i int) int) *p17rig {
	r := &p17rig{x: x, w: NewWorld(x), nclient: nc + nr, fails: fails, hooks: hooks, rpc: rpc, topic: topic}
	for i := 0; i < nc+nr+ns; i++ {
		n := fmt.Sprint("c", i)
		if i >= nc {
			n = fmt.Sprint("r", i-nc)
		}
		if i >= nc+nr {
			n = fmt.Sprint("s", i-nc-nr)
		}
		r.layers = append(r.layers, layer{n, set(i)})
	}
	var ci, ri []psrpc.ClientRPCInterceptor
	for i, l := range r.layers[:nc+nr] {
		f := func(info psrpc.RPCInfo, next psrpc.ClientRPCHandler) psrpc.ClientRPCHandler {
			r.info(info)
			return func(ctx context.Context, req proto.Message, opts ...psrpc.RequestOption) (proto.Message, error) {
				return l.around(&r.ev, ctx, req, func(ctx context.Context, req proto.Message) (proto.Message, error) { return next(ctx, req, opts...) })
			}
		}
		if i < nc {
			ci = append(ci, f)
		} else {
			ri = append(ri, f)
		}
	}
	copts := []psrpc.ClientOption{}
	// added one by one or together
	for i, f := range ci {
		if i == 0 || len(ci) != 3 {
			copts = append(copts, psrpc.WithClientRPCInterceptors(f))
		}
	}
	if len(ci) == 3 {
		copts = append(copts, psrpc.WithClientRPCInterceptors(ci[1:]...))
	}
	for i := 0; i < hooks; i++ {
		copts = append(copts, psrpc.WithClientRequestHooks(func(ctx context.Context, req proto.Message, info psrpc.RPCInfo) {
			r.info(info)
			r.ev.add(val(req), "rq%d:%s", i, val(req))
		}), psrpc.WithClientResponseHooks(func(ctx context.Context, req proto.Message, info psrpc.RPCInfo, res proto.Message, err error) {
			r.info(info)
			if err != nil {
				r.ev.add(val(req), "rs%d:%s:%s", i, val(req), errVal(err))
			} else {
				r.ev.add(val(req), "rs%d:%s:%s", i, val(req), val(res))
			}
		}))
	}
	var sopts []psrpc.ServerOption
	for _, l := range r.layers[nc+nr:] {
		sopts = append(sopts, psrpc.WithServerRPCInterceptors(func(ctx context.Context, req proto.Message, info psrpc.RPCInfo, next psrpc.ServerRPCHandler) (proto.Message, error) {
			r.info(info)
			return l.around(&r.ev, ctx, req, next)
		}))
	}
	s := r.w.Server("A", sopts...)
	r.w.Handle(s, rpc, topic, func(ctx context.Context, m *Msg) (*Msg, error) {
		r.ev.add(m.Value, "h>%s@%s", m.Value, trace(ctx))
		if fails != "" {
			return nil, psrpc.NewErrorf(fails, "bad %s", m.Value)
		}
		return M("h(" + m.Value + ")"), nil
	}, nil)
	r.c = r.w.Client("C", copts...)
	if nr > 0 {
		r.opts = append(r.opts, psrpc.WithRequestInterceptors(ri...))
	}
	return r
}

func (r *p17rig) call(req string) {
	res, err := client.RequestSingle[*Msg](context.Background(), r.c, r.rpc, r.topic, M(req), append([]psrpc.RequestOption{psrpc.WithRequestTimeout(2 * time.Second)}, r.opts...)...)
	if r.x.TimeDevs() > 0 {
		if code, _ := psrpc.GetErrorCode(err); code == psrpc.DeadlineExceeded || code == psrpc.Unavailable {
			return
		}
	}
	wres, werr, wev := expect(r.layers, r.nclient, r.fails, req)
	final := wres
	if werr != "ok" {
		final = werr
	}
	var pre, post []string
	for i := 0; i < r.hooks; i++ {
		pre = append(pre, fmt.Sprintf("rq%d:%s", i, req))
		post = append(post, fmt.Sprintf("rs%d:%s:%s", i, req, final))
	}
	want := strings.Join(append(append(pre, wev...), post...), " ")
	got := r.ev.get(req[0])
	if got != want {
		if r.x.TimeDevs() == 0 {
			r.x.Fail("%s through %v: got [%s], expected [%s]", r.rpc, r.layers, got, want)
		}
		return
	}
	gerr := errVal(err)
	gres := "<nil>"
	if err == nil {
		gres = val(res)
	}
	if gres != wres || gerr != werr {
		r.x.Fail("%s through %v: the caller got %s %s, expected %s %s", r.rpc, r.layers, gres, gerr, wres, werr)
	}
	r.x.Out("%s %s", gres, gerr)
}

// p17codes are those of the errors the handler returns, if any: all of them.
var p17codes = []psrpc.ErrorCode{"", psrpc.InvalidArgument, psrpc.Unimplemented, psrpc.Unavailable, psrpc.DeadlineExceeded,
	psrpc.Canceled, psrpc.Internal, psrpc.Unknown, psrpc.NotFound, psrpc.Aborted, psrpc.MalformedRequest, psrpc.MalformedResponse,
	psrpc.AlreadyExists, psrpc.PermissionDenied, psrpc.ResourceExhausted, psrpc.FailedPrecondition, psrpc.OutOfRange,
	psrpc.DataLoss, psrpc.Unauthenticated, psrpc.NotAcceptable, psrpc.UnprocessableEntity,
	psrpc.UpstreamServerError, psrpc.UpstreamClientError}

var p17layouts = [][3]int{{0, 0, 0}, {1, 0, 0}, {2, 1, 0}, {0, 2, 0}, {3, 2, 0}, {0, 0, 1}, {0, 0, 2}, {0, 0, 3}, {1, 1, 1}, {2, 1, 2}}

func p17chain(x *mc.X) {
	n := p17layouts[x.Choice(len(p17layouts), 1)]
	total := n[0] + n[1] + n[2]
	rpc := Pick2(x, 2, "one", "aff")
	codes := p17codes
	if total > 2 {
		codes = codes[:3]
	}
	fails := mc.Pick(x, 3, codes...)
	a, ab, b, bb := -1, 0, -1, 0
	if total > 0 {
		a = x.Choice(total, 4)
		ab = x.Choice(nBehav, 5)
		if ab != 0 && a+1 < total {
			if b = a + x.Choice(total-a, 6); b > a {
				bb = 1 + x.Choice(nBehav-1, 7)
			}
		}
	}
	var topic []string
	if total%2 == 1 {
		topic = []string{"t"}
	}
	r := newRig(x, rpc, topic, n[0], n[1], n[2], total%3, fails, func(i int) int {
		switch i {
		case a:
			return ab
		case b:
			return bb
		}
		return 0
	})
	// nothing of one call shows in the next one
	r.call("p")
	r.call("q")
	r.w.Close()
}

func p17concurrent(behav map[string]int) func(x *mc.X) {
	return func(x *mc.X) {
		r := newRig(x, "one", nil, 2, 1, 3, 1, "", func(i int) int { return behav[[]string{"c0", "c1", "r0", "s0", "s1", "s2"}[i]] })
		Par(func() { r.call("p") }, func() { r.call("q") })
		r.w.Close()
	}
}

// ---- multi requests

type multiLayer struct {
	l    layer
	r    *p17rig
	next psrpc.ClientMultiRPCHandler
	req  string
}

func (m *multiLayer) Send(ctx context.Context, msg proto.Message, opts ...psrpc.RequestOption) error {
	m.req = val(msg)
	m.r.ev.add(m.req, "%s.send:%s", m.l.name, m.req)
	switch m.l.behav {
	case 1:
		msg = M(m.req + m.l.name)
	case 3:
		return m.l.fail()
	}
	return m.next.Send(ctx, msg, opts...)
}

func (m *multiLayer) Recv(msg proto.Message, err error) {
	s := val(msg)
	if err != nil {
		s = errVal(err)
	}
	m.r.ev.add(m.req, "%s.recv:%s", m.l.name, s)
	switch m.l.behav {
	case 2:
		if err == nil {
			msg = M(s + m.l.name)
		}
	case 4:
		m.next.Recv(nil, m.l.fail())
		return
	case 5:
		return
	}
	m.next.Recv(msg, err)
}

func (m *multiLayer) Close() {
	m.r.ev.add(m.req, "%s.close", m.l.name)
	m.next.Close()
}

func p17multi(x *mc.X) {
	nc, nr := x.Choice(3, 1), x.Choice(3, 2)
	codes := p17codes
	if nc+nr > 1 {
		codes = codes[:3]
	}
	fails := mc.Pick(x, 3, codes...)
	at, behav := -1, 0
	if nc+nr > 0 {
		at, behav = x.Choice(nc+nr, 4), x.Choice(6, 5)
	}
	r := &p17rig{x: x, w: NewWorld(x), rpc: "multi", hooks: 1}
	var ls []layer
	var ci, ri []psrpc.ClientMultiRPCInterceptor
	for i := 0; i < nc+nr; i++ {
		l := layer{fmt.Sprint("c", i), 0}
		if i >= nc {
			l.name = fmt.Sprint("r", i-nc)
		}
		if i == at {
			l.behav = behav
		}
		ls = append(ls, l)
		f := func(info psrpc.RPCInfo, next psrpc.ClientMultiRPCHandler) psrpc.ClientMultiRPCHandler {
			r.info(info)
			return &multiLayer{l: l, r: r, next: next}
		}
		if i < nc {
			ci = append(ci, f)
		} else {
			ri = append(ri, f)
		}
	}
	for _, id := range []string{"A", "B"} {
		s := r.w.Server(id)
		r.w.Handle(s, "multi", nil, func(ctx context.Context, m *Msg) (*Msg, error) {
			if id == "B" && fails != "" {
				return nil, psrpc.NewErrorf(fails, "B%s", m.Value)
			}
			return M(id + m.Value), nil
		}, nil)
	}
	c := r.w.Client("C", psrpc.WithClientMultiRPCInterceptors(ci...),
		psrpc.WithClientRequestHooks(func(ctx context.Context, req proto.Message, info psrpc.RPCInfo) {
			r.info(info)
			r.ev.add(val(req), "rq:%s", val(req))
		}), psrpc.WithClientResponseHooks(func(ctx context.Context, req proto.Message, info psrpc.RPCInfo, res proto.Message, err error) {
			r.info(info)
			s := val(res)
			if err != nil {
				s = errVal(err)
			}
			r.ev.add(val(req), "rs:%s", s)
		}))
	opts := []psrpc.RequestOption{psrpc.WithRequestTimeout(time.Second)}
	if nr > 0 {
		opts = append(opts, psrpc.WithRequestInterceptors(ri...))
	}
	for _, req := range []string{"p", "q"} {
		ch, err := client.RequestMulti[*Msg](context.Background(), c, "multi", nil, M(req), opts...)
		var got []string
		if err != nil {
			got = append(got, "send "+errVal(err))
		} else {
			for v := range ch {
				if v.Err != nil {
					got = append(got, errVal(v.Err))
				} else {
					got = append(got, val(v.Result))
				}
			}
		}
		time.Sleep(2 * time.Second)
		// expected, per response
		var want, evs []string
		evs = append(evs, "rq:"+req)
		rq, stop := req, ""
		for _, l := range ls {
			evs = append(evs, l.name+".send:"+rq)
			if l.behav == 1 {
				rq += l.name
			}
			if l.behav == 3 {
				stop = errVal(l.fail())
				break
			}
		}
		if stop != "" {
			want = append(want, "send "+stop)
			evs = append(evs, "rs:"+stop)
		} else {
			for _, id := range []string{"A", "B"} {
				v, bad := id+rq, false
				if id == "B" && fails != "" {
					v, bad = string(fails)+"/B"+rq, true
				}
				hook := v
				// hooks get what the inner layers passed on
				evs = append(evs, "rs:"+hook)
				for _, l := range ls {
					evs = append(evs, l.name+".recv:"+v)
					switch l.behav {
					case 2:
						if !bad {
							v += l.name
						}
					case 4:
						v, bad = errVal(l.fail()), true
					case 5:
						v = ""
					}
					if v == "" {
						break
					}
				}
				if v != "" {
					want = append(want, v)
				}
			}
			for _, l := range ls {
				evs = append(evs, l.name+".close")
			}
		}
		sort.Strings(got)
		sort.Strings(want)
		if fmt.Sprint(got) != fmt.Sprint(want) {
			x.Fail("multi through %v: got %v, expected %v", ls, got, want)
		}
		// order: sends first, closes last, receives per response in chain order
		g := strings.Split(r.ev.get(req[0]), " ")
		if stop == "" {
			closeFrom := len(g) - len(ls)
			if len(g) != len(evs) || fmt.Sprint(g[:1+len(ls)]) != fmt.Sprint(evs[:1+len(ls)]) || closeFrom < 0 || fmt.Sprint(g[closeFrom:]) != fmt.Sprint(evs[len(evs)-len(ls):]) {
				x.Fail("multi through %v: events %v, expected %v", ls, g, evs)
			} else {
				p17perResponse(x, ls, g[1+len(ls):closeFrom], evs[1+len(ls):len(evs)-len(ls)])
			}
		} else if fmt.Sprint(g) != fmt.Sprint(evs) {
			x.Fail("multi through %v: events %v, expected %v", ls, g, evs)
		}
		x.Out("%v", got)
	}
	r.w.Close()
}

// p17perResponse compares the hook calls and those of each layer as multisets, and
// the order of the layers.
func p17perResponse(x *mc.X, ls []layer, got, want []string) {
	pos := func(e string) int {
		for i, l := range ls {
			if strings.HasPrefix(e, l.name+".") {
				return i
			}
		}
		return -1
	}
	last := -1
	for _, e := range got {
		p := pos(e)
		if p == -1 {
			continue
		}
		if p != 0 && p != last+1 {
			x.Fail("the layers %v received in the order %v", ls, got)
			return
		}
		last = p
	}
	a, b := append([]string{}, got...), append([]string{}, want...)
	sort.Strings(a)
	sort.Strings(b)
	if fmt.Sprint(a) != fmt.Sprint(b) {
		x.Fail("multi through %v: responses %v, expected %v", ls, a, b)
	}
}

// ---- streams

type streamLayer struct {
	l    layer
	ev   *Log
	next psrpc.StreamHandler
}

func (m *streamLayer) Send(msg proto.Message, opts ...psrpc.StreamOption) error {
	m.ev.Add("%s.send:%s", m.l.name, val(msg))
	switch m.l.behav {
	case 1:
		msg = M(val(msg) + m.l.name)
	case 3:
		return m.l.fail()
	case 5:
		_ = m.next.Send(msg, opts...)
		return m.l.fail()
	}
	return m.next.Send(msg, opts...)
}

func (m *streamLayer) Recv(msg proto.Message) error {
	m.ev.Add("%s.recv:%s", m.l.name, val(msg))
	switch m.l.behav {
	case 2:
		msg = M(val(msg) + m.l.name)
	case 4:
		return m.l.fail()
	}
	return m.next.Recv(msg)
}

func (m *streamLayer) Close(cause error) error {
	m.ev.Add("%s.close:%v", m.l.name, cause)
	if m.l.behav == 6 {
		cause = m.l.fail()
	}
	return m.next.Close(cause)
}

func p17stream(x *mc.X) {
	nc, nr, ns := x.Choice(3, 1), x.Choice(2, 2), x.Choice(3, 3)
	at, behav := -1, 0
	if nc+nr+ns > 0 {
		at, behav = x.Choice(nc+nr+ns, 4), x.Choice(7, 5)
	}
	closer := x.Choice(2, 6)
	w := NewWorld(x)
	ev := &Log{}
	var ls []layer
	mk := func(name string) psrpc.StreamInterceptor {
		l := layer{name, 0}
		if len(ls) == at {
			l.behav = behav
		}
		ls = append(ls, l)
		return func(info psrpc.RPCInfo, next psrpc.StreamHandler) psrpc.StreamHandler {
			if info.Method != "str" || info.Service != "svc" {
				x.Fail("stream interceptor sees %+v", info)
			}
			return &streamLayer{l, ev, next}
		}
	}
	var ci, ri, si []psrpc.StreamInterceptor
	for i := 0; i < nc; i++ {
		ci = append(ci, mk(fmt.Sprint("c", i)))
	}
	for i := 0; i < nr; i++ {
		ri = append(ri, mk(fmt.Sprint("r", i)))
	}
	for i := 0; i < ns; i++ {
		si = append(si, mk(fmt.Sprint("s", i)))
	}
	cl, sl := ls[:nc+nr], ls[nc+nr:]
	s := w.Server("A", psrpc.WithServerStreamInterceptors(si...), psrpc.WithServerTimeout(time.Second))
	got := make(chan serverSt, 1)
	if err := server.RegisterStreamHandler(s, "str", nil, func(st psrpc.ServerStream[*Msg, *Msg]) error {
		st.Hijack()
		got <- st
		return nil
	}, nil); err != nil {
		x.Fail("register: %v", err)
	}
	c := w.Client("C", psrpc.WithClientStreamInterceptors(ci...))
	opts := []psrpc.RequestOption{psrpc.WithRequestTimeout(time.Second)}
	if nr > 0 {
		opts = append(opts, psrpc.WithRequestInterceptors(ri...))
	}
	st, err := client.OpenStream[*Msg, *Msg](context.Background(), c, "str", nil, opts...)
	if err != nil {
		x.Fail("open: %v", err)
		return
	}
	sst := <-got
	seen := 0
	step := func(what string, want []string) {
		all := ev.All()
		if g := all[seen:]; fmt.Sprint(g) != fmt.Sprint(want) {
			x.Fail("stream layers %v: %s: events %v, expected %v", ls, what, g, want)
		}
		seen = len(all)
	}
	step("open", []string{})
	transfer := func(what string, from, to []layer, send func(m *Msg) error, ch <-chan *Msg) {
		v, werr := what, "ok"
		var evs []string
		stopped := false
		late := ""
		for _, l := range from {
			evs = append(evs, l.name+".send:"+v)
			switch l.behav {
			case 1:
				v += l.name
			case 3:
				stopped, werr = true, errVal(l.fail())
			case 5:
				late = errVal(l.fail())
			}
			if stopped {
				break
			}
		}
		arrives := !stopped
		if !stopped {
			for _, l := range to {
				evs = append(evs, l.name+".recv:"+v)
				if l.behav == 2 {
					v += l.name
				}
				if l.behav == 4 {
					arrives = false
					werr = errVal(psrpc.ErrRequestTimedOut)
					break
				}
			}
		}
		if late != "" && !stopped {
			werr = late
		}
		err := send(M(what))
		if errVal(err) != werr {
			x.Fail("stream layers %v: send returned %v, expected %s", ls, err, werr)
		}
		n := len(ch)
		if arrives != (n == 1) || n > 1 {
			x.Fail("stream layers %v: %d messages arrived, expected %v", ls, n, arrives)
		} else if n == 1 {
			if m := <-ch; m.Value != v {
				x.Fail("stream layers %v: received %q instead of %q", ls, m.Value, v)
			}
		}
		step("send "+what, evs)
	}
	sendC := func(m *Msg) error { return st.Send(m) }
	sendS := func(m *Msg) error { return sst.Send(m) }
	transfer("m", cl, sl, sendC, sst.Channel())
	transfer("n", sl, cl, sendS, st.Channel())
	transfer("o", cl, sl, sendC, sst.Channel())
	near := cl
	cause := psrpc.NewErrorf(psrpc.Aborted, "bye")
	final := errVal(cause)
	var evs []string
	if closer == 1 {
		near = sl
	}
	for _, l := range near {
		evs = append(evs, l.name+".close:"+final[strings.Index(final, "/")+1:])
		if l.behav == 6 {
			final = errVal(l.fail())
		}
	}
	if closer == 0 {
		_ = st.Close(cause)
	} else {
		_ = sst.Close(cause)
	}
	x.Idle()
	all := ev.All()[seen:]
	if len(all) < len(evs) || fmt.Sprint(all[:len(evs)]) != fmt.Sprint(evs) {
		x.Fail("stream layers %v: close: events %v, expected %v", ls, all, evs)
	} else {
		// closing again, or closing the other side, passes the layers as well
		for _, e := range all[len(evs):] {
			if !strings.Contains(e, ".close:") {
				x.Fail("stream layers %v: close: events %v", ls, all)
			}
		}
	}
	for _, e := range []error{st.Err(), sst.Err()} {
		if errVal(e) != final {
			x.Fail("stream layers %v: the stream ended with %v, expected %s", ls, e, final)
		}
	}
	x.Out("%s", final)
	w.Close()
}

// ---- concurrent requests with interceptors of their own

type tagMulti struct {
	psrpc.ClientMultiRPCHandler
	tag string
}

func (t tagMulti) Send(ctx context.Context, m proto.Message, opts ...psrpc.RequestOption) error {
	return t.ClientMultiRPCHandler.Send(ctx, M(val(m)+t.tag), opts...)
}

type tagStream struct {
	psrpc.StreamHandler
	tag string
}

func (t tagStream) Send(m proto.Message, opts ...psrpc.StreamOption) error {
	return t.StreamHandler.Send(M(val(m)+t.tag), opts...)
}

// p17own: n interceptors of the client, added one by one, and own ones per request:
// every request passes the client's and its own, in order.
func p17own(kind string) func(x *mc.X) {
	return func(x *mc.X) {
		w := NewWorld(x)
		s := w.Server("A")
		n := mc.Pick(x, 1, 3, 0, 1, 2, 4, 5)
		var opts []psrpc.ClientOption
		single := func(tag string) psrpc.ClientRPCInterceptor {
			return func(_ psrpc.RPCInfo, next psrpc.ClientRPCHandler) psrpc.ClientRPCHandler {
				return func(ctx context.Context, m proto.Message, opts ...psrpc.RequestOption) (proto.Message, error) {
					return next(ctx, M(val(m)+tag), opts...)
				}
			}
		}
		multi := func(tag string) psrpc.ClientMultiRPCInterceptor {
			return func(_ psrpc.RPCInfo, next psrpc.ClientMultiRPCHandler) psrpc.ClientMultiRPCHandler {
				return tagMulti{next, tag}
			}
		}
		str := func(tag string) psrpc.StreamInterceptor {
			return func(_ psrpc.RPCInfo, next psrpc.StreamHandler) psrpc.StreamHandler { return tagStream{next, tag} }
		}
		base := ""
		for i := 0; i < n; i++ {
			t := fmt.Sprint(i)
			base += t
			switch kind {
			case "single":
				opts = append(opts, psrpc.WithClientRPCInterceptors(single(t)))
			case "multi":
				opts = append(opts, psrpc.WithClientMultiRPCInterceptors(multi(t)))
			case "stream":
				opts = append(opts, psrpc.WithClientStreamInterceptors(str(t)))
			}
		}
		c := w.Client("C", opts...)
		var got sync.Map // what the server got, by first letter
		echo := func(m string) { got.Store(m[:1], m) }
		switch kind {
		case "single":
			w.Handle(s, "one", nil, func(_ context.Context, m *Msg) (*Msg, error) { echo(m.Value); return m, nil }, nil)
		case "multi":
			w.Handle(s, "multi", nil, func(_ context.Context, m *Msg) (*Msg, error) { echo(m.Value); return m, nil }, nil)
		case "stream":
			if err := server.RegisterStreamHandler[*Msg, *Msg](s, "str", nil, func(st psrpc.ServerStream[*Msg, *Msg]) error {
				for m := range st.Channel() {
					echo(m.Value)
				}
				return nil
			}, nil); err != nil {
				x.Fail("register: %v", err)
			}
		}
		one := func(id string, own ...string) func() {
			return func() {
				ctx := context.Background()
				var ro []psrpc.RequestOption
				for _, t := range own {
					switch kind {
					case "single":
						ro = append(ro, psrpc.WithRequestInterceptors(single(t)))
					case "multi":
						ro = append(ro, psrpc.WithRequestInterceptors(multi(t)))
					case "stream":
						ro = append(ro, psrpc.WithRequestInterceptors(str(t)))
					}
				}
				var err error
				switch kind {
				case "single":
					_, err = Call(ctx, c, "one", nil, id, ro...)
				case "multi":
					var ch <-chan *psrpc.Response[*Msg]
					if ch, err = client.RequestMulti[*Msg](ctx, c, "multi", nil, M(id), append(ro, psrpc.WithRequestTimeout(time.Second))...); err == nil {
						for range ch {
						}
					}
				case "stream":
					var st psrpc.ClientStream[*Msg, *Msg]
					if st, err = client.OpenStream[*Msg, *Msg](ctx, c, "str", nil, ro...); err == nil {
						err = st.Send(M(id))
						time.Sleep(time.Second)
						_ = st.Close(nil)
					}
				}
				if err != nil && x.TimeDevs() == 0 {
					x.Fail("%s: %v", id, err)
				}
				want := id + base + strings.Join(own, "")
				if v, ok := got.Load(id); ok && v != want || !ok && x.TimeDevs() == 0 {
					x.Fail("the server got %v, expected %s", v, want)
				}
				x.Out("%v", want)
			}
		}
		Par(one("p", "a"), one("q", "b", "c"))
		one("r")()
		w.Close()
	}
}

func init() {
	add(
		mc.Scenario{Name: "P17/chain", Passes: env, Body: p17chain},
		mc.Scenario{Name: "P17/multi", Passes: env, Body: p17multi},
		mc.Scenario{Name: "P17/stream", Passes: env, Body: p17stream},
	)
	deep := []mc.Pass{mc.P2, mc.P2a}
	add(
		mc.Scenario{Name: "P17/concurrent-pass", Passes: []mc.Pass{mc.P1, mc.P2s}, Deep: deep, Body: p17concurrent(nil)},
		mc.Scenario{Name: "P17/own-single", Passes: []mc.Pass{mc.P1}, Deep: deep, Body: p17own("single")},
		mc.Scenario{Name: "P17/own-multi", Passes: []mc.Pass{mc.P1}, Deep: deep, Body: p17own("multi")},
		mc.Scenario{Name: "P17/own-stream", Passes: []mc.Pass{mc.P1}, Deep: deep, Body: p17own("stream")},
		mc.Scenario{Name: "P17/concurrent-mixed", Passes: []mc.Pass{mc.P1, mc.P2s}, Deep: deep, Body: p17concurrent(map[string]int{"c0": bReq, "c1": bRes, "s0": bTwice, "s2": bRes})},
	)
}
