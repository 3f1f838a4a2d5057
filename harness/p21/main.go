// Command p21 uses generated clients and servers and compares what happens with
// what the method options promise.
package main

import (
	"context"
	"errors"
	"fmt"
	"sort"
	"strings"
	"sync"
	"time"

	"google.golang.org/protobuf/proto"

	"github.com/livekit/psrpc"
	"github.com/livekit/psrpc/internal"
	"github.com/livekit/psrpc/internal/bus"
	"github.com/livekit/psrpc/internal/zzverif/mc"
	kit "github.com/livekit/psrpc/internal/zzverif/p21kit"
	. "github.com/livekit/psrpc/internal/zzverif/sim"
)

type node struct {
	name  string
	aff   float32
	topic int // which of the two topics it serves
	srv   *kit.Server
	block chan struct{} // handlers wait for it, if set
}

type env struct {
	x      *mc.X
	w      *World
	svc    *kit.Service
	mu     sync.Mutex
	runs   []string // "node/method/topic/request"
	affs   []string // "node/method"
	claims int
	nodes  []*node
	serial int
}

func (e *env) take() (runs, affs []string, claims int) {
	e.mu.Lock()
	defer e.mu.Unlock()
	runs, affs, claims = e.runs, e.affs, e.claims
	e.runs, e.affs, e.claims = nil, nil, 0
	sort.Strings(runs)
	sort.Strings(affs)
	return
}

type infoKey struct{}

func topicOf(ctx context.Context) string {
	i, _ := ctx.Value(infoKey{}).(psrpc.RPCInfo)
	return i.Method + "[" + strings.Join(i.Topic, ",") + "]"
}

func (e *env) node(name string, aff float32, topic int) *node {
	n := &node{name: name, aff: aff, topic: topic}
	impl := &kit.Impl{
		Unary: func(method string, ctx context.Context, r *kit.Req) (*kit.Resp, error) {
			e.mu.Lock()
			e.runs = append(e.runs, fmt.Sprintf("%s/%s/%s/%s", n.name, method, topicOf(ctx), r.GetValue()))
			b := n.block
			e.mu.Unlock()
			if b != nil {
				<-b
			}
			if strings.HasSuffix(r.GetValue(), "err") {
				return nil, psrpc.NewErrorf(psrpc.NotFound, "no %s", r.GetValue())
			}
			return &kit.Resp{Value: []byte(n.name + "/" + method + "/" + r.GetValue())}, nil
		},
		Stream: func(method string, s psrpc.ServerStream[*kit.Resp, *kit.Req]) error {
			e.mu.Lock()
			e.runs = append(e.runs, fmt.Sprintf("%s/%s/open", n.name, method))
			e.mu.Unlock()
			for r := range s.Channel() {
				if err := s.Send(&kit.Resp{Value: []byte(n.name + "/" + method + "/" + r.GetValue())}); err != nil {
					return err
				}
			}
			return nil
		},
		Affinity: func(method string, r *kit.Req) float32 {
			e.mu.Lock()
			defer e.mu.Unlock()
			e.affs = append(e.affs, n.name+"/"+method)
			return n.aff
		},
	}
	srv, err := e.svc.NewServer(impl, e.w.Bus, psrpc.WithServerID(name), psrpc.WithServerRPCInterceptors(func(ctx context.Context, r proto.Message, i psrpc.RPCInfo, h psrpc.ServerRPCHandler) (proto.Message, error) {
		if i.Service != e.svc.Go {
			e.x.Fail("a handler of service %s is called for service %s", e.svc.Go, i.Service)
		}
		return h(context.WithValue(ctx, infoKey{}, i), r)
	}))
	if err != nil {
		e.x.Fail("new server: %v", err)
		panic(err)
	}
	n.srv = srv
	e.nodes = append(e.nodes, n)
	return n
}

// topics of a method: two that differ in the last (or, with several, the order).
func topicsOf(m *kit.Method, i int) []string {
	switch {
	case m.Params == 0:
		return nil
	case m.Params == 1:
		return []string{[]string{"one", "two"}[i]}
	}
	return [][]string{{"one", "two"}, {"two", "one"}}[i]
}

func (e *env) register(n *node, on bool) {
	done := map[string]bool{}
	for i := range e.svc.Methods {
		m := &e.svc.Methods[i]
		if !m.Topics || m.Kind == "sub" {
			continue
		}
		if m.Single && n.name == "B" {
			continue // at most one server per topic
		}
		t := topicsOf(m, n.topic)
		if m.Group != "" && !done[m.Group] {
			done[m.Group] = true
			if !on {
				n.srv.DeregisterAll[m.Group](t)
			} else if !e.groupSingle(m.Group) || n.name != "B" {
				if err := n.srv.RegisterAll[m.Group](t); err != nil {
					e.x.Fail("register the topics of group %s on %s: %v", m.Group, n.name, err)
				}
			}
		}
		if m.Group == "" {
			if !on {
				n.srv.Deregister[m.Go](t)
			} else if err := n.srv.Register[m.Go](t); err != nil {
				e.x.Fail("register %s %q on %s: %v", m.Go, t, n.name, err)
			}
		}
	}
}

func (e *env) groupSingle(g string) bool {
	for _, m := range e.svc.Methods {
		if m.Group == g && m.Single {
			return true
		}
	}
	return false
}

// serving are the nodes that serve a method at a topic.
func (e *env) serving(m *kit.Method, topic int) (l []*node) {
	for _, n := range e.nodes {
		if m.Topics && n.topic != topic {
			continue
		}
		if m.Topics && n.name == "B" && (m.Single || m.Group != "" && e.groupSingle(m.Group)) {
			continue
		}
		l = append(l, n)
	}
	return
}

// single: the options promise that only one server is registered; without topics
// that is the caller's business.
func (e *env) lonely() bool {
	for _, m := range e.svc.Methods {
		if m.Single && !m.Topics {
			return true
		}
		// several servers opening one stream is not a documented combination
		if m.Kind == "stream" && m.Route == "multi" && !m.Topics {
			return true
		}
	}
	return false
}

func has(l []string, s string) bool {
	for _, v := range l {
		if v == s {
			return true
		}
	}
	return false
}

var sel = psrpc.WithSelectionOpts(psrpc.SelectionOpts{AffinityTimeout: 200 * time.Millisecond})

func code(err error) psrpc.ErrorCode {
	var e psrpc.Error
	if errors.As(err, &e) {
		return e.Code()
	}
	return ""
}

// call makes one call and judges it; gone: the topic is not served any more.
func (e *env) call(c *kit.Client, m *kit.Method, topic int, gone bool) {
	e.serial++
	req := fmt.Sprint("r", e.serial)
	want := psrpc.ErrorCode("")
	if e.serial%3 == 0 {
		req += "err"
		want = psrpc.NotFound
	}
	t := topicsOf(m, topic)
	who := fmt.Sprintf("%s %q", m.Go, t)
	nodes := e.serving(m, topic)
	if gone && m.Topics {
		nodes = nil
	}
	names := map[string]bool{}
	best := ""
	var bestAff float32 = -1
	for _, n := range nodes {
		names[n.name] = true
		if n.aff > bestAff {
			best, bestAff = n.name, n.aff
		}
	}
	e.take()
	at := m.Go + "[" + strings.Join(t, ",") + "]"
	switch {
	case m.Kind == "unary" && m.Route != "multi":
		var opts []psrpc.RequestOption
		if m.Route == "affinity" {
			opts = append(opts, sel)
		}
		res, err := c.Unary[m.Go](context.Background(), t, &kit.Req{Value: req}, opts...)
		runs, affs, claims := e.take()
		if len(nodes) == 0 {
			if err == nil || len(runs) > 0 {
				e.x.Fail("%s: not registered, but answered %v, %v by %v", who, res, err, runs)
			}
			return
		}
		if len(runs) != 1 {
			e.x.Fail("%s: handled by %v (error %v)", who, runs, err)
			return
		}
		n := strings.SplitN(runs[0], "/", 2)[0]
		if !names[n] || runs[0] != n+"/"+m.Go+"/"+at+"/"+req {
			e.x.Fail("%s: the request %s was handled by %v", who, req, runs)
		}
		if code(err) != want || err == nil && string(res.GetValue()) != n+"/"+m.Go+"/"+req || err == nil && want != "" {
			e.x.Fail("%s: answered %q, %v", who, res.GetValue(), err)
		}
		if m.Single {
			if claims != 0 {
				e.x.Fail("%s: %d claims although only a single server is registered for the topic", who, claims)
			}
			return
		}
		switch m.Route {
		case "affinity":
			if n != best || len(affs) != len(nodes) || claims != len(nodes) {
				e.x.Fail("%s: handled by %s with affinities of %v and %d claims, not by %s of %d servers", who, n, affs, claims, best, len(nodes))
			}
		case "queue":
			if len(affs) != 0 || claims != 1 {
				e.x.Fail("%s: %d of the servers in the queue claimed the request (affinities asked: %v)", who, claims, affs)
			}
		}
	case m.Kind == "unary":
		ch, err := c.Multi[m.Go](context.Background(), t, &kit.Req{Value: req}, psrpc.WithRequestTimeout(time.Second))
		if err != nil {
			e.x.Fail("%s: %v", who, err)
			return
		}
		got := map[string]int{}
		n := 0
		for r := range ch {
			n++
			if r.Err != nil {
				if code(r.Err) != want || want == "" {
					e.x.Fail("%s: %v", who, r.Err)
				}
				continue
			}
			got[string(r.Result.GetValue())]++
		}
		runs, affs, claims := e.take()
		if n != len(nodes) || len(runs) != len(nodes) || len(affs) != 0 || claims != 0 {
			e.x.Fail("%s: %d responses, handled by %v, affinities %v, %d claims; %d servers", who, n, runs, affs, claims, len(nodes))
		}
		for _, x := range nodes {
			if !has(runs, x.name+"/"+m.Go+"/"+at+"/"+req) || want == "" && got[x.name+"/"+m.Go+"/"+req] != 1 {
				e.x.Fail("%s: handled by %v, responses %v; server %s is missing", who, runs, got, x.name)
			}
		}
	case m.Kind == "stream":
		if m.Route == "multi" && len(nodes) > 1 {
			return // no documented meaning
		}
		var opts []psrpc.RequestOption
		if m.Route == "affinity" {
			opts = append(opts, sel)
		}
		s, err := c.Stream[m.Go](context.Background(), t, opts...)
		if len(nodes) == 0 {
			runs, _, _ := e.take()
			if err == nil || len(runs) > 0 {
				e.x.Fail("%s: not registered, but opened (%v) by %v", who, err, runs)
			}
			return
		}
		if err != nil {
			runs, affs, _ := e.take()
			e.x.Fail("%s: open: %v (handled by %v, affinities %v)", who, err, runs, affs)
			return
		}
		e.x.Idle()
		runs, affs, claims := e.take()
		if len(runs) != 1 {
			e.x.Fail("%s: opened by %v", who, runs)
			return
		}
		n := strings.SplitN(runs[0], "/", 2)[0]
		if !names[n] || runs[0] != n+"/"+m.Go+"/open" {
			e.x.Fail("%s: opened by %v", who, runs)
		}
		if !m.Single && m.Route == "affinity" && (n != best || len(affs) != len(nodes) || claims != len(nodes)) {
			e.x.Fail("%s: opened by %s with affinities of %v and %d claims, not by %s of %d servers", who, n, affs, claims, best, len(nodes))
		}
		if !m.Single && m.Route == "queue" && (len(affs) != 0 || claims == 0) || m.Single && claims != 0 {
			e.x.Fail("%s: opened with %d claims, affinities %v", who, claims, affs)
		}
		for i := 0; i < 2; i++ {
			v := fmt.Sprint(req, i)
			if err := s.Send(&kit.Req{Value: v}); err != nil {
				e.x.Fail("%s: send: %v", who, err)
			}
			select {
			case r := <-s.Channel():
				if string(r.GetValue()) != n+"/"+m.Go+"/"+v {
					e.x.Fail("%s: the stream answers %q", who, r.GetValue())
				}
			case <-time.After(5 * time.Second):
				e.x.Fail("%s: the stream does not answer", who)
			}
		}
		if err := s.Close(nil); err != nil {
			e.x.Fail("%s: close: %v", who, err)
		}
	}
}

// sub judges a subscription: what is published at one topic.
func (e *env) sub(m *kit.Method, cs []*kit.Client) {
	type member struct {
		topic int
		s     psrpc.Subscription[*kit.Resp]
	}
	var ms []member
	topics := 1
	if m.Topics {
		topics = 2
	}
	for t := 0; t < topics; t++ {
		for _, c := range cs {
			s, err := c.Sub[m.Go](context.Background(), topicsOf(m, t))
			if err != nil {
				e.x.Fail("subscribe %s: %v", m.Go, err)
				return
			}
			ms = append(ms, member{t, s})
		}
	}
	for t := 0; t < topics; t++ {
		for k := 0; k < 2; k++ {
			e.serial++
			v := fmt.Sprint("u", e.serial)
			if err := e.nodes[k%len(e.nodes)].srv.Publish[m.Go](context.Background(), topicsOf(m, t), &kit.Resp{Value: []byte(v)}); err != nil {
				e.x.Fail("publish %s: %v", m.Go, err)
			}
			e.x.Idle()
			n := 0
			for _, s := range ms {
				for len(s.s.Channel()) > 0 {
					r := <-s.s.Channel()
					if string(r.GetValue()) != v || s.topic != t {
						e.x.Fail("%s: subscriber of topic %d received %q instead of %q of topic %d", m.Go, s.topic, r.GetValue(), v, t)
					}
					n++
				}
			}
			want := len(cs)
			if m.Route != "multi" {
				want = 1
			}
			if n != want {
				e.x.Fail("%s: %d of %d subscribers received an update (%s)", m.Go, n, len(cs), m.Route)
			}
		}
	}
	for _, s := range ms {
		_ = s.s.Close()
	}
}

func (e *env) client() *kit.Client {
	c, err := e.svc.NewClient(e.w.Bus, psrpc.WithClientRPCInterceptors(func(i psrpc.RPCInfo, next psrpc.ClientRPCHandler) psrpc.ClientRPCHandler {
		if i.Service != e.svc.Go || i.Multi {
			e.x.Fail("single call of service %s: %+v", e.svc.Go, i)
		}
		return next
	}), psrpc.WithClientMultiRPCInterceptors(func(i psrpc.RPCInfo, next psrpc.ClientMultiRPCHandler) psrpc.ClientMultiRPCHandler {
		if i.Service != e.svc.Go || !i.Multi {
			e.x.Fail("multi call of service %s: %+v", e.svc.Go, i)
		}
		return next
	}))
	if err != nil {
		e.x.Fail("new client: %v", err)
		panic(err)
	}
	return c
}

func newEnv(x *mc.X, svc *kit.Service) *env {
	e := &env{x: x, w: NewWorld(x), svc: svc}
	e.w.OnPub = func(ch bus.Channel, msg proto.Message, publish func() error) error {
		if _, ok := msg.(*internal.ClaimRequest); ok {
			e.mu.Lock()
			e.claims++
			e.mu.Unlock()
		}
		return publish()
	}
	return e
}

func pick(x *mc.X) *kit.Service {
	if len(kit.Services) == 0 {
		return nil
	}
	const block = 100
	i := x.Choice((len(kit.Services)+block-1)/block, 1) * block
	i += x.Choice(min(block, len(kit.Services)-i), 2)
	svc := kit.Services[i]
	x.Out("%s", svc.Desc)
	return svc
}

// use is a life of servers and clients of one generated service.
func use(x *mc.X) {
	svc := pick(x)
	if svc == nil {
		return
	}
	e := newEnv(x, svc)
	e.node("A", 0.3, 0)
	if !e.lonely() {
		e.node("B", 0.8, 0)
		e.node("C", 0.9, 1)
	}
	cs := []*kit.Client{e.client(), e.client()}
	x.Idle()
	each := func(gone bool) {
		for i := range svc.Methods {
			m := &svc.Methods[i]
			if m.Kind == "sub" {
				e.sub(m, cs)
				continue
			}
			for t := 0; t < 2; t++ {
				if t == 0 || m.Topics {
					e.call(cs[t], m, t, gone)
				}
			}
		}
	}
	toggle := func(on bool) {
		for _, n := range e.nodes {
			e.register(n, on)
		}
	}
	// nothing of a topic is served before it is registered
	each(true)
	toggle(true)
	each(false)
	each(false)
	toggle(false)
	each(true)
	toggle(true)
	each(false)
	e.shutdown(cs[0])
	for _, c := range cs {
		c.Close()
	}
	for i := range svc.Methods {
		m := &svc.Methods[i]
		if m.Kind == "unary" && m.Route != "multi" {
			if _, err := cs[0].Unary[m.Go](context.Background(), topicsOf(m, 0), &kit.Req{}); !errors.Is(err, psrpc.ErrClientClosed) {
				x.Fail("%s on a closed client: %v", m.Go, err)
			}
		}
	}
	e.w.Quiesce()
}

// shutdown: Shutdown waits for a running handler, Kill does not.
func (e *env) shutdown(c *kit.Client) {
	for i := range e.svc.Methods {
		m := &e.svc.Methods[i]
		if m.Kind != "unary" || m.Route == "multi" {
			continue
		}
		b := make(chan struct{})
		e.mu.Lock()
		for _, n := range e.nodes {
			n.block = b
		}
		e.mu.Unlock()
		res := make(chan error, 1)
		go func() {
			_, err := c.Unary[m.Go](context.Background(), topicsOf(m, 0), &kit.Req{Value: "last"}, psrpc.WithRequestTimeout(time.Minute))
			res <- err
		}()
		time.Sleep(time.Second)
		graceful := e.serial%2 == 0
		done := make(chan struct{})
		go func() {
			defer close(done)
			for _, n := range e.nodes {
				if graceful {
					n.srv.Shutdown()
				} else {
					n.srv.Kill()
				}
			}
		}()
		e.x.Idle()
		select {
		case <-done:
			if graceful {
				e.x.Fail("Shutdown returned while a handler of %s was running", m.Go)
			}
		default:
			if !graceful {
				e.x.Fail("Kill waited for a handler of %s", m.Go)
			}
		}
		close(b)
		<-done
		if err := <-res; graceful && err != nil {
			e.x.Fail("%s: the call handled during Shutdown ended with %v", m.Go, err)
		}
		return
	}
	for _, n := range e.nodes {
		n.srv.Kill()
	}
}

// twice: two servers of a queue method at one topic, for which there should be only
// one; a request still goes to one of them.
func twice(x *mc.X) {
	svc := pick(x)
	if svc == nil {
		return
	}
	e := newEnv(x, svc)
	any := false
	for i := range svc.Methods {
		m := &svc.Methods[i]
		any = any || m.Kind == "unary" && m.Route == "queue" && m.Topics
	}
	if !any {
		return
	}
	a, b := e.node("A", 0.5, 0), e.node("B", 0.5, 0)
	for i := range svc.Methods {
		m := &svc.Methods[i]
		if m.Kind != "unary" || m.Route != "queue" || !m.Topics {
			continue
		}
		t := topicsOf(m, 0)
		for _, n := range []*node{a, b} {
			if err := n.srv.Register[m.Go](t); err != nil {
				x.Fail("register: %v", err)
			}
		}
	}
	x.Idle()
	c := e.client()
	e.take()
	for i := range svc.Methods {
		m := &svc.Methods[i]
		if m.Kind != "unary" || m.Route != "queue" || !m.Topics {
			continue
		}
		for j := 0; j < 3; j++ {
			_, err := c.Unary[m.Go](context.Background(), topicsOf(m, 0), &kit.Req{Value: fmt.Sprint(j)})
			x.Idle()
			if runs, _, _ := e.take(); err != nil || len(runs) != 1 {
				x.Fail("%s: handled by %v of two servers of the queue (error %v)", m.Go, runs, err)
			}
		}
	}
	c.Close()
	a.srv.Kill()
	b.srv.Kill()
	e.w.Quiesce()
}

// unimplemented answers everything with the unimplemented error.
func unimplemented(x *mc.X) {
	svc := pick(x)
	if svc == nil {
		return
	}
	e := newEnv(x, svc)
	srv, err := svc.NewServer(nil, e.w.Bus)
	if err != nil {
		x.Fail("new server: %v", err)
		return
	}
	c := e.client()
	for i := range svc.Methods {
		m := &svc.Methods[i]
		if m.Kind == "sub" {
			continue
		}
		t := topicsOf(m, 0)
		if m.Topics {
			if err := srv.Register[m.Go](t); err != nil {
				x.Fail("register: %v", err)
			}
		}
		claims := m.Route != "multi" && !m.Single
		want := psrpc.Unimplemented
		if m.Route == "affinity" && claims {
			want = psrpc.ErrNoResponse.Code() // it is not willing to handle anything
		}
		attempt := func(o ...psrpc.RequestOption) (err error) {
			switch {
			case m.Kind == "stream":
				s, oerr := c.Stream[m.Go](context.Background(), t, o...)
				err = oerr
				if err == nil {
					for range s.Channel() {
					}
					err = s.Err()
				}
			case m.Route == "multi":
				ch, merr := c.Multi[m.Go](context.Background(), t, &kit.Req{}, o...)
				err = merr
				if err == nil {
					n := 0
					for r := range ch {
						err = r.Err
						n++
					}
					if n != 1 {
						x.Fail("%s: %d responses of one server", m.Go, n)
					}
				}
			default:
				_, err = c.Unary[m.Go](context.Background(), t, &kit.Req{}, o...)
			}
			return
		}
		err := attempt()
		if code(err) != want {
			x.Fail("%s of the unimplemented server: %v instead of %s", m.Go, err, want)
		}
		if m.Route == "affinity" && claims {
			// not even to a client that takes any server
			e.take()
			err := attempt(psrpc.WithSelectionOpts(psrpc.SelectionOpts{AcceptFirstAvailable: true}))
			if _, _, n := e.take(); n != 0 || code(err) != want {
				x.Fail("%s of the unimplemented server: %d claims, %v", m.Go, n, err)
			}
		}
	}
	c.Close()
	srv.Kill()
	e.w.Quiesce()
}

// apart: services of different names on one bus do not meet.
func apart(x *mc.X) {
	svc := pick(x)
	if svc == nil {
		return
	}
	a := kit.Services[0]
	for _, s := range kit.Services {
		if s.Go != svc.Go && len(s.Methods) > 0 && len(svc.Methods) > 0 && s.Methods[0].Go == svc.Methods[0].Go && s.Methods[0].Kind == svc.Methods[0].Kind && s.Methods[0].Route == svc.Methods[0].Route &&
			s.Methods[0].Topics == svc.Methods[0].Topics && s.Methods[0].Params == svc.Methods[0].Params && s.Methods[0].Single == svc.Methods[0].Single {
			a = s
			break
		}
	}
	if a == svc || a.Go == svc.Go {
		return
	}
	e, o := newEnv(x, svc), newEnv(x, a)
	o.w = e.w
	e.node("A", 0.3, 0)
	o.node("X", 0.9, 0)
	e.register(e.nodes[0], true)
	o.register(o.nodes[0], true)
	cs := []*kit.Client{e.client()}
	oc := o.client()
	var other psrpc.Subscription[*kit.Resp]
	for i := range svc.Methods {
		m := &svc.Methods[i]
		if m.Kind == "sub" {
			if f := oc.Sub[m.Go]; f != nil && a.Methods[0].Go == m.Go {
				other, _ = f(context.Background(), topicsOf(m, 0))
			}
			e.sub(m, cs)
			if other != nil && len(other.Channel()) > 0 {
				x.Fail("an update of %s reaches the subscribers of %s", svc.Go, a.Go)
			}
			continue
		}
		e.call(cs[0], m, 0, false)
		if runs, _, _ := o.take(); len(runs) > 0 {
			x.Fail("a request for %s is handled by %s: %v", svc.Go, a.Go, runs)
		}
	}
	if other != nil {
		_ = other.Close()
	}
	cs[0].Close()
	oc.Close()
	e.nodes[0].srv.Kill()
	o.nodes[0].srv.Kill()
	e.w.Quiesce()
}

func main() {
	sort.Slice(kit.Services, func(i, j int) bool { return kit.Services[i].Desc < kit.Services[j].Desc })
	p := []mc.Pass{mc.E}
	mc.Main([]mc.Scenario{
		{Name: "P21/use", Passes: p, Body: use},
		{Name: "P21/unimplemented", Passes: p, Body: unimplemented},
		{Name: "P21/twice", Passes: p, Body: twice},
		{Name: "P21/apart", Passes: p, Body: apart},
	}, nil)
}
