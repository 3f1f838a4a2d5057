package main

import (
	"context"
	"fmt"
	"sort"
	"strings"
	"time"

	"google.golang.org/protobuf/proto"

	"github.com/livekit/psrpc"
	"github.com/livekit/psrpc/internal/zzverif/mc"
	. "github.com/livekit/psrpc/internal/zzverif/sim"
	"github.com/livekit/psrpc/pkg/client"
	"github.com/livekit/psrpc/pkg/middleware"
)

// observer records what is reported. Durations are kept when exact is set.
type observer struct {
	x     *mc.X
	log   Log
	exact bool
	rpc   string
}

func (o *observer) add(role middleware.MetricRole, i psrpc.RPCInfo, d time.Duration, format string, a ...any) {
	if i.Method != o.rpc || i.Service != "svc" || i.Multi != strings.HasPrefix(o.rpc, "multi") {
		o.x.Fail("a record of %s is reported for %+v", o.rpc, i)
	}
	if d < 0 {
		o.x.Fail("negative duration %v", d)
	}
	s := fmt.Sprintf("%v ", role) + fmt.Sprintf(format, a...)
	if o.exact {
		s += fmt.Sprintf(" took %v", d)
	}
	o.log.Add("%s", s)
}

func (o *observer) OnUnaryRequest(role middleware.MetricRole, i psrpc.RPCInfo, d time.Duration, err error, rx, tx int) {
	o.add(role, i, d, "unary err=%s rx=%d tx=%d", errVal(err), rx, tx)
}
func (o *observer) OnMultiRequest(role middleware.MetricRole, i psrpc.RPCInfo, d time.Duration, n, e, rx, tx int) {
	o.add(role, i, d, "multi results=%d errors=%d rx=%d tx=%d", n, e, rx, tx)
}
func (o *observer) OnStreamSend(role middleware.MetricRole, i psrpc.RPCInfo, d time.Duration, err error, n int) {
	o.add(role, i, d, "send err=%s bytes=%d", errVal(err), n)
}
func (o *observer) OnStreamRecv(role middleware.MetricRole, i psrpc.RPCInfo, err error, n int) {
	o.add(role, i, 0, "recv err=%s bytes=%d", errVal(err), n)
}
func (o *observer) OnStreamOpen(role middleware.MetricRole, i psrpc.RPCInfo) {
	o.add(role, i, 0, "open")
}
func (o *observer) OnStreamClose(role middleware.MetricRole, i psrpc.RPCInfo) {
	o.add(role, i, 0, "close")
}

func (o *observer) expect(what string, want ...string) {
	got := o.log.All()
	sort.Strings(got)
	sort.Strings(want)
	if fmt.Sprint(got) != fmt.Sprint(want) {
		o.x.Fail("%s: reported %q, expected %q", what, got, want)
	}
}

// p19unary: the records of two calls with every outcome.
func p19unary(x *mc.X) {
	w := NewWorld(x)
	rpc := Pick2(x, 1, "one", "aff", "single")
	co, so := &observer{x: x, exact: true, rpc: rpc}, &observer{x: x, exact: true, rpc: rpc}
	var wantC, wantS []string
	var h Handler
	s := w.Server("A", middleware.WithServerMetrics(so))
	before := mc.Pick(x, 2, 0, 70*ms)
	var sent time.Time
	c := w.Client("C", psrpc.WithClientRPCInterceptors(func(i psrpc.RPCInfo, next psrpc.ClientRPCHandler) psrpc.ClientRPCHandler {
		return func(ctx context.Context, m proto.Message, opts ...psrpc.RequestOption) (proto.Message, error) {
			time.Sleep(before)
			sent = time.Now()
			return next(ctx, m, opts...)
		}
	}), middleware.WithClientMetrics(co))
	served := x.Choice(5, 2) > 0
	var took time.Duration
	var outcome int
	h = func(ctx context.Context, m *Msg) (*Msg, error) {
		time.Sleep(took)
		value := m.Value
		m.Value = "the request is the handler's now" // its size was reported as received
		switch outcome {
		case 1:
			return nil, psrpc.NewErrorf(psrpc.NotFound, "no %s", value)
		case 2:
			return nil, fmt.Errorf("plain")
		}
		return M("result of " + value), nil
	}
	if served {
		w.Handle(s, rpc, nil, h, nil)
	}
	opts := []psrpc.RequestOption{psrpc.WithRequestTimeout(time.Second), psrpc.WithSelectionOpts(psrpc.SelectionOpts{AcceptFirstAvailable: true})}
	for i := 0; i < 2; i++ {
		req := strings.Repeat("r", 1+3*i)
		ctx, cancel := context.WithCancel(context.Background())
		took = mc.Pick(x, 4, 0, 300*ms, 2*time.Second)
		outcome = x.Choice(3, 5)
		cancelAt := mc.Pick(x, 6, 0, 200*ms)
		if cancelAt > 0 {
			time.AfterFunc(cancelAt, cancel)
		}
		res, err := client.RequestSingle[*Msg](ctx, c, rpc, nil, M(req), opts...)
		dur := time.Since(sent)
		rx := 0
		if err == nil {
			rx = proto.Size(res)
		}
		wantC = append(wantC, fmt.Sprintf("client unary err=%s rx=%d tx=%d took %v", errVal(err), rx, proto.Size(M(req)), dur))
		if served {
			out, e := M("result of "+req), "ok"
			switch outcome {
			case 1:
				out, e = nil, "not_found/no "+req
			case 2:
				out, e = nil, "unknown/plain"
			}
			tx := 0
			if out != nil {
				tx = proto.Size(out)
			}
			wantS = append(wantS, fmt.Sprintf("server unary err=%s rx=%d tx=%d took %v", e, proto.Size(M(req)), tx, took))
		}
		time.Sleep(3 * time.Second)
		cancel()
		co.expect("client", wantC...)
		so.expect("server", wantS...)
		x.Out("%v", err)
	}
	w.Close()
}

// slowMulti is an interceptor which lets time pass before the request is sent on.
type slowMulti struct {
	psrpc.ClientMultiRPCHandler
	before time.Duration
	sent   *time.Time
}

func (s *slowMulti) Send(ctx context.Context, m proto.Message, opts ...psrpc.RequestOption) error {
	time.Sleep(s.before)
	*s.sent = time.Now()
	return s.ClientMultiRPCHandler.Send(ctx, m, opts...)
}

// p19multi: one record at the end on the client, one per run on the servers.
func p19multi(x *mc.X) {
	w := NewWorld(x)
	co, so := &observer{x: x, exact: true, rpc: "multi"}, &observer{x: x, exact: true, rpc: "multi"}
	var wantS []string
	n := x.Choice(4, 1)
	results, errs, rx := 0, 0, 0
	req := M("request")
	for i := 0; i < n; i++ {
		took := mc.Pick(x, 2, 0, 300*ms, 2*time.Second)
		bad := x.Choice(2, 3) == 1
		res := M(strings.Repeat("x", i+1))
		if took < time.Second {
			if bad {
				errs++
			} else {
				results++
				rx += proto.Size(res)
			}
		}
		s := w.Server(string(rune('A'+i)), middleware.WithServerMetrics(so))
		w.Handle(s, "multi", nil, func(ctx context.Context, m *Msg) (*Msg, error) {
			time.Sleep(took)
			proto.Reset(m)
			if bad {
				return nil, psrpc.NewErrorf(psrpc.NotFound, "no")
			}
			return res, nil
		}, nil)
		if bad {
			wantS = append(wantS, fmt.Sprintf("server multi results=0 errors=1 rx=%d tx=0 took %v", proto.Size(req), took))
		} else {
			wantS = append(wantS, fmt.Sprintf("server multi results=1 errors=0 rx=%d tx=%d took %v", proto.Size(req), proto.Size(res), took))
		}
	}
	// What an interceptor installed before the metrics spends is not part of the call the metrics see.
	before := mc.Pick(x, 2, 0, 200*ms)
	var sent time.Time
	c := w.Client("C", psrpc.WithClientMultiRPCInterceptors(func(i psrpc.RPCInfo, next psrpc.ClientMultiRPCHandler) psrpc.ClientMultiRPCHandler {
		return &slowMulti{next, before, &sent}
	}), middleware.WithClientMetrics(co))
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	if x.Choice(2, 4) == 1 {
		time.AfterFunc(600*ms, cancel)
	}
	var end time.Duration
	ch, err := client.RequestMulti[*Msg](ctx, c, "multi", nil, req, psrpc.WithRequestTimeout(time.Second))
	if err != nil {
		x.Fail("multi: %v", err)
	} else {
		got := 0
		for range ch {
			got++
		}
		end = time.Since(sent)
		if got != results+errs {
			x.Fail("multi: %d responses, expected %d", got, results+errs)
		}
	}
	w.Quiesce()
	co.expect("client", fmt.Sprintf("client multi results=%d errors=%d rx=%d tx=%d took %v", results, errs, rx, proto.Size(req), end))
	so.expect("servers", wantS...)
	x.Out("%d %d", results, errs)
	w.Close()
}

func countPrefix(l *Log, p string) int { return l.CountPrefix(p) }

// p19stream: every send, receive, open and close is reported once, in every schedule.
func p19stream(closers string, sends int) func(x *mc.X) {
	return func(x *mc.X) {
		w := NewWorld(x)
		co, so := &observer{x: x, rpc: "str"}, &observer{x: x, rpc: "str"}
		s := w.Server("A", middleware.WithServerMetrics(so), psrpc.WithServerTimeout(2*time.Second), psrpc.WithServerChannelSize(1))
		p := &pair{w: w}
		got := make(chan serverSt, 1)
		p.handle(s, "str", func(st serverSt) error {
			st.Hijack()
			got <- st
			return nil
		})
		c := w.Client("C", middleware.WithClientMetrics(co))
		st, err := client.OpenStream[*Msg, *Msg](context.Background(), c, "str", nil, psrpc.WithRequestTimeout(2*time.Second))
		if err != nil {
			if x.TimeDevs() == 0 {
				x.Fail("open: %v", err)
			}
			w.Close()
			return
		}
		var sst serverSt
		select {
		case sst = <-got:
		case <-time.After(10 * time.Second):
			w.Close()
			return
		}
		var want []string
		wantErr := map[string]int{}
		var fs []func()
		if sends > 0 {
			fs = append(fs, func() {
				for i := 0; i < sends; i++ {
					m := M(strings.Repeat("m", i+1))
					err := st.Send(m, psrpc.WithTimeout(time.Second))
					want = append(want, fmt.Sprintf("client send err=%s bytes=%d", errVal(err), proto.Size(m)))
					wantErr[errVal(err)]++
				}
			})
		}
		for _, k := range closers {
			switch k {
			case 'c':
				fs = append(fs, func() { _ = st.Close(nil) })
			case 's':
				fs = append(fs, func() { _ = sst.Close(nil) })
			case 'r':
				fs = append(fs, func() {
					t := time.After(5 * time.Second)
					select {
					case m := <-sst.Channel():
						if m != nil {
							m.Value = "changed by the receiver, who owns it"
						}
					case <-t:
					}
				})
			}
		}
		Par(fs...)
		w.Quiesce()
		_ = st.Close(nil)
		_ = sst.Close(nil)
		w.Quiesce()
		for _, o := range []*observer{co, so} {
			role := "client"
			if o == so {
				role = "server"
			}
			if n := countPrefix(&o.log, role+" open"); n != 1 {
				x.Fail("%s reported %d opens of one stream", role, n)
			}
			if n := countPrefix(&o.log, role+" close"); n != 1 {
				x.Fail("%s reported %d closes of one stream", role, n)
			}
		}
		var sent []string
		for _, e := range co.log.All() {
			if strings.HasPrefix(e, "client send") {
				sent = append(sent, e)
			}
		}
		if fmt.Sprint(sent) != fmt.Sprint(want) {
			x.Fail("client reported sends %q, expected %q", sent, want)
		}
		for _, e := range so.log.All() {
			if i := strings.LastIndex(e, " bytes="); strings.HasPrefix(e, "server recv") {
				good := false
				for j := 0; j < sends; j++ {
					good = good || e[i:] == fmt.Sprintf(" bytes=%d", proto.Size(M(strings.Repeat("m", j+1))))
				}
				if !good {
					x.Fail("server reported %q, nothing of this size was sent", e)
				}
			}
		}
		// what was acknowledged was received; a message is received at most once
		ok, all := countPrefix(&so.log, "server recv err=ok"), countPrefix(&so.log, "server recv")
		if ok < wantErr["ok"] || all > sends {
			x.Fail("server reported %d receives (%d good) of %d sends (%d good)", all, ok, sends, wantErr["ok"])
		}
		x.Out("%v %d %d", want, ok, all)
		w.Close()
	}
}

// p19slow: a full channel is reported as an error of the receive.
func p19slow(x *mc.X) {
	w := NewWorld(x)
	co, so := &observer{x: x, rpc: "str", exact: true}, &observer{x: x, rpc: "str"}
	size := 1 + x.Choice(2, 1)
	s := w.Server("A", middleware.WithServerMetrics(so), psrpc.WithServerChannelSize(size))
	p := &pair{w: w}
	got := make(chan serverSt, 1)
	p.handle(s, "str", func(st serverSt) error { st.Hijack(); got <- st; return nil })
	c := w.Client("C", middleware.WithClientMetrics(co))
	st, err := client.OpenStream[*Msg, *Msg](context.Background(), c, "str", nil)
	if err != nil {
		x.Fail("open: %v", err)
		return
	}
	sst := <-got
	wantC, wantS := []string{"client open took 0s"}, []string{"server open"}
	for i := 0; i < 4; i++ {
		m := M(strings.Repeat("m", i))
		err := st.Send(m, psrpc.WithTimeout(time.Second))
		if i < size {
			if err != nil {
				x.Fail("send: %v", err)
			}
			wantC = append(wantC, fmt.Sprintf("client send err=ok bytes=%d took 0s", proto.Size(m)))
			wantS = append(wantS, fmt.Sprintf("server recv err=ok bytes=%d", proto.Size(m)))
		} else {
			wantC = append(wantC, fmt.Sprintf("client send err=%s bytes=%d took 1s", errVal(err), proto.Size(m)))
			wantS = append(wantS, fmt.Sprintf("server recv err=%s bytes=%d", errVal(psrpc.ErrSlowConsumer), proto.Size(m)))
		}
	}
	if err := sst.Send(M("back")); err != nil {
		x.Fail("send: %v", err)
	}
	wantS = append(wantS, fmt.Sprintf("server send err=ok bytes=%d", proto.Size(M("back"))))
	wantC = append(wantC, fmt.Sprintf("client recv err=ok bytes=%d took 0s", proto.Size(M("back"))))
	co.expect("client", wantC...)
	so.expect("server", wantS...)
	_ = st.Close(nil)
	w.Close()
}

// p19concurrent: concurrent calls do not disturb each other's records.
func p19concurrent(x *mc.X) {
	w := NewWorld(x)
	co, so := &observer{x: x, rpc: "one"}, &observer{x: x, rpc: "one"}
	s := w.Server("A", middleware.WithServerMetrics(so))
	w.Handle(s, "one", nil, func(_ context.Context, m *Msg) (*Msg, error) {
		if m.Value == "bad" {
			return nil, psrpc.NewErrorf(psrpc.NotFound, "no")
		}
		return M("fine result"), nil
	}, nil)
	c := w.Client("C", middleware.WithClientMetrics(co))
	var wc, ws []string
	var want [2]string
	call := func(i int, req string) {
		res, err := client.RequestSingle[*Msg](context.Background(), c, "one", nil, M(req), psrpc.WithRequestTimeout(time.Second))
		rx := 0
		if err == nil {
			rx = proto.Size(res)
		}
		want[i] = fmt.Sprintf("client unary err=%s rx=%d tx=%d", errVal(err), rx, proto.Size(M(req)))
	}
	Par(func() { call(0, "bad") }, func() { call(1, "good one") })
	w.Quiesce()
	wc = want[:]
	ws = []string{
		fmt.Sprintf("server unary err=not_found/no rx=%d tx=0", proto.Size(M("bad"))),
		fmt.Sprintf("server unary err=ok rx=%d tx=%d", proto.Size(M("good one")), proto.Size(M("fine result"))),
	}
	co.expect("client", wc...)
	if x.TimeDevs() == 0 {
		so.expect("server", ws...)
	}
	w.Close()
}

func init() {
	add(
		mc.Scenario{Name: "P19/unary", Passes: env, Body: p19unary},
		mc.Scenario{Name: "P19/multi", Passes: env, Body: p19multi},
		mc.Scenario{Name: "P19/slow", Passes: env, Body: p19slow},
	)
	for _, k := range []struct {
		c string
		n int
	}{{"cs", 0}, {"c", 1}, {"s", 1}, {"r", 1}, {"r", 3}, {"csr", 1}} {
		add(mc.Scenario{Name: fmt.Sprintf("P19/stream-%s%d", k.c, k.n), Passes: []mc.Pass{mc.P1, mc.P2s}, Deep: []mc.Pass{mc.P2, mc.P2a}, Body: p19stream(k.c, k.n)})
	}
	add(mc.Scenario{Name: "P19/concurrent", Passes: []mc.Pass{mc.P1, mc.P2s}, Deep: []mc.Pass{mc.P2, mc.P2a}, Body: p19concurrent})
}
