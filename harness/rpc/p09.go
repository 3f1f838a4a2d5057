package main

import (
	"context"
	"errors"
	"fmt"
	"io"
	"runtime"
	"strings"
	"time"

	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"

	"github.com/livekit/psrpc"
	"github.com/livekit/psrpc/internal/zzverif/mc"
	. "github.com/livekit/psrpc/internal/zzverif/sim"
	"github.com/livekit/psrpc/pkg/client"
	"github.com/livekit/psrpc/pkg/server"
)

// cause describes an error the way it must look on both sides.
func causeOf(err error) string {
	if err == nil {
		return "<nil>"
	}
	var e psrpc.Error
	if errors.As(err, &e) {
		return string(e.Code()) + ":" + e.Error()
	}
	return string(psrpc.Unknown) + ":" + err.Error()
}

var closed = causeOf(psrpc.ErrStreamClosed)

// ended checks that one end of a stream is over with one of the causes, and that
// its channel yields exactly the messages of want before it closes.
func ended(x *mc.X, what string, st strm, causes map[string]bool, maxMsgs int) {
	n := 0
	calm := x.TimeDevs()
	drain := func() (closed bool) {
		t := time.NewTimer(10 * time.Second)
		defer t.Stop()
		for {
			select {
			case _, ok := <-st.Channel():
				if !ok {
					return true
				}
				n++
			case <-t.C:
				x.Idle()
				return false
			}
		}
	}
	// what is delayed past an advance of time goes on after it, so that one is not enough
	if !drain() && !drain() && !drain() {
		if x.TimeDevs() == calm {
			x.Fail("%s: the channel does not close", what)
		}
		return
	}
	if n > maxMsgs {
		x.Fail("%s: %d messages instead of %d", what, n, maxMsgs)
	}
	select {
	case <-st.Context().Done():
	case <-time.After(40 * time.Second):
		if x.TimeDevs() == calm {
			x.Fail("%s: the context does not end", what)
		}
		return
	}
	err := st.Err()
	if !causes[causeOf(err)] {
		x.Fail("%s: the cause is %s, expected %v", what, causeOf(err), keys(causes))
	}
	serr := st.Send(M("late"))
	if serr == nil || causeOf(serr) != causeOf(err) {
		x.Fail("%s: send after close: %v, cause %v", what, serr, err)
	}
	cerr := st.Close(errors.New("again"))
	if cerr == nil || causeOf(cerr) != causeOf(err) || causeOf(st.Err()) != causeOf(err) {
		x.Fail("%s: closing again: %v, cause %v", what, cerr, st.Err())
	}
	x.Out("%s %s", what, causeOf(err))
}

func keys(m map[string]bool) (s []string) {
	for k := range m {
		s = append(s, k)
	}
	return
}

var causes = []error{
	nil, errors.New("plain cause"), psrpc.NewErrorf(psrpc.NotFound, "nothing %d", 1), fmt.Errorf("wrapped: %w", psrpc.NewErrorf(psrpc.Internal, "inner")),
	psrpc.ErrStreamEOF,
}

func wantCause(err error) string {
	if err == nil {
		return closed
	}
	return causeOf(err)
}

// p09 ends one stream by the given closers at once: "c" client side, "s" server
// side, "S" server shutdown, "C" client shutdown, "x" caller's context.
func p09(rpc, closers string, sends string, pick bool) func(x *mc.X) {
	return func(x *mc.X) {
		w := NewWorld(x)
		s := w.Server("A", psrpc.WithServerTimeout(2*time.Second))
		p := &pair{w: w}
		got := make(chan serverSt, 1)
		p.handle(s, rpc, func(st serverSt) error {
			st.Hijack()
			got <- st
			return errors.New("not a cause, the stream is hijacked")
		})
		c := w.Client("C")
		ctx, cancel := context.WithCancel(context.Background())
		defer cancel()
		cl, err := client.OpenStream[*Msg, *Msg](ctx, c, rpc, nil, psrpc.WithRequestTimeout(2*time.Second))
		if err != nil {
			if x.TimeDevs() == 0 {
				x.Fail("open: %v", err)
			}
			w.Close()
			return
		}
		sv := <-got
		cc, sc := error(nil), causes[1]
		if pick {
			cc, sc = mc.Pick(x, 1, causes...), mc.Pick(x, 2, causes...)
		}
		want := map[string]bool{}
		var fs []func()
		for _, k := range closers {
			switch k {
			case 'c':
				want[wantCause(cc)] = true
				fs = append(fs, func() { _ = cl.Close(cc) })
			case 's':
				want[wantCause(sc)] = true
				fs = append(fs, func() { _ = sv.Close(sc) })
			case 'S':
				want[causeOf(psrpc.ErrStreamEOF)] = true
				fs = append(fs, func() { s.Close(false) })
			case 'C':
				want[closed] = true
				fs = append(fs, func() { c.Close() })
			case 'x':
				want[causeOf(context.Canceled)] = true
				fs = append(fs, func() { cancel() })
			}
		}
		nc, ns := 0, 0
		for _, k := range sends {
			st, n := strm(cl), &ns
			if k == 's' {
				st, n = strm(sv), &nc
			}
			*n++
			fs = append(fs, func() {
				var err error
				took := Timed(func() { err = st.Send(M("m"), psrpc.WithTimeout(2*time.Second)) })
				within(x, "a send while closing", took, 2*time.Second)
				if err != nil && !want[causeOf(err)] && causeOf(err) != causeOf(psrpc.ErrRequestTimedOut) && x.TimeDevs() == 0 {
					x.Fail("a send while closing failed with %v, expected %v", causeOf(err), keys(want))
				}
			})
		}
		took := Timed(func() { Par(fs...) })
		within(x, "closing", took, 3*time.Second)
		late := func() {
			if x.TimeDevs() > 0 {
				// a close that comes too late is as good as lost
				want[wantCause(nil)] = true
				time.Sleep(10 * time.Second)
				_ = cl.Close(nil)
				_ = sv.Close(nil)
			}
		}
		late()
		ended(x, "client side", cl, want, nc)
		late() // a closed client ends its streams in the background
		ended(x, "server side", sv, want, ns)
		w.Close()
	}
}

// p09handler: the handler's return ends the stream.
func p09handler(x *mc.X) {
	w := NewWorld(x)
	s := w.Server("A")
	p := &pair{w: w}
	ret := mc.Pick(x, 1, causes...)
	k := x.Choice(3, 2) // messages it sends before it returns
	wait := x.Choice(2, 3) == 1
	p.handle(s, "str", func(st serverSt) error {
		for i := 0; i < k; i++ {
			_ = st.Send(M(fmt.Sprint(i)))
		}
		if wait {
			<-st.Channel()
		}
		return ret
	})
	c := w.Client("C")
	st, err := client.OpenStream[*Msg, *Msg](context.Background(), c, "str", nil)
	if err != nil {
		if x.TimeDevs() == 0 {
			x.Fail("open: %v", err)
		}
		w.Close()
		return
	}
	if wait {
		_ = st.Send(M("go"))
	}
	time.Sleep(5 * time.Second)
	n := len(st.Channel())
	if x.TimeDevs() == 0 && n != k {
		x.Fail("%d messages of %d before the end", n, k)
	}
	want := map[string]bool{wantCause(ret): true}
	if x.TimeDevs() > 0 {
		want[wantCause(nil)] = true
		_ = st.Close(nil)
	}
	ended(x, "client side", st, want, k)
	w.Close()
}

// oddCauses are unusual causes, and what the peer reports for them.
var oddCauses = []struct {
	err  error
	peer string
}{
	{errors.New(""), "unknown:"},
	{psrpc.NewErrorf(psrpc.Aborted, ""), "aborted:"},
	{errors.New("  spaces and\nlines \x00 100% %s %d\t"), "unknown:  spaces and\nlines \x00 100% %s %d\t"},
	{psrpc.NewErrorf(psrpc.ResourceExhausted, "%s", strings.Repeat("long ünï ", 3000)), "resource_exhausted:" + strings.Repeat("long ünï ", 3000)},
	{errors.New("not\xffutf8"), "unknown:not\uFFFDutf8"},
	{psrpc.NewErrorf("own_code", "own"), "own_code:own"},
	{psrpc.NewErrorf("", "no code"), "unknown:no code"},
	{status.Error(codes.NotFound, "from grpc"), "unknown:rpc error: code = NotFound desc = from grpc"},
	{context.DeadlineExceeded, "unknown:context deadline exceeded"},
	{io.EOF, "unknown:EOF"},
	{psrpc.ErrSlowConsumer, "unavailable:stream message discarded by slow consumer"},
	{errors.Join(errors.New("a"), psrpc.NewErrorf(psrpc.DataLoss, "b")), "data_loss:b"},
	{psrpc.NewError(psrpc.NotFound, psrpc.NewErrorf(psrpc.Internal, "inner")), "not_found:inner"},
	{psrpc.NewError(psrpc.UpstreamServerError, errors.New("with details"), M("d")), "upstream_server_error:with details"},
	{psrpc.MalformedRequest, "unknown:malformed_request"},
}

// p09causes closes a stream with an unusual cause, from either side or from the handler.
func p09causes(x *mc.X) {
	w := NewWorld(x)
	s := w.Server("A")
	p := &pair{w: w}
	o := oddCauses[x.Choice(len(oddCauses), 1)]
	by := mc.Pick(x, 2, "client", "server", "handler")
	got := make(chan serverSt, 1)
	p.handle(s, "str", func(st serverSt) error {
		if by == "handler" {
			got <- st
			return o.err
		}
		st.Hijack()
		got <- st
		return nil
	})
	c := w.Client("C")
	cl, err := client.OpenStream[*Msg, *Msg](context.Background(), c, "str", nil)
	if err != nil {
		x.Fail("open: %v", err)
		return
	}
	sv := <-got
	var err2 error
	switch by {
	case "client":
		err2 = cl.Close(o.err)
	case "server":
		err2 = sv.Close(o.err)
	}
	if err2 != nil {
		x.Fail("close by the %s with %q: %v", by, o.err, err2)
	}
	w.Quiesce()
	own := map[string]bool{causeOf(o.err): true}
	peer := map[string]bool{o.peer: true}
	if by == "client" {
		ended(x, "client side", cl, own, 0)
		ended(x, "server side", sv, peer, 0)
	} else {
		ended(x, "server side", sv, own, 0)
		ended(x, "client side", cl, peer, 0)
	}
	x.Out("%s %q", by, o.err)
	w.Close()
}

// p09open: an open that fails, for any reason and at any moment, leaves nothing.
func p09open(how string) func(x *mc.X) {
	return func(x *mc.X) {
		w := NewWorld(x)
		s := w.Server("A")
		var runs Counter
		rpc := mc.Pick(x, 1, "str", "stra", "strone")
		err := server.RegisterStreamHandler[*Msg, *Msg](s, rpc, nil, func(st serverSt) error {
			runs.Inc()
			<-st.Context().Done()
			runs.Dec()
			return nil
		}, func(context.Context) float32 {
			if how == "unwilling" {
				return -1
			}
			if how == "zero" {
				return 0
			}
			return 1
		})
		if err != nil {
			x.Fail("register: %v", err)
		}
		c := w.Client("C")
		w.Idle()
		before := runtime.NumGoroutine()
		ctx, cancel := context.WithCancel(context.Background())
		switch how {
		case "cancel":
			go cancel()
		case "faults":
			w.Faults(2, Lost, Fail, Delay)
		case "nobody":
			s.Close(true)
			w.Idle()
			before = runtime.NumGoroutine()
		}
		var st clientSt
		took := Timed(func() {
			st, err = client.OpenStream[*Msg, *Msg](ctx, c, rpc, nil, psrpc.WithRequestTimeout(2*time.Second),
				psrpc.WithSelectionOpts(psrpc.SelectionOpts{AffinityTimeout: time.Second}))
		})
		within(x, "open", took, 2*time.Second)
		w.Faults(0)
		x.Out("%s %s %v", rpc, ErrString(err), took)
		if err == nil {
			// canceled afterwards
			if how == "cancel" {
				ended(x, "canceled", st, map[string]bool{causeOf(context.Canceled): true}, 0)
			} else if how == "unwilling" && rpc != "strone" || how == "nobody" {
				x.Fail("opened a stream without a server")
			}
			_ = st.Close(nil)
		} else {
			properErr(x, "open", err)
			if how == "cancel" {
				if e, ok := err.(psrpc.Error); ok && e.Code() != psrpc.Canceled && e.Code() != psrpc.Unavailable && e.Code() != psrpc.Internal && x.TimeDevs() == 0 {
					x.Fail("a canceled open failed with %v", err)
				}
			}
		}
		w.Quiesce()
		if n := runtime.NumGoroutine(); err != nil && n > before+runs.Get() {
			x.Fail("%d goroutines before the failed open, %d after it", before, n-runs.Get())
		}
		cancel()
		w.Quiesce()
		running := runs.Get()
		lost := w.Injected() > 0 || x.TimeDevs() > 0
		if running > 0 && !lost {
			x.Fail("the server's handler runs on although the stream is over at the client")
		}
		if n := runtime.NumGoroutine(); n > before+running {
			x.Fail("%d goroutines before the open, %d after it", before, n-running)
		}
		w.Close()
	}
}

func init() {
	one := []mc.Pass{mc.P1, mc.P2}
	deep := []mc.Pass{mc.P2a, mc.P3}
	p12s := []mc.Pass{mc.P1, mc.P2s}
	for _, k := range []string{"c", "s", "S", "C", "x"} {
		add(mc.Scenario{Name: "P09/by-" + k, Passes: p12s, Deep: deep, Body: p09("str", k, "", k == "c" || k == "s")})
		add(mc.Scenario{Name: "P09/by-" + k + "-sending", Passes: p12s, Deep: deep, Body: p09("str", k, "cs", false)})
	}
	for _, k := range []string{"cs", "cS", "sS", "sC", "cC", "cx", "sx", "SC", "cc", "ss", "SS"} {
		add(mc.Scenario{Name: "P09/at-once-" + k, Passes: one, Deep: deep, Body: p09("str", k, "", false)})
	}
	add(
		mc.Scenario{Name: "P09/at-once-cs-sending", Passes: p12s, Deep: deep, Body: p09("str", "cs", "cs", false)},
		mc.Scenario{Name: "P09/handler", Passes: []mc.Pass{mc.E, mc.P1}, Deep: deep, Body: p09handler},
		mc.Scenario{Name: "P09/causes", Passes: []mc.Pass{mc.E}, Body: p09causes},
		mc.Scenario{Name: "P09/open-cancel", Passes: one, Deep: deep, Body: p09open("cancel")},
		mc.Scenario{Name: "P09/open-faults", Passes: []mc.Pass{envF, mc.P1}, Deep: deep, Body: p09open("faults")},
		mc.Scenario{Name: "P09/open-nobody", Passes: []mc.Pass{mc.P1}, Deep: deep, Body: p09open("nobody")},
		mc.Scenario{Name: "P09/open-unwilling", Passes: []mc.Pass{mc.P1}, Deep: deep, Body: p09open("unwilling")},
		mc.Scenario{Name: "P09/open-zero", Passes: []mc.Pass{mc.P1}, Deep: deep, Body: p09open("zero")},
	)
}
