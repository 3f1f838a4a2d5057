package main

import (
	"context"
	"fmt"
	"strings"
	"time"

	"google.golang.org/protobuf/proto"

	"github.com/livekit/psrpc"
	"github.com/livekit/psrpc/internal"
	"github.com/livekit/psrpc/internal/bus"
	"github.com/livekit/psrpc/internal/zzverif/mc"
	. "github.com/livekit/psrpc/internal/zzverif/sim"
	"github.com/livekit/psrpc/pkg/client"
	"github.com/livekit/psrpc/pkg/server"
)

// p06handler logs the beginning and the end of each run, which takes d.
func p06handler(w *World, id, rpc string, d time.Duration) Handler {
	return func(_ context.Context, m *Msg) (*Msg, error) {
		w.Log.Add("exec %s/%s/%s", id, rpc, m.Value)
		time.Sleep(d)
		w.Log.Add("end %s/%s", rpc, m.Value)
		return M(id + "/" + rpc + "/" + m.Value), nil
	}
}

// logPub logs when the publishing of a response has completed, which takes d.
func logPub(w *World, d time.Duration) {
	w.OnPub = func(_ bus.Channel, msg proto.Message, publish func() error) error {
		_, ok := msg.(*internal.Response)
		if ok && d > 0 {
			time.Sleep(d)
		}
		err := publish()
		if ok {
			w.Log.Add("published")
		}
		return err
	}
}

// quiescent checks that nothing runs or starts after a graceful close.
func quiescent(w *World, mark string) {
	i := w.Log.Index(mark)
	if i < 0 {
		return
	}
	open := map[string]bool{}
	for k, e := range w.Log.All() {
		switch {
		case strings.HasPrefix(e, "exec "):
			if k > i {
				w.X.Fail("a handler started after the graceful close had returned: %s", w.Log)
				return
			}
			open[e[strings.Index(e, "/")+1:]] = true
		case strings.HasPrefix(e, "end "):
			if k > i {
				w.X.Fail("a handler was running when the graceful close returned: %s", w.Log)
				return
			}
			delete(open, strings.TrimPrefix(e, "end "))
		case e == "published":
			if k > i {
				w.X.Fail("a response was published after the graceful close had returned: %s", w.Log)
				return
			}
		}
	}
	if len(open) > 0 {
		w.X.Fail("unfinished handlers at graceful close: %s", w.Log)
	}
}

func p06(rpc string, topic []string, requests int, closers ...func(w *World, s *server.RPCServer)) func(x *mc.X) {
	return func(x *mc.X) {
		w := NewWorld(x)
		s := w.Server("A")
		d := mc.Pick(x, 1, 0, 500*ms)
		w.Handle(s, rpc, topic, p06handler(w, "A", rpc, d), nil)
		logPub(w, mc.Pick(x, 3, 0, 300*ms))
		c := w.Client("C")
		var fs []func()
		for i := 0; i < requests; i++ {
			req := fmt.Sprint("r", i)
			fs = append(fs, func() {
				res, err := Call(context.Background(), c, rpc, topic, req)
				n := w.Log.Count("exec A/" + rpc + "/" + req)
				if err == nil && res != "A/"+rpc+"/"+req {
					x.Fail("%s answered %q", req, res)
				}
				if err != nil && n > 0 && x.TimeDevs() == 0 {
					x.Fail("%s was handled but its caller got %v", req, err)
				}
				time.Sleep(10 * time.Second)
				judgeSingle(w, rpc, req, res, err)
				x.Out("%s=%s", req, ErrString(err))
			})
		}
		at := mc.Pick(x, 2, 0, 100*ms)
		for _, cl := range closers {
			fs = append(fs, func() {
				time.Sleep(at)
				cl(w, s)
			})
		}
		Par(fs...)
		w.Quiesce()
		quiescent(w, "closed")
		x.Out("%s", strings.ReplaceAll(w.Log.String(), "/"+rpc, ""))
		w.Close()
	}
}

func graceful(w *World, s *server.RPCServer) {
	s.Close(false)
	w.Log.Add("closed")
}

func forced(w *World, s *server.RPCServer) {
	took := Timed(func() { s.Close(true) })
	if w.X.TimeDevs() == 0 && took > 0 {
		w.X.Fail("a forced close took %v", took)
	}
}

func init() {
	one := []mc.Pass{mc.P1, mc.P2}
	deep := []mc.Pass{mc.P2a, mc.P3}
	add(
		mc.Scenario{Name: "P06/direct", Passes: one, Deep: deep, Body: p06("one", []string{"t"}, 1, graceful)},
		mc.Scenario{Name: "P06/claim", Passes: one, Deep: deep, Body: p06("aff", nil, 1, graceful)},
		mc.Scenario{Name: "P06/queue-2r", Passes: one, Deep: deep, Body: p06("queue", nil, 2, graceful)},
		mc.Scenario{Name: "P06/2closers", Passes: one, Deep: deep, Body: p06("queue", nil, 1, graceful, graceful)},
		mc.Scenario{Name: "P06/forced", Passes: one, Deep: deep, Body: p06("one", nil, 1, forced)},
		// a forced close while a graceful one waits must neither wait nor cut the graceful one's guarantee
		mc.Scenario{Name: "P06/graceful-then-forced", Passes: one, Deep: deep, Body: func(x *mc.X) {
			w := NewWorld(x)
			logPub(w, 0)
			s := w.Server("A")
			rpc := mc.Pick(x, 2, "one", "aff")
			w.Handle(s, rpc, nil, p06handler(w, "A", rpc, time.Second), nil)
			c := w.Client("C")
			Par(func() {
				res, err := Call(context.Background(), c, rpc, nil, "r")
				if n := w.Log.Count("exec A/" + rpc + "/r"); err != nil && n > 0 && x.TimeDevs() == 0 {
					x.Fail("handled but its caller got %v", err)
				}
				judgeSingle(w, rpc, "r", res, err)
			}, func() {
				time.Sleep(100 * ms)
				s.Close(false)
				w.Log.Add("closed")
			}, func() {
				time.Sleep(200 * ms)
				forced(w, s)
			})
			if x.TimeDevs() == 0 {
				quiescent(w, "closed") // otherwise the forced one may have been the first
			}
			x.Out("%s", w.Log)
			w.Close()
		}},
		// several handlers of one server
		mc.Scenario{Name: "P06/3handlers", Passes: []mc.Pass{mc.P1}, Deep: []mc.Pass{mc.P2}, Body: func(x *mc.X) {
			w := NewWorld(x)
			logPub(w, 100*ms)
			s := w.Server("A")
			w.Handle(s, "one", []string{"t"}, p06handler(w, "A", "one", 300*ms), nil)
			w.Handle(s, "multi", nil, p06handler(w, "A", "multi", 600*ms), nil)
			w.Handle(s, "queue", nil, p06handler(w, "A", "queue", 0), nil)
			c := w.Client("C")
			got := 0
			Par(func() {
				_, err := Call(context.Background(), c, "one", []string{"t"}, "r")
				if err != nil && w.Log.CountPrefix("exec A/one") > 0 && x.TimeDevs() == 0 {
					x.Fail("handled but its caller got %v", err)
				}
			}, func() {
				ch, err := client.RequestMulti[*Msg](context.Background(), c, "multi", nil, M("m"), psrpc.WithRequestTimeout(2*time.Second))
				if err != nil {
					x.Fail("multi: %v", err)
					return
				}
				for range ch {
					got++
				}
				if n := w.Log.CountPrefix("exec A/multi"); n != got && x.TimeDevs() == 0 {
					x.Fail("multi handled %d times, %d responses", n, got)
				}
			}, func() {
				time.Sleep(mc.Pick(x, 1, 100*ms, 0))
				graceful(w, s)
			})
			quiescent(w, "closed")
			x.Out("%s", w.Log)
			w.Close()
		}},
		// closing with a stream handler: its streams end and close returns
		mc.Scenario{Name: "P06/stream", Passes: []mc.Pass{mc.P1, mc.P2s}, Deep: []mc.Pass{mc.P2}, Body: func(x *mc.X) {
			w := NewWorld(x)
			s := w.Server("A")
			streamEcho(w, s, "A", "str")
			c := w.Client("C")
			force := x.Choice(2, 1) == 1
			at := mc.Pick(x, 2, 0, 100*ms)
			Par(func() {
				st, err := client.OpenStream[*Msg, *Msg](context.Background(), c, "str", nil)
				if err != nil {
					return
				}
				_ = st.Send(M("m"))
				// the server's close ends it
				ended := false
				t := time.NewTimer(10 * time.Second)
				for !ended {
					select {
					case _, ok := <-st.Channel():
						ended = !ok
					case <-t.C:
						if x.TimeDevs() == 0 {
							x.Fail("the stream outlived its server")
						}
						ended = true
					}
				}
				_ = st.Close(nil)
			}, func() {
				time.Sleep(at)
				took := Timed(func() { s.Close(force) })
				within(x, "close with streams", took, 3*time.Second)
			})
			w.Close()
		}},
	)
}
