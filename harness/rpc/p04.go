package main

import (
	"context"
	"errors"
	"fmt"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/livekit/psrpc"
	"github.com/livekit/psrpc/internal/zzverif/mc"
	. "github.com/livekit/psrpc/internal/zzverif/sim"
	"github.com/livekit/psrpc/pkg/client"
	"github.com/livekit/psrpc/pkg/server"
)

// claim is a server's claim: made at most once, at a time after the request.
type claim struct {
	srv string
	aff float32
	at  time.Duration
}

// selection is the reference model of the server selection.
type selection struct {
	opts  psrpc.SelectionOpts
	limit time.Duration // of the request
}

type decision struct {
	srv    string // "" when the call fails during selection
	err    string
	at     time.Duration
	seen   string // what a SelectionFunc saw
	custom bool
}

var errSelect = errors.New("nothing suits")

// decide applies the documented rules to claims in the given order.
func (s selection) decide(cs []claim) decision {
	stop := s.limit
	if t := s.opts.AffinityTimeout; t > 0 && t < stop {
		stop = t
	}
	var ok []claim
	n := 0
	for _, c := range cs {
		if c.at >= stop {
			break
		}
		n++
		if s.opts.MinimumAffinity > 0 && c.aff < s.opts.MinimumAffinity {
			continue
		}
		if s.opts.AcceptFirstAvailable || s.opts.MaximumAffinity > 0 && c.aff >= s.opts.MaximumAffinity {
			return decision{srv: c.srv, at: c.at}
		}
		ok = append(ok, c)
		if t := s.opts.ShortCircuitTimeout; t > 0 && len(ok) == 1 && c.at+t < stop {
			stop = c.at + t
		}
	}
	d := decision{at: stop}
	if s.opts.SelectionFunc != nil {
		var cl []*psrpc.Claim
		for _, c := range ok {
			cl = append(cl, &psrpc.Claim{ServerID: c.srv, Affinity: c.aff})
		}
		d.custom = true
		d.seen = fmtClaims(cl)
		srv, err := s.opts.SelectionFunc(cl)
		d.srv = srv
		if err != nil {
			d.srv, d.err = "", err.Error()
		}
		return d
	}
	best := float32(0)
	for _, c := range ok {
		if c.aff > best {
			best, d.srv = c.aff, c.srv
		}
	}
	if d.srv == "" {
		d.err = string(psrpc.Unavailable)
	}
	return d
}

func fmtClaims(cs []*psrpc.Claim) string {
	var s []string
	for _, c := range cs {
		s = append(s, fmt.Sprintf("%s=%v", c.ServerID, c.Affinity))
	}
	return strings.Join(s, ",")
}

// orders are all orders of the claims that respect their times.
func orders(cs []claim) [][]claim {
	cs = append([]claim(nil), cs...)
	sort.SliceStable(cs, func(i, j int) bool { return cs[i].at < cs[j].at })
	var out [][]claim
	var rec func(k int)
	rec = func(k int) {
		if k == len(cs) {
			out = append(out, append([]claim(nil), cs...))
			return
		}
		for i := k; i < len(cs) && cs[i].at == cs[k].at; i++ {
			cs[k], cs[i] = cs[i], cs[k]
			rec(k + 1)
			cs[k], cs[i] = cs[i], cs[k]
		}
	}
	rec(0)
	return out
}

const ms = time.Millisecond

func lastClaim(cs []*psrpc.Claim) (string, error) {
	if len(cs) == 0 {
		return "", errSelect
	}
	return cs[len(cs)-1].ServerID, nil
}

func noClaim(cs []*psrpc.Claim) (string, error) { return "", errSelect }

type optSet struct {
	name string
	o    *psrpc.SelectionOpts // nil: the defaults
	lim  time.Duration        // 0: the default
}

// farSets go with affinities of any size and with selections that take long.
var farSets = []optSet{
	{"default-20s", nil, 20 * time.Second},
	{"none", &psrpc.SelectionOpts{}, 9 * time.Second},
	{"far", &psrpc.SelectionOpts{AffinityTimeout: 8 * time.Second}, 20 * time.Second},
	{"far-short", &psrpc.SelectionOpts{AffinityTimeout: 15 * time.Second, ShortCircuitTimeout: 7 * time.Second}, 20 * time.Second},
	{"far-min", &psrpc.SelectionOpts{AffinityTimeout: 8 * time.Second, MinimumAffinity: 1.5}, 20 * time.Second},
	{"far-max", &psrpc.SelectionOpts{AffinityTimeout: 8 * time.Second, MaximumAffinity: 1.5}, 20 * time.Second},
	{"close-min-max", &psrpc.SelectionOpts{AffinityTimeout: 8 * time.Second, MinimumAffinity: 0.50001, MaximumAffinity: 0.50002}, 20 * time.Second},
	{"far-custom", &psrpc.SelectionOpts{AffinityTimeout: 8 * time.Second, SelectionFunc: lastClaim}, 20 * time.Second},
	{"far-first", &psrpc.SelectionOpts{AcceptFirstAvailable: true}, 20 * time.Second},
}

// optSets are the option combinations; no deadline coincides with a claim.
var optSets = []optSet{
	{"default", nil, 0},
	{"default-400ms", nil, 400 * ms},
	{"none", &psrpc.SelectionOpts{}, 600 * ms},
	{"timeout", &psrpc.SelectionOpts{AffinityTimeout: 500 * ms}, 0},
	{"min", &psrpc.SelectionOpts{MinimumAffinity: 0.5, AffinityTimeout: time.Second}, 0},
	{"max", &psrpc.SelectionOpts{MaximumAffinity: 0.8, AffinityTimeout: time.Second}, 0},
	{"min-max", &psrpc.SelectionOpts{MinimumAffinity: 0.4, MaximumAffinity: 0.9, AffinityTimeout: time.Second}, 0},
	{"first", &psrpc.SelectionOpts{AcceptFirstAvailable: true, AffinityTimeout: time.Second}, 0},
	{"first-min", &psrpc.SelectionOpts{AcceptFirstAvailable: true, MinimumAffinity: 0.5, AffinityTimeout: time.Second}, 0},
	{"short", &psrpc.SelectionOpts{ShortCircuitTimeout: 150 * ms, AffinityTimeout: time.Second}, 0},
	{"short-min", &psrpc.SelectionOpts{ShortCircuitTimeout: 150 * ms, MinimumAffinity: 0.5, AffinityTimeout: time.Second}, 0},
	{"short-max", &psrpc.SelectionOpts{ShortCircuitTimeout: 450 * ms, MaximumAffinity: 0.8}, 0},
	{"custom", &psrpc.SelectionOpts{SelectionFunc: lastClaim, AffinityTimeout: 500 * ms}, 0},
	{"custom-min-short", &psrpc.SelectionOpts{SelectionFunc: lastClaim, MinimumAffinity: 0.4, ShortCircuitTimeout: 350 * ms, AffinityTimeout: time.Second}, 0},
	{"custom-none", &psrpc.SelectionOpts{SelectionFunc: noClaim, AffinityTimeout: 500 * ms}, 0},
	{"custom-first", &psrpc.SelectionOpts{SelectionFunc: noClaim, AcceptFirstAvailable: true, MinimumAffinity: 0.5, AffinityTimeout: 500 * ms}, 0},
}

func p04(kind string, n int, affs []float32, delays []time.Duration, sets ...optSet) func(x *mc.X) {
	if len(sets) == 0 {
		sets = optSets
	}
	return func(x *mc.X) {
		set := sets[x.Choice(len(sets), 1)]
		w := NewWorld(x)
		var cs []claim
		start := time.Now()
		var mu sync.Mutex
		var ran []string
		var ranAt time.Duration
		run := func(id string) {
			mu.Lock()
			ran = append(ran, id)
			ranAt = time.Since(start)
			mu.Unlock()
		}
		prev := 0
		for i := 0; i < n; i++ {
			id := string(rune('A' + i))
			k := x.Choice(len(affs)*len(delays), 2)
			if kind != "claim1" && k < prev {
				// servers are interchangeable up to the order of simultaneous claims
				k, prev = prev, k
			}
			prev = k
			c := claim{id, affs[k%len(affs)], delays[k/len(affs)]}
			if c.aff >= 0 {
				cs = append(cs, c)
			}
			s := w.Server(id)
			if kind == "stra" {
				err := server.RegisterStreamHandler[*Msg, *Msg](s, kind, nil, func(st psrpc.ServerStream[*Msg, *Msg]) error {
					run(id)
					return nil
				}, func(context.Context) float32 {
					time.Sleep(c.at)
					return c.aff
				})
				if err != nil {
					x.Fail("register: %v", err)
				}
				continue
			}
			w.Handle(s, kind, nil, func(context.Context, *Msg) (*Msg, error) {
				run(id)
				return M(id), nil
			}, func(context.Context, *Msg) float32 {
				time.Sleep(c.at)
				return c.aff
			})
		}
		sel := selection{limit: psrpc.DefaultClientTimeout}
		var opts []psrpc.RequestOption
		if set.lim > 0 {
			sel.limit = set.lim
			opts = append(opts, psrpc.WithRequestTimeout(set.lim))
		}
		saw := ""
		if set.o != nil {
			o := *set.o
			sel.opts = o
			if f := o.SelectionFunc; f != nil {
				o.SelectionFunc = func(cl []*psrpc.Claim) (string, error) {
					saw = fmtClaims(cl)
					return f(cl)
				}
			}
			opts = append(opts, psrpc.WithSelectionOpts(o))
		} else if kind == "claim1" {
			sel.opts = psrpc.SelectionOpts{AcceptFirstAvailable: true, AffinityTimeout: psrpc.DefaultAffinityTimeout}
		} else {
			sel.opts = psrpc.SelectionOpts{AffinityTimeout: psrpc.DefaultAffinityTimeout, ShortCircuitTimeout: psrpc.DefaultAffinityShortCircuit}
		}
		c := w.Client("C")
		var err error
		var res string
		start = time.Now()
		if kind == "stra" {
			var st psrpc.ClientStream[*Msg, *Msg]
			st, err = client.OpenStream[*Msg, *Msg](context.Background(), c, kind, nil, opts...)
			if err == nil {
				for range st.Channel() {
				}
				res = "stream"
			}
		} else {
			res, err = Call(context.Background(), c, kind, nil, "r", opts...)
		}
		took := time.Since(start)
		time.Sleep(30 * time.Second)
		mu.Lock()
		defer mu.Unlock()
		if x.TimeDevs() > 0 {
			return
		}
		code := ""
		if err != nil {
			code = err.Error()
			if e, ok := err.(psrpc.Error); ok {
				code = string(e.Code())
			}
		}
		what := fmt.Sprintf("claims %v, options %s", cs, set.name)
		matched := false
		var want []string
		for _, o := range orders(cs) {
			d := sel.decide(o)
			want = append(want, fmt.Sprintf("%+v", d))
			if d.custom && saw != d.seen {
				continue
			}
			if d.srv != "" && d.at >= sel.limit {
				// decided when the request is over
				matched = matched || err != nil && code == string(psrpc.DeadlineExceeded) && took == d.at && (len(ran) == 0 || len(ran) == 1 && ran[0] == d.srv)
			} else if d.srv == "" {
				matched = matched || err != nil && code == d.err && took == d.at && len(ran) == 0
			} else {
				matched = matched || err == nil && len(ran) == 1 && ran[0] == d.srv && ranAt == d.at && (res == d.srv || kind == "stra")
			}
		}
		if !matched {
			x.Fail("%s: ran on %v at %v, result %q error %q after %v, custom saw %q; expected one of %v", what, ran, ranAt, res, code, took, saw, want)
		}
		x.Out("%s %v %s %v %s", what, ran, code, took, saw)
		w.Close()
	}
}

func init() {
	affs := []float32{-1, 0, 0.3, 0.5, 0.8, 1}
	delays := []time.Duration{0, 50 * ms, 300 * ms, 700 * ms, 1200 * ms}
	few := []float32{0, 0.3, 0.5, 1}
	odd := []float32{-1, -1e-9, 0, 1e-9, 0.5, 0.500015, 1, 1.25, 2, 1e30}
	add(
		mc.Scenario{Name: "P04/aff-far", Passes: env, Body: p04("aff", 2, odd, []time.Duration{0, 400 * ms, 6 * time.Second}, farSets...)},
		mc.Scenario{Name: "P04/stream-far", Passes: env, Body: p04("stra", 2, []float32{-1e-9, 1e-9, 0.5, 0.500015, 2, 1e30}, []time.Duration{0, 6 * time.Second}, farSets...)},
		mc.Scenario{Name: "P04/aff-2s", Passes: env, Body: p04("aff", 2, affs, delays)},
		mc.Scenario{Name: "P04/aff-3s", Passes: env, Body: p04("aff", 3, few, []time.Duration{0, 300 * ms, 700 * ms})},
		mc.Scenario{Name: "P04/claim1-2s", Passes: env, Body: p04("claim1", 2, []float32{-1, 0, 0.5, 1}, []time.Duration{0, 300 * ms, 1200 * ms})},
		mc.Scenario{Name: "P04/stream-2s", Passes: env, Body: p04("stra", 2, []float32{-1, 0, 0.3, 0.5, 1}, []time.Duration{0, 300 * ms, 700 * ms})},
		mc.Scenario{Name: "P04/aff-4s", Deep: env, Body: p04("aff", 4, few, []time.Duration{0, 300 * ms, 700 * ms})},
		// the buffers of the client are smaller than the number of claims
		mc.Scenario{Name: "P04/small-buffers", Passes: []mc.Pass{mc.E, mc.P1}, Deep: []mc.Pass{mc.P2}, Body: func(x *mc.X) {
			w := NewWorld(x)
			best := mc.Pick(x, 1, "D", "B", "A")
			for _, id := range []string{"A", "B", "D"} {
				w.Handle(w.Server(id), "aff", nil, w.EchoFn(id, "aff"), func(context.Context, *Msg) float32 {
					if id == best {
						return 1
					}
					return 0.5
				})
			}
			c := w.Client("C", psrpc.WithClientChannelSize(mc.Pick(x, 2, 1, 0)))
			o := psrpc.SelectionOpts{AffinityTimeout: time.Second}
			var seen []string
			custom := x.Choice(2, 3) == 1
			if custom {
				o.SelectionFunc = func(claims []*psrpc.Claim) (string, error) {
					for _, cl := range claims {
						seen = append(seen, cl.ServerID)
					}
					return best, nil
				}
			}
			res, err := Call(context.Background(), c, "aff", nil, "r", psrpc.WithSelectionOpts(o))
			if x.TimeDevs() == 0 {
				if err != nil || res != best+"/aff/r" {
					x.Fail("%q %v, expected one of %s", res, err, best)
				}
				if custom && len(seen) != 3 {
					x.Fail("the selection function saw the claims of %v only", seen)
				}
			}
			x.Out("%v %v", res, err)
			w.Close()
		}},
		// whatever the interleaving, only an offered and qualifying server is chosen
		mc.Scenario{Name: "P04/schedules", Passes: []mc.Pass{mc.P1, mc.P2}, Deep: []mc.Pass{mc.P2a, mc.P3}, Body: func(x *mc.X) {
			w := NewWorld(x)
			min := mc.Pick(x, 3, float32(0), 0.6)
			aff := map[string]float32{"A": mc.Pick(x, 1, float32(0.5), -1, 0), "B": mc.Pick(x, 2, float32(1), -1, 0)}
			for _, id := range []string{"A", "B"} {
				w.Handle(w.Server(id), "aff", nil, w.EchoFn(id, "aff"), func(context.Context, *Msg) float32 { return aff[id] })
			}
			c := w.Client("C")
			res, err := Call(context.Background(), c, "aff", nil, "r", psrpc.WithSelectionOpts(psrpc.SelectionOpts{MinimumAffinity: min, AffinityTimeout: time.Second}))
			time.Sleep(5 * time.Second)
			judgeSingle(w, "aff", "r", res, err)
			best, q := "", float32(0)
			for id, a := range aff {
				if a > q && a >= min {
					best, q = id, a
				}
				if (a <= 0 || a < min) && w.Log.Count("exec "+id+"/aff/r") > 0 {
					x.Fail("server %s with affinity %v was chosen (minimum %v)", id, a, min)
				}
			}
			if x.TimeDevs() == 0 {
				if best == "" && err == nil || best != "" && (err != nil || res != best+"/aff/r") {
					x.Fail("affinities %v minimum %v: %q %v", aff, min, res, err)
				}
			}
			if best == "" && w.Log.CountPrefix("exec") > 0 {
				x.Fail("no server qualified but one ran: %s", w.Log)
			}
			x.Out("%v %v", res, err)
			w.Close()
		}},
	)
}
