package main

import (
	"context"
	"fmt"
	"sort"
	"strings"
	"time"

	"google.golang.org/protobuf/encoding/protowire"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/known/anypb"
	"google.golang.org/protobuf/types/known/emptypb"
	"google.golang.org/protobuf/types/known/structpb"
	"google.golang.org/protobuf/types/known/wrapperspb"

	"github.com/livekit/psrpc"
	"github.com/livekit/psrpc/internal/zzverif/mc"
	. "github.com/livekit/psrpc/internal/zzverif/sim"
	"github.com/livekit/psrpc/pkg/client"
	"github.com/livekit/psrpc/pkg/metadata"
	"github.com/livekit/psrpc/pkg/server"
)

// ---- metadata operations against a reference model

func mdString(m map[string]string) string {
	var s []string
	for k, v := range m {
		s = append(s, k+"="+v)
	}
	sort.Strings(s)
	return strings.Join(s, ",")
}

func mdClone(m map[string]string) map[string]string {
	c := map[string]string{}
	for k, v := range m {
		c[k] = v
	}
	return c
}

var p12sets = []map[string]string{nil, {}, {"a": "1"}, {"a": "2", "b": "1"}, {"b": "", "": "0"}}
var p12kvs = [][]string{nil, {"a", "3"}, {"b", "4", "a", "5"}, {"a"}, {"a", "6", "a", "7"}, {"b", "8", "c"}, {"a", ""}, {"", "9"}}

type mdNode struct {
	ctx  context.Context
	want map[string]string
}

// mdOps is the number of operations on one context.
func mdOps() int { return 2*len(p12sets) + len(p12kvs) + 1 }

func mdStep(n mdNode, op int, given *[]map[string]string, slices *[][]string) (mdNode, string) {
	want := mdClone(n.want)
	clone := func(m map[string]string) metadata.Metadata {
		if m == nil {
			return nil
		}
		c := mdClone(m)
		*given = append(*given, c)
		return c
	}
	if op < len(p12sets) {
		m := p12sets[op]
		return mdNode{metadata.NewContextWithOutgoingMetadata(n.ctx, clone(m)), mdClone(m)}, fmt.Sprintf("new(%s)", mdString(m))
	}
	op -= len(p12sets)
	if op < len(p12sets) {
		m := p12sets[op]
		for k, v := range m {
			want[k] = v
		}
		return mdNode{metadata.WithOutgoingMetadata(n.ctx, clone(m)), want}, fmt.Sprintf("with(%s)", mdString(m))
	}
	op -= len(p12sets)
	if op < len(p12kvs) {
		kv := append([]string(nil), p12kvs[op]...)
		*slices = append(*slices, kv)
		for i := 1; i < len(kv); i += 2 {
			want[kv[i-1]] = kv[i]
		}
		return mdNode{metadata.AppendMetadataToOutgoingContext(n.ctx, kv...), want}, fmt.Sprintf("append(%v)", kv)
	}
	c, cancel := context.WithTimeout(n.ctx, time.Hour)
	cancel()
	return mdNode{c, want}, "derive"
}

// p12siblings: every tree of contexts made by appending (and resetting), deeper than
// p12metadata.
func p12siblings(s *mc.S) {
	depth := 6
	if s.Thorough() {
		depth = 7
	}
	var path []string
	var rec func(nodes []mdNode, d int) bool
	rec = func(nodes []mdNode, d int) bool {
		for i, n := range nodes {
			if got := mdString(metadata.OutgoingContextMetadata(n.ctx)); got != mdString(n.want) {
				s.Fail("after %s context %d sends %q instead of %q", strings.Join(path, " "), i, got, mdString(n.want))
				return false
			}
		}
		if d == 0 {
			s.Case(mdString(nodes[len(nodes)-1].want))
			return true
		}
		for i, n := range nodes {
			for op := 0; op < 2; op++ {
				if d == depth-2 && !s.Mine() || s.Expired() {
					continue
				}
				want := mdClone(n.want)
				k, v := string(rune('a'+op)), fmt.Sprint(d)
				want[k] = v
				path = append(path, fmt.Sprintf("c%d.append(%s,%s)", i, k, v))
				next := append(nodes[:len(nodes):len(nodes)], mdNode{metadata.AppendMetadataToOutgoingContext(n.ctx, k, v), want})
				if !rec(next, d-1) {
					return false
				}
				path = path[:len(path)-1]
			}
		}
		return true
	}
	rec([]mdNode{{context.Background(), map[string]string{}}}, depth)
}

func p12metadata(s *mc.S) {
	depth := 4
	if s.Thorough() {
		depth = 5
	}
	var path []string
	var given []map[string]string
	var slices [][]string
	check := func(nodes []mdNode) bool {
		for i, n := range nodes {
			got := metadata.OutgoingContextMetadata(n.ctx)
			if mdString(got) != mdString(n.want) {
				s.Fail("after %s context %d sends %q instead of %q", strings.Join(path, " "), i, mdString(got), mdString(n.want))
				return false
			}
			if got != nil {
				got["a"], got["x"] = "corrupted", "corrupted"
				delete(got, "b")
			}
		}
		return true
	}
	var rec func(nodes []mdNode, d int) bool
	rec = func(nodes []mdNode, d int) bool {
		if d == 0 {
			return true
		}
		for i := range nodes {
			for op := 0; op < mdOps(); op++ {
				if d == depth && !s.Mine() || s.Expired() {
					continue
				}
				g, sl := len(given), len(slices)
				n, name := mdStep(nodes[i], op, &given, &slices)
				path = append(path, fmt.Sprintf("c%d.%s", i, name))
				next := append(append([]mdNode{}, nodes...), n)
				// what was passed in belongs to the caller, who may change it
				for _, m := range given {
					m["a"], m["y"] = "changed", "changed"
					delete(m, "b")
				}
				for _, l := range slices {
					for j := range l {
						l[j] = "changed"
					}
				}
				ok := check(next) && check(next)
				s.Case(mdString(n.want))
				if !ok || !rec(next, d-1) {
					return false
				}
				path = path[:len(path)-1]
				given, slices = given[:g], slices[:sl]
			}
		}
		return true
	}
	// two first operations are spread over the shards
	base := mdNode{context.Background(), map[string]string{}}
	if metadata.OutgoingContextMetadata(base.ctx) != nil {
		s.Fail("an empty context has metadata")
	}
	rec([]mdNode{base}, depth)
	s.Sample("sequences of %d operations on %d kinds, each on any earlier context", depth, mdOps())
}

// p12header: what a handler reads is its own copy.
func p12header(s *mc.S) {
	for _, m := range p12sets {
		for _, rid := range []string{"", "C"} {
			if !s.Mine() {
				continue
			}
			at := time.Unix(5, 7)
			ctx := metadata.NewContextWithIncomingHeader(context.Background(), &metadata.Header{RemoteID: rid, SentAt: at, Metadata: mdClone(m)})
			for i := 0; i < 3; i++ {
				h := metadata.IncomingHeader(ctx)
				if h == nil || h.RemoteID != rid || !h.SentAt.Equal(at) || mdString(h.Metadata) != mdString(m) {
					s.Fail("header of %q/%s read %d times: %v", rid, mdString(m), i, h)
					return
				}
				h.RemoteID, h.SentAt = "changed", time.Time{}
				if h.Metadata != nil {
					h.Metadata["a"], h.Metadata["z"] = "changed", "changed"
				}
				ctx = context.WithValue(ctx, mdNode{}.want == nil, i)
			}
			if o := metadata.OutgoingContextMetadata(ctx); len(o) != 0 {
				s.Fail("incoming metadata became outgoing: %v", o)
			}
			s.Case(rid + mdString(m))
		}
	}
	if metadata.IncomingHeader(context.Background()) != nil {
		s.Fail("a context without header has one")
	}
}

// ---- payloads through real calls

func unknownField() *Msg {
	m := M("u")
	b := protowire.AppendTag(nil, 77, protowire.BytesType)
	b = protowire.AppendString(b, "unknown")
	m.ProtoReflect().SetUnknown(b)
	return m
}

var p12strings = []*Msg{M(""), M("x"), M("ünï\x00\n"), M(strings.Repeat("long ", 20000)), unknownField()}
var p12bytes = []*wrapperspb.BytesValue{wrapperspb.Bytes(nil), wrapperspb.Bytes([]byte{0, 255, 128, 10}), wrapperspb.Bytes(make([]byte, 70000))}

func p12structs() []*structpb.Struct {
	a, _ := structpb.NewStruct(map[string]any{"n": nil, "l": []any{1.5, "s", map[string]any{"d": true}}, "": "empty key"})
	return []*structpb.Struct{a, {}}
}

func p12anys() []*anypb.Any {
	return []*anypb.Any{mustAny(M("inner")), mustAny(mustAny(wrapperspb.Int32(-3))), {TypeUrl: "unknown.type/x", Value: []byte{1, 2, 3}}, {}}
}

var p12mds = []map[string]string{nil, {"k": "v"}, {"": "", "ünï": "x\x00y", "long": strings.Repeat("m", 5000), "k": "v", "K": "V"}}

func p12payload[T proto.Message](x *mc.X, rpc string, reqs []T) {
	req := reqs[x.Choice(len(reqs), 12)]
	res := reqs[x.Choice(len(reqs), 13)]
	md := p12mds[x.Choice(len(p12mds), 14)]
	w := NewWorld(x)
	a := w.Server("A")
	wantReq, wantRes := proto.Clone(req), proto.Clone(res)
	var sent time.Time
	seen := 0
	err := server.RegisterHandler(a, rpc, nil, func(ctx context.Context, r T) (T, error) {
		seen++
		if !proto.Equal(r, wantReq) {
			x.Fail("%s: the handler received %q instead of %q", rpc, trim(fmt.Sprint(r)), trim(fmt.Sprint(wantReq)))
		}
		h := metadata.IncomingHeader(ctx)
		if h == nil || h.RemoteID != "C" || !h.SentAt.Equal(sent) || mdString(h.Metadata) != mdString(md) {
			x.Fail("%s: header %+v, expected client C, %v and metadata %q", rpc, h, sent, mdString(md))
		}
		if o := metadata.OutgoingContextMetadata(ctx); len(o) != 0 {
			x.Fail("%s: the handler's context has outgoing metadata %v", rpc, o)
		}
		proto.Reset(r) // the handler may do with it what it wants
		return res, nil
	}, nil)
	if err != nil {
		x.Fail("register: %v", err)
	}
	c := w.Client("C")
	ctx := context.Background()
	if md != nil {
		ctx = metadata.NewContextWithOutgoingMetadata(ctx, md)
	}
	time.Sleep(12345 * time.Microsecond)
	sent = time.Now()
	judge := func(got T, err error) {
		if err != nil {
			x.Fail("%s: %v", rpc, err)
			return
		}
		if !proto.Equal(got, wantRes) {
			x.Fail("%s: the caller received %q instead of %q", rpc, trim(fmt.Sprint(got)), trim(fmt.Sprint(wantRes)))
		}
		proto.Reset(got)
	}
	if rpc == "multi" {
		ch, err := client.RequestMulti[T](ctx, c, rpc, nil, req)
		if err != nil {
			x.Fail("multi: %v", err)
		} else {
			for r := range ch {
				judge(r.Result, r.Err)
			}
		}
	} else {
		judge(client.RequestSingle[T](ctx, c, rpc, nil, req))
	}
	if seen != 1 {
		x.Fail("%s: the handler ran %d times", rpc, seen)
	}
	if !proto.Equal(req, wantReq) || !proto.Equal(res, wantRes) {
		x.Fail("%s: the sender's message changed", rpc)
	}
	x.Out("%s %s %s", rpc, trim(fmt.Sprint(wantReq)), trim(fmt.Sprint(wantRes)))
	w.Close()
}

func p12call(x *mc.X) {
	rpc := Pick2(x, 10, "aff", "single", "one", "multi")
	switch x.Choice(5, 11) {
	case 0:
		p12payload(x, rpc, p12strings)
	case 1:
		p12payload(x, rpc, p12bytes)
	case 2:
		p12payload(x, rpc, p12structs())
	case 3:
		p12payload(x, rpc, p12anys())
	case 4:
		p12payload(x, rpc, []*emptypb.Empty{{}})
	}
}

// p12stream: header of a stream and its messages, both ways.
func p12stream(x *mc.X) {
	rpc := Pick2(x, 10, "str", "stra", "strone")
	md := p12mds[x.Choice(len(p12mds), 14)]
	req := p12strings[x.Choice(len(p12strings), 12)]
	res := p12strings[x.Choice(len(p12strings), 13)]
	want, wantRes := proto.Clone(req), proto.Clone(res)
	w := NewWorld(x)
	a := w.Server("A")
	var sent time.Time
	p := &pair{w: w}
	p.handle(a, rpc, func(st serverSt) error {
		h := metadata.IncomingHeader(st.Context())
		if h == nil || h.RemoteID != "C" || !h.SentAt.Equal(sent) || mdString(h.Metadata) != mdString(md) {
			x.Fail("stream header %+v, expected client C, %v and metadata %q", h, sent, mdString(md))
		}
		if o := metadata.OutgoingContextMetadata(st.Context()); len(o) != 0 {
			x.Fail("the stream handler's context has outgoing metadata %v", o)
		}
		m, ok := <-st.Channel()
		if !ok || !proto.Equal(m, want) {
			x.Fail("the server received %q", trim(m.GetValue()))
		}
		if err := st.Send(res); err != nil {
			x.Fail("server send: %v", err)
		}
		return nil
	})
	c := w.Client("C")
	ctx := context.Background()
	if md != nil {
		ctx = metadata.WithOutgoingMetadata(ctx, md)
	}
	time.Sleep(777 * time.Microsecond)
	sent = time.Now()
	st, err := client.OpenStream[*Msg, *Msg](ctx, c, rpc, nil)
	if err != nil {
		x.Fail("open: %v", err)
	} else {
		if err := st.Send(req); err != nil {
			x.Fail("client send: %v", err)
		}
		if m, ok := <-st.Channel(); !ok || !proto.Equal(m, wantRes) {
			x.Fail("the client received %q", trim(m.GetValue()))
		}
	}
	w.Close()
}

// p12fan: the handlers of one multi request, and of concurrent requests, do not
// share what they read.
func p12fan(x *mc.X) {
	w := NewWorld(x)
	for _, id := range []string{"A", "B"} {
		s := w.Server(id)
		h := func(ctx context.Context, r *Msg) (*Msg, error) {
			head := metadata.IncomingHeader(ctx)
			got := r.Value + " " + mdString(head.Metadata)
			head.Metadata["who"] = "changed"
			head.Metadata["extra"] = id
			r.Value = "changed"
			if again := metadata.IncomingHeader(ctx); again.Metadata["who"] == "changed" {
				x.Fail("changing the metadata read changes what is read later")
			}
			return M(got), nil
		}
		w.Handle(s, "multi", nil, h, nil)
		if id == "A" {
			w.Handle(s, "aff", nil, h, nil)
		}
	}
	c := w.Client("C")
	base := metadata.WithOutgoingMetadata(context.Background(), metadata.Metadata{"base": "1"})
	one := func(k string) {
		ctx := metadata.AppendMetadataToOutgoingContext(base, "who", k)
		res, err := Call(ctx, c, "aff", nil, k, psrpc.WithRequestTimeout(2*time.Second))
		if err != nil {
			if x.TimeDevs() == 0 {
				x.Fail("request: %v", err)
			}
			return
		}
		if res != k+" base=1,who="+k {
			x.Fail("request %s was seen as %q", k, res)
		}
	}
	Par(func() { one("p") }, func() { one("q") }, func() {
		ctx := metadata.AppendMetadataToOutgoingContext(base, "who", "m")
		ch, err := client.RequestMulti[*Msg](ctx, c, "multi", nil, M("m"), psrpc.WithRequestTimeout(2*time.Second))
		if err != nil {
			x.Fail("multi: %v", err)
			return
		}
		for r := range ch {
			if r.Err != nil || r.Result.Value != "m base=1,who=m" {
				x.Fail("multi request was seen as %v %v", r.Result, r.Err)
			}
		}
	})
	w.Close()
}

// p12nested: a handler's own calls carry only what it adds, whatever kind of call
// the handler serves and makes.
func p12nested(x *mc.X) {
	w := NewWorld(x)
	a, b := w.Server("A"), w.Server("B")
	d := w.Client("D")
	depth := x.Choice(3, 1)
	outer := mc.Pick(x, 2, "aff", "multi", "str")
	inner := mc.Pick(x, 3, "one", "multi2", "strone")
	seen := func(ctx context.Context) string {
		h := metadata.IncomingHeader(ctx)
		return h.RemoteID + " " + mdString(h.Metadata)
	}
	leaf := func(ctx context.Context, r *Msg) (*Msg, error) { return M(seen(ctx)), nil }
	w.Handle(b, "one", nil, leaf, nil)
	w.Handle(b, "multi2", nil, leaf, nil)
	p := &pair{w: w}
	p.handle(b, "strone", func(st serverSt) error { return st.Send(M(seen(st.Context()))) })
	call := func(ctx context.Context) (string, error) {
		switch depth {
		case 1:
			ctx = metadata.AppendMetadataToOutgoingContext(ctx, "hop", "2")
		case 2:
			ctx = metadata.WithOutgoingMetadata(ctx, metadata.IncomingHeader(ctx).Metadata)
		}
		return p12via(ctx, d, inner, "n")
	}
	mid := func(ctx context.Context, r *Msg) (*Msg, error) {
		res, err := call(ctx)
		return M(res), err
	}
	w.Handle(a, "aff", nil, mid, nil)
	w.Handle(a, "multi", nil, mid, nil)
	p.handle(a, "str", func(st serverSt) error {
		res, err := call(st.Context())
		if err != nil {
			return err
		}
		return st.Send(M(res))
	})
	c := w.Client("C")
	res, err := p12via(metadata.WithOutgoingMetadata(context.Background(), metadata.Metadata{"k": "v"}), c, outer, "r")
	if err != nil {
		if x.TimeDevs() == 0 {
			x.Fail("nested call (%s in %s): %v", inner, outer, err)
		}
	} else if want := []string{"D ", "D hop=2", "D k=v"}[depth]; res != want {
		x.Fail("the nested handler (%s in %s) saw %q instead of %q", inner, outer, res, want)
	}
	w.Close()
}

// p12via makes one call of any kind and returns its (first) result.
func p12via(ctx context.Context, c *client.RPCClient, rpc, req string) (string, error) {
	switch {
	case strings.HasPrefix(rpc, "multi"):
		ch, err := client.RequestMulti[*Msg](ctx, c, rpc, nil, M(req), psrpc.WithRequestTimeout(2*time.Second))
		if err != nil {
			return "", err
		}
		r, ok := <-ch
		if !ok {
			return "", psrpc.ErrNoResponse
		}
		return r.Result.GetValue(), r.Err
	case strings.HasPrefix(rpc, "str"):
		st, err := client.OpenStream[*Msg, *Msg](ctx, c, rpc, nil, psrpc.WithRequestTimeout(2*time.Second))
		if err != nil {
			return "", err
		}
		m, ok := <-st.Channel()
		if !ok {
			return "", st.Err()
		}
		return m.Value, nil
	default:
		return Call(ctx, c, rpc, nil, req, psrpc.WithRequestTimeout(2*time.Second))
	}
}

func init() {
	addSeq(mc.Seq{Name: "P12/metadata", Run: p12metadata}, mc.Seq{Name: "P12/siblings", Run: p12siblings}, mc.Seq{Name: "P12/header", Run: p12header})
	add(
		mc.Scenario{Name: "P12/call", Passes: env, Body: p12call},
		mc.Scenario{Name: "P12/stream", Passes: env, Body: p12stream},
		mc.Scenario{Name: "P12/nested", Passes: []mc.Pass{mc.E, mc.P1}, Deep: []mc.Pass{mc.P2}, Body: p12nested},
		mc.Scenario{Name: "P12/concurrent", Passes: []mc.Pass{mc.P1, mc.P2s}, Deep: []mc.Pass{mc.P2}, Body: p12fan},
	)
}
