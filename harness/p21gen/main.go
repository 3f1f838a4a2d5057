// Command p21gen enumerates services, runs the generator on them and writes a
// driver for each: Go code that uses the generated client and server exactly as
// the options promise, derived from the options alone.
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"

	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protodesc"
	"google.golang.org/protobuf/types/descriptorpb"
	"google.golang.org/protobuf/types/known/wrapperspb"
	"google.golang.org/protobuf/types/pluginpb"

	"github.com/livekit/psrpc/protoc-gen-psrpc/options"
)

const base = "github.com/livekit/psrpc/internal/zzverif/p21g/"

type method struct {
	proto, goName string
	opts          *options.Options
	in, out       string // message names, "" for the local ones
}

type service struct {
	proto, goName string
	methods       []method
	dep           string // proto package of the imported messages
	in            string // name of its file, if shared with other services
}

type pkg struct {
	name     string
	services []*service
}

// --- the meaning of options, from options.proto ---

func (m *method) kind() string {
	switch {
	case m.opts.GetSubscription():
		return "sub"
	case m.opts.GetStream():
		return "stream"
	}
	return "unary"
}

func (m *method) route() string {
	switch r := m.opts.GetRouting().(type) {
	case *options.Options_Multi:
		if r.Multi {
			return "multi"
		}
	case *options.Options_AffinityFunc:
		if r.AffinityFunc {
			return "affinity"
		}
	case *options.Options_Queue:
		if r.Queue {
			return "queue"
		}
	}
	return [...]string{"queue", "affinity", "multi"}[m.opts.GetType()]
}

// params are the topic parameters: Go type of each ("" for string).
func (m *method) params() (types []string) {
	if !m.opts.GetTopics() {
		return nil
	}
	tp := m.opts.GetTopicParams()
	if len(tp.GetNames()) == 0 {
		return []string{""}
	}
	for _, n := range tp.GetNames() {
		t := ""
		if tp.GetTyped() {
			t = "T_" + n
		}
		types = append(types, t)
	}
	return
}

func camel(s string) string {
	r := ""
	for _, p := range strings.Split(s, "_") {
		if p != "" {
			r += strings.ToUpper(p[:1]) + p[1:]
		}
	}
	return r
}

// --- enumeration ---

var styles = []*options.Options{
	{},
	{Type: options.Routing_AFFINITY},
	{Type: options.Routing_MULTI},
	{Routing: &options.Options_Queue{Queue: true}},
	{Routing: &options.Options_AffinityFunc{AffinityFunc: true}},
	{Routing: &options.Options_Multi{Multi: true}},
	{Routing: &options.Options_Queue{Queue: false}},
	{Routing: &options.Options_AffinityFunc{AffinityFunc: false}},
	{Routing: &options.Options_Multi{Multi: false}},
}

// topicOptions are all combinations of the topic options.
func topicOptions() (l []*options.Options) {
	l = append(l, &options.Options{}, &options.Options{Topics: true})
	for _, topics := range []bool{true, false} {
		for _, names := range [][]string{nil, {"region"}, {"node_id"}, {"region", "node_id"}} {
			for i := 0; i < 8; i++ {
				o := &options.Options{Topics: topics, TopicParams: &options.TopicParamOptions{Names: names, Typed: i&1 != 0, SingleServer: i&2 != 0}}
				if i&4 != 0 {
					o.TopicParams.Group = "node_group"
				}
				l = append(l, o)
			}
		}
	}
	return
}

func with(os ...*options.Options) *options.Options {
	r := &options.Options{}
	for _, o := range os {
		proto.Merge(r, o)
	}
	return r
}

var kinds = []*options.Options{{}, {Stream: true}, {Subscription: true}, {Subscription: true, Stream: true}}

func topics(names ...string) *options.Options {
	return &options.Options{Topics: true, TopicParams: &options.TopicParamOptions{Names: names}}
}

func typed(o *options.Options) *options.Options {
	o = with(o)
	o.TopicParams.Typed = true
	return o
}

func group(g string, o *options.Options) *options.Options {
	o = with(o)
	o.TopicParams.Group = g
	return o
}

func single(o *options.Options) *options.Options {
	o = with(o)
	o.TopicParams.SingleServer = true
	return o
}

func m(name string, o *options.Options) method {
	return method{proto: name, goName: camel(name), opts: o}
}

func enumerate(thorough bool) (pkgs []*pkg) {
	// every combination of the options of one method
	n := 0
	for si, st := range styles {
		for ki, k := range kinds {
			p := &pkg{name: fmt.Sprintf("a%d%d", si, ki)}
			for ti, t := range topicOptions() {
				if !thorough && si > 2 && ti > 1 && ti%9 != si%9 {
					continue
				}
				n++
				p.services = append(p.services, &service{proto: fmt.Sprintf("Svc%d", n), goName: fmt.Sprintf("Svc%d", n), methods: []method{m("Get", with(st, k, t))}})
			}
			pkgs = append(pkgs, p)
		}
	}
	// pairs (thorough: also triples) of methods with different options
	shapes := []*options.Options{
		{},
		{Type: options.Routing_AFFINITY},
		{Type: options.Routing_MULTI},
		topics(),
		with(single(typed(topics("region"))), &options.Options{Type: options.Routing_QUEUE}),
		group("g", typed(topics("region", "node"))),
		with(group("g", typed(topics("region", "node"))), &options.Options{Type: options.Routing_MULTI}),
		with(group("h", typed(topics("node"))), &options.Options{Type: options.Routing_AFFINITY}),
		{Stream: true},
		with(group("g", typed(topics("region", "node"))), &options.Options{Stream: true}),
		{Subscription: true},
		with(typed(topics("node")), &options.Options{Subscription: true, Type: options.Routing_MULTI}),
	}
	for i, a := range shapes {
		p := &pkg{name: fmt.Sprintf("b%d", i)}
		for j, b := range shapes {
			p.services = append(p.services, &service{proto: fmt.Sprintf("Pair%d", j), goName: fmt.Sprintf("Pair%d", j), methods: []method{m("Get", with(a)), m("GetAll", with(b))}})
			if thorough || i == (j+3)%len(shapes) {
				for k, c := range shapes {
					n := fmt.Sprintf("Triple%dX%d", j, k)
					p.services = append(p.services, &service{proto: n, goName: n, methods: []method{m("Get", with(a)), m("GetAll", with(b)), m("Gett", with(c))}})
				}
			}
		}
		pkgs = append(pkgs, p)
	}
	// names and message types
	some := []*options.Options{
		{}, {Type: options.Routing_AFFINITY}, {Type: options.Routing_MULTI}, {Stream: true}, {Subscription: true},
		typed(topics("region", "node_id")), with(topics(), &options.Options{Stream: true, Type: options.Routing_AFFINITY}), group("the_group", topics("node")),
	}
	msgs := [][2]string{{}, {".google.protobuf.StringValue", ".google.protobuf.BytesValue"}, {".p21.Outer.Inner", ".p21.outer_msg.inner_msg"}, {"", ".google.protobuf.BytesValue"}}
	names := [][4]string{{"Plain", "Plain", "Get", "Get"}, {"snake_svc", "SnakeSvc", "get_it", "GetIt"}, {"lower", "Lower", "get", "Get"}, {"UPPER", "UPPER", "GET2", "GET2"}, {"Svc_x2", "SvcX2", "Do_2_it", "Do_2It"}}
	for i, nm := range names {
		for j, ms := range msgs {
			p := &pkg{name: fmt.Sprintf("c%d%d", i, j)}
			for k, o := range some {
				s := fmt.Sprintf("_z%d", k)
				p.services = append(p.services, &service{proto: nm[0] + s, goName: nm[1] + fmt.Sprintf("Z%d", k), methods: []method{
					{proto: nm[2], goName: nm[3], opts: with(o), in: ms[0], out: ms[1]},
				}})
			}
			pkgs = append(pkgs, p)
		}
	}
	// services sharing a file (whose parts then have comments), or without methods
	for i, a := range some {
		p := &pkg{name: fmt.Sprintf("f%d", i)}
		for j, b := range some {
			in := fmt.Sprintf("shared%d", j)
			two := func(n string) string { return fmt.Sprintf("Share%s%d", n, j) }
			p.services = append(p.services,
				&service{proto: two("Empty"), goName: two("Empty"), in: in},
				&service{proto: two("A"), goName: two("A"), in: in, methods: []method{m("Get", with(a))}},
				&service{proto: two("B"), goName: two("B"), in: in, methods: []method{m("Get", with(b)), m("List", with(a))}})
		}
		p.services = append(p.services, &service{proto: "Empty", goName: "Empty"})
		pkgs = append(pkgs, p)
	}
	// topic parameters named like something in the generated code
	for i, nm := range []string{"ctx", "req", "opts", "msg", "c", "s", "client", "server", "psrpc", "context", "info", "rand", "version", "string", "error", "err", "type", "func", "range", "default", "nil", "bus", "svc", "append", "sd", "x1"} {
		p := &pkg{name: fmt.Sprintf("d%d", i)}
		for k, o := range []*options.Options{
			topics(nm), typed(topics(nm)), with(topics(nm), &options.Options{Stream: true}), with(typed(topics("a", nm)), &options.Options{Subscription: true}),
			with(group("g", topics(nm, "b")), &options.Options{Type: options.Routing_MULTI}),
		} {
			n := fmt.Sprintf("Named%d", k)
			p.services = append(p.services, &service{proto: n, goName: n, methods: []method{m("Get", o)}})
		}
		pkgs = append(pkgs, p)
	}
	// messages of packages named like something in the generated code
	for i, nm := range []string{"client", "server", "info", "rand", "version", "psrpc", "context", "ctx", "req", "opts", "msg", "c", "s", "err", "sd", "bus", "svc", "string", "error", "foo.bar", "my_topic", "topic", "region", "rpcClient"} {
		p := &pkg{name: fmt.Sprintf("e%d", i)}
		for k, o := range []*options.Options{
			{}, {Type: options.Routing_MULTI}, {Type: options.Routing_AFFINITY}, {Stream: true, Type: options.Routing_AFFINITY}, {Subscription: true}, topics(), typed(topics("region")), with(typed(topics("region")), &options.Options{Subscription: true}),
			group("g", topics("region")),
		} {
			n := fmt.Sprintf("Dep%d", k)
			p.services = append(p.services, &service{proto: n, goName: n, dep: nm, methods: []method{{proto: "Get", goName: "Get", opts: o, in: "." + nm + ".DepReq", out: "." + nm + ".DepResp"}}})
		}
		pkgs = append(pkgs, p)
	}
	return
}

// --- descriptors ---

func msgProto(name string, nested ...string) *descriptorpb.DescriptorProto {
	d := &descriptorpb.DescriptorProto{Name: proto.String(name)}
	for _, n := range nested {
		d.NestedType = append(d.NestedType, &descriptorpb.DescriptorProto{Name: proto.String(n)})
	}
	return d
}

func (p *pkg) request() *pluginpb.CodeGeneratorRequest {
	gp := &descriptorpb.FileOptions{GoPackage: proto.String(base + p.name)}
	types := &descriptorpb.FileDescriptorProto{
		Name: proto.String("types.proto"), Package: proto.String("p21"), Syntax: proto.String("proto3"), Options: gp,
		MessageType: []*descriptorpb.DescriptorProto{msgProto("Req"), msgProto("Resp"), msgProto("Outer", "Inner"), msgProto("outer_msg", "inner_msg")},
	}
	r := &pluginpb.CodeGeneratorRequest{Parameter: proto.String("paths=source_relative")}
	r.ProtoFile = append(r.ProtoFile,
		protodesc.ToFileDescriptorProto(options.File_options_proto.ParentFile()),
		protodesc.ToFileDescriptorProto(wrapperspb.File_google_protobuf_wrappers_proto), types)
	deps := map[string]bool{}
	for _, s := range p.services {
		if s.dep != "" && !deps[s.dep] {
			deps[s.dep] = true
			r.ProtoFile = append(r.ProtoFile, &descriptorpb.FileDescriptorProto{
				Name: proto.String(s.dep + ".proto"), Package: proto.String(s.dep), Syntax: proto.String("proto3"),
				Options:     &descriptorpb.FileOptions{GoPackage: proto.String(base + "dep")},
				MessageType: []*descriptorpb.DescriptorProto{msgProto("DepReq"), msgProto("DepResp")},
			})
		}
	}
	files := map[string]*descriptorpb.FileDescriptorProto{}
	for _, s := range p.services {
		f, ok := files[s.file()]
		if ok {
			f.Service = append(f.Service, s.descriptor())
			comments(f)
			continue
		}
		f = &descriptorpb.FileDescriptorProto{
			Name: proto.String(s.file() + ".proto"), Package: proto.String("p21"), Syntax: proto.String("proto3"), Options: gp,
			Dependency: []string{"options.proto", "types.proto", "google/protobuf/wrappers.proto"},
		}
		if s.dep != "" {
			f.Dependency = append(f.Dependency, s.dep+".proto")
		}
		files[s.file()] = f
		f.Service = append(f.Service, s.descriptor())
		r.ProtoFile = append(r.ProtoFile, f)
		r.FileToGenerate = append(r.FileToGenerate, f.GetName())
	}
	return r
}

func (s *service) descriptor() *descriptorpb.ServiceDescriptorProto {
	sd := &descriptorpb.ServiceDescriptorProto{Name: proto.String(s.proto)}
	for _, m := range s.methods {
		in, out := m.in, m.out
		if in == "" {
			in = ".p21.Req"
		}
		if out == "" {
			out = ".p21.Resp"
		}
		md := &descriptorpb.MethodDescriptorProto{Name: proto.String(m.proto), InputType: proto.String(in), OutputType: proto.String(out)}
		if !proto.Equal(m.opts, &options.Options{}) {
			md.Options = &descriptorpb.MethodOptions{}
			proto.SetExtension(md.Options, options.E_Options, m.opts)
		}
		sd.Method = append(sd.Method, md)
	}
	return sd
}

// comments gives the file, its services and their methods comments.
func comments(f *descriptorpb.FileDescriptorProto) {
	i := &descriptorpb.SourceCodeInfo{}
	loc := func(text string, path ...int32) {
		i.Location = append(i.Location, &descriptorpb.SourceCodeInfo_Location{Path: path, Span: []int32{1, 1, 1}, LeadingComments: proto.String(text)})
	}
	loc(" A comment.\n\n Of */ several /* lines.\n", 12)
	for si, s := range f.Service {
		loc(" A service.\n\n  package x\n", 6, int32(si))
		for mi := range s.Method {
			loc("\n func A method() {\n", 6, int32(si), 2, int32(mi))
		}
	}
	f.SourceCodeInfo = i
}

func (s *service) file() string {
	if s.in != "" {
		return s.in
	}
	return "svc_" + strings.ToLower(s.proto)
}

func (s *service) desc(p *pkg) string {
	var l []string
	for _, m := range s.methods {
		b := strings.ReplaceAll(fmt.Sprintf("%v", m.opts), "  ", " ")
		l = append(l, fmt.Sprintf("rpc %s(%s) returns (%s) {%s}", m.proto, m.in, m.out, b))
	}
	return fmt.Sprintf("%s: service %s { %s }", p.name, s.proto, strings.Join(l, "; "))
}

// --- drivers ---

func (s *service) driver(p *pkg) string {
	var b bytes.Buffer
	w := func(format string, a ...any) { fmt.Fprintf(&b, format+"\n", a...) }
	w("package %s\n", p.name)
	w("import (\n\"context\"\n\"github.com/livekit/psrpc\"\nkit \"github.com/livekit/psrpc/internal/zzverif/p21kit\"\n)\n")
	w("var _ context.Context")
	impl := "zzImpl" + s.goName
	w("type %s struct{ k *kit.Impl }", impl)
	for _, m := range s.methods {
		switch m.kind() {
		case "unary":
			w("func (i %s) %s(ctx context.Context, r *kit.Req) (*kit.Resp, error) { return i.k.Unary(%q, ctx, r) }", impl, m.goName, m.goName)
			if m.route() == "affinity" {
				w("func (i %s) %sAffinity(ctx context.Context, r *kit.Req) float32 { return i.k.Affinity(%q, r) }", impl, m.goName, m.goName)
			}
		case "stream":
			w("func (i %s) %s(s psrpc.ServerStream[*kit.Resp, *kit.Req]) error { return i.k.Stream(%q, s) }", impl, m.goName, m.goName)
			if m.route() == "affinity" {
				w("func (i %s) %sAffinity(ctx context.Context) float32 { return i.k.Affinity(%q, nil) }", impl, m.goName, m.goName)
			}
		}
	}
	// type parameters in the order of their first appearance
	var tps []string
	seen := map[string]bool{}
	for _, m := range s.methods {
		for _, t := range m.params() {
			if t != "" && !seen[t] {
				seen[t] = true
				tps = append(tps, "zz"+s.goName+t)
				w("type zz%s%s string", s.goName, t)
			}
		}
	}
	tp := ""
	if len(tps) > 0 {
		tp = "[" + strings.Join(tps, ", ") + "]"
	}
	w("var _ %sServerImpl = %s{}", s.goName, impl)
	w("var _ %sServerImpl = Unimplemented%sServer{}", s.goName, s.goName)
	args := func(m *method, trail bool) string {
		var l []string
		for i, t := range m.params() {
			if t == "" {
				l = append(l, fmt.Sprintf("t[%d]", i))
			} else {
				l = append(l, fmt.Sprintf("zz%s%s(t[%d])", s.goName, t, i))
			}
		}
		a := strings.Join(l, ", ")
		if trail && a != "" {
			a += ", "
		}
		return a
	}
	w("func init() { kit.Add(&kit.Service{Desc: %q, Go: %q,", s.desc(p), s.goName)
	w("Methods: []kit.Method{")
	for _, m := range s.methods {
		g := ""
		if m.opts.GetTopics() && m.kind() != "sub" {
			g = camel(m.opts.GetTopicParams().GetGroup())
		}
		w("{Proto: %q, Go: %q, Kind: %q, Route: %q, Topics: %v, Params: %d, Single: %v, Group: %q},", m.proto, m.goName, m.kind(), m.route(), m.opts.GetTopics(), len(m.params()), m.opts.GetTopicParams().GetSingleServer(), g)
	}
	w("},")
	w("NewServer: func(k *kit.Impl, bus psrpc.MessageBus, o ...psrpc.ServerOption) (*kit.Server, error) {")
	w("var impl %sServerImpl = Unimplemented%sServer{}\nif k != nil { impl = %s{k} }", s.goName, s.goName, impl)
	w("var x %sServer%s\nx, err := New%sServer%s(impl, bus, o...)\nif err != nil { return nil, err }", s.goName, tp, s.goName, tp)
	w("return &kit.Server{Shutdown: x.Shutdown, Kill: x.Kill,")
	section := func(name, typ string, each func(m *method) string) {
		w("%s: map[string]%s{", name, typ)
		done := map[string]bool{}
		for i := range s.methods {
			if l := each(&s.methods[i]); l != "" && !done[l] {
				done[l] = true
				w("%s,", l)
			}
		}
		w("},")
	}
	section("Register", "func([]string) error", func(m *method) string {
		if m.kind() == "sub" || !m.opts.GetTopics() {
			return ""
		}
		return fmt.Sprintf("%q: func(t []string) error { return x.Register%sTopic(%s) }", m.goName, m.goName, args(m, false))
	})
	section("Deregister", "func([]string)", func(m *method) string {
		if m.kind() == "sub" || !m.opts.GetTopics() {
			return ""
		}
		return fmt.Sprintf("%q: func(t []string) { x.Deregister%sTopic(%s) }", m.goName, m.goName, args(m, false))
	})
	grp := func(m *method) string {
		if m.kind() == "sub" || !m.opts.GetTopics() {
			return ""
		}
		return camel(m.opts.GetTopicParams().GetGroup())
	}
	section("RegisterAll", "func([]string) error", func(m *method) string {
		g := grp(m)
		if g == "" {
			return ""
		}
		return fmt.Sprintf("%q: func(t []string) error { return x.RegisterAll%sTopics(%s) }", g, g, args(m, false))
	})
	section("DeregisterAll", "func([]string)", func(m *method) string {
		g := grp(m)
		if g == "" {
			return ""
		}
		return fmt.Sprintf("%q: func(t []string) { x.DeregisterAll%sTopics(%s) }", g, g, args(m, false))
	})
	section("Publish", "func(context.Context, []string, *kit.Resp) error", func(m *method) string {
		if m.kind() != "sub" {
			return ""
		}
		return fmt.Sprintf("%q: func(ctx context.Context, t []string, m *kit.Resp) error { return x.Publish%s(ctx, %sm) }", m.goName, m.goName, args(m, true))
	})
	w("}, nil\n},")
	w("NewClient: func(bus psrpc.MessageBus, o ...psrpc.ClientOption) (*kit.Client, error) {")
	w("var x %sClient%s\nx, err := New%sClient%s(bus, o...)\nif err != nil { return nil, err }", s.goName, tp, s.goName, tp)
	w("return &kit.Client{Close: x.Close,")
	section("Unary", "func(context.Context, []string, *kit.Req, ...psrpc.RequestOption) (*kit.Resp, error)", func(m *method) string {
		if m.kind() != "unary" || m.route() == "multi" {
			return ""
		}
		return fmt.Sprintf("%q: func(ctx context.Context, t []string, r *kit.Req, o ...psrpc.RequestOption) (*kit.Resp, error) { return x.%s(ctx, %sr, o...) }", m.goName, m.goName, args(m, true))
	})
	section("Multi", "func(context.Context, []string, *kit.Req, ...psrpc.RequestOption) (<-chan *psrpc.Response[*kit.Resp], error)", func(m *method) string {
		if m.kind() != "unary" || m.route() != "multi" {
			return ""
		}
		return fmt.Sprintf("%q: func(ctx context.Context, t []string, r *kit.Req, o ...psrpc.RequestOption) (<-chan *psrpc.Response[*kit.Resp], error) { return x.%s(ctx, %sr, o...) }", m.goName, m.goName, args(m, true))
	})
	section("Stream", "func(context.Context, []string, ...psrpc.RequestOption) (psrpc.ClientStream[*kit.Req, *kit.Resp], error)", func(m *method) string {
		if m.kind() != "stream" {
			return ""
		}
		return fmt.Sprintf("%q: func(ctx context.Context, t []string, o ...psrpc.RequestOption) (psrpc.ClientStream[*kit.Req, *kit.Resp], error) { return x.%s(ctx, %so...) }", m.goName, m.goName, args(m, true))
	})
	section("Sub", "func(context.Context, []string) (psrpc.Subscription[*kit.Resp], error)", func(m *method) string {
		if m.kind() != "sub" {
			return ""
		}
		a := args(m, false)
		if a != "" {
			a = ", " + a
		}
		return fmt.Sprintf("%q: func(ctx context.Context, t []string) (psrpc.Subscription[*kit.Resp], error) { return x.Subscribe%s(ctx%s) }", m.goName, m.goName, a)
	})
	w("}, nil\n},")
	w("}) }")
	return b.String()
}

const types = `package %s

import kit "github.com/livekit/psrpc/internal/zzverif/p21kit"

type (
	Req               = kit.Req
	Resp              = kit.Resp
	Outer_Inner       = kit.Req
	OuterMsg_InnerMsg = kit.Resp
)
`

type failure struct {
	Pkg  string `json:"pkg"`
	Desc string `json:"desc"`
	Msg  string `json:"msg"`
}

func main() {
	plugin := flag.String("plugin", "", "")
	out := flag.String("out", "", "")
	thorough := flag.Bool("thorough", false, "")
	flag.Parse()
	var fails []failure
	descs := map[string]map[string]string{} // package -> file -> description
	put := func(p, f, content string) {
		d := filepath.Join(*out, p)
		_ = os.MkdirAll(d, 0o755)
		if err := os.WriteFile(filepath.Join(d, f), []byte(content), 0o644); err != nil {
			panic(err)
		}
	}
	run := func(r *pluginpb.CodeGeneratorRequest) (*pluginpb.CodeGeneratorResponse, string) {
		in, err := proto.Marshal(r)
		if err != nil {
			panic(err)
		}
		cmd := exec.Command(*plugin)
		cmd.Stdin = bytes.NewReader(in)
		var so, se bytes.Buffer
		cmd.Stdout, cmd.Stderr = &so, &se
		if err := cmd.Run(); err != nil {
			return nil, fmt.Sprintf("%v: %s", err, strings.SplitN(se.String(), "\n", 2)[0])
		}
		resp := &pluginpb.CodeGeneratorResponse{}
		if err := proto.Unmarshal(so.Bytes(), resp); err != nil {
			return nil, err.Error()
		}
		if resp.Error != nil {
			return nil, resp.GetError()
		}
		return resp, ""
	}
	put("dep", "types.go", strings.Replace(fmt.Sprintf(types, "dep"), "Req ", "DepReq = kit.Req\nDepResp = kit.Resp\nReq ", 1))
	for _, p := range enumerate(*thorough) {
		descs[p.name] = map[string]string{}
		put(p.name, "types.go", fmt.Sprintf(types, p.name))
		resp, msg := run(p.request())
		if msg != "" {
			// one by one, to see which
			resp = &pluginpb.CodeGeneratorResponse{}
			var ok []*service
			for _, s := range p.services {
				r, msg := run((&pkg{p.name, []*service{s}}).request())
				if msg != "" {
					fails = append(fails, failure{p.name, s.desc(p), "the generator fails: " + msg})
					continue
				}
				ok = append(ok, s)
				_ = r
			}
			p.services = ok
			if len(ok) > 0 {
				if resp, msg = run(p.request()); msg != "" {
					fails = append(fails, failure{p.name, p.name, "the generator fails for several files although not for each: " + msg})
					continue
				}
			}
		}
		got := map[string]string{}
		for _, f := range resp.File {
			got[f.GetName()] = f.GetContent()
		}
		for _, s := range p.services {
			c, ok := got[s.file()+".psrpc.go"]
			if !ok {
				fails = append(fails, failure{p.name, s.desc(p), "no code was generated"})
				continue
			}
			put(p.name, s.file()+".psrpc.go", c)
			put(p.name, "svc_"+strings.ToLower(s.proto)+"_driver.go", s.driver(p))
			descs[p.name][s.file()] = s.desc(p)
			descs[p.name]["svc_"+strings.ToLower(s.proto)] = s.desc(p)
		}
	}
	sort.SliceStable(fails, func(i, j int) bool { return len(fails[i].Desc) < len(fails[j].Desc) })
	b, _ := json.MarshalIndent(map[string]any{"failures": fails, "packages": descs}, "", " ")
	put(".", "result.json", string(b))
}
