// p26gen enumerates requests to the generator over the places and names of
// the files involved - proto paths, proto packages, go_package options and
// plugin parameters - and decides for each one that what the generator writes
// goes with what protoc-gen-go writes for the same request: the same
// directory, the same package, and the Go types of the messages wherever they
// are. protoc-gen-go is represented by its own library (protogen); the
// generated code is type-checked against packages with the types it declares.
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path"
	"runtime"
	"sort"
	"strings"
	"sync"
	"time"

	"google.golang.org/protobuf/compiler/protogen"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protodesc"
	"google.golang.org/protobuf/types/descriptorpb"
	"google.golang.org/protobuf/types/known/emptypb"
	"google.golang.org/protobuf/types/pluginpb"

	"github.com/livekit/psrpc/protoc-gen-psrpc/options"
)

// file is one proto file of a request: where it is and how it names its
// packages.
type file struct{ path, pkg, goPkg string }

// config is one request: a file with a service, the files of its request and
// response messages (nil: the file itself), perhaps a second file with a
// service, and the parameters.
type config struct {
	main    file
	in, out *file
	second  *file
	empty   bool // the response is google.protobuf.Empty
	params  string
}

func (c config) String() string {
	s := fmt.Sprintf("main %v", c.main)
	if c.second != nil {
		s += fmt.Sprintf(" second %v", *c.second)
	}
	if c.in != nil {
		s += fmt.Sprintf(" request in %v", *c.in)
	}
	if c.out != nil {
		s += fmt.Sprintf(" response in %v", *c.out)
	}
	if c.empty {
		s += " response Empty"
	}
	return s + fmt.Sprintf(" parameters %q", c.params)
}

func msg(name string) *descriptorpb.DescriptorProto {
	return &descriptorpb.DescriptorProto{Name: proto.String(name)}
}

func (f file) proto() *descriptorpb.FileDescriptorProto {
	d := &descriptorpb.FileDescriptorProto{Name: proto.String(f.path), Syntax: proto.String("proto3"), Options: &descriptorpb.FileOptions{}}
	if f.pkg != "" {
		d.Package = proto.String(f.pkg)
	}
	if f.goPkg != "" {
		d.Options.GoPackage = proto.String(f.goPkg)
	}
	return d
}

func full(pkg, name string) string {
	if pkg == "" {
		return "." + name
	}
	return "." + pkg + "." + name
}

// request builds the plugin's request, and says which message the two sides
// of each service's methods are.
func (c config) request() *pluginpb.CodeGeneratorRequest {
	r := &pluginpb.CodeGeneratorRequest{}
	if c.params != "" {
		r.Parameter = proto.String(c.params)
	}
	in, out := full(c.main.pkg, "Req"), full(c.main.pkg, "Resp")
	var deps []string
	if c.empty {
		r.ProtoFile = append(r.ProtoFile, protodesc.ToFileDescriptorProto(emptypb.File_google_protobuf_empty_proto))
		deps = append(deps, "google/protobuf/empty.proto")
		out = ".google.protobuf.Empty"
	}
	if c.in != nil {
		f := c.in.proto()
		f.MessageType = append(f.MessageType, msg("ReqIn"))
		in = full(c.in.pkg, "ReqIn")
		r.ProtoFile = append(r.ProtoFile, f)
		deps = append(deps, f.GetName())
	}
	if c.out != nil {
		f := c.out.proto()
		f.MessageType = append(f.MessageType, msg("RespOut"))
		out = full(c.out.pkg, "RespOut")
		r.ProtoFile = append(r.ProtoFile, f)
		deps = append(deps, f.GetName())
	}
	m := c.main.proto()
	m.Dependency = deps
	m.MessageType = append(m.MessageType, msg("Req"), msg("Resp"))
	method := func(name, in, out string) *descriptorpb.MethodDescriptorProto {
		return &descriptorpb.MethodDescriptorProto{Name: proto.String(name), InputType: proto.String(in), OutputType: proto.String(out)}
	}
	stream := method("Stream", in, out)
	stream.Options = &descriptorpb.MethodOptions{}
	proto.SetExtension(stream.Options, options.E_Options, &options.Options{Stream: true})
	m.Service = append(m.Service, &descriptorpb.ServiceDescriptorProto{Name: proto.String("Svc"), Method: []*descriptorpb.MethodDescriptorProto{method("Call", in, out), stream}})
	r.ProtoFile = append(r.ProtoFile, m)
	r.FileToGenerate = append(r.FileToGenerate, m.GetName())
	if c.second != nil {
		f := c.second.proto()
		f.Dependency = append(deps, m.GetName())
		f.Service = append(f.Service, &descriptorpb.ServiceDescriptorProto{Name: proto.String("Other"), Method: []*descriptorpb.MethodDescriptorProto{method("Call", in, full(c.main.pkg, "Req"))}})
		r.ProtoFile = append(r.ProtoFile, f)
		r.FileToGenerate = append(r.FileToGenerate, f.GetName())
	}
	return r
}

// --- enumeration ---

var words = []string{
	"type", "func", "range", "go", "map", "select", "interface", "default", "import", "package", "chan",
	"init", "main", "any", "bool", "byte", "len", "make", "true", "iota", "append", "new", "close",
	"proto", "opt", "ok", "i", "ctx", "c", "s", "err", "r", "res", "sub", "topic", "context", "client", "server", "psrpc", "info", "rand", "version",
	"2fa", "my-dep", "my.dep", "v1", "dep_v1", "Dep", "svcClient", "internal",
}

const mod = "example.com/m"

// main's forms: a file at the root, in a directory and in a nested one.
func enumerate(thorough bool, yield func(config)) {
	mains := []file{}
	for _, p := range []string{"svc.proto", "a/svc.proto", "a/b/svc.v1.proto"} {
		for _, pkg := range []string{"", "rpc", "acme.rpc.v1"} {
			for _, g := range []string{mod + "/rpc", mod + "/rpc;api", mod + "/a", mod + "/x-y", "/api", "./api", mod + "/api/v2", mod, "elsewhere.org/rpc"} {
				mains = append(mains, file{p, pkg, g})
			}
		}
	}
	depsOf := func(m file, name string) []file {
		var fs []file
		for _, dir := range []string{"", "a/", "dep/"} {
			for _, pkg := range []string{"", "rpc", "dep", "acme.dep", "client", "api"} {
				for _, g := range []string{m.goPkg, mod + "/dep", mod + "/dep;rpc", mod + "/other/rpc", mod + "/x.y", "elsewhere.org/rpc", "a/b"} {
					fs = append(fs, file{dir + name + ".proto", pkg, g})
				}
			}
		}
		return fs
	}
	paths := []string{"", "paths=import", "paths=source_relative", "module=" + mod, "paths=import,module=" + mod}
	for mi, m := range mains {
		for pi, p := range paths {
			yield(config{main: m, params: p})
			yield(config{main: m, empty: true, params: p})
			for _, g := range []string{m.goPkg} {
				for _, q := range []string{"other.proto", "a/other.proto"} {
					s := file{q, m.pkg, g}
					yield(config{main: m, second: &s, params: p})
				}
			}
			for i, d := range depsOf(m, "dep") {
				if d := d; thorough || (i+mi+pi)%3 == 0 {
					yield(config{main: m, in: &d, params: p})
				}
			}
			d := file{"options.proto", "", mod + "/dep"}
			yield(config{main: m, in: &d, params: p})
		}
	}
	// names that are not identifiers, or mean something in Go
	for _, m := range []file{mains[0], mains[10], mains[20]} {
		for _, p := range paths {
			for _, n := range words {
				for _, d := range []file{{"dep.proto", n, mod + "/dep"}, {"dep/" + n + ".proto", "", mod + "/dep"}, {"dep/" + n + ".proto", "dep", mod + "/" + n}, {n + ".proto", n, mod + "/" + n}} {
					d := d
					if strings.ContainsAny(d.pkg, "-.2é") {
						continue
					}
					yield(config{main: m, in: &d, params: p})
				}
				w := m
				w.goPkg = mod + "/" + n
				yield(config{main: w, params: p})
				w.goPkg = mod + "/x;" + n
				yield(config{main: w, params: p})
				w = m
				if w.path = "a/" + n + ".proto"; !strings.ContainsAny(n, "-.2é") {
					w.pkg = n
				}
				yield(config{main: w, params: p})
			}
		}
	}
	// the dependencies' import paths are given on the command line
	for _, m := range mains {
		for _, p := range []string{"", "paths=source_relative,"} {
			for _, d := range []file{{"dep.proto", "dep", ""}, {"a/dep.proto", "dep", ""}, {"dep/dep.proto", "", ""}, {"dep/dep.proto", "acme.dep", mod + "/ignored"}} {
				d := d
				own, _, _ := strings.Cut(m.goPkg, ";")
				for _, to := range []string{mod + "/dep", mod + "/other/rpc", "elsewhere.org/dep", "elsewhere.org/dep;rpc", own} {
					yield(config{main: m, in: &d, params: p + "M" + d.path + "=" + to})
				}
			}
		}
	}
	// build systems give the import path of every file, the generated ones too
	for _, m := range mains {
		own, _, _ := strings.Cut(m.goPkg, ";")
		for _, p := range []string{"", "paths=source_relative,"} {
			p += "M" + m.path + "=" + own
			yield(config{main: m, params: p})
			for _, d := range []file{{"dep.proto", "rpc", mod + "/rpc"}, {"a/dep.proto", "dep", mod + "/dep"}, {"dep/dep.proto", "acme.rpc.v1", ""}} {
				d := d
				yield(config{main: m, in: &d, params: p})
				yield(config{main: m, in: &d, params: p + ",M" + d.path + "=" + own})
				yield(config{main: m, in: &d, params: p + ",M" + d.path + "=" + mod + "/rpc;dep"})
			}
		}
	}
	// messages of two other files
	if !thorough {
		mains = mains[:6]
		paths = paths[1:3]
	}
	for _, m := range mains {
		for _, p := range paths {
			for i, d := range depsOf(m, "dep") {
				for j, e := range depsOf(m, "dep2") {
					if !thorough && (i+j)%7 != 0 || thorough && d.path[0] == 'a' && e.path[0] == 'a' {
						continue
					}
					d, e := d, e
					yield(config{main: m, in: &d, out: &e, params: p})
				}
			}
		}
	}
}

// --- the decision ---

type env struct {
	plugin string
	mu     sync.Mutex
	fset   *token.FileSet
	libs   types.Importer
}

// imp resolves the packages of one request, and everything else from the
// compiled packages of the tree.
type imp struct {
	e    *env
	pkgs map[string]*types.Package
}

func (i *imp) Import(p string) (*types.Package, error) {
	if q, ok := i.pkgs[p]; ok {
		return q, nil
	}
	i.e.mu.Lock()
	defer i.e.mu.Unlock()
	return i.e.libs.Import(p)
}

// messages is the Go code of a package with these types.
func messages(pkg string, names []string) string {
	var b bytes.Buffer
	fmt.Fprintf(&b, "package %s\n\nimport \"google.golang.org/protobuf/reflect/protoreflect\"\n", pkg)
	for _, n := range names {
		fmt.Fprintf(&b, "type %s struct{}\nfunc (*%s) ProtoReflect() protoreflect.Message { return nil }\n", n, n)
	}
	return b.String()
}

// check decides one request. skip: protoc-gen-go refuses it.
func (e *env) check(c config) (skip bool, problem string) {
	req := c.request()
	g, err := protogen.Options{}.New(proto.Clone(req).(*pluginpb.CodeGeneratorRequest))
	if err != nil {
		return true, ""
	}
	module := ""
	for _, p := range strings.Split(c.params, ",") {
		if s, ok := strings.CutPrefix(p, "module="); ok {
			module = s
		}
	}
	b, err := proto.Marshal(req)
	if err != nil {
		return false, err.Error()
	}
	cmd := exec.Command(e.plugin)
	cmd.Stdin = bytes.NewReader(b)
	var stdout, stderr bytes.Buffer
	cmd.Stdout, cmd.Stderr = &stdout, &stderr

	type want struct {
		name, in, out string
		f             *protogen.File
	}
	wants := map[string]want{}
	byPath := map[string]map[string]bool{} // types of each package
	names := map[string]string{}
	for _, f := range g.Files {
		p := string(f.GoImportPath)
		if names[p] != "" && names[p] != string(f.GoPackageName) {
			return true, "" // one package with two names
		}
		names[p] = string(f.GoPackageName)
		if byPath[p] == nil {
			byPath[p] = map[string]bool{}
		}
		for _, m := range f.Messages {
			if byPath[p][m.GoIdent.GoName] {
				return true, ""
			}
			byPath[p][m.GoIdent.GoName] = true
		}
		if !f.Generate {
			continue
		}
		name := f.GeneratedFilenamePrefix + ".psrpc.go"
		if module != "" {
			n, ok := strings.CutPrefix(name, module+"/")
			if !ok {
				return true, "" // protoc-gen-go refuses to write it
			}
			name = n
		}
		s := f.Services[0]
		id := func(m *protogen.Message) string { return string(m.GoIdent.GoImportPath) + "." + m.GoIdent.GoName }
		wants[name] = want{s.GoName, id(s.Methods[0].Input), id(s.Methods[0].Output), f}
	}
	if err := cmd.Run(); err != nil {
		return false, "the generator fails: " + first(stderr.String())
	}
	resp := &pluginpb.CodeGeneratorResponse{}
	if err := proto.Unmarshal(stdout.Bytes(), resp); err != nil {
		return false, "the response cannot be read: " + err.Error()
	}
	if resp.Error != nil {
		return false, "the generator fails: " + first(resp.GetError())
	}
	if len(resp.File) != len(wants) {
		return false, fmt.Sprintf("%d files instead of %d", len(resp.File), len(wants))
	}
	im := &imp{e: e, pkgs: map[string]*types.Package{}}
	conf := types.Config{Importer: im}
	own := string(g.FilesByPath[c.main.path].GoImportPath)
	sorted := func(m map[string]bool) (l []string) {
		for k := range m {
			l = append(l, k)
		}
		sort.Strings(l)
		return
	}
	for p, ns := range byPath {
		if p == own || len(ns) == 0 || strings.HasPrefix(p, "google.golang.org/") || strings.HasPrefix(p, "github.com/livekit/") {
			continue
		}
		f, err := parser.ParseFile(e.fset, "", messages(names[p], sorted(ns)), 0)
		if err != nil {
			return true, ""
		}
		if im.pkgs[p], err = conf.Check(p, e.fset, []*ast.File{f}, nil); err != nil {
			return true, ""
		}
	}
	f, err := parser.ParseFile(e.fset, "own.pb.go", messages(names[own], sorted(byPath[own])), 0)
	if err != nil {
		return true, ""
	}
	files := []*ast.File{f}
	for _, rf := range resp.File {
		w, ok := wants[rf.GetName()]
		if !ok {
			return false, fmt.Sprintf("the file is written to %s, not beside protoc-gen-go's, %v", rf.GetName(), keys(wants))
		}
		f, err := parser.ParseFile(e.fset, rf.GetName(), rf.GetContent(), 0)
		if err != nil {
			return false, "the generated code does not parse: " + err.Error()
		}
		if f.Name.Name != string(w.f.GoPackageName) {
			return false, fmt.Sprintf("package %s beside protoc-gen-go's package %s", f.Name.Name, w.f.GoPackageName)
		}
		files = append(files, f)
	}
	pkg, err := conf.Check(own, e.fset, files, nil)
	if err != nil {
		return false, "the generated code does not compile: " + err.Error()
	}
	for _, w := range wants {
		o := pkg.Scope().Lookup(w.name + "ServerImpl")
		if o == nil {
			return false, "no " + w.name + "ServerImpl"
		}
		it, ok := o.Type().Underlying().(*types.Interface)
		if !ok {
			return false, w.name + "ServerImpl is not an interface"
		}
		for i := 0; i < it.NumMethods(); i++ {
			if it.Method(i).Name() != "Call" {
				continue
			}
			sig := it.Method(i).Type().(*types.Signature)
			in, out := strings.TrimPrefix(sig.Params().At(1).Type().String(), "*"), strings.TrimPrefix(sig.Results().At(0).Type().String(), "*")
			if in != w.in || out != w.out {
				return false, fmt.Sprintf("%s.Call takes %s and returns %s instead of %s and %s", w.name, in, out, w.in, w.out)
			}
		}
	}
	return false, ""
}

func keys[V any](m map[string]V) (l []string) {
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	return
}

func first(s string) string {
	s, _, _ = strings.Cut(strings.TrimSpace(s), "\n")
	if _, t, ok := strings.Cut(s, "error:"); ok { // without the time
		return t
	}
	return s
}

type failure struct {
	Desc string `json:"desc"`
	Msg  string `json:"msg"`
}

type result struct {
	Requests, Refused, Checked int
	Done                       bool
	Failures                   []failure
}

func main() {
	plugin := flag.String("plugin", "", "")
	exports := flag.String("exports", "", "file with lines importpath=exportfile")
	out := flag.String("out", "", "")
	thorough := flag.Bool("thorough", false, "")
	budget := flag.Float64("budget", 60, "")
	only := flag.String("only", "", "the one request to decide")
	all := flag.Bool("all", false, "do not stop at 20 failures")
	flag.Parse()

	exp := map[string]string{}
	b, err := os.ReadFile(*exports)
	if err != nil {
		panic(err)
	}
	for _, l := range strings.Split(string(b), "\n") {
		if p, f, ok := strings.Cut(l, "="); ok {
			exp[p] = f
		}
	}
	deadline := time.Now().Add(time.Duration(*budget * float64(time.Second)))
	// each worker has its own file set and importer: neither is safe to share
	ch := make(chan config, 256)
	var mu sync.Mutex
	var res result
	res.Done = true
	var wg sync.WaitGroup
	for i := 0; i < runtime.NumCPU(); i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			var e *env
			for n := 0; ; n++ {
				c, ok := <-ch
				if !ok {
					return
				}
				if n%500 == 0 {
					fset := token.NewFileSet()
					e = &env{plugin: *plugin, fset: fset, libs: importer.ForCompiler(fset, "gc", func(p string) (io.ReadCloser, error) {
						f, ok := exp[path.Clean(p)]
						if !ok || f == "" {
							return nil, fmt.Errorf("no package %s", p)
						}
						return os.Open(f)
					})}
				}
				skip, problem := e.check(c)
				mu.Lock()
				res.Requests++
				if skip {
					res.Refused++
				} else {
					res.Checked++
				}
				if problem != "" && (*all || len(res.Failures) < 20) {
					res.Failures = append(res.Failures, failure{c.String(), problem})
				}
				mu.Unlock()
			}
		}()
	}
	enumerate(*thorough, func(c config) {
		if *only != "" && c.String() != *only {
			return
		}
		if !res.Done || time.Now().After(deadline) {
			res.Done = false
			return
		}
		ch <- c
	})
	close(ch)
	wg.Wait()
	sort.Slice(res.Failures, func(i, j int) bool { return res.Failures[i].Desc < res.Failures[j].Desc })
	j, _ := json.Marshal(res)
	if err := os.WriteFile(*out, j, 0o644); err != nil {
		panic(err)
	}
}
