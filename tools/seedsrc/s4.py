exec(open("/verif/tools/seedsrc/s1.py").read().split('seed("p01')[0])
SEEDS.clear()
ST, RPC, GEN = "pkg/server/stream.go", "pkg/server/rpc.go", "protoc-gen-psrpc/generator.go"

seed("p08-handled-in-background", "P08", [(ST, """		if ok {
			return ss.HandleStream(is)
		}
""", """		if ok {
			// a slow interceptor must not hold up the other streams
			go func() {
				if err := ss.HandleStream(is); err != nil {
					logger.Error(err, "failed to handle stream message", "requestID", is.RequestId)
				}
			}()
		}
""")], "a second message arrives while the first one is passing the stream interceptors", "messages are received out of order",
(f"time google.golang.org/protobuf/proto {P} {P}/internal/bus {PKG}client {PKG}server", """
type slow struct{ psrpc.StreamHandler }

func (s slow) Recv(msg proto.Message) error {
	if msg.(*Str).Value == "1" {
		time.Sleep(500 * time.Millisecond)
	}
	return s.StreamHandler.Recv(msg)
}

func demo() {
	b := bus.NewLocalMessageBus()
	s := newServer(b, psrpc.WithServerStreamInterceptors(func(_ psrpc.RPCInfo, next psrpc.StreamHandler) psrpc.StreamHandler { return slow{next} }))
	got := make(chan string, 10)
	must(server.RegisterStreamHandler[*Str, *Str](s, "stream", nil, func(st psrpc.ServerStream[*Str, *Str]) error {
		for m := range st.Channel() {
			got <- m.Value
		}
		return nil
	}, nil))
	c := newClient(b)
	st, err := client.OpenStream[*Str, *Str](bg, c, "stream", nil)
	must(err)
	go func() { _ = st.Send(str("1")) }()
	time.Sleep(100 * time.Millisecond)
	must(st.Send(str("2")))
	a, z := <-got, <-got
	expect(a == "1" && z == "2", "received %s, %s", a, z)
}
"""))

seed("p11-expired-within-second", "P11", [(RPC, "				if time.Now().UnixNano() < ir.Expiry {", "				if time.Now().Unix() <= ir.Expiry/int64(time.Second) {")],
"a request arrives after it expired, in the same second", "the expired request is handled",
(f"context sync/atomic time {P} {P}/internal {P}/internal/bus {PKG}info google.golang.org/protobuf/proto {PKG}server", """
func demo() {
	b := bus.NewLocalMessageBus()
	var n atomic.Int32
	s := newServer(b)
	must(server.RegisterHandler[*Str, *Str](s, "direct", nil, func(_ context.Context, r *Str) (*Str, error) { n.Add(1); return r, nil }, nil))
	raw, err := bus.SerializePayload(str("x"))
	must(err)
	// not close to the end of a second
	now := time.Now()
	time.Sleep(now.Truncate(time.Second).Add(1500 * time.Millisecond).Sub(now) % time.Second)
	now = time.Now()
	must(b.Publish(bg, s.GetInfo("direct", nil).GetRPCChannel(), &internal.Request{RequestId: "r", ClientId: "c", SentAt: now.UnixNano(), Expiry: now.Add(-100 * time.Millisecond).UnixNano(), RawRequest: raw}))
	time.Sleep(200 * time.Millisecond)
	expect(n.Load() == 0, "the expired request was handled")
	_ = info.RequestInfo{}
	_ = proto.Size
	_ = psrpc.Internal
}
"""))

seed("p18-cancel-between-attempts", "P18", [("pkg/middleware/retry.go", """		} else {
			select {
			case <-done:
				return psrpc.ErrRequestCanceled
			default:
			}
		}
""", """		}
""")], "the caller cancels during an attempt that fails with a recoverable error, and retries do not wait", "further attempts are made for a canceled call",
(f"context google.golang.org/protobuf/proto {P} {PKG}middleware", """
func demo() {
	n := 0
	ctx, cancel := context.WithCancel(bg)
	h := middleware.NewRPCRetryInterceptor(middleware.RetryOptions{MaxAttempts: 5})(psrpc.RPCInfo{}, func(context.Context, proto.Message, ...psrpc.RequestOption) (proto.Message, error) {
		if n++; n == 2 {
			cancel()
		}
		return nil, psrpc.ErrRequestTimedOut
	})
	_, err := h(ctx, str("x"))
	expect(err == psrpc.ErrRequestCanceled && n == 2, "%d attempts, %v", n, err)
}
"""))

seed("p20-panicked-psrpc-error", "P20", [("pkg/middleware/recovery.go", """			if r := recover(); r != nil {
""", """			if r := recover(); r != nil {
				if e, ok := r.(psrpc.Error); ok {
					err = e
					return
				}
""")], "the handler panics with a psrpc error", "the caller gets that error's code instead of Internal",
(f"context {P} {P}/internal/bus {PKG}client {PKG}middleware {PKG}server", """
func demo() {
	b := bus.NewLocalMessageBus()
	s := newServer(b, psrpc.WithServerRPCInterceptors(middleware.WithServerRecovery()))
	must(server.RegisterHandler[*Str, *Str](s, "direct", nil, func(context.Context, *Str) (*Str, error) {
		panic(psrpc.NewErrorf(psrpc.NotFound, "no"))
	}, nil))
	c := newClient(b)
	_, err := client.RequestSingle[*Str](bg, c, "direct", nil, str("x"))
	code, _ := psrpc.GetErrorCode(err)
	expect(code == psrpc.Internal, "got %v", err)
}
"""))

seed("p13-slow-reader-loses", "P13", [("internal/bus/bus_local.go", """	case <-l.ctx.Done():
	}
}
""", """	case <-l.ctx.Done():
	case <-time.After(3 * time.Second):
		// do not hold up the publisher any longer
	}
}
"""), ("internal/bus/bus_local.go", """	"context"
	"sync"
""", """	"context"
	"sync"
	"time"
""")], "a subscription whose channel is full is not read for some seconds", "a message is lost",
(f"context time {P} {P}/internal/bus", """
func demo() {
	b := bus.NewLocalMessageBus()
	sub, err := bus.Subscribe[*Str](bg, b, bus.Channel{Legacy: "a"}, 1)
	must(err)
	n := 8
	done := make(chan struct{})
	go func() {
		defer close(done)
		for i := 0; i < n; i++ {
			must(b.Publish(bg, bus.Channel{Legacy: "a"}, str("x")))
		}
	}()
	time.Sleep(4 * time.Second)
	got := 0
	for got < n {
		select {
		case <-sub.Channel():
			got++
			continue
		case <-time.After(2 * time.Second):
		}
		break
	}
	expect(got == n, "%d of %d messages", got, n)
	_ = psrpc.Internal
	_ = context.Canceled
}
"""))

seed("p19-multi-start-early", "P19", [("pkg/middleware/metrics.go", """	r.start = time.Now()
	r.txBytes""", """	r.txBytes""")], "an interceptor in front of the metrics takes a while before sending a multi request", "the reported duration includes it",
(f"context time google.golang.org/protobuf/proto {P} {P}/internal/bus {PKG}client {PKG}middleware", """
type slow struct{ psrpc.ClientMultiRPCHandler }

func (s slow) Send(ctx context.Context, req proto.Message, opts ...psrpc.RequestOption) error {
	time.Sleep(time.Second)
	return s.ClientMultiRPCHandler.Send(ctx, req, opts...)
}

type obs struct {
	middleware.MetricsObserver
	d time.Duration
}

func (o *obs) OnMultiRequest(_ middleware.MetricRole, _ psrpc.RPCInfo, d time.Duration, _, _, _, _ int) { o.d = d }

func demo() {
	b := bus.NewLocalMessageBus()
	o := &obs{}
	c := newClient(b, psrpc.WithClientMultiRPCInterceptors(func(_ psrpc.RPCInfo, next psrpc.ClientMultiRPCHandler) psrpc.ClientMultiRPCHandler {
		return slow{next}
	}), middleware.WithClientMetrics(o))
	ch, err := client.RequestMulti[*Str](bg, c, "multi", nil, str("x"), psrpc.WithRequestTimeout(500*time.Millisecond))
	must(err)
	for range ch {
	}
	time.Sleep(50 * time.Millisecond)
	expect(o.d > 400*time.Millisecond && o.d < 900*time.Millisecond, "reported %v", o.d)
}
"""))

seed("p09-wrapped-cause", "P09", [("internal/stream/stream.go", """	var e psrpc.Error
	if errors.As(cause, &e) {
		msg.Error""", """	if e, ok := cause.(psrpc.Error); ok {
		msg.Error"""), ("internal/stream/stream.go", """	"errors"
""", "")], "a stream is closed with a psrpc error wrapped in another one", "the peer sees an error without its code",
(f"fmt time {P} {P}/internal/bus {PKG}client {PKG}server", """
func demo() {
	b := bus.NewLocalMessageBus()
	s := newServer(b)
	must(server.RegisterStreamHandler[*Str, *Str](s, "stream", nil, func(st psrpc.ServerStream[*Str, *Str]) error {
		return fmt.Errorf("while working: %w", psrpc.NewErrorf(psrpc.NotFound, "no"))
	}, nil))
	c := newClient(b)
	st, err := client.OpenStream[*Str, *Str](bg, c, "stream", nil)
	must(err)
	for range st.Channel() {
	}
	time.Sleep(50 * time.Millisecond)
	code, _ := psrpc.GetErrorCode(st.Err())
	expect(code == psrpc.NotFound, "got %v", st.Err())
}
"""))

GENI = f"bytes os os/exec path/filepath strings google.golang.org/protobuf/proto google.golang.org/protobuf/types/descriptorpb google.golang.org/protobuf/types/pluginpb"
GENLIB = """
type file struct{ path, pkg, goPkg string }

func (f file) proto(msgs ...string) *descriptorpb.FileDescriptorProto {
	d := &descriptorpb.FileDescriptorProto{Name: proto.String(f.path), Package: proto.String(f.pkg), Syntax: proto.String("proto3"), Options: &descriptorpb.FileOptions{GoPackage: proto.String(f.goPkg)}}
	for _, m := range msgs {
		d.MessageType = append(d.MessageType, &descriptorpb.DescriptorProto{Name: proto.String(m)})
	}
	return d
}

func run(r *pluginpb.CodeGeneratorRequest) *pluginpb.CodeGeneratorResponse {
	tmp, err := os.MkdirTemp("", "demo")
	must(err)
	defer os.RemoveAll(tmp)
	b, err := exec.Command("go", "build", "-o", filepath.Join(tmp, "gen"), "./protoc-gen-psrpc").CombinedOutput()
	expect(err == nil, "%s", b)
	in, err := proto.Marshal(r)
	must(err)
	c := exec.Command(filepath.Join(tmp, "gen"))
	c.Stdin = bytes.NewReader(in)
	out, err := c.Output()
	must(err)
	res := &pluginpb.CodeGeneratorResponse{}
	must(proto.Unmarshal(out, res))
	return res
}

func service(name, in, out string) *descriptorpb.ServiceDescriptorProto {
	return &descriptorpb.ServiceDescriptorProto{Name: proto.String(name), Method: []*descriptorpb.MethodDescriptorProto{{Name: proto.String("Call"), InputType: proto.String(in), OutputType: proto.String(out)}}}
}
"""

seed("p26-alias-by-proto-package", "P26", [(GEN, """	// Next, we need to pick names for all the files that are dependencies.
""", """	// Next, we need to pick names for all the files that are dependencies.
	aliases := make(map[string]string)
"""), (GEN, """		t.fileToGoPackageName[f] = alias
""", """		if other, ok := aliases[name]; ok {
			// one import is enough for the files of a package
			alias = other
		}
		aliases[name] = alias
		t.fileToGoPackageName[f] = alias
""")], "a service uses messages of two imported files with the same proto package and different Go packages", "the code refers to one of them in the other's Go package",
(GENI, GENLIB + """
func demo() {
	r := &pluginpb.CodeGeneratorRequest{FileToGenerate: []string{"svc.proto"}}
	svc := file{"svc.proto", "rpc", "example.com/m/rpc"}.proto()
	svc.Dependency = []string{"a.proto", "b.proto"}
	svc.Service = append(svc.Service, service("Svc", ".dep.A", ".dep.B"))
	r.ProtoFile = append(r.ProtoFile, file{"a.proto", "dep", "example.com/m/a"}.proto("A"), file{"b.proto", "dep", "example.com/m/b"}.proto("B"), svc)
	res := run(r)
	c := res.File[0].GetContent()
	expect(strings.Contains(c, `"example.com/m/a"`) && strings.Contains(c, `"example.com/m/b"`), "not both packages are imported")
}
"""))

seed("p26-first-dot", "P26", [("protoc-gen-psrpc/go_naming.go", """	if ext := path.Ext(name); ext == ".proto" || ext == ".protodevel" {
		name = name[:len(name)-len(ext)] // remove extension
	}
""", """	dir, base := path.Split(name)
	base, _, _ = strings.Cut(base, ".") // remove extension
	name = dir + base
""")], "a proto file with dots in its name", "two files of a service's versions are written to the same place",
(GENI, GENLIB + """
func demo() {
	r := &pluginpb.CodeGeneratorRequest{FileToGenerate: []string{"svc.v1.proto", "svc.v2.proto"}}
	for _, v := range []string{"v1", "v2"} {
		f := file{"svc." + v + ".proto", "rpc", "example.com/m/rpc"}.proto("Req" + v)
		f.Service = append(f.Service, service("Svc"+v, ".rpc.Req"+v, ".rpc.Req"+v))
		r.ProtoFile = append(r.ProtoFile, f)
	}
	res := run(r)
	expect(len(res.File) == 2 && res.File[0].GetName() != res.File[1].GetName(), "both are %s", res.File[0].GetName())
	_ = strings.Cut
}
"""))

seed("p26-module-everywhere", "P26", [("protoc-gen-psrpc/go_naming.go", """			impPath = strings.TrimPrefix(strings.TrimPrefix(impPath, t.modulePrefix), "/")
""", """			impPath = strings.Replace(impPath, t.modulePrefix+"/", "", 1)
""")], "the module is the whole import path of the generated package", "the file is not written to the module's root",
(GENI, GENLIB + """
func demo() {
	r := &pluginpb.CodeGeneratorRequest{FileToGenerate: []string{"a/svc.proto"}, Parameter: proto.String("module=example.com/m")}
	f := file{"a/svc.proto", "rpc", "example.com/m"}.proto("Req")
	f.Service = append(f.Service, service("Svc", ".rpc.Req", ".rpc.Req"))
	r.ProtoFile = append(r.ProtoFile, f)
	res := run(r)
	expect(len(res.File) == 1 && res.File[0].GetName() == "svc.psrpc.go", "written to %s", res.File[0].GetName())
	_ = strings.Cut
}
"""))

seed("p26-import-by-package", "P26", [(GEN, """				pkg := t.goPackageName(def.File)
				if pkg != t.genPkgName {
					deps[pkg] = strconv.Quote(importPath)
				}
""", """				pkg := t.goPackageName(def.File)
				if pkg != t.genPkgName {
					if _, ok := deps[pkg]; !ok && importPath != ourImportPath {
						deps[pkg] = strconv.Quote(importPath)
					}
				}
""")], "an imported package whose import path equals the directory the file is written to", "the import is missing and the code does not compile",
(GENI, GENLIB + """
func demo() {
	r := &pluginpb.CodeGeneratorRequest{FileToGenerate: []string{"api/svc.proto"}, Parameter: proto.String("paths=source_relative,Mdep.proto=api")}
	svc := file{"api/svc.proto", "rpc", "example.com/m/rpc"}.proto()
	svc.Dependency = []string{"dep.proto"}
	svc.Service = append(svc.Service, service("Svc", ".dep.A", ".dep.A"))
	r.ProtoFile = append(r.ProtoFile, file{"dep.proto", "dep", "example.com/m/a"}.proto("A"), svc)
	res := run(r)
	expect(strings.Contains(res.File[0].GetContent(), `import dep "api"`), "no import")
}
"""))
