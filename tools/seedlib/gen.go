package main

import (
	"bytes"
	"encoding/json"
	"os"
	"os/exec"
	"path/filepath"

	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protodesc"
	"google.golang.org/protobuf/types/descriptorpb"
	"google.golang.org/protobuf/types/known/wrapperspb"
	"google.golang.org/protobuf/types/pluginpb"

	"github.com/livekit/psrpc/protoc-gen-psrpc/options"
)

func method(name string, o *options.Options) *descriptorpb.MethodDescriptorProto {
	m := &descriptorpb.MethodDescriptorProto{Name: proto.String(name), InputType: proto.String(".google.protobuf.StringValue"), OutputType: proto.String(".google.protobuf.StringValue"), Options: &descriptorpb.MethodOptions{}}
	proto.SetExtension(m.Options, options.E_Options, o)
	return m
}

// runGenerated generates the code of a service Demo with StringValue messages,
// and runs a program which may import it as "github.com/livekit/psrpc/internal/zzgen".
func runGenerated(program string, methods ...*descriptorpb.MethodDescriptorProto) {
	tmp, err := os.MkdirTemp("", "demo")
	must(err)
	defer os.RemoveAll(tmp)
	run := func(stdin []byte, name string, args ...string) []byte {
		c := exec.Command(name, args...)
		c.Stdin = bytes.NewReader(stdin)
		var so, se bytes.Buffer
		c.Stdout, c.Stderr = &so, &se
		if err := c.Run(); err != nil {
			os.RemoveAll(tmp)
			fail("%s: %v\n%s%s", name, err, so.String(), se.String())
		}
		return so.Bytes()
	}
	run(nil, "go", "build", "-o", tmp+"/plugin", "./protoc-gen-psrpc")
	file := &descriptorpb.FileDescriptorProto{
		Name: proto.String("demo.proto"), Package: proto.String("zzgen"), Syntax: proto.String("proto3"),
		Options:    &descriptorpb.FileOptions{GoPackage: proto.String("github.com/livekit/psrpc/internal/zzgen")},
		Dependency: []string{"options.proto", "google/protobuf/wrappers.proto"},
		Service:    []*descriptorpb.ServiceDescriptorProto{{Name: proto.String("Demo"), Method: methods}},
	}
	in, err := proto.Marshal(&pluginpb.CodeGeneratorRequest{
		Parameter: proto.String("paths=source_relative"), FileToGenerate: []string{"demo.proto"},
		ProtoFile: []*descriptorpb.FileDescriptorProto{
			protodesc.ToFileDescriptorProto(options.File_options_proto.ParentFile()),
			protodesc.ToFileDescriptorProto(wrapperspb.File_google_protobuf_wrappers_proto), file,
		},
	})
	must(err)
	resp := &pluginpb.CodeGeneratorResponse{}
	must(proto.Unmarshal(run(in, tmp+"/plugin"), resp))
	must(os.WriteFile(tmp+"/gen.go", []byte(resp.File[0].GetContent()), 0o600))
	must(os.WriteFile(tmp+"/prog.go", []byte(program), 0o600))
	wd, err := os.Getwd()
	must(err)
	ov, _ := json.Marshal(map[string]any{"Replace": map[string]string{
		filepath.Join(wd, "internal/zzgen/gen.go"):      tmp + "/gen.go",
		filepath.Join(wd, "internal/zzgen/prog/main.go"): tmp + "/prog.go",
	}})
	must(os.WriteFile(tmp+"/overlay.json", ov, 0o600))
	run(nil, "go", "build", "-overlay", tmp+"/overlay.json", "-o", tmp+"/prog", "./internal/zzgen/prog")
	run(nil, tmp+"/prog")
}
