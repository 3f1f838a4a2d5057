package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
)

// genFailure is generated code that does not exist or does not compile.
type genFailure struct {
	Pkg  string `json:"pkg"`
	Desc string `json:"desc"`
	Msg  string `json:"msg"`
}

func goCmd(dir string, args ...string) (string, error) {
	cmd := exec.Command("go", args...)
	cmd.Dir = dir
	cmd.Env = append(os.Environ(), "GOTOOLCHAIN=local", "GOFLAGS=-mod=mod", "GOPROXY=off")
	var buf bytes.Buffer
	cmd.Stdout, cmd.Stderr = &buf, &buf
	err := cmd.Run()
	if err != nil {
		err = fmt.Errorf("go %s: %v\n%s", strings.Join(args[:min(len(args), 6)], " "), err, buf.String())
	}
	return buf.String(), err
}

// generated runs the generator of the tree on every enumerated service, adds
// what compiles to the overlay, and returns what does not.
func (o *overlay) generated(thorough bool) ([]genFailure, error) {
	base := filepath.Join(repoDir, "internal", "zzverif")
	gen := newOverlay(filepath.Join(o.dir, "gen"))
	_ = os.MkdirAll(gen.dir, 0o755)
	gen.replace[filepath.Join(base, "p21gen", "main.go")] = filepath.Join(verifDir, "harness", "p21gen", "main.go")
	ov, err := gen.write()
	if err != nil {
		return nil, err
	}
	plugin, drv, out := filepath.Join(gen.dir, "plugin"), filepath.Join(gen.dir, "p21gen"), filepath.Join(gen.dir, "out")
	if _, err := goCmd(repoDir, "build", "-o", plugin, "./protoc-gen-psrpc"); err != nil {
		return nil, err
	}
	if _, err := goCmd(repoDir, "build", "-overlay", ov, "-o", drv, "./internal/zzverif/p21gen"); err != nil {
		return nil, err
	}
	b, err := exec.Command(drv, "-plugin", plugin, "-out", out, fmt.Sprintf("-thorough=%v", thorough)).CombinedOutput()
	if err != nil {
		return nil, fmt.Errorf("p21gen: %v\n%s", err, b)
	}
	var res struct {
		Failures []genFailure
		Packages map[string]map[string]string
	}
	if b, err = os.ReadFile(filepath.Join(out, "result.json")); err == nil {
		err = json.Unmarshal(b, &res)
	}
	if err != nil {
		return nil, err
	}
	var pkgs []string
	add := func(p string) {
		ents, _ := os.ReadDir(filepath.Join(out, p))
		for _, e := range ents {
			o.replace[filepath.Join(base, "p21g", p, e.Name())] = filepath.Join(out, p, e.Name())
		}
	}
	add("dep")
	for p := range res.Packages {
		add(p)
		pkgs = append(pkgs, p)
	}
	sort.Strings(pkgs)
	if ov, err = o.write(); err != nil {
		return nil, err
	}
	args := []string{"build", "-overlay", ov}
	for _, p := range pkgs {
		args = append(args, "./internal/zzverif/p21g/"+p)
	}
	bad := map[string]bool{}
	if txt, err := goCmd(repoDir, args...); err != nil {
		// the errors, by service
		fileRE := regexp.MustCompile(`([a-z]\d+)[/%]([a-zA-Z0-9_]+?)(?:_driver|\.psrpc)?\.go:\d+:\d+: (.*)`)
		seen := map[string]bool{}
		for _, l := range strings.Split(txt, "\n") {
			m := fileRE.FindStringSubmatch(l)
			if m == nil {
				continue
			}
			bad[m[1]] = true
			if seen[m[1]+m[2]] {
				continue
			}
			seen[m[1]+m[2]] = true
			d := res.Packages[m[1]][m[2]]
			if d == "" {
				d = m[1] + "/" + m[2]
			}
			res.Failures = append(res.Failures, genFailure{m[1], d, "the generated code does not compile as the options promise: " + m[3]})
		}
		if len(bad) == 0 {
			return nil, err
		}
	}
	var b2 strings.Builder
	b2.WriteString("package main\n\nimport (\n")
	for _, p := range pkgs {
		if bad[p] {
			for f := range o.replace {
				if strings.HasPrefix(f, filepath.Join(base, "p21g", p)+"/") {
					delete(o.replace, f)
				}
			}
			continue
		}
		if len(res.Packages[p]) > 0 {
			fmt.Fprintf(&b2, "\t_ \"github.com/livekit/psrpc/internal/zzverif/p21g/%s\"\n", p)
		}
	}
	b2.WriteString(")\n")
	return res.Failures, o.put(filepath.Join(base, "p21", "services.go"), b2.String())
}

// placements runs the generator of the tree on every enumerated request of
// p26gen (or on the one described) and reports the first that fails.
func placements(total *stats, dir string, thorough bool, budget float64, only string) (*violation, error) {
	base := filepath.Join(repoDir, "internal", "zzverif")
	o := newOverlay(filepath.Join(dir, "gen"))
	_ = os.MkdirAll(o.dir, 0o755)
	o.replace[filepath.Join(base, "p26gen", "main.go")] = filepath.Join(verifDir, "harness", "p26gen", "main.go")
	ov, err := o.write()
	if err != nil {
		return nil, err
	}
	plugin, drv, out := filepath.Join(o.dir, "plugin"), filepath.Join(o.dir, "p26gen"), filepath.Join(o.dir, "out.json")
	if _, err := goCmd(repoDir, "build", "-o", plugin, "./protoc-gen-psrpc"); err != nil {
		return nil, err
	}
	if _, err := goCmd(repoDir, "build", "-overlay", ov, "-o", drv, "./internal/zzverif/p26gen"); err != nil {
		return nil, err
	}
	exports, err := goCmd(repoDir, "list", "-export", "-deps", "-f", "{{.ImportPath}}={{.Export}}", ".", "./pkg/...", "./version", "google.golang.org/protobuf/types/known/emptypb")
	if err != nil {
		return nil, err
	}
	exp := filepath.Join(o.dir, "exports")
	if err := os.WriteFile(exp, []byte(exports), 0o644); err != nil {
		return nil, err
	}
	if b, err := exec.Command(drv, "-plugin", plugin, "-exports", exp, "-out", out, "-budget", fmt.Sprint(budget), "-only", only, fmt.Sprintf("-thorough=%v", thorough)).CombinedOutput(); err != nil {
		return nil, fmt.Errorf("p26gen: %v\n%s", err, b)
	}
	var res struct {
		Requests, Refused, Checked int
		Done                       bool
		Failures                   []genFailure
	}
	b, err := os.ReadFile(out)
	if err == nil {
		err = json.Unmarshal(b, &res)
	}
	if err != nil {
		return nil, err
	}
	total.Executions += res.Checked
	total.Nodes += res.Requests
	total.Transitions += res.Checked
	if total.PassInfo != nil {
		total.PassInfo["P26/requests"] = res.Requests
		total.PassInfo["P26/refused by protoc-gen-go"] = res.Refused
		total.PassInfo["P26/decided"] = res.Checked
	}
	if !res.Done {
		total.Incomplete = append(total.Incomplete, "P26: time budget")
	}
	if len(res.Failures) == 0 {
		return nil, nil
	}
	f := res.Failures[0]
	return &violation{Scenario: "P26/place", Msg: f.Desc + ": " + f.Msg, Detail: f.Desc, Harness: "p26gen"}, nil
}
