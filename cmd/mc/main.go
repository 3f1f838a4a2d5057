// Command mc builds a harness from /repo's working tree with the controlled
// scheduler and runs the checks of one property.
package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

type dev struct {
	Pos uint32
	Opt uint32
	Sig uint64
}

type pass struct {
	Name  string
	Bound int
	Class uint32
	Alts  uint32
}

type violation struct {
	Scenario string   `json:"scenario"`
	Pass     pass     `json:"pass"`
	Devs     []dev    `json:"devs"`
	Msg      string   `json:"msg"`
	Property string   `json:"property,omitempty"`
	Harness  string   `json:"harness,omitempty"`
	Detail   string   `json:"detail,omitempty"`
	Race     bool     `json:"race,omitempty"`
	Instr    []string `json:"instr,omitempty"`
	Schedule []string `json:"schedule,omitempty"`
}

type stats struct {
	Executions  int               `json:"executions"`
	Nodes       int               `json:"nodes"`
	Transitions int               `json:"transitions"`
	Diverged    int               `json:"diverged"`
	Truncated   int               `json:"truncated"`
	OutHashes   map[string]int    `json:"out_hashes"`
	Schedules   int               `json:"schedules"`
	PassInfo    map[string]int    `json:"pass_info"`
	Incomplete  []string          `json:"incomplete"`
	Samples     []string          `json:"samples"`
	MaxPoints   int               `json:"max_points"`
	Violations  []violation       `json:"violations"`
	Known       map[string]string `json:"known"`
	Reached     []int             `json:"reached"`
	Further     int               `json:"further"`
	FurtherDone int               `json:"further_done"`

	statements map[string]bool // instrumented -> reached
}

type known struct {
	Property string `json:"property"`
	ID       string `json:"id"`
	Scenario string `json:"scenario,omitempty"`
	Match    string `json:"match"`
	What     string `json:"what"`
}

var (
	verifDir = "/verif"
	repoDir  = "/repo"
	goroot   string
)

func die(code int, format string, a ...any) {
	fmt.Fprintf(os.Stderr, format+"\n", a...)
	os.Exit(code)
}

func env(key, def string) string {
	if v := os.Getenv(key); v != "" {
		return v
	}
	return def
}

func main() {
	if len(os.Args) < 2 {
		die(2, "usage: mc check PROPERTY | mc build HARNESS OUT | mc replay FILE")
	}
	if exe, err := filepath.Abs("."); err == nil {
		verifDir = env("VERIF_DIR", exe)
	}
	repoDir = env("VERIF_REPO", repoDir)
	out, err := exec.Command("go", "env", "GOROOT").Output()
	if err != nil {
		die(2, "go env: %v", err)
	}
	goroot = strings.TrimSpace(string(out))
	switch os.Args[1] {
	case "check":
		os.Exit(check(os.Args[2]))
	case "build": // build HARNESS OUTDIR [race]
		_ = os.MkdirAll(os.Args[3], 0o755)
		var instr []string
		if len(os.Args) > 5 {
			instr = strings.Split(os.Args[5], ",")
		}
		if err := build(os.Args[2], os.Args[3], len(os.Args) > 4 && os.Args[4] == "race", instr); err != nil {
			die(2, "%v", err)
		}
		for _, f := range genFailures {
			fmt.Printf("GEN %s: %s\n", f.Desc, f.Msg)
		}
	case "replay":
		os.Exit(replayFile(os.Args[2]))
	case "setup":
		tmp := scratch()
		defer os.RemoveAll(tmp)
		for _, h := range []string{"rpc"} {
			if err := build(h, tmp, false, nil); err != nil {
				die(2, "%v", err)
			}
		}
	default:
		die(2, "unknown command")
	}
}

func scratch() string {
	tmp, err := os.MkdirTemp("", "psrpc-mc.")
	if err != nil {
		die(2, "%v", err)
	}
	return tmp
}

// genFailures is what the generator could not do in the last build.
var genFailures []genFailure

// build compiles harness into dir/harness.
func build(harness, dir string, race bool, instr []string) error {
	if instr == nil {
		instr = instrumented
	}
	o := newOverlay(dir)
	if err := o.patchRuntime(goroot, verifDir); err != nil {
		return err
	}
	p := &points{where: []string{"-"}}
	if err := o.instrumentPackages(p, repoDir, instr); err != nil {
		return err
	}
	if err := os.WriteFile(filepath.Join(dir, "points.txt"), []byte(strings.Join(p.where, "\n")), 0o644); err != nil {
		return err
	}
	base := filepath.Join(repoDir, "internal", "zzverif")
	dirs := []string{"mc", "sim", "wire", harness}
	if harness == "p21" {
		dirs = append(dirs, "p21kit")
	}
	for _, d := range dirs {
		ents, err := os.ReadDir(filepath.Join(verifDir, "harness", d))
		if err != nil {
			return err
		}
		for _, e := range ents {
			if strings.HasSuffix(e.Name(), ".go") {
				o.replace[filepath.Join(base, d, e.Name())] = filepath.Join(verifDir, "harness", d, e.Name())
			}
		}
	}
	genFailures = nil
	if harness == "p21" {
		var err error
		if genFailures, err = o.generated(env("VERIF_TIER", "quick") == "thorough" || len(os.Args) > 3 && os.Args[3] == "thorough"); err != nil {
			return err
		}
	}
	ov, err := o.write()
	if err != nil {
		return err
	}
	args := []string{"build", "-overlay", ov, "-o", filepath.Join(dir, "harness")}
	if race {
		args = append(args, "-race")
	}
	args = append(args, "./internal/zzverif/"+harness)
	cmd := exec.Command("go", args...)
	cmd.Dir = repoDir
	cmd.Env = append(os.Environ(), "GOTOOLCHAIN=local", "GOFLAGS=-mod=mod", "GOPROXY=off")
	var buf bytes.Buffer
	cmd.Stdout, cmd.Stderr = &buf, &buf
	if err := cmd.Run(); err != nil {
		return fmt.Errorf("go %s: %v\n%s", strings.Join(args, " "), err, buf.String())
	}
	return nil
}

type workerResult struct {
	st     *stats
	crash  *violation
	reason string
}

func runWorker(dir string, args []string, i int, limit time.Duration, race bool) (r workerResult) {
	out := filepath.Join(dir, fmt.Sprintf("out.%d.json", i))
	status := filepath.Join(dir, fmt.Sprintf("status.%d", i))
	errf := filepath.Join(dir, fmt.Sprintf("err.%d", i))
	_ = os.Remove(out)
	ef, err := os.Create(errf)
	if err != nil {
		r.reason = err.Error()
		return
	}
	defer ef.Close()
	cmd := exec.Command(filepath.Join(dir, "harness"), append(args, "-out", out, "-status", status)...)
	cmd.Env = workerEnv(race)
	cmd.Stdout, cmd.Stderr = ef, ef
	if err := cmd.Start(); err != nil {
		r.reason = err.Error()
		return
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	select {
	case err = <-done:
	case <-time.After(limit):
		_ = cmd.Process.Kill()
		<-done
		r.reason = "worker exceeded its time limit"
		return
	}
	if err != nil {
		code := -1
		if ee, ok := err.(*exec.ExitError); ok {
			code = ee.ExitCode()
		}
		eb, _ := os.ReadFile(errf)
		r.reason = fmt.Sprintf("worker exit %d: %s", code, firstLines(string(eb), 3))
		if b, err := os.ReadFile(status); err == nil && len(b) > 8 {
			n := int(b[0]) | int(b[1])<<8
			var v violation
			if json.Unmarshal(b[8:8+n], &v) == nil && v.Scenario != "" && code != 97 && code != 98 {
				v.Msg = crashMsg(string(eb))
				if !race || isRace(string(eb)) {
					r.crash = &v
				}
			}
		}
		return
	}
	b, err := os.ReadFile(out)
	if err != nil {
		r.reason = err.Error()
		return
	}
	r.st = &stats{}
	if err := json.Unmarshal(b, r.st); err != nil {
		r.st = nil
		r.reason = err.Error()
	}
	return
}

func workerEnv(race bool) []string {
	e := append(os.Environ(), "GODEBUG=asyncpreemptoff=1,invalidptr=0", "GOMAXPROCS=1", "GOTRACEBACK=single")
	if race {
		e = append(e, "GORACE=halt_on_error=1 exitcode=66 history_size=3")
	}
	return e
}

func firstLines(s string, n int) string {
	l := strings.SplitN(strings.TrimSpace(s), "\n", n+1)
	if len(l) > n {
		l = l[:n]
	}
	return strings.Join(l, " / ")
}

var hexRE = regexp.MustCompile(`0x[0-9a-f]+|goroutine \d+|\+0x[0-9a-f]+`)

// isRace reports whether a crash is a data race with an access of the library;
// races of the harness with itself do not count.
func isRace(s string) bool {
	if strings.Contains(s, "fatal error: concurrent map") {
		return true
	}
	i := strings.Index(s, "WARNING: DATA RACE")
	if i < 0 {
		return false
	}
	lib, waiting, stacks := false, false, 0
	for _, l := range strings.Split(s[i:], "\n") {
		l = strings.TrimSpace(l)
		if strings.Contains(l, " at 0x") && strings.Contains(l, " by ") && strings.HasSuffix(l, ":") {
			waiting = true
			stacks++
			continue
		}
		if stacks == 2 && l == "" {
			break
		}
		if !waiting || !strings.HasSuffix(l, "()") {
			continue
		}
		switch {
		case strings.HasPrefix(l, "main.") || strings.Contains(l, "/zzverif/"):
			waiting = false
		case strings.Contains(l, "livekit/psrpc"):
			waiting, lib = false, true
		}
	}
	return lib
}

// crashMsg extracts the stable part of a crash report.
func crashMsg(s string) string {
	if i := strings.Index(s, "WARNING: DATA RACE"); i >= 0 {
		var fr []string
		for _, l := range strings.Split(s[i:], "\n") {
			l = strings.TrimSpace(l)
			if strings.HasSuffix(l, "()") && !strings.HasPrefix(l, "runtime.") {
				fr = append(fr, l)
			}
			if len(fr) >= 6 {
				break
			}
		}
		return "data race: " + strings.Join(fr, " < ")
	}
	for _, l := range strings.Split(s, "\n") {
		if strings.HasPrefix(l, "panic:") || strings.HasPrefix(l, "fatal error:") {
			return "crash: " + hexRE.ReplaceAllString(l, "?")
		}
	}
	return "crash: " + hexRE.ReplaceAllString(firstLines(s, 1), "?")
}

func loadKnown(prop string) (ks []known) {
	b, err := os.ReadFile(filepath.Join(verifDir, "known_findings.json"))
	if err != nil {
		return nil
	}
	var all struct {
		Findings []known `json:"findings"`
	}
	if err := json.Unmarshal(b, &all); err != nil {
		die(2, "known_findings.json: %v", err)
	}
	for _, k := range all.Findings {
		if k.Property == prop {
			ks = append(ks, k)
		}
	}
	return
}

func check(prop string) int {
	start := time.Now()
	cfg, ok := checks[prop]
	if !ok {
		die(2, "no check for %s", prop)
	}
	tier := env("VERIF_TIER", "quick")
	if len(os.Args) > 3 {
		tier = os.Args[3]
	}
	seed, _ := strconv.Atoi(env("VERIF_SEED", "1"))
	budget := cfg.quick
	if tier == "thorough" {
		budget = cfg.thorough
	}
	if b, err := strconv.ParseFloat(os.Getenv("VERIF_BUDGET"), 64); err == nil {
		budget = b
	}
	ks := loadKnown(prop)
	tmp := scratch()
	defer os.RemoveAll(tmp)
	kf := filepath.Join(tmp, "known.json")
	kb, _ := json.Marshal(ks)
	_ = os.WriteFile(kf, kb, 0o644)

	total := &stats{OutHashes: map[string]int{}, PassInfo: map[string]int{}, Known: map[string]string{}}
	var notes []string
	var viol *violation
	shards := 8
	if s, err := strconv.Atoi(os.Getenv("VERIF_SHARDS")); err == nil {
		shards = s
	}
	for pi, part := range cfg.parts {
		if viol != nil {
			break
		}
		dir := filepath.Join(tmp, fmt.Sprint(pi))
		_ = os.MkdirAll(dir, 0o755)
		if part.harness == "p26gen" {
			v, err := placements(total, dir, tier == "thorough", budget, "")
			if err != nil {
				fmt.Fprintln(os.Stderr, err)
				return 2
			}
			if v != nil {
				v.Property = prop
				viol = v
			}
			continue
		}
		if err := build(part.harness, dir, part.race, part.instr); err != nil {
			// cannot be decided: the tree does not build with the harness
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
		for _, f := range genFailures {
			v := violation{Scenario: "P21/generate", Msg: f.Desc + ": " + f.Msg, Property: prop, Harness: part.harness}
			if id := matchKnown(ks, v); id != "" {
				total.Known[id] = v.Msg
			} else {
				viol = &v
				break
			}
		}
		if viol != nil {
			break
		}
		b := budget * part.share
		begin := time.Now()
		early := true // the workers stop when one of them has found something
	again:
		var wg sync.WaitGroup
		res := make([]workerResult, shards)
		for i := 0; i < shards; i++ {
			i := i
			wg.Add(1)
			go func() {
				defer wg.Done()
				args := []string{"-shard", fmt.Sprint(i), "-shards", fmt.Sprint(shards), "-budget", fmt.Sprint(b), "-tier", tier, "-known", kf, "-only", part.only}
				if part.race {
					args = append(args, "-raceonly")
				}
				stop := filepath.Join(dir, "stop")
				if early {
					// the quick tier goes on beyond its bounds for a while when it is early
					args = append(args, "-stop", stop, "-further", env("VERIF_FURTHER", "6"))
				}
				res[i] = runWorker(dir, args, i, time.Duration((b+40)*float64(time.Second)), part.race)
				if early && res[i].crash != nil {
					_ = os.WriteFile(stop, nil, 0o644)
				}
			}()
		}
		wg.Wait()
		total.reach(filepath.Join(dir, "points.txt"), res)
		found := false
		var cands []violation
		for _, r := range res {
			if r.st != nil {
				merge(total, r.st)
				cands = append(cands, r.st.Violations...)
				found = found || len(r.st.Violations) > 0
				continue
			}
			notes = append(notes, r.reason)
			total.Incomplete = append(total.Incomplete, "worker: "+firstLines(r.reason, 1))
			if r.crash != nil {
				cands = append(cands, *r.crash)
				found = true
			}
		}
		sort.SliceStable(cands, func(i, j int) bool { return len(cands[i].Devs) < len(cands[j].Devs) })
		tried := 0
		for k := range cands {
			v := cands[k]
			v.Property, v.Harness, v.Race, v.Instr = prop, part.harness, part.race, part.instr
			if id := matchKnown(ks, v); id != "" {
				total.Known[id] = v.Msg
				continue
			}
			if tried++; tried > 6 {
				break
			}
			ok := true
			var trace string
			n := 2
			if strings.HasPrefix(v.Msg, "crash") || strings.HasPrefix(v.Msg, "data race") {
				n = 5
			}
			for i := 0; i < n && ok; i++ {
				ok, trace = confirm(dir, tier, kf, v)
			}
			if !ok {
				notes = append(notes, "not reproduced, ignored: "+v.Scenario+": "+v.Msg)
				total.Incomplete = append(total.Incomplete, "unreproduced: "+v.Scenario)
				continue
			}
			v.Schedule = strings.Split(trace, "\n")
			if len(v.Schedule) > 400 {
				v.Schedule = v.Schedule[:400]
			}
			viol = &v
			break
		}
		if left := budget*part.share - time.Since(begin).Seconds(); viol == nil && found && early && left > 5 {
			// what made them stop was not a violation
			early, b = false, left
			goto again
		}
	}
	for _, k := range ks {
		if _, ok := total.Known[k.ID]; ok {
			fmt.Printf("KNOWN-FINDING: property=%s %s (%s)\n", prop, k.What, k.ID)
		} else if viol == nil {
			fmt.Printf("KNOWN-FINDING: property=%s %s (%s; not reached in this run)\n", prop, k.What, k.ID)
		}
	}
	code := 0
	if viol != nil {
		rdir := filepath.Join(verifDir, "evidence", "replay")
		_ = os.MkdirAll(rdir, 0o755)
		rp := filepath.Join(rdir, prop+".json")
		b, _ := json.MarshalIndent(viol, "", " ")
		_ = os.WriteFile(rp, b, 0o644)
		fmt.Printf("scenario %s, pass %s, %d deviation(s): %s\n", viol.Scenario, viol.Pass.Name, len(viol.Devs), viol.Msg)
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, rp)
		code = 1
	}
	writeEvidence(prop, tier, seed, cfg, total, notes, viol, time.Since(start).Seconds())
	fmt.Printf("%s %s: %d executions, %d decision nodes, %d transitions, %d distinct outcomes, incomplete=%d, diverged=%d, %.1fs\n", prop, tier,
		total.Executions, total.Nodes, total.Transitions, len(total.OutHashes), len(total.Incomplete), total.Diverged, time.Since(start).Seconds())
	for _, n := range notes {
		fmt.Println("note:", n)
	}
	return code
}

func matchKnown(ks []known, v violation) string {
	for _, k := range ks {
		if ok, _ := regexp.MatchString(k.Match, v.Msg); !ok {
			continue
		}
		if k.Scenario != "" {
			if ok, _ := regexp.MatchString(k.Scenario, v.Scenario); !ok {
				continue
			}
		}
		return k.ID
	}
	return ""
}

func confirm(dir, tier, kf string, v violation) (bool, string) {
	f := filepath.Join(dir, "confirm.json")
	b, _ := json.Marshal(v)
	if os.WriteFile(f, b, 0o644) != nil {
		return false, ""
	}
	cmd := exec.Command(filepath.Join(dir, "harness"), "-replay", f, "-tier", tier, "-known", kf, "-points", filepath.Join(dir, "points.txt"))
	if v.Race {
		cmd.Args = append(cmd.Args, "-raceonly")
	}
	cmd.Env = workerEnv(v.Race)
	var buf bytes.Buffer
	cmd.Stdout, cmd.Stderr = &buf, &buf
	if err := cmd.Start(); err != nil {
		return false, ""
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	var err error
	select {
	case err = <-done:
	case <-time.After(5 * time.Minute):
		_ = cmd.Process.Kill()
		<-done
		return false, ""
	}
	if err == nil {
		return false, buf.String()
	}
	ee, ok := err.(*exec.ExitError)
	if !ok {
		return false, buf.String()
	}
	switch ee.ExitCode() {
	case 1:
		return strings.Contains(buf.String(), "REPRODUCED"), buf.String()
	case 3, 4, 97, 98:
		return false, buf.String()
	}
	return crashMsg(buf.String()) == v.Msg, buf.String()
}

func replayFile(f string) int {
	b, err := os.ReadFile(f)
	if err != nil {
		die(2, "%v", err)
	}
	var v violation
	if err := json.Unmarshal(b, &v); err != nil {
		die(2, "%v", err)
	}
	tmp := scratch()
	defer os.RemoveAll(tmp)
	if v.Harness == "p26gen" {
		w, err := placements(&stats{}, tmp, true, 600, v.Detail)
		if err != nil {
			die(2, "%v", err)
		}
		if w == nil {
			return 0
		}
		fmt.Println(w.Msg)
		return 1
	}
	if err := build(v.Harness, tmp, v.Race, v.Instr); err != nil {
		die(2, "%v", err)
	}
	if v.Scenario == "P21/generate" {
		for _, f := range genFailures {
			if f.Desc+": "+f.Msg == v.Msg {
				fmt.Println(v.Msg)
				return 1
			}
		}
		return 0
	}
	kf := filepath.Join(tmp, "known.json")
	kb, _ := json.Marshal(loadKnown(v.Property))
	_ = os.WriteFile(kf, kb, 0o644)
	ok, out := confirm(tmp, env("VERIF_TIER", "quick"), kf, v)
	fmt.Println(out)
	if ok {
		return 1
	}
	return 0
}

// reach notes which instrumented statements the workers executed.
func (t *stats) reach(points string, res []workerResult) {
	b, _ := os.ReadFile(points)
	if t.statements == nil {
		t.statements = map[string]bool{}
	}
	var keys []string
	occ := map[string]int{}
	for i, w := range strings.Split(string(b), "\n") {
		k := fmt.Sprintf("%s/%d", w, occ[w])
		occ[w]++
		keys = append(keys, k)
		if i > 0 && !t.statements[k] {
			t.statements[k] = false
		}
	}
	for _, r := range res {
		if r.st == nil {
			continue
		}
		for _, i := range r.st.Reached {
			if i < len(keys) {
				t.statements[keys[i]] = true
			}
		}
	}
}

func (t *stats) reached() (n int) {
	for _, r := range t.statements {
		if r {
			n++
		}
	}
	return
}

func merge(t, s *stats) {
	t.Executions += s.Executions
	t.Nodes += s.Nodes
	t.Transitions += s.Transitions
	t.Diverged += s.Diverged
	t.Truncated += s.Truncated
	t.Schedules += s.Schedules
	t.Further += s.Further
	t.FurtherDone += s.FurtherDone
	for k, v := range s.OutHashes {
		t.OutHashes[k] += v
	}
	for k, v := range s.PassInfo {
		t.PassInfo[k] += v
	}
	for _, i := range s.Incomplete {
		dup := false
		for _, j := range t.Incomplete {
			dup = dup || i == j
		}
		if !dup {
			t.Incomplete = append(t.Incomplete, i)
		}
	}
	for _, sm := range s.Samples {
		dup := false
		for _, j := range t.Samples {
			dup = dup || sm == j
		}
		if !dup && len(t.Samples) < 12 {
			t.Samples = append(t.Samples, sm)
		}
	}
	if s.MaxPoints > t.MaxPoints {
		t.MaxPoints = s.MaxPoints
	}
	for k, v := range s.Known {
		t.Known[k] = v
	}
}

func writeEvidence(prop, tier string, seed int, cfg checkCfg, t *stats, notes []string, viol *violation, wall float64) {
	samples := []any{}
	for _, s := range t.Samples {
		samples = append(samples, s)
	}
	n := 0
	if viol != nil {
		n = 1
		samples = append(samples, "violating: "+viol.Scenario+" "+viol.Msg)
	}
	cov := map[string]any{
		"states":                        t.Nodes + t.Executions,
		"transitions":                   t.Transitions,
		"traces_validated_against_impl": t.Executions,
		"rule":                          cfg.rule,
		"samples":                       samples,
		"exhaustive":                    len(t.Incomplete) == 0 && t.Diverged == 0 && viol == nil,
		"decision_nodes":                t.Nodes,
		"distinct_schedules":            t.Schedules,
		"distinct_outcomes":             len(t.OutHashes),
		"max_choice_points":             t.MaxPoints,
		"statements_instrumented":       len(t.statements),
		"statements_reached":            t.reached(),
		"replay_divergences":            t.Diverged,
		"executions_per_pass":           t.PassInfo,
		"further_passes":                fmt.Sprintf("%d shards of passes beyond the bounds of this tier (marked +) explored as far as time allowed, %d of them completely", t.Further, t.FurtherDone),
		"cut_short":                     append([]string{}, t.Incomplete...),
		"known_findings_hit":            t.Known,
		"explanation":                   "Every execution runs the real code of /repo under the controlled scheduler (or, for enumerations, calls it directly); there is no separate model whose traces would need validating, so traces_validated_against_impl is the number of executions. states = decision nodes of the schedule tree plus terminal states; transitions = statements and context switches executed (operations, for enumerations).",
	}
	ev := map[string]any{
		"property": prop, "tier": tier, "seed": seed, "level": "model_checking",
		"coverage": cov, "wall_s": wall, "violations": n,
		"assumptions": append([]string{
			"bounds: exactly the passes in executions_per_pass (deviation bound after the slash in the pass name); anything in cut_short was not completed",
			"the patched Go runtime (controlled scheduler, fake time) is trusted",
		}, append(cfg.assume, notes...)...),
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	dir := filepath.Join(verifDir, "evidence")
	_ = os.MkdirAll(dir, 0o755)
	if d := os.Getenv("MC_REACHED"); d != "" { // for tools/reach.py
		b, _ := json.Marshal(t.statements)
		_ = os.WriteFile(filepath.Join(d, prop+".json"), b, 0o644)
	}
	if err := os.WriteFile(filepath.Join(dir, prop+".json"), b, 0o644); err != nil {
		die(2, "evidence: %v", err)
	}
}
