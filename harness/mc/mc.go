// Package mc is a deviation-bounded stateless explorer on top of the controlled
// scheduler in the patched runtime. It is overlaid into the module under test.
package mc

import (
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"os"
	"regexp"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"syscall"
	"time"
)

// X is the context of one execution.
type X struct {
	mu     sync.Mutex
	fails  []string
	out    []string
	leakOK int
	noHang bool
}

func (x *X) Fail(format string, a ...any) {
	x.mu.Lock()
	defer x.mu.Unlock()
	x.fails = append(x.fails, fmt.Sprintf(format, a...))
}

// Out adds to the observed outcome of the execution.
func (x *X) Out(format string, a ...any) {
	x.mu.Lock()
	defer x.mu.Unlock()
	x.out = append(x.out, fmt.Sprintf(format, a...))
}

// Choice asks the explorer for an environment answer in [0,n).
func (x *X) Choice(n int, where uint32) int { return runtime.VerifChoice(n, where) }

// TimeDevs is the number of explored choices so far that let time pass although
// something could still run; timing and liveness are judged only when it is 0.
func (x *X) TimeDevs() int { return runtime.VerifTimeDevs() }

// Pick is Choice over a list.
func Pick[T any](x *X, where uint32, opts ...T) T { return opts[x.Choice(len(opts), where)] }

// RaceOnly: only reports of the race detector count; what would hide races (the
// locks of logs and of the faulty bus) is left out.
var RaceOnly bool

// Idle waits until nothing can move without time advancing.
func (x *X) Idle() { runtime.VerifIdle() }

// Pass is one exploration pass: all executions with at most Bound deviations,
// at the given classes of choice points and with the given alternatives.
type Pass struct {
	Name  string
	Bound int
	Class uint32
	Alts  uint32
}

const (
	Plain    = 1 << runtime.VerifClassPlain
	Sync     = 1 << runtime.VerifClassSync
	Dispatch = 1 << runtime.VerifClassDispatch
	Select   = 1 << runtime.VerifClassSelect
	Env      = 1 << runtime.VerifClassEnv

	AltSwitch    = runtime.VerifAltSwitch
	AltSwitchAll = runtime.VerifAltSwitchAll
	AltStall     = runtime.VerifAltStall
	AltTimer     = runtime.VerifAltTimer
	AltEarly     = runtime.VerifAltEarly
)

var (
	// P1 is every single deviation at every statement.
	P1 = Pass{"all-stmts/1", 1, Plain | Sync | Dispatch | Select | Env, AltSwitchAll | AltStall | AltTimer | AltEarly}
	// P1s is every single deviation at synchronisation statements.
	P1s = Pass{"sync/1", 1, Sync | Dispatch | Select | Env, AltSwitch | AltStall | AltTimer | AltEarly}
	// P2 is every pair of deviations at synchronisation statements.
	P2 = Pass{"sync/2", 2, Sync | Dispatch | Select | Env, AltSwitch | AltStall | AltTimer | AltEarly}
	// P2s: pairs, stalls and selects only.
	P2s = Pass{"stall/2", 2, Sync | Select | Env, AltStall | AltTimer}
	P2a = Pass{"all-stmts/2", 2, Plain | Sync | Dispatch | Select | Env, AltSwitchAll | AltStall | AltTimer | AltEarly}
	P3  = Pass{"sync/3", 3, Sync | Dispatch | Select | Env, AltSwitch | AltStall | AltTimer | AltEarly}
	E   = Pass{"env/all", 64, Env, 0}
)

// Scenario is one closed driver around the real code.
type Scenario struct {
	Name   string
	Passes []Pass // quick
	Deep   []Pass // added by the thorough tier
	Body   func(x *X)
	// AllowAlive is the number of goroutines that may remain at the end
	// (negative: not checked).
	AllowAlive int
	MayHang    bool // main need not terminate
	Race       bool // made for the race detector
}

// Seq is a deterministic enumeration against a reference model.
type Seq struct {
	Name string
	Run  func(s *S)
}

// S is the context of a Seq.
type S struct {
	shard, shards int
	n             int
	stats         *Stats
	thorough      bool
	deadline      time.Time
	name          string
	fails         []Violation
	only          string
	r             *runner
	replaying     bool
}

// Shard is the number of this shard and the number of shards.
func (s *S) Shard() (int, int) { return s.shard, s.shards }

// Thorough reports the tier.
func (s *S) Thorough() bool { return s.thorough }

// Mine reports whether the next case belongs to this shard and counts it.
func (s *S) Mine() bool {
	s.n++
	return s.n%s.shards == s.shard
}

// Case records one evaluated case; outcome is its canonical observation.
func (s *S) Case(outcome string) {
	s.stats.Executions++
	s.stats.Transitions++
	s.stats.outcome(outcome)
}

// Steps adds transitions (operations applied to the real code and the model).
func (s *S) Steps(n int) { s.stats.Transitions += n }

func (s *S) Sample(format string, a ...any) {
	if len(s.stats.Samples) < 3 {
		s.stats.Samples = append(s.stats.Samples, s.name+": "+fmt.Sprintf(format, a...))
	}
}

// Expired reports that the time budget is used up (the run is then not
// exhaustive).
func (s *S) Expired() bool {
	if time.Now().After(s.deadline) {
		s.stats.Incomplete = append(s.stats.Incomplete, s.name)
		return true
	}
	return false
}

func (s *S) Fail(format string, a ...any) {
	if s.replaying && s.r.match(s.name, fmt.Sprintf(format, a...)) == "" {
		fmt.Println("REPRODUCED", fmt.Sprintf(format, a...))
		os.Exit(1)
	}
	if len(s.fails) < 20 {
		s.fails = append(s.fails, Violation{Scenario: s.name, Msg: fmt.Sprintf(format, a...)})
	}
}

type Violation struct {
	Scenario string             `json:"scenario"`
	Pass     Pass               `json:"pass"`
	Devs     []runtime.VerifDev `json:"devs"`
	Msg      string             `json:"msg"`
	Known    string             `json:"known,omitempty"`
	Trace    []string           `json:"trace,omitempty"`
}

type Stats struct {
	Executions  int               `json:"executions"`
	Nodes       int               `json:"nodes"`
	Transitions int               `json:"transitions"`
	Diverged    int               `json:"diverged"`
	Truncated   int               `json:"truncated"`
	Outcomes    map[string]int    `json:"outcomes"` // per scenario distinct outcomes
	OutHashes   map[uint64]int    `json:"out_hashes"`
	Schedules   int               `json:"schedules"`
	PassInfo    map[string]int    `json:"pass_info"` // scenario|pass -> executions
	Incomplete  []string          `json:"incomplete"`
	Samples     []string          `json:"samples"`
	MaxPoints   int               `json:"max_points"`
	Violations  []Violation       `json:"violations"`
	Known       map[string]string `json:"known"`
	Reached     []int             `json:"reached"`
	Further     int               `json:"further"` // passes beyond the bounds of the tier, and those of them that were completed
	FurtherDone int               `json:"further_done"`
	schedSet    map[uint64]struct{}
}

func (st *Stats) outcome(o string) bool {
	h := fnv.New64a()
	h.Write([]byte(o))
	k := h.Sum64()
	st.OutHashes[k]++
	return st.OutHashes[k] == 1
}

type Known struct {
	Property string `json:"property"`
	ID       string `json:"id"`
	Scenario string `json:"scenario"`
	Match    string `json:"match"`
	What     string `json:"what"`
	re, sre  *regexp.Regexp
}

type runner struct {
	known     []Known
	stats     *Stats
	status    []byte
	deadline  time.Time
	shard     int
	shards    int
	maxSteps  int
	execs     int
	vlimit    int
	stopFile  string // exists when another worker has found something
	stopped   bool
	replaying bool // stop at the first failure of an enumeration
}

// elsewhere reports that another worker has found a violation.
func (r *runner) elsewhere() bool {
	if r.stopFile != "" && !r.stopped {
		_, err := os.Stat(r.stopFile)
		r.stopped = err == nil
	}
	return r.stopped
}

// found tells the other workers that they can stop.
func (r *runner) found() {
	if r.stopFile != "" {
		_ = os.WriteFile(r.stopFile, nil, 0o644)
	}
}

func (r *runner) setStatus(v Violation) {
	b, _ := json.Marshal(v)
	n := copy(r.status[8:], b)
	r.status[0], r.status[1] = byte(n), byte(n>>8)
}

type outcomeT struct {
	res   runtime.VerifResult
	fails []string
	out   string
	alive []string
}

func (r *runner) exec(sc *Scenario, p *Pass, devs []runtime.VerifDev, log []runtime.VerifStep) outcomeT {
	x := &X{}
	r.execs++
	if r.execs%64 == 0 {
		if r.elsewhere() {
			r.deadline = time.Time{}
		}
		var ms runtime.MemStats
		runtime.ReadMemStats(&ms)
		if ms.HeapAlloc > 192<<20 {
			runtime.GC()
			runtime.ReadMemStats(&ms)
			if ms.HeapAlloc > 2<<30 {
				fmt.Println("MC-MEMLIMIT")
				os.Exit(98)
			}
		}
	}
	if r.status != nil {
		r.setStatus(Violation{Scenario: sc.Name, Pass: *p, Devs: devs})
	}
	var o outcomeT
	o.res = runtime.VerifExec(func() { sc.Body(x) }, devs, p.Class, p.Alts, r.maxSteps, log, func() {
		if !(sc.AllowAlive < 0) {
			al := runtime.VerifAlive()
			if len(al) > sc.AllowAlive {
				sort.Strings(al)
				o.alive = al
			}
		}
	})
	x.mu.Lock()
	o.fails = x.fails
	o.out = strings.Join(x.out, ";")
	x.mu.Unlock()
	if RaceOnly {
		o.fails = nil
		runtime.VerifReap()
		return o
	}
	if !o.res.MainDone && !sc.MayHang {
		if o.alive == nil {
			o.alive = []string{"(main)"}
		}
		o.fails = append(o.fails, fmt.Sprintf("hang: the driver never finished (livelock=%v); blocked: %s", o.res.Livelock, strings.Join(o.alive, " | ")))
	} else if len(o.alive) > 0 && len(o.fails) == 0 {
		o.fails = append(o.fails, "leak: goroutines blocked for ever after everything was closed: "+strings.Join(o.alive, " | "))
	}
	runtime.VerifReap()
	return o
}

func (r *runner) match(scenario, msg string) string {
	for i := range r.known {
		k := &r.known[i]
		if k.re.MatchString(msg) && (k.sre == nil || k.sre.MatchString(scenario)) {
			return k.ID
		}
	}
	return ""
}

// check handles the failures of one execution; true means stop exploring.
func (r *runner) check(sc *Scenario, p *Pass, devs []runtime.VerifDev, o outcomeT) bool {
	if len(o.fails) == 0 {
		return false
	}
	var msg string
	for _, f := range o.fails {
		if id := r.match(sc.Name, f); id != "" {
			if _, ok := r.stats.Known[id]; !ok {
				r.stats.Known[id] = f
			}
			continue
		}
		msg = f
		break
	}
	if msg == "" {
		return false
	}
	// the same schedule must fail every time
	for i := 0; i < 4; i++ {
		o2 := r.exec(sc, p, devs, nil)
		ok := false
		for _, f := range o2.fails {
			if f == msg {
				ok = true
			}
		}
		if !ok || o2.res.Diverged {
			r.stats.Diverged++
			fmt.Fprintf(os.Stderr, "mc: unstable failure ignored: %s: %s\n", sc.Name, msg)
			return false
		}
	}
	r.stats.Violations = append(r.stats.Violations, Violation{Scenario: sc.Name, Pass: *p, Devs: append([]runtime.VerifDev(nil), devs...), Msg: msg})
	r.found()
	return len(r.stats.Violations) >= r.vlimit
}

func (r *runner) pass(sc *Scenario, p *Pass) (complete, stop bool) {
	key := sc.Name + "|" + p.Name
	complete = true
	var devs []runtime.VerifDev
	top := 0
	var dfs func(depth int) bool
	dfs = func(depth int) bool {
		if time.Now().After(r.deadline) {
			complete = false
			return true
		}
		o := r.exec(sc, p, devs, nil)
		st := r.stats
		if o.res.Diverged {
			st.Diverged++
			complete = false
			if dbgDiverge {
				r.debugDiverge(sc, p, devs)
			}
			return false
		}
		if o.res.Truncated {
			st.Truncated++
			complete = false
		}
		count := depth > 0 || r.shard == 0
		from := uint32(0)
		if depth > 0 {
			from = devs[depth-1].Pos + 1
		}
		pts := runtime.VerifPoints()
		if count {
			st.Executions++
			st.Transitions += o.res.Steps + o.res.Switches
			st.Nodes += len(pts) - int(from)
			st.PassInfo[key]++
			if len(pts) > st.MaxPoints {
				st.MaxPoints = len(pts)
			}
			if len(st.schedSet) < 4<<20 {
				st.schedSet[o.res.Hash] = struct{}{}
			}
			if st.outcome(sc.Name+"|"+o.out) && len(st.Samples) < 6 {
				st.Samples = append(st.Samples, fmt.Sprintf("%s %s deviations=%v -> %s", sc.Name, p.Name, fmtDevs(devs), trunc(o.out, 200)))
			}
		}
		if r.check(sc, p, devs, o) {
			complete = false
			stop = true
			return true
		}
		if depth >= p.Bound {
			return false
		}
		// the points are overwritten by the recursion: copy what is needed
		type cand struct {
			pos uint32
			n   uint8
			sig uint64
		}
		var cands []cand
		if len(o.fails) > 0 {
			// a rerun in check overwrote the points
			if o2 := r.exec(sc, p, devs, nil); o2.res.Diverged {
				st.Diverged++
				complete = false
				return false
			}
			pts = runtime.VerifPoints()
		}
		for i := int(from); i < len(pts); i++ {
			if pts[i].N > 1 {
				cands = append(cands, cand{uint32(i), pts[i].N, pts[i].Sig})
			}
		}
		for _, c := range cands {
			for opt := 1; opt < int(c.n); opt++ {
				if depth == 0 {
					top++
					if top%r.shards != r.shard {
						continue
					}
				}
				devs = append(devs[:depth], runtime.VerifDev{Pos: c.pos, Opt: uint32(opt), Sig: c.sig})
				if dfs(depth + 1) {
					return true
				}
				devs = devs[:depth]
			}
		}
		return false
	}
	dfs(0)
	return
}

func trunc(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func fmtDevs(d []runtime.VerifDev) string {
	var s []string
	for _, v := range d {
		s = append(s, fmt.Sprintf("%d:%d", v.Pos, v.Opt))
	}
	return "[" + strings.Join(s, " ") + "]"
}

// Main runs the given scenarios and enumerations.
func Main(scs []Scenario, seqs []Seq) {
	shard := flag.Int("shard", 0, "")
	shards := flag.Int("shards", 1, "")
	out := flag.String("out", "", "")
	status := flag.String("status", "", "")
	budget := flag.Float64("budget", 60, "seconds")
	tier := flag.String("tier", "quick", "")
	replay := flag.String("replay", "", "")
	knownF := flag.String("known", "", "")
	only := flag.String("only", "", "regexp of scenario names")
	pointsF := flag.String("points", "", "table of scheduling points")
	vlimit := flag.Int("vlimit", 1, "")
	stopFile := flag.String("stop", "", "file which exists when another worker has found a violation")
	further := flag.Float64("further", 0, "seconds after the start until which the quick tier goes beyond its bounds")
	flag.BoolVar(&RaceOnly, "raceonly", false, "only data races count")
	flag.Parse()
	runtime.GOMAXPROCS(1)
	debug.SetGCPercent(-1)
	start := time.Now()
	deadline := start.Add(time.Duration(*budget * float64(time.Second)))
	r := &runner{
		shard: *shard, shards: *shards, deadline: deadline, maxSteps: 400000, vlimit: *vlimit, stopFile: *stopFile,
		stats: &Stats{Outcomes: map[string]int{}, OutHashes: map[uint64]int{}, PassInfo: map[string]int{}, Known: map[string]string{}, schedSet: map[uint64]struct{}{}},
	}
	if *knownF != "" {
		b, err := os.ReadFile(*knownF)
		if err == nil {
			_ = json.Unmarshal(b, &r.known)
		}
		for i := range r.known {
			r.known[i].re = regexp.MustCompile(r.known[i].Match)
			if r.known[i].Scenario != "" {
				r.known[i].sre = regexp.MustCompile(r.known[i].Scenario)
			}
		}
	}
	if *replay != "" {
		os.Exit(r.replay(*replay, scs, seqs, *pointsF, *tier == "thorough"))
	}
	if *status != "" {
		f, err := os.OpenFile(*status, os.O_RDWR|os.O_CREATE, 0o644)
		if err == nil {
			_ = f.Truncate(65536)
			if m, err := syscall.Mmap(int(f.Fd()), 0, 65536, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED); err == nil {
				r.status = m
			}
		}
	}
	var sel *regexp.Regexp
	if *only != "" {
		sel = regexp.MustCompile(*only)
	}
	stop := false
	for i := range seqs {
		q := &seqs[i]
		if stop || RaceOnly || sel != nil && !sel.MatchString(q.Name) {
			continue
		}
		stop = r.seq(q, *tier == "thorough", *shard, *shards)
	}
	// passes are interleaved over the scenarios: first pass of each, then the
	// second, so that a deadline cuts the deepest passes.
	maxp := 0
	for i := range scs {
		if RaceOnly && !scs[i].Race {
			scs[i].Passes, scs[i].Deep = []Pass{P1s}, []Pass{P1}
		}
		scs[i].Passes = append([]Pass{}, scs[i].Passes...)
		if *tier == "thorough" {
			scs[i].Passes = append(scs[i].Passes, scs[i].Deep...)
		}
		if len(scs[i].Passes) > maxp {
			maxp = len(scs[i].Passes)
		}
	}
	warm := map[string]bool{}
	total := 0
	for pi := 0; pi < maxp; pi++ {
		for i := range scs {
			if pi < len(scs[i].Passes) && (sel == nil || sel.MatchString(scs[i].Name)) {
				total++
			}
		}
	}
	done := 0
	type cut struct {
		sc   *Scenario
		p    *Pass
		n    counts
		took time.Duration
	}
	var cuts []cut
	for pi := 0; pi < maxp && !stop; pi++ {
		for i := range scs {
			sc := &scs[i]
			stop = stop || r.elsewhere()
			if stop || pi >= len(sc.Passes) || sel != nil && !sel.MatchString(sc.Name) {
				continue
			}
			if !warm[sc.Name] {
				warm[sc.Name] = true
				r.exec(sc, &Pass{"warm", 0, 0, 0}, nil, nil)
			}
			// share what is left of the budget evenly over the passes to come
			left := deadline.Sub(time.Now())
			r.deadline = time.Now().Add(left / time.Duration(total-done))
			if total-done > 1 {
				r.deadline = time.Now().Add(left * 2 / time.Duration(total-done))
			}
			done++
			var complete bool
			before, t := r.counts(), time.Now()
			complete, stop = r.pass(sc, &sc.Passes[pi])
			if !complete {
				cuts = append(cuts, cut{sc, &sc.Passes[pi], r.counts().minus(before), time.Since(t)})
			}
		}
	}
	// what was cut short starts again with the time that is left
	for i, c := range cuts {
		key := c.sc.Name + "|" + c.p.Name
		left := deadline.Sub(time.Now()) / time.Duration(len(cuts)-i)
		complete := false
		if !stop && !r.elsewhere() && left > c.took*3/2 {
			r.stats.Executions -= c.n.execs
			r.stats.Transitions -= c.n.trans
			r.stats.Nodes -= c.n.nodes
			r.stats.PassInfo[key] -= c.n.execs
			r.deadline = time.Now().Add(left)
			complete, stop = r.pass(c.sc, c.p)
		}
		if !complete {
			r.stats.Incomplete = append(r.stats.Incomplete, key)
		}
	}
	// what the quick tier still has time for: as much of the deeper passes as fits
	if *tier != "thorough" && !RaceOnly && !stop && len(r.stats.Incomplete) == 0 {
		r.beyond(scs, sel, start.Add(time.Duration(*further*float64(time.Second))))
	}
	r.stats.Schedules = len(r.stats.schedSet)
	for i, n := range runtime.VerifReached() {
		if n != 0 {
			r.stats.Reached = append(r.stats.Reached, i)
		}
	}
	b, err := json.Marshal(r.stats)
	if err != nil {
		panic(err)
	}
	if *out != "" {
		if err := os.WriteFile(*out, b, 0o644); err != nil {
			panic(err)
		}
	} else {
		r.stats.OutHashes = map[uint64]int{0: len(r.stats.OutHashes)}
		b, _ = json.MarshalIndent(r.stats, "", " ")
		fmt.Println(string(b))
		fmt.Println("wall", time.Since(start))
	}
}

// beyond explores the passes of the thorough tier until the end; nobody counts on their completion.
func (r *runner) beyond(scs []Scenario, sel *regexp.Regexp, end time.Time) {
	type deep struct {
		sc *Scenario
		p  Pass
	}
	var l []deep
	for d, more := 0, true; more; d++ {
		more = false
		for i := range scs {
			if d < len(scs[i].Deep) && (sel == nil || sel.MatchString(scs[i].Name)) {
				more = true
				p := scs[i].Deep[d]
				if p.Bound > 2 { // of the thorough tier only: none would come to an end
					continue
				}
				p.Name += "+"
				l = append(l, deep{&scs[i], p})
			}
		}
	}
	for i := range l {
		left := time.Until(end)
		if left <= 0 || r.elsewhere() {
			return
		}
		r.deadline = time.Now().Add(left / time.Duration(len(l)-i))
		complete, stop := r.pass(l[i].sc, &l[i].p)
		r.stats.Further++
		if complete {
			r.stats.FurtherDone++
		}
		if stop {
			return
		}
	}
}

type counts struct{ execs, trans, nodes int }

func (c counts) minus(o counts) counts {
	return counts{c.execs - o.execs, c.trans - o.trans, c.nodes - o.nodes}
}

func (r *runner) counts() counts {
	return counts{r.stats.Executions, r.stats.Transitions, r.stats.Nodes}
}

func (r *runner) seq(q *Seq, thorough bool, shard, shards int) bool {
	if r.status != nil {
		r.setStatus(Violation{Scenario: q.Name})
	}
	s := &S{shard: shard, shards: shards, stats: r.stats, name: q.Name, thorough: thorough, deadline: r.deadline, r: r, replaying: r.replaying}
	before := r.stats.Executions
	func() {
		// what the library does on other goroutines ends the worker
		defer func() {
			if p := recover(); p != nil {
				s.Fail("panic: %v", p)
			}
		}()
		q.Run(s)
	}()
	if RaceOnly {
		s.fails = nil
	}
	r.stats.PassInfo[q.Name+"|enumeration"] += r.stats.Executions - before
	for _, v := range s.fails {
		if id := r.match(q.Name, v.Msg); id != "" {
			if _, ok := r.stats.Known[id]; !ok {
				r.stats.Known[id] = v.Msg
			}
			continue
		}
		r.stats.Violations = append(r.stats.Violations, v)
		r.found()
		return len(r.stats.Violations) >= r.vlimit
	}
	return false
}

func (r *runner) replay(file string, scs []Scenario, seqs []Seq, pointsF string, thorough bool) int {
	b, err := os.ReadFile(file)
	if err != nil {
		fmt.Println(err)
		return 3
	}
	var v Violation
	if err := json.Unmarshal(b, &v); err != nil {
		fmt.Println(err)
		return 3
	}
	var table []string
	if pointsF != "" {
		if b, err := os.ReadFile(pointsF); err == nil {
			table = strings.Split(string(b), "\n")
		}
	}
	for i := range seqs {
		if seqs[i].Name == v.Scenario {
			r.deadline = time.Now().Add(10 * time.Minute)
			r.replaying = !RaceOnly
			r.seq(&seqs[i], thorough, 0, 1)
			for _, w := range r.stats.Violations {
				fmt.Println("REPRODUCED", w.Msg)
				return 1
			}
			return 0
		}
	}
	for i := range scs {
		sc := &scs[i]
		if sc.Name != v.Scenario {
			continue
		}
		r.exec(sc, &Pass{"warm", 0, 0, 0}, nil, nil)
		log := make([]runtime.VerifStep, 200000)
		o := r.exec(sc, &v.Pass, v.Devs, log)
		if o.res.Diverged {
			fmt.Println("DIVERGED")
			return 4
		}
		bad := false
		for _, f := range o.fails {
			if r.match(sc.Name, f) == "" {
				bad = true
				fmt.Println("REPRODUCED", f)
			}
		}
		fmt.Printf("outcome: %s\n", o.out)
		last := uint32(1 << 30)
		for _, st := range runtime.VerifSteps() {
			if st.Where == 1<<31 {
				continue
			}
			w := fmt.Sprint(st.Where >> 2)
			if int(st.Where>>2) < len(table) {
				w = table[st.Where>>2]
			}
			if st.Ord != last {
				fmt.Printf("\n g%-3d", st.Ord)
				last = st.Ord
			}
			fmt.Printf(" %s", w)
		}
		fmt.Println()
		if bad {
			return 1
		}
		return 0
	}
	fmt.Println("unknown scenario", v.Scenario)
	return 3
}

var dbgDiverge = os.Getenv("MC_DEBUG_DIVERGE") != ""

// debugDiverge shows where two runs of the same prefix part ways.
func (r *runner) debugDiverge(sc *Scenario, p *Pass, devs []runtime.VerifDev) {
	var ref []runtime.VerifPt
	var reflog []runtime.VerifStep
	for i := 0; i < 30; i++ {
		log := make([]runtime.VerifStep, 100000)
		r.exec(sc, p, devs[:len(devs)-1], log)
		pts := append([]runtime.VerifPt(nil), runtime.VerifPoints()...)
		lg := append([]runtime.VerifStep(nil), runtime.VerifSteps()...)
		if ref == nil {
			ref, reflog = pts, lg
			continue
		}
		for k := range pts {
			if k >= len(ref) || pts[k].Sig != ref[k].Sig {
				fmt.Fprintf(os.Stderr, "diverge %s %v at point %d: %+v vs %+v\n", sc.Name, fmtDevs(devs), k, pts[k], ref[k])
				for j := range lg {
					if lg[j] != reflog[j] {
						for q := j - 12; q < j+5; q++ {
							fmt.Fprintf(os.Stderr, "   %d: g%d %d  |  g%d %d\n", q, lg[q].Ord, lg[q].Where>>2, reflog[q].Ord, reflog[q].Where>>2)
						}
						break
					}
				}
				os.Exit(5)
			}
		}
	}
	fmt.Fprintf(os.Stderr, "no divergence in 30 runs of the parent %v\n", fmtDevs(devs))
}
