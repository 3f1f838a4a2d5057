package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"strings"
)

// overlay collects replacement files for go build -overlay.
type overlay struct {
	dir     string // scratch directory for generated files
	replace map[string]string
}

func newOverlay(dir string) *overlay {
	return &overlay{dir: dir, replace: map[string]string{}}
}

func (o *overlay) put(target, content string) error {
	f := filepath.Join(o.dir, "f", strings.ReplaceAll(strings.TrimPrefix(target, "/"), "/", "%"))
	if err := os.MkdirAll(filepath.Dir(f), 0o755); err != nil {
		return err
	}
	if err := os.WriteFile(f, []byte(content), 0o644); err != nil {
		return err
	}
	o.replace[target] = f
	return nil
}

func (o *overlay) write() (string, error) {
	b, err := json.MarshalIndent(map[string]any{"Replace": o.replace}, "", " ")
	if err != nil {
		return "", err
	}
	p := filepath.Join(o.dir, "overlay.json")
	return p, os.WriteFile(p, b, 0o644)
}

type edit struct {
	file     string
	old, new string
	count    int
}

// runtimeEdits turn the Go runtime into one whose bubbles are scheduled by the
// controlled scheduler (engine/verif_runtime.go.txt).
var runtimeEdits = []edit{
	{"runtime/runtime2.go", "	coroarg *coro // argument during coroutine transfers\n", "	coroarg *coro // argument during coroutine transfers\n	verif   verifG\n", 1},
	{"runtime/proc.go", "func runqput(pp *p, gp *g, next bool) {\n", "func runqput(pp *p, gp *g, next bool) {\n	if verif.on && verifHook(gp) {\n		return\n	}\n", 1},
	{"runtime/proc.go", "func globrunqput(gp *g) {\n	assertLockHeld(&sched.lock)\n", "func globrunqput(gp *g) {\n	assertLockHeld(&sched.lock)\n	if verif.on && verifHook(gp) {\n		return\n	}\n", 1},
	{"runtime/proc.go", "	if *cgo_yield != nil {\n		asmcgocall(*cgo_yield, nil)\n	}\n\n	// local runq\n", "	if *cgo_yield != nil {\n		asmcgocall(*cgo_yield, nil)\n	}\n\n	if verif.on {\n		if gp := verifPick(); gp != nil {\n			return gp, false, false\n		}\n	}\n\n	// local runq\n", 1},
	{"runtime/proc.go", "func preemptone(pp *p) bool {\n", "func preemptone(pp *p) bool {\n	if verif.on {\n		return false\n	}\n", 1},
	{"runtime/proc.go", "func retake(now int64) uint32 {\n", "func retake(now int64) uint32 {\n	if verif.on {\n		return 0\n	}\n", 1},
	{"runtime/select.go", "		j := cheaprandn(uint32(norder + 1))\n", "		j := uint32(norder)\n		if !verif.on {\n			j = cheaprandn(uint32(norder + 1))\n		}\n", 1},
	{"runtime/select.go", "	// lock all the channels involved in the select\n	sellock(scases, lockorder)\n", "	// lock all the channels involved in the select\n	sellock(scases, lockorder)\n	if verif.on && verifOwned(gp) {\n		verifSelect(gp, scases, pollorder, nsends)\n	}\n", 1},
	{"runtime/rand.go", "	mp := getg().m\n	c := &mp.chacha8\n", "	mp := getg().m\n	if verif.on && mp.curg != nil && mp.curg.bubble != nil {\n		return verifRand()\n	}\n	c := &mp.chacha8\n", 1},
	{"runtime/rand.go", "	globalRand.state.Init(*seed)\n", "	clear(seed[:])\n	seed[0] = 1 // deterministic hashing, see /verif\n	globalRand.state.Init(*seed)\n", 1},
	{"runtime/time.go", "			t.rand = cheaprand()\n", "			if verif.on {\n				verif.timerSeq++\n				t.rand = verif.timerSeq\n			} else {\n				t.rand = cheaprand()\n			}\n", 1},
	{"runtime/sema.go", "func internal_sync_nanotime() int64 {\n", "func internal_sync_nanotime() int64 {\n	if verif.on {\n		return 1\n	}\n", 1},
	{"sync/pool.go", "	New func() any\n}\n", "	New func() any\n\n	verifEpoch uint32\n	verifItems []any\n}\n", 1},
	{"sync/pool.go", "	if x == nil {\n		return\n	}\n", "	if x == nil {\n		return\n	}\n	if e := runtime.VerifEpoch(); e != 0 {\n		if p.verifEpoch != e {\n			p.verifEpoch, p.verifItems = e, nil\n		}\n		if race.Enabled {\n			race.ReleaseMerge(poolRaceAddr(x))\n		}\n		p.verifItems = append(p.verifItems, x)\n		return\n	}\n", 1},
	{"sync/pool.go", "func (p *Pool) Get() any {\n", "func (p *Pool) Get() any {\n	if e := runtime.VerifEpoch(); e != 0 {\n		if p.verifEpoch != e {\n			p.verifEpoch, p.verifItems = e, nil\n		}\n		if n := len(p.verifItems); n > 0 {\n			x := p.verifItems[n-1]\n			p.verifItems = p.verifItems[:n-1]\n			if race.Enabled {\n				race.Acquire(poolRaceAddr(x))\n			}\n			return x\n		}\n		if p.New != nil {\n			return p.New()\n		}\n		return nil\n	}\n", 1},
}

func (o *overlay) patchRuntime(goroot, verifDir string) error {
	src := filepath.Join(goroot, "src")
	files := map[string]string{}
	for _, e := range runtimeEdits {
		s, ok := files[e.file]
		if !ok {
			b, err := os.ReadFile(filepath.Join(src, e.file))
			if err != nil {
				return err
			}
			s = string(b)
		}
		if n := strings.Count(s, e.old); n != e.count {
			return fmt.Errorf("runtime patch %s: anchor %q found %d times", e.file, e.old, n)
		}
		files[e.file] = strings.Replace(s, e.old, e.new, -1)
	}
	for f, s := range files {
		if err := o.put(filepath.Join(src, f), s); err != nil {
			return err
		}
	}
	b, err := os.ReadFile(filepath.Join(verifDir, "engine", "verif_runtime.go.txt"))
	if err != nil {
		return err
	}
	return o.put(filepath.Join(src, "runtime", "zverif.go"), string(b))
}
