package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"io/fs"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

// rtPatch is an exact replacement in a Go runtime source file. The old text
// must occur exactly once, so an unexpected toolchain is an error and never
// a silently different simulator.
type rtPatch struct{ file, old, new string }

var rtPatches = []rtPatch{
	// one P, no background monitor thread, no runnext slot
	{"runtime/proc.go", "const haveSysmon = GOARCH != \"wasm\"", "const haveSysmon = false"},
	{"runtime/proc.go", "	// local runq\n	if gp, inheritTime := runqget(pp); gp != nil {\n		return gp, inheritTime, false\n	}\n",
		"	// local runq\n	simdrain(pp)\n	if gp, inheritTime := runqget(pp); gp != nil {\n		return gp, inheritTime, false\n	}\n"},
	{"runtime/proc.go", "	// Check the global runnable queue once in a while to ensure fairness.\n	// Otherwise two goroutines can completely occupy the local runqueue\n	// by constantly respawning each other.\n	if pp.schedtick%61 == 0 && !sched.runq.empty() {",
		"	if !sim.on && pp.schedtick%61 == 0 && !sched.runq.empty() {"},
	{"runtime/proc.go", "	for {\n		h := atomic.LoadAcq(&pp.runqhead) // load-acquire, synchronize with other consumers\n		t := pp.runqtail\n		if t == h {\n			return nil, false\n		}\n		gp := pp.runq[h%uint32(len(pp.runq))].ptr()\n		if atomic.CasRel(&pp.runqhead, h, h+1) { // cas-release, commits consume\n			return gp, false\n		}\n	}",
		"	if sim.on {\n		return simpick(pp), false\n	}\n	for {\n		h := atomic.LoadAcq(&pp.runqhead) // load-acquire, synchronize with other consumers\n		t := pp.runqtail\n		if t == h {\n			return nil, false\n		}\n		gp := pp.runq[h%uint32(len(pp.runq))].ptr()\n		if atomic.CasRel(&pp.runqhead, h, h+1) { // cas-release, commits consume\n			return gp, false\n		}\n	}"},
	// nothing runnable: advance the simulated clock to the next timer
	{"runtime/proc.go", "	// We have nothing to do.\n	//\n	// If we're in the GC mark phase,", "	if sim.on {\n		if w := pp.timers.wakeTime(); w != 0 {\n			if w > faketime {\n				faketime = w\n			}\n			goto top\n		}\n	}\n\n	// We have nothing to do.\n	//\n	// If we're in the GC mark phase,"},
	{"runtime/runtime2.go", "	coroarg *coro // argument during coroutine transfers\n", "	coroarg *coro // argument during coroutine transfers\n\n	simprio uint64\n	simrun  uint64\n"},
	{"runtime/select.go", "		j := cheaprandn(uint32(norder + 1))\n", "		j := simselect(uint32(norder + 1))\n"},
	// fixed start-up randomness
	{"runtime/rand.go", "	globalRand.state.Init(*seed)\n	clear(seed[:])\n", "	for i := range seed {\n		seed[i] = byte(i*7 + 1)\n	}\n	globalRand.state.Init(*seed)\n	clear(seed[:])\n"},
	// plain stdout and stderr under the faketime build tag
	{"runtime/time_fake.go", "	if !(fd == 1 || fd == 2) {\n", "	if true {\n"},
}

func goroot() string { return "/opt/veriftools/go1.25.14" }

// buildOverlay writes the overlay and returns the path of its json file.
func buildOverlay(repo, verif, out string) (string, []string, error) {
	repl := map[string]string{}
	src := filepath.Join(goroot(), "src")
	text := map[string]string{}
	for _, p := range rtPatches {
		t, ok := text[p.file]
		if !ok {
			b, err := os.ReadFile(filepath.Join(src, p.file))
			if err != nil {
				return "", nil, err
			}
			t = string(b)
		}
		if n := strings.Count(t, p.old); n != 1 {
			return "", nil, fmt.Errorf("runtime patch for %s matches %d times:\n%s", p.file, n, p.old)
		}
		text[p.file] = strings.Replace(t, p.old, p.new, 1)
	}
	write := func(name, content string) (string, error) {
		f := filepath.Join(out, strings.ReplaceAll(name, "/", "__"))
		return f, os.WriteFile(f, []byte(content), 0o644)
	}
	for f, t := range text {
		o, err := write(f, t)
		if err != nil {
			return "", nil, err
		}
		repl[filepath.Join(src, f)] = o
	}
	z, err := os.ReadFile(filepath.Join(verif, "rt/zsim.go.txt"))
	if err != nil {
		return "", nil, err
	}
	o, err := write("runtime/zsim.go", string(z))
	if err != nil {
		return "", nil, err
	}
	repl[filepath.Join(src, "runtime/zsim.go")] = o

	var points []string
	var dirs []string
	err = filepath.WalkDir(repo, func(path string, d fs.DirEntry, err error) error {
		if err != nil || !d.IsDir() {
			return err
		}
		rel, _ := filepath.Rel(repo, path)
		if rel != "." && (strings.HasPrefix(d.Name(), ".") || rel == "chatsample" || rel == "signalr_test" || d.Name() == "testdata" || d.Name() == "node_modules") {
			return filepath.SkipDir
		}
		dirs = append(dirs, path)
		return nil
	})
	if err != nil {
		return "", nil, err
	}
	sort.Strings(dirs)
	for _, dir := range dirs {
		fs, err := filepath.Glob(filepath.Join(dir, "*.go"))
		if err != nil {
			return "", nil, err
		}
		sort.Strings(fs)
		for _, f := range fs {
			if strings.HasSuffix(f, "_test.go") {
				continue
			}
			b, err := os.ReadFile(f)
			if err != nil {
				return "", nil, err
			}
			s, n, err := instrument(f, b, len(points))
			if err != nil {
				return "", nil, err
			}
			points = append(points, n...)
			o, err := write("repo/"+strings.TrimPrefix(f, repo+"/"), s)
			if err != nil {
				return "", nil, err
			}
			// go.mod names /repo, also when a copy is examined
			repl["/repo/"+strings.TrimPrefix(f, repo+"/")] = o
		}
	}
	j, _ := json.MarshalIndent(map[string]any{"Replace": repl}, "", " ")
	f := filepath.Join(out, "overlay.json")
	return f, points, os.WriteFile(f, j, 0o644)
}

// instrument puts a yield point before every statement, and at the head of
// every loop body.
func instrument(name string, src []byte, base int) (string, []string, error) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, name, src, parser.ParseComments)
	if err != nil {
		return "", nil, err
	}
	at := map[int]string{}
	var sites []string
	add := func(p token.Pos) {
		off := fset.Position(p).Offset
		if _, ok := at[off]; !ok {
			at[off] = fmt.Sprintf("simrt__.SimYield(%d);", base+len(sites))
			sites = append(sites, fmt.Sprintf("%s:%d", filepath.Base(name), fset.Position(p).Line))
		}
	}
	stmts := func(l []ast.Stmt) {
		for _, s := range l {
			if _, ok := s.(*ast.EmptyStmt); ok {
				continue
			}
			add(s.Pos())
		}
	}
	ast.Inspect(f, func(nd ast.Node) bool {
		switch x := nd.(type) {
		case *ast.BlockStmt:
			// the body of a switch or select holds clauses, not statements
			if len(x.List) > 0 {
				switch x.List[0].(type) {
				case *ast.CaseClause, *ast.CommClause:
					return true
				}
			}
			stmts(x.List)
		case *ast.CaseClause:
			stmts(x.Body)
		case *ast.CommClause:
			stmts(x.Body)
		case *ast.ForStmt:
			if len(x.Body.List) == 0 {
				add(x.Body.Lbrace + 1)
			}
		case *ast.RangeStmt:
			if len(x.Body.List) == 0 {
				add(x.Body.Lbrace + 1)
			}
		}
		return true
	})
	if len(sites) == 0 {
		return string(src), nil, nil
	}
	at[fset.Position(f.Name.End()).Offset] = "; import simrt__ \"runtime\""
	offs := make([]int, 0, len(at))
	for o := range at {
		offs = append(offs, o)
	}
	sort.Ints(offs)
	var sb strings.Builder
	last := 0
	for _, o := range offs {
		sb.Write(src[last:o])
		sb.WriteString(at[o])
		last = o
	}
	sb.Write(src[last:])
	return sb.String(), sites, nil
}
