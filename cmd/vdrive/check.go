package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"math/bits"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

// tier is how much a check explores.
type tier struct {
	name string
	runs int           // simulated runs, at most
	wall time.Duration // real time for the search, at most
	det  int           // runs executed twice to prove determinism
	min  time.Duration // real time for minimisation

	// the same search with the race detector, on other seeds
	raceRuns int
	raceWall time.Duration
	raceDet  int
}

var tiers = map[string]tier{
	"quick":    {"quick", 60000, 35 * time.Second, 48, 45 * time.Second, 5000, 20 * time.Second, 8},
	"thorough": {"thorough", 400000, 560 * time.Second, 400, 90 * time.Second, 40000, 130 * time.Second, 80},
}

// finding is a line of known-findings.txt:
//
//	known: property=C01 kind=KIND match=REGEX :: description
type finding struct {
	prop, kind, desc string
	re               *regexp.Regexp
	hits             int
}

func loadFindings(verif, prop string) (l []*finding) {
	f, err := os.Open(filepath.Join(verif, "known-findings.txt"))
	if err != nil {
		if os.IsNotExist(err) {
			return nil
		}
		die("%v", err)
	}
	defer f.Close()
	sc := bufio.NewScanner(f)
	re := regexp.MustCompile(`^known: property=(\S+) kind=(\S+) match=(.+?) :: (.*)$`)
	for sc.Scan() {
		if !strings.HasPrefix(sc.Text(), "known:") {
			continue
		}
		m := re.FindStringSubmatch(sc.Text())
		if m == nil {
			die("known-findings.txt: cannot read %q", sc.Text())
		}
		if m[1] == prop {
			l = append(l, &finding{prop: m[1], kind: m[2], desc: m[4], re: regexp.MustCompile(m[3])})
		}
	}
	return
}

func isKnown(fs []*finding, v Violation) *finding {
	for _, f := range fs {
		if f.kind == v.Kind && f.re.MatchString(v.Detail) {
			return f
		}
	}
	return nil
}

// newViolation is the first violation of a run that is not a known finding.
func newViolation(fs []*finding, r *runResult) *Violation {
	for i := range r.Viol {
		if isKnown(fs, r.Viol[i]) == nil {
			return &r.Viol[i]
		}
	}
	return nil
}

type job struct {
	scn  string
	seed uint64
	idx  int
}

// jobs interleaves the scenarios by weight.
func jobs(b *build, prop string, seed uint64, n int) []job {
	var scs []scenarioInfo
	for _, s := range b.scenarios {
		if s.Prop == prop {
			scs = append(scs, s)
		}
	}
	if len(scs) == 0 {
		die("no scenario for property %q", prop)
	}
	total := 0
	for _, s := range scs {
		total += s.Weight
	}
	credit := make([]int, len(scs))
	cnt := make([]int, len(scs))
	l := make([]job, 0, n)
	for len(l) < n {
		best := 0
		for i, s := range scs {
			credit[i] += s.Weight
			if credit[i] > credit[best] {
				best = i
			}
		}
		credit[best] -= total
		l = append(l, job{scs[best].Name, mix(mix(seed, fnv(prop+"/"+scs[best].Name)), uint64(cnt[best])), cnt[best]})
		cnt[best]++
	}
	return l
}

type agg struct {
	runs, nontrivial, crashes int
	hashes                    map[string]struct{}
	faults, stat              map[string]int
	perScn                    map[string]int
	decisions, choices, steps uint64
	stalls, yields            uint64
	simUs                     int64
	exhausted, over           int
	samples                   []any
	cov                       []byte // yield points passed
}

func newAgg() *agg {
	return &agg{hashes: map[string]struct{}{}, faults: map[string]int{}, stat: map[string]int{}, perScn: map[string]int{}}
}

// covered is the number of statements of the code under test that were reached.
func (a *agg) covered() (n int) {
	for _, c := range a.cov {
		n += bits.OnesCount8(c)
	}
	return n
}

func (a *agg) add(r *runResult) {
	a.runs++
	a.perScn[r.Scenario]++
	if r.crash {
		a.crashes++
		return
	}
	n := 0
	for k, v := range r.Faults {
		a.faults[k] += v
		n += v
	}
	for k, v := range r.Stat {
		a.stat[k] += v
	}
	if r.Choices > 0 && r.Events > 0 {
		a.nontrivial++
		a.hashes[r.Hash] = struct{}{}
	}
	for len(a.cov) < len(r.Cov) {
		a.cov = append(a.cov, 0)
	}
	for i, c := range r.Cov {
		a.cov[i] |= c
	}
	a.decisions += r.Decisions
	a.choices += r.Choices
	a.steps += r.Steps
	a.stalls += r.Stalls
	a.yields += r.Yields
	a.simUs += r.SimUs
	if r.Exhausted {
		a.exhausted++
	}
	if r.Over {
		a.over++
	}
}

// replayFile is everything needed to reproduce a violation.
type replayFile struct {
	Property  string    `json:"property"`
	Scenario  string    `json:"scenario"`
	Seed      uint64    `json:"seed"`
	FoundBy   string    `json:"found_by"`
	Violation Violation `json:"violation"`
	Hash      string    `json:"hash"`
	Plan      *Plan     `json:"plan"`
	Decisions []uint64  `json:"decisions"`
	Race      bool      `json:"race,omitempty"`
	Minimised string    `json:"minimised"`
	History   []string  `json:"history,omitempty"`
}

func cmdCheck(args []string) int {
	if len(args) < 1 {
		usage()
	}
	prop := args[0]
	tn := "quick"
	if t := os.Getenv("VERIF_TIER"); t != "" {
		tn = t
	}
	if len(args) > 1 {
		tn = args[1]
	}
	t, ok := tiers[tn]
	if !ok {
		die("unknown tier %q", tn)
	}
	if s := os.Getenv("VERIF_RUNS"); s != "" {
		t.runs, _ = strconv.Atoi(s)
	}
	if s := os.Getenv("VERIF_WALL"); s != "" {
		n, _ := strconv.Atoi(s)
		t.wall = time.Duration(n) * time.Second
	}
	seed := uint64(1)
	if s := os.Getenv("VERIF_SEED"); s != "" {
		v, err := strconv.ParseInt(s, 10, 64)
		if err != nil {
			die("VERIF_SEED: %v", err)
		}
		seed = uint64(v)
	}
	repo, verif := dirs()
	fmt.Printf("property %s, tier %s, VERIF_SEED %d\n", prop, t.name, seed)
	findings := loadFindings(verif, prop)
	start := time.Now()
	b := newBuild(repo, verif)
	defer b.close()
	fmt.Printf("simulator built in %.1fs, %d yield points in the code under test\n", b.took.Seconds(), b.points)

	a := newAgg()
	var mu sync.Mutex
	det := 0
	knownRuns := 0
	var failing *job
	var failRes runResult
	var failViol Violation
	harness := ""
	t1 := time.Now()
	search := func(js []job, a *agg, wall time.Duration, dets int, race bool) {
		next := 0
		deadline := time.Now().Add(wall)
		var wg sync.WaitGroup
		for k := 0; k < workers(); k++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for {
					mu.Lock()
					if next >= len(js) || failing != nil || harness != "" || time.Now().After(deadline) {
						mu.Unlock()
						return
					}
					i := next
					next++
					mu.Unlock()
					j := js[i]
					r, _ := b.run(runOpt{scn: j.scn, seed: j.seed, race: race})
					twice := i < dets
					if twice && r.harness == "" {
						// the same seed must give the same execution
						r2, _ := b.run(runOpt{scn: j.scn, seed: j.seed, race: race})
						if r2.harness == "" && !r.crash && !r2.crash && (r.Hash != r2.Hash || r.Decisions != r2.Decisions || r.SimUs != r2.SimUs) {
							r.harness = fmt.Sprintf("scenario %s seed %d is not deterministic: %s/%d/%d and %s/%d/%d", j.scn, j.seed, r.Hash, r.Decisions, r.SimUs, r2.Hash, r2.Decisions, r2.SimUs)
						}
					}
					mu.Lock()
					if r.harness != "" {
						if harness == "" {
							harness = fmt.Sprintf("scenario %s seed %d: %s", j.scn, j.seed, r.harness)
						}
						mu.Unlock()
						return
					}
					if twice {
						det++
					}
					a.add(&r)
					if len(a.samples) < 4 && r.Choices > 10 && j.idx < 3 {
						a.samples = append(a.samples, map[string]any{"scenario": j.scn, "seed": j.seed, "plan": b.genPlan(j.scn, j.seed),
							"schedule_hash": r.Hash, "decisions": r.Decisions, "choices": r.Choices, "sim_us": r.SimUs, "faults": r.Faults, "workload": r.Stat})
					}
					if len(r.Viol) > 0 {
						for _, v := range r.Viol {
							if f := isKnown(findings, v); f != nil {
								f.hits++
							}
						}
						if v := newViolation(findings, &r); v != nil {
							if failing == nil {
								jj := j
								failing, failRes, failViol = &jj, r, *v
							}
						} else {
							knownRuns++
						}
					}
					mu.Unlock()
				}
			}()
		}
		wg.Wait()
	}
	search(jobs(b, prop, seed, t.runs), a, t.wall, t.det, false)
	raceA := newAgg()
	raceFound := false
	if failing == nil && harness == "" && b.raceBin != "" {
		// not the seeds of the first part
		search(jobs(b, prop, mix(seed, 0x7ace), t.raceRuns), raceA, t.raceWall, t.raceDet, true)
		raceFound = failing != nil
	}
	if harness != "" {
		fmt.Fprintln(os.Stderr, "ERROR:", harness)
		return 3
	}
	searchWall := time.Since(t1)
	viol := 0
	code := 0
	if failing != nil {
		fmt.Printf("violation in scenario %s seed %d: %s: %s\n", failing.scn, failing.seed, failViol.Kind, failViol.Detail)
		rf, ok := minimise(b, findings, prop, *failing, failRes, failViol, raceFound, time.Now().Add(t.min))
		if !ok {
			fmt.Fprintln(os.Stderr, "ERROR: the violation does not replay:", rf.Minimised)
			return 3
		}
		rf.FoundBy = fmt.Sprintf("VERIF_SEED=%d tier=%s", seed, t.name)
		path := writeReplay(verif, rf)
		fmt.Printf("minimised: %s; %d steps, %d scheduling and fault decisions\n", rf.Minimised, len(rf.Plan.Ops), len(rf.Decisions)/2)
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, path)
		viol = 1
		code = 1
	}
	for _, f := range findings {
		fmt.Printf("KNOWN-FINDING: property=%s %s (seen in %d violations of this run)\n", prop, f.desc, f.hits)
	}
	writeEvidence(verif, prop, t, seed, a, raceA, b, searchWall, time.Since(start), viol, det, knownRuns, findings)
	fmt.Printf("%d runs (%d distinct schedules), %d more with the race detector, %.0f s simulated, %.1f s of search\n", a.runs, len(a.hashes), raceA.runs, float64(a.simUs)/1e6, searchWall.Seconds())
	return code
}

func dirs() (repo, verif string) {
	repo, verif = "/repo", "/verif"
	if s := os.Getenv("VERIF_REPO"); s != "" {
		repo = s
	}
	if s := os.Getenv("VERIF_DIR"); s != "" {
		verif = s
	}
	return
}

func writeReplay(verif string, rf *replayFile) string {
	dir := filepath.Join(verif, "evidence", "replays")
	if err := os.MkdirAll(dir, 0o755); err != nil {
		die("%v", err)
	}
	p := filepath.Join(dir, fmt.Sprintf("%s-%s-%d.json", rf.Property, rf.Violation.Kind, rf.Seed))
	j, err := json.MarshalIndent(rf, "", " ")
	if err == nil {
		err = os.WriteFile(p, j, 0o644)
	}
	if err != nil {
		die("%v", err)
	}
	return p
}

func writeEvidence(verif, prop string, t tier, seed uint64, a, raceA *agg, b *build, search, wall time.Duration, viol, det, knownRuns int, fs []*finding) {
	real, stub := map[string]bool{}, map[string]bool{}
	for _, s := range b.scenarios {
		if s.Prop == prop {
			for _, x := range s.Real {
				real[x] = true
			}
			for _, x := range s.Stub {
				stub[x] = true
			}
		}
	}
	keys := func(m map[string]bool) (l []string) {
		for k := range m {
			l = append(l, k)
		}
		sort.Strings(l)
		return
	}
	hours := search.Hours()
	if hours == 0 {
		hours = 1e-9
	}
	known := []string{}
	for _, f := range fs {
		known = append(known, fmt.Sprintf("%s (%d)", f.desc, f.hits))
	}
	ev := map[string]any{
		"property": prop, "tier": t.name, "seed": seed, "level": "exploration", "wall_s": wall.Seconds(), "violations": viol,
		"assumptions": []string{
			"goroutine interleavings are explored at the granularity of statements of the code under test and of blocking operations; each statement is atomic",
			"the simulated network, clock and randomness behave like the ones they stand for",
		},
		"coverage": map[string]any{
			"evaluations":                  a.runs,
			"distinct_nontrivial":          len(a.hashes),
			"rule":                         "one evaluation is one simulated run of a plan generated from its seed; it is non-trivial if the scheduler had to choose between several runnable goroutines and the workload produced events; two runs are distinct if their schedule hashes (the sequence of goroutines picked, run-queue lengths and recorded events) differ",
			"samples":                      a.samples,
			"nontrivial_runs":              a.nontrivial,
			"runs_per_hour":                float64(a.runs) / hours,
			"runs_per_scenario":            a.perScn,
			"race_detector_runs":           raceA.runs,
			"race_detector_distinct":       len(raceA.hashes),
			"race_detector_fault_counts":   raceA.faults,
			"simulated_seconds":            float64(a.simUs) / 1e6,
			"fault_counts":                 a.faults,
			"goroutine_stalls_injected":    a.stalls,
			"preemptions_injected":         a.yields,
			"workload_counts":              a.stat,
			"scheduling_decisions":         a.decisions,
			"picks_with_several_runnable":  a.choices,
			"code_steps_executed":          a.steps,
			"yield_points_in_code":         b.points,
			"yield_points_reached":         a.covered(),
			"runs_that_crashed":            a.crashes,
			"runs_out_of_step_budget":      a.exhausted,
			"runs_repeated_and_identical":  det,
			"runs_with_known_finding_only": knownRuns,
			"known_findings":               known,
			"components_real":              keys(real),
			"components_stub":              keys(stub),
		},
	}
	if a.samples == nil {
		ev["coverage"].(map[string]any)["samples"] = []any{map[string]any{"note": "no run completed"}}
	}
	j, err := json.MarshalIndent(ev, "", " ")
	if err == nil {
		_ = os.MkdirAll(filepath.Join(verif, "evidence"), 0o755)
		err = os.WriteFile(filepath.Join(verif, "evidence", prop+".json"), j, 0o644)
	}
	if err != nil {
		die("%v", err)
	}
}

// minimise shrinks a failing run: first the plan (by searching again from the
// same and a few other seeds), then the list of decisions that differ from the
// default. The result is replayed twice and must fail the same way.
func minimise(b *build, fs []*finding, prop string, j job, r runResult, v Violation, race bool, deadline time.Time) (*replayFile, bool) {
	kind := v.Kind
	sig := func(r *runResult) *Violation {
		if r.harness != "" {
			return nil
		}
		for i := range r.Viol {
			if r.Viol[i].Kind == kind && isKnown(fs, r.Viol[i]) == nil {
				return &r.Viol[i]
			}
		}
		return nil
	}
	plan := b.genPlan(j.scn, j.seed)
	seed := j.seed
	rf := &replayFile{Property: prop, Scenario: j.scn, Seed: seed, Violation: v, Hash: r.Hash, Plan: plan, Race: race}
	ops0, cfg0 := len(plan.Ops), len(plan.Cfg)
	half := time.Now().Add(time.Until(deadline) * 6 / 10)

	// try a candidate plan with several seeds in parallel
	try := func(p *Plan, cur uint64) (uint64, bool) {
		n := 3 * workers()
		type ans struct {
			seed uint64
			ok   bool
			i    int
		}
		ch := make(chan ans, n)
		sem := make(chan struct{}, workers())
		for i := 0; i < n; i++ {
			s := cur
			if i > 0 {
				s = mix(cur, uint64(i))
			}
			go func() {
				sem <- struct{}{}
				defer func() { <-sem }()
				r, _ := b.run(runOpt{scn: j.scn, seed: s, plan: p, race: race})
				ch <- ans{s, sig(&r) != nil, i}
			}()
		}
		best := ans{i: n}
		for i := 0; i < n; i++ {
			if a := <-ch; a.ok && a.i < best.i {
				best = a
			}
		}
		return best.seed, best.ok
	}
	// drop steps
	for size := (len(plan.Ops) + 1) / 2; size >= 1 && len(plan.Ops) > 0; {
		progress := false
		for i := 0; i < len(plan.Ops) && time.Now().Before(half); {
			e := min(i+size, len(plan.Ops))
			p := &Plan{Cfg: plan.Cfg, Ops: append(append([]json.RawMessage{}, plan.Ops[:i]...), plan.Ops[e:]...)}
			if s, ok := try(p, seed); ok {
				plan, seed, progress = p, s, true
			} else {
				i = e
			}
		}
		if time.Now().After(half) || (size == 1 && !progress) {
			break
		}
		if size > 1 {
			size /= 2
		}
	}
	// switch configuration off
	keys := []string{}
	for k := range plan.Cfg {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		if plan.Cfg[k] == 0 || time.Now().After(half) || k == "s_tick" {
			continue
		}
		c := map[string]int{}
		for kk, vv := range plan.Cfg {
			if kk != k {
				c[kk] = vv
			}
		}
		p := &Plan{Cfg: c, Ops: plan.Ops}
		if s, ok := try(p, seed); ok {
			plan, seed = p, s
		}
	}
	// record the decisions
	r, devs := b.run(runOpt{scn: j.scn, seed: seed, plan: plan, record: true, race: race})
	if sig(&r) == nil {
		// fall back to the original
		plan, seed = b.genPlan(j.scn, j.seed), j.seed
		r, devs = b.run(runOpt{scn: j.scn, seed: seed, plan: plan, record: true, race: race})
		if sig(&r) == nil {
			rf.Minimised = "the run does not fail when repeated"
			return rf, false
		}
	}
	replay := func(d []uint64) (*runResult, bool) {
		r, _ := b.run(runOpt{scn: j.scn, seed: seed, plan: plan, devs: d, replay: true, race: race})
		return &r, sig(&r) != nil
	}
	devs0 := len(devs) / 2
	best, ok := replay(devs)
	if !ok {
		rf.Minimised = "the recorded decisions do not reproduce the violation"
		return rf, false
	}
	// ddmin over decisions, several candidates at a time
	n := len(devs) / 2
	size := n
	for n > 0 && time.Now().Before(deadline) {
		if size < 1 {
			break
		}
		type cand struct{ lo, hi int }
		var cs []cand
		for i := 0; i < n; i += size {
			cs = append(cs, cand{i, min(i+size, n)})
		}
		reduced := false
		for k := 0; k < len(cs) && time.Now().Before(deadline) && !reduced; k += workers() {
			batch := cs[k:min(k+workers(), len(cs))]
			oks := make([]*runResult, len(batch))
			var wg sync.WaitGroup
			for bi, c := range batch {
				wg.Add(1)
				go func() {
					defer wg.Done()
					d := append(append([]uint64{}, devs[:2*c.lo]...), devs[2*c.hi:]...)
					if r, ok := replay(d); ok {
						oks[bi] = r
					}
				}()
			}
			wg.Wait()
			for bi, c := range batch {
				if oks[bi] != nil {
					devs = append(append([]uint64{}, devs[:2*c.lo]...), devs[2*c.hi:]...)
					best = oks[bi]
					n = len(devs) / 2
					reduced = true
					break
				}
			}
		}
		if reduced {
			size = min(size, n)
			continue
		}
		if size == 1 {
			break
		}
		size = (size + 1) / 2
	}
	again, ok := replay(devs)
	if !ok || again.Hash != best.Hash || len(again.Viol) == 0 || sig(again).Detail != sig(best).Detail && !again.crash {
		rf.Minimised = fmt.Sprintf("two replays of the minimised decisions differ: ok=%v, hash %s and %s", ok, again.Hash, best.Hash)
		return rf, false
	}
	hist, _ := b.run(runOpt{scn: j.scn, seed: seed, plan: plan, devs: devs, replay: true, verbose: true, race: race})
	rf.Seed, rf.Plan, rf.Decisions, rf.Hash = seed, plan, devs, best.Hash
	rf.Violation = *sig(best)
	rf.History = hist.Trace
	if rf.Decisions == nil {
		rf.Decisions = []uint64{}
	}
	if len(rf.History) > 400 {
		rf.History = append(rf.History[:400], "...")
	}
	on := 0
	for _, v := range plan.Cfg {
		if v != 0 {
			on++
		}
	}
	rf.Minimised = fmt.Sprintf("steps %d to %d, settings %d to %d non-zero, decisions %d to %d", ops0, len(plan.Ops), cfg0, on, devs0, len(devs)/2)
	return rf, true
}

func cmdReplay(args []string) int {
	if len(args) != 1 {
		usage()
	}
	raw, err := os.ReadFile(args[0])
	if err != nil {
		die("%v", err)
	}
	rf := &replayFile{}
	if err := json.Unmarshal(raw, rf); err != nil {
		die("%v", err)
	}
	repo, verif := dirs()
	b := newBuild(repo, verif)
	defer b.close()
	if rf.Race && b.raceBin == "" {
		die("this replay needs the race detector")
	}
	r, _ := b.run(runOpt{scn: rf.Scenario, seed: rf.Seed, plan: rf.Plan, devs: rf.Decisions, replay: true, verbose: true, race: rf.Race})
	if r.harness != "" {
		die("%s", r.harness)
	}
	for _, l := range r.Trace {
		fmt.Println(l)
	}
	for _, v := range r.Viol {
		fmt.Printf("%s: %s\n", v.Kind, v.Detail)
	}
	fmt.Printf("schedule hash %s, recorded %s\n", r.Hash, rf.Hash)
	for _, v := range r.Viol {
		if v.Kind == rf.Violation.Kind {
			fmt.Printf("VIOLATION property=%s replay=%s\n", rf.Property, args[0])
			return 1
		}
	}
	fmt.Println("the violation does not occur")
	return 0
}

// cmdSweep runs seeds of a property (or scenario) and prints every kind of
// violation with its count and an example: a tool for development.
func cmdSweep(args []string) int {
	if len(args) < 1 {
		usage()
	}
	n := 2000
	seed := uint64(1)
	if len(args) > 1 {
		n, _ = strconv.Atoi(args[1])
	}
	if len(args) > 2 {
		s, _ := strconv.Atoi(args[2])
		seed = uint64(s)
	}
	repo, verif := dirs()
	b := newBuild(repo, verif)
	defer b.close()
	var js []job
	for _, p := range strings.Split(args[0], ",") {
		byProp := false
		for _, s := range b.scenarios {
			if s.Name == p {
				for i := 0; i < n; i++ {
					js = append(js, job{p, mix(mix(seed, fnv(s.Prop+"/"+p)), uint64(i)), i})
				}
				byProp = true
			}
		}
		if !byProp {
			js = append(js, jobs(b, p, seed, n)...)
		}
	}
	if os.Getenv("SWEEP_STOP") != "" {
		sort.SliceStable(js, func(a, b int) bool { return js[a].idx < js[b].idx })
	}
	type ex struct {
		n   int
		j   job
		d   string
		ops int
	}
	race := os.Getenv("SWEEP_RACE") != "" && b.raceBin != ""
	kinds := map[string]*ex{}
	stop := false // SWEEP_STOP: at the first violation that is not known
	a := newAgg()
	var mu sync.Mutex
	var wg sync.WaitGroup
	next := 0
	t0 := time.Now()
	slow := time.Duration(0)
	var slowJ job
	for k := 0; k < workers(); k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				mu.Lock()
				i := next
				next++
				mu.Unlock()
				if i >= len(js) || stop {
					return
				}
				j := js[i]
				ts := time.Now()
				r, _ := b.run(runOpt{scn: j.scn, seed: j.seed, race: race})
				if r.harness == "" && os.Getenv("SWEEP_DET") != "" {
					r2, _ := b.run(runOpt{scn: j.scn, seed: j.seed, race: race})
					if r.Hash != r2.Hash || r.Decisions != r2.Decisions || r.SimUs != r2.SimUs {
						r.harness = "NOT DETERMINISTIC"
					}
				}
				mu.Lock()
				if d := time.Since(ts); d > slow {
					slow, slowJ = d, j
				}
				if r.harness != "" {
					r.Viol = []Violation{{Kind: "HARNESS", Detail: r.harness}}
				} else {
					a.add(&r)
				}
				seen := map[string]bool{}
				for _, v := range r.Viol {
					if seen[v.Kind] {
						continue
					}
					seen[v.Kind] = true
					key := j.scn + " " + v.Kind
					if os.Getenv("SWEEP_STOP") != "" && v.Kind != "completions-panic-upload" {
						stop = true
					}
					if v.Kind == "data-race" {
						key = j.scn + " " + v.Detail
					}
					if kinds[key] == nil {
						kinds[key] = &ex{j: j, d: v.Detail}
					}
					kinds[key].n++
				}
				mu.Unlock()
			}
		}()
	}
	wg.Wait()
	var l []string
	for k := range kinds {
		l = append(l, k)
	}
	sort.Strings(l)
	for _, k := range l {
		x := kinds[k]
		fmt.Printf("%6d %s\n       -s %s -seed %d: %s\n", x.n, k, x.j.scn, x.j.seed, tail(x.d, 700))
	}
	if os.Getenv("SWEEP_COV") != "" {
		for i, s := range b.sites {
			if i/8 >= len(a.cov) || a.cov[i/8]>>(i%8)&1 == 0 {
				fmt.Println("NOT REACHED", s)
			}
		}
	}
	fmt.Printf("%d runs, %d distinct, %.1fs; slowest %v (%s %d); exhausted %d; faults %v; stat %v\n", a.runs, len(a.hashes), time.Since(t0).Seconds(), slow, slowJ.scn, slowJ.seed, a.exhausted, a.faults, a.stat)
	return 0
}
