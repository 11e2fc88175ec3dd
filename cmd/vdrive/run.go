package main

import (
	"bytes"
	"context"
	"encoding/binary"
	"encoding/json"
	"errors"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"strings"
	"sync/atomic"
	"time"
)

// Violation, Plan, Op and runResult mirror what the simulator prints.
type Violation struct {
	Kind   string `json:"kind"`
	Detail string `json:"detail"`
	AtUs   int64  `json:"at_us"`
}

type Plan struct {
	Cfg map[string]int    `json:"cfg"`
	Ops []json.RawMessage `json:"ops"`
}

type runResult struct {
	Scenario  string         `json:"scenario"`
	Seed      uint64         `json:"seed"`
	Viol      []Violation    `json:"viol,omitempty"`
	Faults    map[string]int `json:"faults,omitempty"`
	Stat      map[string]int `json:"stat,omitempty"`
	Steps     uint64         `json:"steps"`
	Decisions uint64         `json:"decisions"`
	Picks     uint64         `json:"picks"`
	Choices   uint64         `json:"choices"`
	Stalls    uint64         `json:"stalls"`
	Yields    uint64         `json:"yields"`
	Hash      string         `json:"hash"`
	SimUs     int64          `json:"sim_us"`
	Events    int            `json:"events"`
	Exhausted bool           `json:"exhausted,omitempty"`
	Over      bool           `json:"over,omitempty"`
	Trace     []string       `json:"trace,omitempty"`
	Cov       []byte         `json:"cov,omitempty"`

	crash   bool
	harness string // not empty: the run is an error of the machinery
}

type scenarioInfo struct {
	Prop, Name string
	Weight     int
	Real, Stub []string
}

// build is a simulator built from one state of the repository.
type build struct {
	dir, bin  string
	raceBin   string // the same simulator with Go's race detector
	points    int
	sites     []string // where the yield points are
	scenarios []scenarioInfo
	took      time.Duration
	seq       atomic.Int64
}

func (b *build) close() { os.RemoveAll(b.dir) }

func goEnv(cgo string) []string {
	env := []string{}
	for _, kv := range os.Environ() {
		k, _, _ := strings.Cut(kv, "=")
		switch k {
		case "GOFLAGS", "GOGC", "GOMAXPROCS", "GODEBUG", "GOMEMLIMIT", "GOTRACEBACK", "CGO_ENABLED", "GOWORK":
			continue
		}
		env = append(env, kv)
	}
	return append(env, "CGO_ENABLED="+cgo, "GOFLAGS=-mod=mod", "GOWORK=off", "GOPROXY=off", "GOTOOLCHAIN=local")
}

func newBuild(repo, verif string) *build {
	t0 := time.Now()
	dir, err := os.MkdirTemp("", "vsim")
	if err != nil {
		die("%v", err)
	}
	b := &build{dir: dir, bin: filepath.Join(dir, "sim")}
	ov, n, err := buildOverlay(repo, verif, dir)
	if err != nil {
		b.close()
		die("overlay: %v", err)
	}
	b.points, b.sites = len(n), n
	ctx, cancel := context.WithTimeout(context.Background(), 10*time.Minute)
	defer cancel()
	b.raceBin = filepath.Join(dir, "simrace")
	raced := make(chan error, 1)
	go func() {
		if os.Getenv("SWEEP_STOP") != "" && os.Getenv("SWEEP_RACE") == "" {
			raced <- errors.New("not built")
			return
		}
		c := exec.CommandContext(ctx, filepath.Join(goroot(), "bin/go"), "build", "-race", "-overlay", ov, "-tags", "faketime", "-o", b.raceBin, "./sim")
		c.Dir = verif
		c.Env = goEnv("1")
		out, err := c.CombinedOutput()
		if err != nil {
			err = fmt.Errorf("%v: %s", err, tail(string(out), 2000))
		}
		raced <- err
	}()
	c := exec.CommandContext(ctx, filepath.Join(goroot(), "bin/go"), "build", "-overlay", ov, "-tags", "faketime", "-o", b.bin, "./sim")
	c.Dir = verif
	c.Env = goEnv("0")
	out, err := c.CombinedOutput()
	rerr := <-raced
	if err != nil {
		b.close()
		die("build of the simulator failed: %v\n%s", err, out)
	}
	if rerr != nil {
		// the search goes on without the race detector
		fmt.Fprintln(os.Stderr, "NOTE: no race detector:", rerr)
		b.raceBin = ""
	}
	out, err = b.cmd(context.Background(), "list").Output()
	if err == nil {
		err = json.Unmarshal(out, &b.scenarios)
	}
	if err != nil {
		b.close()
		die("sim list: %v", err)
	}
	b.took = time.Since(t0)
	return b
}

func (b *build) cmd(ctx context.Context, args ...string) *exec.Cmd {
	return b.cmdOf(ctx, b.bin, args...)
}

func (b *build) cmdOf(ctx context.Context, bin string, args ...string) *exec.Cmd {
	c := exec.CommandContext(ctx, bin, args...)
	// a fixed environment: nothing of the caller's reaches the run
	c.Env = []string{"GOGC=off", "GOMAXPROCS=1", "GODEBUG=asyncpreemptoff=1", "GOTRACEBACK=all", "TZ=UTC"}
	if bin == b.raceBin {
		c.Env = append(c.Env, "GORACE=atexit_sleep_ms=0 halt_on_error=0 exitcode=0 history_size=3")
	}
	for _, k := range []string{"SIM_LIBLOG", "SIM_STACKS"} {
		if v := os.Getenv(k); v != "" {
			c.Env = append(c.Env, k+"="+v)
		}
	}
	c.Dir = b.dir
	return c
}

const maxDevs = 1 << 19

type runOpt struct {
	scn     string
	seed    uint64
	plan    *Plan
	devs    []uint64
	replay  bool
	record  bool
	verbose bool
	race    bool // with the race detector
	timeout time.Duration
}

// run executes one simulated run in a process of its own.
func (b *build) run(o runOpt) (runResult, []uint64) {
	args := []string{"run", "-s", o.scn, "-seed", fmt.Sprint(o.seed)}
	id := b.seq.Add(1)
	tmp := func(k string) string { return filepath.Join(b.dir, fmt.Sprintf("%s.%d", k, id)) }
	if o.plan != nil {
		f := tmp("plan")
		j, _ := json.Marshal(o.plan)
		if err := os.WriteFile(f, j, 0o644); err != nil {
			die("%v", err)
		}
		defer os.Remove(f)
		args = append(args, "-plan", f)
	}
	if o.replay {
		f := tmp("devs")
		if o.devs == nil {
			o.devs = []uint64{}
		}
		j, _ := json.Marshal(o.devs)
		if err := os.WriteFile(f, j, 0o644); err != nil {
			die("%v", err)
		}
		defer os.Remove(f)
		args = append(args, "-devs", f)
	}
	recf := ""
	if o.record {
		recf = tmp("rec")
		defer os.Remove(recf)
		args = append(args, "-out", recf)
	}
	if o.verbose {
		args = append(args, "-v")
	}
	to := o.timeout
	if to == 0 {
		to = 120 * time.Second
	}
	ctx, cancel := context.WithTimeout(context.Background(), to)
	defer cancel()
	bin := b.bin
	if o.race {
		bin = b.raceBin
	}
	c := b.cmdOf(ctx, bin, args...)
	var so, se bytes.Buffer
	c.Stdout, c.Stderr = &so, &se
	err := c.Run()
	res := runResult{Scenario: o.scn, Seed: o.seed}
	if err == nil {
		if jerr := json.Unmarshal(so.Bytes(), &res); jerr != nil {
			res.harness = fmt.Sprintf("unreadable result: %v: %s", jerr, tail(so.String(), 500))
		}
		if o.verbose && os.Getenv("SIM_LIBLOG") != "" {
			os.Stderr.Write(se.Bytes())
		}
	} else {
		var xe *exec.ExitError
		text := se.String()
		switch {
		case ctx.Err() != nil:
			res.harness = fmt.Sprintf("run did not end within %v of real time", to)
		case errors.As(err, &xe) && xe.ExitCode() == 2 && !strings.Contains(text, "HARNESS:"):
			kind, detail, lib := classifyCrash(text)
			if lib {
				res.crash = true
				res.Viol = []Violation{{Kind: kind, Detail: detail}}
			} else {
				res.harness = "the simulator crashed: " + tail(text, 6000)
			}
		default:
			res.harness = fmt.Sprintf("%v: %s", err, tail(text, 3000))
		}
	}
	if o.race && res.harness == "" {
		res.Viol = append(res.Viol, raceReports(se.String())...)
	}
	var devs []uint64
	if recf != "" {
		raw, err := os.ReadFile(recf)
		if err == nil && len(raw) >= 8 {
			n := binary.LittleEndian.Uint64(raw)
			for i := uint64(0); i < n && (1+2*i+2)*8 <= uint64(len(raw)); i++ {
				devs = append(devs, binary.LittleEndian.Uint64(raw[8+16*i:]), binary.LittleEndian.Uint64(raw[16+16*i:]))
			}
		}
	}
	return res, devs
}

func tail(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

var crashLine = regexp.MustCompile(`(?m)^(panic: .*|fatal error: .*|runtime: out of memory.*)$`)

// classifyCrash tells whether the code under test ended the process.
func classifyCrash(text string) (kind, detail string, lib bool) {
	m := crashLine.FindString(text)
	if m == "" {
		return "", "", false
	}
	if strings.Contains(m, "HARNESS") {
		return "", "", false
	}
	// the goroutine that failed comes first
	rest := text[strings.Index(text, m):]
	i := strings.Index(rest, "goroutine ")
	if i < 0 {
		return "crash", m, true
	}
	blk := rest[i:]
	if j := strings.Index(blk, "\n\n"); j >= 0 {
		blk = blk[:j]
	}
	frame := ""
	for _, l := range strings.Split(blk, "\n") {
		if strings.Contains(l, "philippseith/signalr") && !strings.HasPrefix(l, "\t") && !strings.HasPrefix(l, "created by") {
			frame = l
			if k := strings.LastIndex(frame, "("); k > 0 {
				frame = frame[:k]
			}
			break
		}
	}
	if frame == "" {
		if strings.Contains(m, "out of memory") || strings.Contains(m, "all goroutines are asleep") {
			return "", "", false
		}
		// raised in a goroutine the library started (for example in net/http)?
		if strings.Contains(blk, "created by github.com/philippseith/signalr") {
			return "crash", m, true
		}
		return "", "", false
	}
	return "crash", fmt.Sprintf("the process crashed: %s at %s", m, frame), true
}

const racePkg = "github.com/philippseith/signalr"

var raceReport = regexp.MustCompile(`(?s)WARNING: DATA RACE\n(.*?)\n==================`)

// raceReports reads the reports of the race detector. A report counts if both
// accesses happened in the code under test or in what it called, unless both
// are operations on a channel: those exclude each other, and a send on a
// channel that is being closed ends in a panic, which is judged by what
// becomes of it.
func raceReports(text string) (l []Violation) {
	type access struct{ what, where string }
	seen := map[string]bool{}
	for _, m := range raceReport.FindAllStringSubmatch(text, -1) {
		var acc []access
		lib, chans := 0, 0
		own := false
		for _, sec := range strings.Split(m[1], "\n\n") {
			ls := strings.Split(sec, "\n")
			head := strings.TrimSpace(ls[0])
			at := strings.Index(head, " at 0x")
			if at < 0 {
				continue // where the goroutines were created
			}
			a := access{what: strings.ToLower(strings.TrimPrefix(head[:at], "Previous "))}
			inLib, first := false, true
			for i := 1; i+1 < len(ls); i += 2 {
				fn := strings.TrimSpace(ls[i])
				pos := strings.TrimSpace(ls[i+1])
				if k := strings.Index(pos, " +0x"); k >= 0 {
					pos = pos[:k]
				}
				if i == 1 && strings.HasPrefix(fn, "runtime.") && (strings.Contains(fn, "chan") || strings.Contains(fn, "select")) {
					chans++
				}
				isLib := strings.HasPrefix(fn, racePkg)
				isMain := strings.HasPrefix(fn, "main.")
				if first && (isLib || isMain) {
					first = false
					a.where = strings.TrimSuffix(strings.TrimPrefix(strings.TrimPrefix(fn, racePkg), "."), "()") + " (" + filepath.Base(pos) + ")"
					if isLib {
						own = true
					}
				}
				inLib = inLib || isLib
			}
			if inLib {
				lib++
			}
			acc = append(acc, a)
		}
		if len(acc) != 2 || lib != 2 || !own || chans == 2 {
			continue
		}
		d := fmt.Sprintf("data race: %s in %s and %s in %s are not ordered", acc[0].what, acc[0].where, acc[1].what, acc[1].where)
		if !seen[d] {
			seen[d] = true
			l = append(l, Violation{Kind: "data-race", Detail: d})
		}
	}
	return
}

func (b *build) genPlan(scn string, seed uint64) *Plan {
	out, err := b.cmd(context.Background(), "gen", "-s", scn, "-seed", fmt.Sprint(seed)).Output()
	if err != nil {
		die("sim gen: %v", err)
	}
	p := &Plan{}
	if err := json.Unmarshal(out, p); err != nil {
		die("sim gen: %v", err)
	}
	return p
}

func mix(a, b uint64) uint64 {
	z := a*0x9e3779b97f4a7c15 ^ (b + 0x7f4a7c15) + 0x632be59bd9b4e019
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

func fnv(s string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 1099511628211
	}
	return h
}

func workers() int {
	n := runtime.NumCPU()
	if n < 1 {
		n = 1
	}
	return n
}
