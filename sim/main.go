package main

import (
	"context"
	"crypto/rand"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"runtime"
	"sync"
	"syscall"
	"time"
	"unsafe"

	"github.com/google/uuid"
)

const maxDevs = 1 << 19

// detReader replaces crypto/rand: a function of the run's seed.
type detReader struct {
	mu sync.Mutex
	r  *Rand
}

func (d *detReader) Read(p []byte) (int, error) {
	d.mu.Lock()
	defer d.mu.Unlock()
	for i := range p {
		p[i] = byte(d.r.u64() >> 11)
	}
	return len(p), nil
}

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: sim list|gen|run ...")
		os.Exit(3)
	}
	cmd := os.Args[1]
	fs := flag.NewFlagSet(cmd, flag.ExitOnError)
	scn := fs.String("s", "", "scenario")
	seed := fs.Uint64("seed", 1, "seed")
	planF := fs.String("plan", "", "plan file (default: generate from seed)")
	devsIn := fs.String("devs", "", "replay: decisions file (json list of index,value)")
	devsOut := fs.String("out", "", "record decisions in this file")
	verb := fs.Bool("v", false, "print the history")
	maxSteps := fs.Uint64("steps", 2500000, "step budget")
	_ = fs.Parse(os.Args[2:])

	if cmd == "list" {
		type item struct {
			Prop, Name string
			Weight     int
			Real, Stub []string
		}
		var l []item
		for _, s := range scenarios {
			l = append(l, item{s.Prop, s.Name, s.Weight, s.Real, s.Stub})
		}
		fmt.Println(string(mustJSON(l)))
		return
	}
	var sc *Scenario
	for _, s := range scenarios {
		if s.Name == *scn {
			sc = s
		}
	}
	if sc == nil {
		fmt.Fprintln(os.Stderr, "HARNESS: no such scenario", *scn)
		os.Exit(3)
	}
	var plan *Plan
	if *planF != "" {
		b, err := os.ReadFile(*planF)
		if err == nil {
			plan = &Plan{}
			err = json.Unmarshal(b, plan)
		}
		if err != nil {
			fmt.Fprintln(os.Stderr, "HARNESS:", err)
			os.Exit(3)
		}
		if plan.Cfg == nil {
			plan.Cfg = map[string]int{}
		}
	} else {
		plan = sc.Gen(newRand(*seed ^ fnv(sc.Name)))
	}
	if cmd == "gen" {
		fmt.Println(string(mustJSON(plan)))
		return
	}
	// An allocation without bounds has to end this process, not another one.
	if raceMode {
		// the race detector needs a large address space
	} else if err := syscall.Setrlimit(syscall.RLIMIT_AS, &syscall.Rlimit{Cur: 3 << 30, Max: 3 << 30}); err != nil {
		fmt.Fprintln(os.Stderr, "HARNESS:", err)
		os.Exit(3)
	}
	var devs []uint64
	replay := false
	if *devsIn != "" {
		b, err := os.ReadFile(*devsIn)
		if err == nil {
			err = json.Unmarshal(b, &devs)
		}
		if err != nil {
			fmt.Fprintln(os.Stderr, "HARNESS:", err)
			os.Exit(3)
		}
		replay = true
	}
	var mem []byte
	if *devsOut != "" {
		f, err := os.OpenFile(*devsOut, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0o644)
		if err == nil {
			err = f.Truncate(8 + maxDevs*16)
		}
		if err == nil {
			mem, err = syscall.Mmap(int(f.Fd()), 0, 8+maxDevs*16, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
		}
		if err != nil {
			fmt.Fprintln(os.Stderr, "HARNESS:", err)
			os.Exit(3)
		}
	}
	rand.Reader = &detReader{r: newRand(*seed ^ 0xc0ffee)}
	uuid.SetRand(&detReader{r: newRand(*seed ^ 0xbeef)})

	var memp unsafe.Pointer
	if mem != nil {
		memp = unsafe.Pointer(&mem[0])
	}
	runtime.SimSeed(*seed, replay, devs, memp, maxDevs)
	runtime.SimConfig(uint32(plan.c("s_mode")), uint32(plan.c("s_yield")), uint32(plan.c("s_stall")),
		int64(plan.c("s_stallmax"))*1000, *maxSteps, int64(max(plan.c("s_tick"), 1)))
	runtime.SimSites(uint32(plan.c("s_site")), uint64(plan.c("s_siteseed")), int64(plan.c("s_sitemax"))*1000)

	e := newEnv(plan, *seed, *verb)
	done := make(chan struct{})
	ctx, cancel := context.WithCancel(context.Background())
	_ = ctx
	go func() {
		defer close(done)
		sc.Run(e)
	}()
	// The watchdog is in simulated time: a scenario that never ends is an
	// error of the scenario, unless the step budget ran out.
	limit := time.After(4 * time.Hour)
	for ended := false; !ended; {
		select {
		case <-done:
			ended = true
		case <-limit:
			fmt.Fprintln(os.Stderr, "HARNESS: scenario did not end")
			os.Exit(3)
		case <-time.After(500 * time.Millisecond):
			if runtime.SimExhausted() {
				ended = true
			}
		}
	}
	st := runtime.SimGetStats()
	if st.Exhausted && os.Getenv("SIM_STACKS") != "" {
		b := make([]byte, 1<<20)
		os.Stderr.Write(b[:runtime.Stack(b, true)])
	}
	if st.Exhausted && !sc.NoLivelock {
		e.fail("livelock", "the step budget (%d) ran out: some goroutine spins or work never ends", *maxSteps)
	}
	st = runtime.SimGetStats()
	runtime.SimStop()
	cancel()
	e.mu.Lock()
	res := result{
		Scenario: sc.Name, Seed: *seed, Viol: e.viol, Faults: e.faults, Stat: e.stat,
		Steps: st.Steps, Decisions: st.Decisions, Picks: st.Picks, Choices: st.Choices, Stalls: st.Stalls, Yields: st.Yields,
		Hash: fmt.Sprintf("%016x", st.Hash), SimUs: st.SimNanos / 1000, Events: e.nlines,
		Exhausted: st.Exhausted, Over: st.Over, Trace: e.lines, Cov: covered(),
	}
	os.Stdout.Write(append(mustJSON(res), '\n'))
	os.Exit(0)
}
