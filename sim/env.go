package main

import (
	"encoding/json"
	"fmt"
	"os"
	"runtime"
	"sort"
	"strings"
	"sync"
	"time"
)

// Decision kinds of the harness (runtime kinds are below 16).
const (
	kSeg   = 16 // size of a read
	kDelay = 17 // latency of a write
	kFault = 18 // whether and where a fault strikes
	kMisc  = 19 // other harness choices made while the run proceeds
)

// Op is one step of a plan. Its meaning depends on the scenario.
type Op struct {
	K string `json:"k"`           // kind
	T int64  `json:"t,omitempty"` // start, microseconds of simulated time
	A int    `json:"a,omitempty"` // actor
	X int    `json:"x,omitempty"`
	Y int    `json:"y,omitempty"`
	Z int    `json:"z,omitempty"`
	S string `json:"s,omitempty"`
	L []int  `json:"l,omitempty"`
}

// Plan is everything a run depends on, except scheduling decisions.
type Plan struct {
	Cfg map[string]int `json:"cfg"`
	Ops []Op           `json:"ops"`
}

func (p *Plan) c(k string) int  { return p.Cfg[k] }
func (p *Plan) b(k string) bool { return p.Cfg[k] != 0 }

// Violation is one observed breach of a property.
type Violation struct {
	Kind   string `json:"kind"`
	Detail string `json:"detail"`
	AtUs   int64  `json:"at_us"`
}

// Rand is the plan generator's PRNG (splitmix64).
type Rand struct{ s uint64 }

func newRand(seed uint64) *Rand {
	r := &Rand{seed ^ 0x5851f42d4c957f2d}
	r.s = r.u64() ^ seed*0xd1342543de82ef95
	return r
}
func (r *Rand) u64() uint64 {
	r.s += 0x9e3779b97f4a7c15
	z := r.s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}
func (r *Rand) n(n int) int {
	if n <= 1 {
		return 0
	}
	return int(r.u64() % uint64(n))
}
func (r *Rand) in(lo, hi int) int { return lo + r.n(hi-lo+1) }
func (r *Rand) p(pct int) bool    { return r.n(100) < pct }
func (r *Rand) pick(v ...int) int { return v[r.n(len(v))] }
func (r *Rand) picks(v ...string) string {
	return v[r.n(len(v))]
}
func (r *Rand) b(pct int) int {
	if r.p(pct) {
		return 1
	}
	return 0
}

// Env is the world of one run.
type Env struct {
	mu       sync.Mutex
	plan     *Plan
	seed     uint64
	start    time.Time
	viol     []Violation
	faults   map[string]int
	stat     map[string]int
	lines    []string
	verb     bool
	nlines   int
	closed   bool
	cleanups []func()
}

func newEnv(p *Plan, seed uint64, verb bool) *Env {
	return &Env{plan: p, seed: seed, start: time.Now(), faults: map[string]int{}, stat: map[string]int{}, verb: verb}
}

func (e *Env) us() int64 { return int64(time.Since(e.start) / time.Microsecond) }

func fnv(s string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 1099511628211
	}
	return h
}

// log records an event of the history.
//
//go:norace
func (e *Env) log(format string, args ...any) {
	s := fmt.Sprintf(format, args...)
	raceQuiet()
	e.logText(s)
	raceLoud()
}

//go:norace
func (e *Env) logText(s string) {
	e.mu.Lock()
	defer e.mu.Unlock()
	runtime.SimFold(fnv(s))
	e.nlines++
	if e.verb {
		e.lines = append(e.lines, fmt.Sprintf("%10.3fms g%d %s", float64(e.us())/1000, runtime.SimGoid(), s))
	}
}

// fail records a violation.
func (e *Env) fail(kind, format string, args ...any) {
	d := fmt.Sprintf(format, args...)
	if len(d) > 1500 {
		d = d[:1500] + "..."
	}
	e.log("VIOLATION %s: %s", kind, d)
	e.mu.Lock()
	defer e.mu.Unlock()
	if len(e.viol) < 8 {
		e.viol = append(e.viol, Violation{kind, d, e.us()})
	}
}

func (e *Env) fault(kind string) {
	e.mu.Lock()
	e.faults[kind]++
	e.mu.Unlock()
}

func (e *Env) count(kind string, n int) {
	e.mu.Lock()
	e.stat[kind] += n
	e.mu.Unlock()
}

func (e *Env) cleanup(f func()) {
	e.mu.Lock()
	e.cleanups = append(e.cleanups, f)
	e.mu.Unlock()
}

func (e *Env) sleepUntilUs(t int64) {
	if d := t - e.us(); d > 0 {
		time.Sleep(time.Duration(d) * time.Microsecond)
	}
}

func ms(n int) time.Duration { return time.Duration(n) * time.Millisecond }

// waitOr waits for ch, at most d of simulated time.
func waitOr(ch <-chan struct{}, d time.Duration) bool {
	select {
	case <-ch:
		return true
	case <-time.After(d):
		select {
		case <-ch:
			return true
		default:
			return false
		}
	}
}

// waitCond polls a condition, at most d of simulated time.
func waitCond(d time.Duration, f func() bool) bool {
	end := time.Now().Add(d)
	pause := 20 * time.Microsecond
	for {
		if f() {
			return true
		}
		if !time.Now().Before(end) || runtime.SimExhausted() {
			return false
		}
		time.Sleep(pause)
		pause = min(2*pause, 5*time.Millisecond)
	}
}

// Scenario is one family of runs that decides (part of) a property.
type Scenario struct {
	Prop   string
	Name   string
	Weight int
	Gen    func(r *Rand) *Plan
	Run    func(e *Env)
	// Livelock says the step budget running out is a violation in itself.
	NoLivelock bool
	// Real and Stub name the components on either side of the seam.
	Real []string
	Stub []string
}

var scenarios []*Scenario

func register(s *Scenario) { scenarios = append(scenarios, s) }

// schedule draws the scheduling policy of a run.
func (p *Plan) schedule(r *Rand) {
	p.Cfg["s_mode"] = r.pick(0, 0, 1, 2)
	p.Cfg["s_yield"] = r.pick(0, 655, 3276, 6553, 16384, 32768)
	if r.p(30) {
		p.Cfg["s_stall"] = r.pick(200, 1000, 4000)     // per million or so
		p.Cfg["s_stallmax"] = r.pick(100, 2000, 20000) // microseconds
	}
	if r.p(45) {
		p.Cfg["s_site"] = r.pick(20, 60, 200, 600) // one in so many yield sites is slow
		p.Cfg["s_siteseed"] = r.n(1 << 30)
		p.Cfg["s_sitemax"] = r.pick(50, 500, 5000, 50000) // microseconds
	}
	p.Cfg["s_tick"] = r.pick(50, 200, 1000)
}

type result struct {
	Scenario  string         `json:"scenario"`
	Seed      uint64         `json:"seed"`
	Viol      []Violation    `json:"viol,omitempty"`
	Faults    map[string]int `json:"faults,omitempty"`
	Stat      map[string]int `json:"stat,omitempty"`
	Steps     uint64         `json:"steps"`
	Decisions uint64         `json:"decisions"`
	Picks     uint64         `json:"picks"`
	Choices   uint64         `json:"choices"`
	Stalls    uint64         `json:"stalls"`
	Yields    uint64         `json:"yields"`
	Hash      string         `json:"hash"`
	SimUs     int64          `json:"sim_us"`
	Events    int            `json:"events"`
	Exhausted bool           `json:"exhausted,omitempty"`
	Over      bool           `json:"over,omitempty"`
	Trace     []string       `json:"trace,omitempty"`
	Cov       []byte         `json:"cov,omitempty"`
}

// covered returns which yield points the run has passed, one bit each.
func covered() []byte {
	b := make([]byte, 1<<11)
	n := 0
	for i := 0; i < 1<<14; i++ {
		if runtime.SimCovered(i) {
			b[i/8] |= 1 << (i % 8)
			n = i/8 + 1
		}
	}
	return b[:n]
}

func mustJSON(v any) []byte {
	b, err := json.Marshal(v)
	if err != nil {
		fmt.Fprintln(os.Stderr, "HARNESS:", err)
		os.Exit(3)
	}
	return b
}

func sortedKeys[V any](m map[string]V) []string {
	l := make([]string, 0, len(m))
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}

func trunc(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

var _ = strings.TrimSpace
