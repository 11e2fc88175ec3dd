package main

import (
	"fmt"
	"math"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/philippseith/signalr"
)

func init() {
	register(&Scenario{Prop: "C02", Name: "dispatch-raw", Weight: 3, Gen: genDispatch, Run: runDispatch,
		Real: []string{"server", "netConnection", "hub protocols"}, Stub: []string{"TCP stream", "client (scripted)"}})
	register(&Scenario{Prop: "C02", Name: "dispatch-receiver", Weight: 1, Gen: genDispatch, Run: runDispatchReceiver,
		Real: []string{"client", "netConnection", "hub protocols"}, Stub: []string{"TCP stream", "server (scripted)"}})
}

// PanicUpload panics before it reads its upload.
func (h *SimHub) PanicUpload(tag int, ch <-chan int) int {
	h.w.call(h, "PanicUpload", tag, "")
	panic(fmt.Sprintf("boom-%d", tag))
}

func (h *SimHub) Mix(tag int, a uint8, b int64, c float64, d bool, s string, p *int, m map[string]int) []any {
	l := []any{a, b, c, d, s, p != nil, len(m)}
	h.w.call(h, "Mix", tag, canon(l))
	return l
}

func (h *SimHub) Slow(tag int, millis int) int {
	h.w.call(h, "Slow", tag, "")
	time.Sleep(ms(millis))
	return tag * 7
}

func (h *SimHub) Renamed(tag int, s string) string {
	h.w.call(h, "Renamed", tag, s)
	return s
}

// oddValue returns a value that can not be encoded, some of them only not in JSON.
func oddValue(tag, how int) any {
	switch how % 4 {
	case 0:
		return func() {}
	case 1:
		return math.NaN()
	case 2:
		return []any{tag, map[string]any{"x": math.Inf(1)}}
	}
	return complex(1, 2)
}

func oddFits(proto string, how int) bool { return proto == "messagepack" && (how%4 == 1 || how%4 == 2) }

// Odd returns what can not be encoded.
func (h *SimHub) Odd(tag int, how int) any {
	h.w.call(h, "Odd", tag, "")
	return oddValue(tag, how)
}

func (h *SimHub) Nothing() {
	h.w.call(h, "Nothing", 0, "")
}

var dispatchKinds = append([]string{"mix", "mix", "slow", "alt", "pupload", "blobs", "nullarg", "noargs", "odd"}, invokeKinds...)

func dispatchSpec(proto string, op Op, tag int) invokeSpec {
	switch op.K {
	case "mix":
		r := newRand(uint64(op.Z))
		a, b, c, d, s := r.n(256), r.pick(0, -5, 1<<33, -1<<33, 1<<53+1, -1<<53-1, 1<<63-1, -1<<63), float64(r.in(-100, 100))/8, r.p(50), words[r.n(len(words))]
		m := map[string]any{}
		for i, n := 0, r.n(3); i < n; i++ {
			m[fmt.Sprint(i)] = i
		}
		var p any
		if r.p(50) {
			p = r.n(100)
		}
		l := []any{a, b, c, d, s, p != nil, len(m)}
		return invokeSpec{method: r.picks("Mix", "mix", "MIX"), args: []any{tag, a, b, c, d, s, p, m}, seen: canon(l), want: canon(l), runs: true}
	case "slow":
		return invokeSpec{method: "Slow", args: []any{tag, 8000}, want: canon(tag * 7), runs: true}
	case "alt":
		s := words[op.Z%len(words)]
		return invokeSpec{method: "other.name", args: []any{tag, s}, seen: s, want: canon(s), runs: true}
	case "pupload":
		return invokeSpec{method: "PanicUpload", args: []any{tag}, fails: fmt.Sprintf("boom-%d", tag), runs: true}
	case "blobs":
		return invokeSpec{method: "Blob", args: []any{tag, nil}, seen: "0", want: "0", runs: true}
	case "nullarg":
		return invokeSpec{method: "Echo", args: []any{tag, nil}, seen: "null", void: true, runs: true}
	case "upl":
		l := []int{}
		r := newRand(uint64(op.Z))
		for i, n := 0, r.n(8); i < n; i++ {
			l = append(l, r.pick(0, 1, -1, 127, 128, 255, 256, -70000, 1<<31))
		}
		items := []any{}
		for _, v := range l {
			items = append(items, v)
		}
		return invokeSpec{method: "Upload", args: []any{tag}, want: canon(items), runs: true, items: items}
	case "keys": // messagepack allows other keys than strings
		m := map[any]any{op.X: "n", "s": op.Y, op.Z%2 == 0: []any{map[any]any{-op.X: nil}}}
		if op.Z%3 == 0 {
			m[0.5] = map[string]any{}
		}
		return invokeSpec{method: "Echo", args: []any{tag, m}, seen: canon(m), want: canon(m), runs: true}
	case "pad": // messages whose sizes are near the borders of length encodings and buffers
		s := bigString(tag, op.X)
		return invokeSpec{method: "Echo", args: []any{tag, s}, seen: canon(s), want: canon(s), runs: true}
	case "odd":
		how := op.X % 4
		if oddFits(proto, how) {
			return invokeSpec{method: "Odd", args: []any{tag, how}, want: canon(oddValue(tag, how)), runs: true}
		}
		return invokeSpec{method: "Odd", args: []any{tag, how}, fails: "?", runs: true}
	case "noargs":
		return invokeSpec{method: "Void", args: nil, fails: "mismatch"}
	}
	return specOf(op, tag)
}

func genDispatch(r *Rand) *Plan {
	p := &Plan{Cfg: map[string]int{}}
	p.schedule(r)
	p.network(r)
	p.Cfg["mp"] = r.b(40)
	p.Cfg["style"] = r.n(16)
	p.Cfg["percon"] = r.pick(0, 0, 0, 1, 2, 3)
	p.Cfg["detail"] = r.b(30)
	p.Cfg["batch"] = r.pick(0, 0, 1, 3, 1000)
	p.Cfg["stall"] = r.pick(0, 0, 0, 5000, 200000)
	n := r.in(1, 16)
	span := r.pick(1, 1000, 20000)
	for i := 0; i < n; i++ {
		op := genInvokeOp(r, 3000)
		if r.p(40) {
			op = Op{K: r.picks(dispatchKinds...), X: r.in(1, 50), Y: r.in(-50, 50), Z: r.n(1 << 20)}
		}
		if p.b("mp") && r.p(4) {
			op.K = "keys"
		}
		op.T = int64(r.n(span))
		op.A = r.pick(0, 0, 0, 1, 2) // 1: without id; 2: the id of an earlier, completed invocation
		op.S = r.picks("", "", "", "ping", "odd")
		p.Ops = append(p.Ops, op)
	}
	return p
}

// caller sends invocations over a scripted peer and checks the answers.
func (w *World) dispatch(peer *rawPeer, lost func() (bool, error)) {
	e, p := w.e, w.e.plan
	ops := append([]Op(nil), p.Ops...)
	sort.SliceStable(ops, func(a, b int) bool { return ops[a].T < ops[b].T })
	ids := make([]string, len(ops))
	specs := make([]invokeSpec, len(ops))
	for i, op := range ops {
		specs[i] = dispatchSpec(w.proto, op, i+1)
	}
	base := e.us()
	var batch []byte
	nb := 0
	flush := func() bool {
		if nb == 0 {
			return true
		}
		err := peer.write(batch)
		batch, nb = nil, 0
		if err != nil {
			e.fail("connection-lost", "the connection was closed: %v", err)
			return false
		}
		return true
	}
	var done []string // ids whose completion has been received, and which are not reused yet
	uses := map[string][]int{}
	for i, op := range ops {
		tag := i + 1
		sp := specs[i]
		m := Msg{Type: mInvoke, Target: sp.method, Args: sp.args}
		switch op.A {
		case 1:
		case 2:
			if len(done) > 0 {
				if op.K != "pupload" { // see the known finding about it
					ids[i] = done[0]
					done = done[1:]
					break
				}
			}
			fallthrough
		default:
			ids[i] = fmt.Sprintf("id%d", tag)
			if op.S == "odd" {
				ids[i] = fmt.Sprintf("ü %d\"\\\n", tag)
			}
		}
		if ids[i] != "" {
			m.ID, m.HasID = ids[i], true
			uses[m.ID] = append(uses[m.ID], i)
		}
		if op.K == "pupload" || op.K == "upl" {
			m.StreamIDs = []string{fmt.Sprintf("up%d", tag)}
		}
		e.log("-> %v", m)
		batch = append(batch, encode(w.proto, m, peer.style)...)
		nb++
		if op.K == "upl" {
			for _, v := range sp.items {
				batch = append(batch, encode(w.proto, Msg{Type: mItem, ID: m.StreamIDs[0], Item: v}, peer.style)...)
			}
			batch = append(batch, encode(w.proto, Msg{Type: mCompl, ID: m.StreamIDs[0]}, peer.style)...)
		}
		if op.S == "ping" {
			batch = append(batch, encode(w.proto, Msg{Type: mPing}, peer.style)...)
		}
		if nb >= p.c("batch") {
			e.sleepUntilUs(base + op.T)
			if !flush() {
				return
			}
		}
		if op.A == 0 && op.K != "pupload" && ids[i] != "" && op.T%3 == 0 && p.c("batch") <= 1 {
			// wait for it, so that the id can be used again
			k := len(uses[ids[i]])
			if op.K != "slow" && peer.waitMsgs(k, 5*time.Second, func(m Msg) bool { return m.Type == mCompl && m.ID == ids[i] }) {
				done = append(done, ids[i])
			}
		}
	}
	if !flush() {
		return
	}
	// everything but the slow methods is answered while the slow ones run
	fast := 0
	slow := map[string]bool{}
	for i, op := range ops {
		if ids[i] != "" {
			if op.K == "slow" {
				slow[ids[i]] = true
			}
		}
	}
	for i, op := range ops {
		if ids[i] != "" && op.K != "slow" && !slow[ids[i]] {
			fast++
		}
	}
	isFast := func(m Msg) bool { return m.Type == mCompl && !slow[m.ID] }
	if len(slow) > 0 && !peer.waitMsgs(fast, 6*time.Second, isFast) {
		// answers that still arrive one by one are the network's delay
		for n := 0; n < len(peer.find(isFast)); {
			n = len(peer.find(isFast))
			peer.waitMsgs(fast, time.Second, isFast)
		}
	}
	if len(slow) > 0 && len(peer.find(isFast)) < fast {
		e.fail("dispatch-delayed", "only %d of %d invocations were answered after 6 seconds while a slow method runs", len(peer.find(isFast)), fast)
	}
	waitCond(120*time.Second, func() bool {
		for id, l := range uses {
			if len(peer.completions(id)) < len(l) {
				return peer.closed()
			}
		}
		return true
	})
	waitCond(10*time.Second, func() bool {
		for i := range ops {
			if sp := specs[i]; sp.runs && len(w.callsOf("", i+1)) == 0 {
				return false
			}
		}
		return true
	})
	time.Sleep(200 * time.Millisecond)
	e.count("invocations", len(ops))
	seen := map[string]bool{}
	for id, l := range uses {
		seen[id] = true
		compl := peer.completions(id)
		if len(compl) != len(l) {
			kind := "completions"
			if len(l) == 1 && ops[l[0]].K == "pupload" {
				kind = "completions-panic-upload"
			}
			e.fail(kind, "%d invocations of %s with id %q got %d completions: %v", len(l), specs[l[0]].method, id, len(compl), compl)
			if len(compl) < len(l) {
				continue
			}
		}
		for k, i := range l {
			w.checkCompletion(fmt.Sprintf("invocation %d", i+1), specs[i], compl[k])
		}
	}
	for _, m := range peer.msgs() {
		if m.Type == mCompl && !seen[m.ID] {
			e.fail("completion-unknown-id", "completion for an id nobody used: %v", m)
		}
		if m.Type != mCompl && m.Type != mPing {
			e.fail("dispatch-unexpected-message", "unexpected message %v", m)
		}
	}
	for i, op := range ops {
		sp := specs[i]
		runs := w.callsOf("", i+1)
		if op.K == "upl" {
			runs = w.callsOf("Upload", i+1)
		}
		want := 0
		if sp.runs {
			want = 1
		}
		if len(runs) != want {
			e.fail("dispatch-executions", "invocation %d (%s) ran %d times, want %d", i+1, sp.method, len(runs), want)
			continue
		}
		if want == 1 && sp.seen != "" && runs[0].Args != sp.seen {
			e.fail("dispatch-wrong-arguments", "invocation %d (%s): the method saw %s, want %s", i+1, sp.method, trunc(runs[0].Args, 200), trunc(sp.seen, 200))
		}
		if want == 1 && !strings.EqualFold(runs[0].Method, sp.method) && op.K != "alt" {
			e.fail("dispatch-wrong-method", "invocation %d of %s ran %s", i+1, sp.method, runs[0].Method)
		}
	}
	if l, err := lost(); l {
		e.fail("connection-lost", "the connection ended without a fault: %v", err)
	}
}

func (w *World) checkCompletion(name string, sp invokeSpec, m Msg) {
	e := w.e
	switch {
	case sp.fails != "":
		if m.Err == "" {
			e.fail("completion-false-success", "%s (%s) must fail, but was answered with %v", name, sp.method, m)
		} else if sp.fails != "?" && !strings.Contains(m.Err, sp.fails) {
			e.fail("completion-foreign-error", "%s (%s) was answered with error %q, want %q", name, sp.method, m.Err, sp.fails)
		}
	case m.Err != "":
		e.fail("completion-wrong-error", "%s (%s) was answered with error %q", name, sp.method, m.Err)
	case sp.void:
		if m.Result != nil {
			e.fail("completion-wrong-result", "%s (%s) has no result, but was answered with %v", name, sp.method, m)
		}
	case !m.HasResult || canon(m.Result) != sp.want:
		e.fail("completion-wrong-result", "%s (%s) was answered with %s, want %s", name, sp.method, trunc(fmt.Sprint(m), 300), trunc(sp.want, 200))
	}
}

func runDispatch(e *Env) {
	w := newWorld(e)
	p := e.plan
	opts := []func(signalr.Party) error{signalr.TimeoutInterval(300 * time.Second), signalr.EnableDetailedErrors(p.b("detail")),
		signalr.WithAlternateMethodName("Renamed", "other.name")}
	srv := w.server(w.ctx, 0, opts...)
	peer, sc, _ := w.rawClient(srv, "cli", w.proto)
	if err := peer.handshake(20 * time.Second); err != nil {
		e.fail("connect", "handshake: %v", err)
		return
	}
	if s := p.c("stall"); s > 0 {
		peer.pause(time.Duration(s) * time.Microsecond)
	}
	w.dispatch(peer, func() (bool, error) {
		select {
		case <-sc.done:
			return true, sc.err
		default:
			return false, nil
		}
	})
}

// runDispatchReceiver lets a scripted server call a real client.
func runDispatchReceiver(e *Env) {
	w := newWorld(e)
	p := e.plan
	rc := &Receiver{w: w}
	x := newRawServer(w, nil, signalr.WithReceiver(rc), signalr.TimeoutInterval(300*time.Second), signalr.EnableDetailedErrors(p.b("detail")),
		signalr.WithAlternateMethodName("Renamed", "other.name"))
	if x == nil {
		return
	}
	if s := p.c("stall"); s > 0 {
		x.peer.pause(time.Duration(s) * time.Microsecond)
	}
	w.dispatch(x.peer, func() (bool, error) { return x.cl.State() != signalr.ClientConnected, x.cl.Err() })
}

// Receiver is the object a real client exposes. Its methods are those of the
// hub, as far as they need no hub.
type Receiver struct {
	signalr.Receiver
	w    *World
	name string
	on   func(r *Receiver, method string, tag int, args string)
	mu   sync.Mutex
}

func (r *Receiver) call(method string, tag int, args string) {
	r.w.addCall(Call{Method: method, Tag: tag, Conn: r.name, AtUs: r.w.e.us(), Args: args})
	r.w.e.log("receiver %s %s tag=%d %s", r.name, method, tag, trunc(args, 80))
	if r.on != nil {
		r.on(r, method, tag, args)
	}
}

func (r *Receiver) Echo(tag int, v interface{}) interface{} {
	r.call("Echo", tag, canon(v))
	return v
}
func (r *Receiver) Add(tag int, a int, b int) int {
	r.call("Add", tag, fmt.Sprintf("%d,%d", a, b))
	return a + b
}
func (r *Receiver) Sum(tag int, l []int) int {
	r.call("Sum", tag, canon(l))
	s := 0
	for _, x := range l {
		s += x
	}
	return s
}

// Wide has many arguments.
func (r *Receiver) Wide(tag int, a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16 int) []int {
	l := []int{a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16}
	r.call("Wide", tag, canon(l))
	return l
}
func (r *Receiver) Rec(tag int, rec Record) Record {
	r.call("Rec", tag, canon(rec))
	rec.Num++
	return rec
}
func (r *Receiver) Two(tag int, s string) (int, string) {
	r.call("Two", tag, s)
	return tag, s + "!"
}
func (r *Receiver) Odd(tag int, how int) any {
	r.call("Odd", tag, "")
	return oddValue(tag, how)
}
func (r *Receiver) Void(tag int) { r.call("Void", tag, "") }
func (r *Receiver) Wait(tag int, millis int) int {
	r.call("Wait", tag, "")
	time.Sleep(ms(millis))
	return tag * 3
}
func (r *Receiver) Blob(tag int, b []byte) int {
	r.call("Blob", tag, fmt.Sprint(len(b)))
	return len(b)
}
func (r *Receiver) Big(tag int, n int) string {
	r.call("Big", tag, fmt.Sprint(n))
	if r.w.tame && n > 5000 {
		n = 5000
	}
	return bigString(tag, n)
}
func (r *Receiver) Upload(tag int, ch <-chan int) []int {
	r.call("Upload", tag, "")
	l := []int{}
	for v := range ch {
		l = append(l, v)
	}
	return l
}
func (r *Receiver) Panic(tag int) int {
	r.call("Panic", tag, "")
	panic(fmt.Sprintf("boom-%d", tag))
}
func (r *Receiver) PanicUpload(tag int, ch <-chan int) int {
	r.call("PanicUpload", tag, "")
	panic(fmt.Sprintf("boom-%d", tag))
}
func (r *Receiver) Once(tag int, millis int) <-chan int {
	r.call("Once", tag, "")
	ch := make(chan int, 1)
	go func() {
		time.Sleep(ms(millis))
		ch <- tag * 5
		close(ch)
	}()
	return ch
}
func (r *Receiver) Closed(tag int) <-chan int {
	r.call("Closed", tag, "")
	ch := make(chan int)
	close(ch)
	return ch
}
func (r *Receiver) Mix(tag int, a uint8, b int64, c float64, d bool, s string, p *int, m map[string]int) []any {
	l := []any{a, b, c, d, s, p != nil, len(m)}
	r.call("Mix", tag, canon(l))
	return l
}
func (r *Receiver) Slow(tag int, millis int) int {
	r.call("Slow", tag, "")
	time.Sleep(ms(millis))
	return tag * 7
}
func (r *Receiver) Renamed(tag int, s string) string {
	r.call("Renamed", tag, s)
	return s
}

// OnMsg receives what hubs send to clients.
func (r *Receiver) OnMsg(tag int, how string) { r.call("OnMsg", tag, how) }
