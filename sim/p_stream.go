package main

import (
	"fmt"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/philippseith/signalr"
)

func init() {
	register(&Scenario{Prop: "C03", Name: "pull-e2e", Weight: 3, Gen: genPullE2E, Run: runPullE2E,
		Real: []string{"client", "server", "netConnection", "hub protocols"}, Stub: []string{"TCP stream"}})
	register(&Scenario{Prop: "C03", Name: "pull-raw-server", Weight: 2, Gen: genPullRawServer, Run: runPullRawServer,
		Real: []string{"client", "netConnection", "hub protocols"}, Stub: []string{"TCP stream", "server (scripted)"}})
	register(&Scenario{Prop: "C03", Name: "pull-raw-client", Weight: 2, Gen: genPullRawClient, Run: runPullRawClient,
		Real: []string{"server", "netConnection", "hub protocols"}, Stub: []string{"TCP stream", "client (scripted)"}})
	register(&Scenario{Prop: "C04", Name: "push-e2e", Weight: 3, Gen: genPushE2E, Run: runPushE2E,
		Real: []string{"client", "server", "netConnection", "hub protocols"}, Stub: []string{"TCP stream"}})
	register(&Scenario{Prop: "C04", Name: "push-raw-client", Weight: 2, Gen: genPushRawClient, Run: runPushRawClient,
		Real: []string{"server", "netConnection", "hub protocols"}, Stub: []string{"TCP stream", "client (scripted)"}})
	register(&Scenario{Prop: "C05", Name: "cancel-raw-client", Weight: 3, Gen: genCancel, Run: runCancel,
		Real: []string{"server", "netConnection", "hub protocols"}, Stub: []string{"TCP stream", "client (scripted)"}})
}

// pullSpec is the reference model of a pulled stream.
type pullSpec struct {
	method string
	args   []any
	items  []string // canonical items
	fails  string   // piece of the error that ends the stream
	runs   bool
}

func pullSpecOf(op Op, tag int) pullSpec {
	switch op.K {
	case "count":
		sp := pullSpec{method: "Count", args: []any{tag, op.X, op.Y}, runs: true}
		for i := 0; i < op.X; i++ {
			sp.items = append(sp.items, canon(tag*1000+i))
		}
		return sp
	case "vals":
		sp := pullSpec{method: "Vals", args: []any{tag, op.X, op.Y, op.Z}, runs: true}
		for i := 0; i < op.X; i++ {
			sp.items = append(sp.items, canon(streamVal(op.Z, i)))
		}
		return sp
	case "valsodd":
		k := op.Z % 8
		sp := pullSpec{method: "ValsOdd", args: []any{tag, op.X, op.Y, op.Z, k}, runs: true}
		for i := 0; i < op.X && i < k; i++ {
			sp.items = append(sp.items, canon(streamVal(op.Z, i)))
		}
		if k < op.X {
			sp.fails = "?"
		}
		return sp
	case "oddret":
		return pullSpec{method: "Odd", args: []any{tag, op.Z % 2 * 3}, fails: "?", runs: true}
	case "single":
		return pullSpec{method: "Add", args: []any{tag, op.X, op.Y}, items: []string{canon(op.X + op.Y)}, runs: true}
	case "none":
		return pullSpec{method: "Void", args: []any{tag}, fails: "?"}
	case "two":
		return pullSpec{method: "Two", args: []any{tag, "x"}, fails: "?"}
	case "unknown":
		return pullSpec{method: fmt.Sprintf("NoSuch%d", tag), args: []any{tag}, fails: fmt.Sprintf("NoSuch%d", tag)}
	case "few":
		return pullSpec{method: "Count", args: []any{tag}, fails: "mismatch"}
	case "oddarg":
		return pullSpec{method: "Count", args: []any{tag, oddValue(tag, op.Z%2*3), 0}, fails: "?"}
	case "badtype":
		return pullSpec{method: "Count", args: []any{tag, "x", 0}, fails: "?"}
	case "panic":
		return pullSpec{method: "Panic", args: []any{tag}, fails: fmt.Sprintf("boom-%d", tag), runs: true}
	}
	panic("HARNESS: op " + op.K)
}

// streamVal is item i of a value stream: never nil, a null item and the void
// end cannot be told apart in every encoding.
func streamVal(seed, i int) any {
	v := valOf(seed+i*7919, 2)
	if v == nil {
		return "nil"
	}
	return v
}

// Vals streams n values made from seed.
func (h *SimHub) Vals(tag int, n int, gap int, seed int) chan interface{} {
	h.w.call(h, "Vals", tag, fmt.Sprintf("%d,%d,%d", n, gap, seed))
	return vals(n, gap, seed, -1)
}

// ValsOdd is like Vals, but item odd can not be encoded.
func (h *SimHub) ValsOdd(tag int, n int, gap int, seed int, odd int) chan interface{} {
	h.w.call(h, "ValsOdd", tag, fmt.Sprintf("%d,%d,%d,%d", n, gap, seed, odd))
	return vals(n, gap, seed, odd)
}

func vals(n int, gap int, seed int, odd int) chan interface{} {
	ch := make(chan interface{}, 3)
	go func() {
		defer close(ch)
		for i := 0; i < n; i++ {
			if gap > 0 {
				time.Sleep(time.Duration(gap) * time.Microsecond)
			}
			v := streamVal(seed, i)
			if i == odd {
				v = oddValue(i, seed%2*3)
			}
			select {
			case ch <- v:
			case <-time.After(10 * time.Minute):
				return
			}
		}
	}()
	return ch
}

// checkPull compares what a consumer saw with the model.
func (w *World) checkPull(name string, o *outcome, sp pullSpec, broken bool) {
	items, closed := o.snap()
	if !closed {
		w.e.fail("stream-unended", "%s %s: the channel was not closed after %d of %d items", name, sp.method, len(items), len(sp.items))
		return
	}
	n := 0
	var err error
	for i, it := range items {
		if it.Error != nil {
			err = it.Error
			if i != len(items)-1 {
				w.e.fail("stream-item-after-error", "%s %s: something follows the error: %s", name, sp.method, showItems(items))
				return
			}
			break
		}
		if n >= len(sp.items) {
			w.e.fail("stream-extra-item", "%s %s: got %d items, the stream has only %d: %s", name, sp.method, len(items), len(sp.items), showItems(items[n:]))
			return
		}
		if c := canon(it.Value); c != sp.items[n] {
			w.e.fail("stream-wrong-item", "%s %s: item %d is %s, want %s", name, sp.method, n, trunc(c, 200), trunc(sp.items[n], 200))
			return
		}
		n++
	}
	if broken {
		if err == nil && (n < len(sp.items) || sp.fails != "") {
			w.e.fail("stream-truncated", "%s %s: the stream ended without an error after %d of %d items", name, sp.method, n, len(sp.items))
		}
		return
	}
	if n < len(sp.items) {
		w.e.fail("stream-lost-items", "%s %s: only %d of %d items arrived (error: %v)", name, sp.method, n, len(sp.items), err)
	}
	switch {
	case sp.fails == "" && err != nil:
		w.e.fail("stream-wrong-error", "%s %s ended with an error: %v", name, sp.method, err)
	case sp.fails != "" && err == nil:
		w.e.fail("stream-lost-error", "%s %s must end with an error (%s), but ended regularly after %d items", name, sp.method, sp.fails, n)
	case sp.fails != "" && sp.fails != "?" && !strings.Contains(err.Error(), sp.fails):
		w.e.fail("stream-foreign-error", "%s %s ended with %v, want %q", name, sp.method, err, sp.fails)
	}
}

var pullKinds = []string{"count", "count", "count", "count", "vals", "vals", "single", "none", "two", "unknown", "few", "badtype", "panic", "valsodd", "oddret"}

func genPullOp(r *Rand) Op {
	op := Op{K: r.picks(pullKinds...), X: r.pick(0, 1, 2, 3, 5, 10, 12, 15, 25, 40), Y: r.pick(0, 0, 0, 50, 500, 5000), Z: r.n(1 << 20)}
	op.A = r.pick(0, 0, 0, 100, 1000, 20000, 300000) // time the consumer takes per item, microseconds
	if r.p(2) {
		op.X, op.Y, op.A = r.pick(100, 129, 270, 1100), r.pick(0, 0, 50), r.pick(0, 0, 20)
	}
	return op
}

func genPullE2E(r *Rand) *Plan {
	p := &Plan{Cfg: map[string]int{}}
	p.schedule(r)
	p.network(r)
	p.Cfg["mp"] = r.b(40)
	p.Cfg["percon"] = r.b(20)
	p.Cfg["cap"] = r.pick(0, 0, 1, 2, 30) // stream buffer of the client
	n := r.in(1, 7)
	span := r.pick(1, 1000, 20000, 100000)
	for i := 0; i < n; i++ {
		op := genPullOp(r)
		if r.p(20) {
			op = genInvokeOp(r, 3000)
			op.L = []int{1}
		} else if r.p(3) {
			op.K = "oddarg"
		}
		op.T = int64(r.n(span))
		if r.p(40) {
			op.T = int64(span / 2)
		}
		p.Ops = append(p.Ops, op)
	}
	p.genBreak(r, 40, span+10000)
	if p.Cfg["f_kind"] == 4 {
		p.Cfg["f_byte"] = r.in(1, 3000)
	}
	return p
}

func capOpt(p *Plan) (l []func(signalr.Party) error) {
	if n := p.c("cap"); n > 0 {
		l = append(l, signalr.StreamBufferCapacity(uint(n)))
	}
	return
}

func runPullE2E(e *Env) {
	w := newWorld(e)
	p := e.plan
	x := newE2E(w, nil, capOpt(p))
	if x == nil {
		return
	}
	outs := make([]*outcome, len(p.Ops))
	var wg sync.WaitGroup
	for i, op := range p.Ops {
		wg.Add(1)
		go func() {
			defer wg.Done()
			e.sleepUntilUs(x.base + op.T)
			name := fmt.Sprintf("op%d", i+1)
			e.log("%s %s", name, op.K)
			if len(op.L) > 0 {
				sp := specOf(op, i+1)
				outs[i] = w.watch(name, x.cl.Invoke(sp.method, sp.args...), 0)
			} else {
				sp := pullSpecOf(op, i+1)
				outs[i] = w.watch(name, x.cl.PullStream(sp.method, sp.args...), time.Duration(op.A)*time.Microsecond)
			}
		}()
	}
	wg.Wait()
	w.awaitQuiet(w.limit()+60*time.Second, outs...)
	broken := x.broken()
	e.count("streams", len(p.Ops))
	for i, op := range p.Ops {
		name := fmt.Sprintf("op%d", i+1)
		runs := w.callsOf("", i+1)
		if len(runs) > 1 {
			e.fail("stream-executed-twice", "%s ran %d times on the server", name, len(runs))
		}
		if len(op.L) > 0 {
			w.checkInvoke(name, outs[i], specOf(op, i+1), broken)
			continue
		}
		w.checkPull(name, outs[i], pullSpecOf(op, i+1), broken)
	}
	if state := x.cl.State(); !x.broken() && state != signalr.ClientConnected {
		e.fail("connection-lost", "the client left the connected state without a fault (state %v, err %v)", x.cl.State(), x.cl.Err())
	}
}

// ---- real client, scripted server ----

func genPullRawServer(r *Rand) *Plan {
	p := &Plan{Cfg: map[string]int{}}
	p.schedule(r)
	p.network(r)
	p.Cfg["mp"] = r.b(40)
	p.Cfg["style"] = r.n(16)
	p.Cfg["batch"] = r.pick(0, 0, 1, 5, 1000) // so many messages are written in one piece
	p.Cfg["gap"] = r.pick(0, 0, 100, 2000)
	p.Cfg["shuffle"] = r.n(1 << 20)
	p.Cfg["cap"] = r.pick(0, 0, 1, 2, 30)
	n := r.in(1, 6)
	for i := 0; i < n; i++ {
		// X items, Y end: 0 completion, 1 error, 2 completion with a result
		// and no item, 3 the connection ends first; Z values; A pace
		op := Op{K: "s", X: r.pick(0, 1, 2, 5, 9, 10, 11, 12, 13, 14, 20, 30), Y: r.pick(0, 0, 0, 1, 1, 2, 3), Z: r.n(1 << 20),
			A: r.pick(0, 0, 0, 100, 1000, 20000, 300000), T: int64(r.n(3) * 500)}
		if op.Y == 2 {
			op.X = 0
		}
		p.Ops = append(p.Ops, op)
	}
	p.Cfg["end"] = r.n(6)
	p.Cfg["soon"] = r.b(60) // the end comes directly after the last message
	return p
}

func runPullRawServer(e *Env) {
	w := newWorld(e)
	p := e.plan
	var mu sync.Mutex
	ids := map[int]string{}
	x := newRawServer(w, func(m Msg) {
		if m.Type != mStream {
			if m.Type == mInvoke || m.Type == mItem || m.Type == mCompl {
				e.fail("stream-wrong-message", "the client pulls streams, but sent %v", m)
			}
			return
		}
		tag := 0
		if len(m.Args) > 0 {
			fmt.Sscan(canon(m.Args[0]), &tag)
		}
		mu.Lock()
		defer mu.Unlock()
		for t, id := range ids {
			if id == m.ID {
				e.fail("duplicate-invocation-id", "streams %d and %d have the same id %q", t, tag, id)
			}
		}
		ids[tag] = m.ID
	}, append(capOpt(p), signalr.TimeoutInterval(60*time.Second), signalr.KeepAliveInterval(1000*time.Second))...)
	if x == nil {
		return
	}
	outs := make([]*outcome, len(p.Ops))
	base := e.us()
	var wg sync.WaitGroup
	for i, op := range p.Ops {
		wg.Add(1)
		go func() {
			defer wg.Done()
			e.sleepUntilUs(base + op.T)
			outs[i] = w.watch(fmt.Sprintf("stream%d", i+1), x.cl.PullStream("S", i+1), time.Duration(op.A)*time.Microsecond)
		}()
	}
	wg.Wait()
	if !waitCond(time.Minute, func() bool { mu.Lock(); defer mu.Unlock(); return len(ids) == len(p.Ops) }) {
		e.fail("invocation-not-sent", "only %d of %d stream invocations reached the server", len(ids), len(p.Ops))
		return
	}
	// the calls that sent the invocations return
	time.Sleep(2 * time.Second)
	// interleave the streams
	specs := make([]pullSpec, len(p.Ops))
	var script []Msg
	pos := make([]int, len(p.Ops))
	scripts := make([][]Msg, len(p.Ops))
	for i, op := range p.Ops {
		id := ids[i+1]
		specs[i] = pullSpec{method: "S"}
		for k := 0; k < op.X; k++ {
			v := streamVal(op.Z, k)
			specs[i].items = append(specs[i].items, canon(v))
			scripts[i] = append(scripts[i], Msg{Type: mItem, ID: id, HasID: true, Item: v})
		}
		switch op.Y {
		case 0:
			scripts[i] = append(scripts[i], Msg{Type: mCompl, ID: id, HasID: true})
		case 1:
			specs[i].fails = fmt.Sprintf("failure-%d", i+1)
			scripts[i] = append(scripts[i], Msg{Type: mCompl, ID: id, HasID: true, Err: specs[i].fails})
		case 2:
			v := streamVal(op.Z, 0)
			specs[i].items = append(specs[i].items, canon(v))
			scripts[i] = append(scripts[i], Msg{Type: mCompl, ID: id, HasID: true, Result: v, HasResult: true})
		}
	}
	sr := newRand(uint64(p.c("shuffle")))
	for {
		var left []int
		for i := range scripts {
			if pos[i] < len(scripts[i]) {
				left = append(left, i)
			}
		}
		if len(left) == 0 {
			break
		}
		i := left[sr.n(len(left))]
		script = append(script, scripts[i][pos[i]])
		pos[i]++
	}
	var batch []byte
	nb := 0
	sent := true
	for k, m := range script {
		e.log("srv -> %v", m)
		batch = append(batch, encode(w.proto, m, x.peer.style)...)
		nb++
		if nb >= p.c("batch") || k == len(script)-1 {
			if err := x.peer.write(batch); err != nil {
				e.fail("connection-lost", "the client closed the connection: %v", err)
				sent = false
				break
			}
			batch, nb = nil, 0
			if g := p.c("gap"); g > 0 {
				time.Sleep(time.Duration(g) * time.Microsecond)
			}
		}
	}
	if !sent {
		return
	}
	if !p.b("soon") {
		for i, o := range outs {
			if p.Ops[i].Y != 3 {
				w.awaitQuiet(120*time.Second, o)
			}
		}
	}
	clean := p.c("end") != 4 && p.c("end") != 5 // ends which come after everything that was sent
	switch p.c("end") {
	case 0:
		_ = x.peer.send(Msg{Type: mClose})
		e.fault("server-close-message")
	case 1:
		_ = x.peer.send(Msg{Type: mClose, Err: "shutting down", Allow: true})
		e.fault("server-close-message")
	case 2:
		x.b.Close()
		e.fault("peer-close")
	case 3: // messages may have got lost
		clean = false
		x.b.Reset()
		e.fault("reset")
	case 4:
		go x.cl.Stop()
		e.fault("client-stop")
	case 5:
		x.canc()
		e.fault("client-cancel")
	}
	w.awaitQuiet(200*time.Second, outs...)
	e.count("streams", len(p.Ops))
	for i, o := range outs {
		sp := specs[i]
		name := fmt.Sprintf("stream%d", i+1)
		if p.Ops[i].Y == 3 {
			sp.fails = "?"
			w.checkPull(name, o, sp, true)
			continue
		}
		w.checkPull(name, o, sp, p.b("soon") && !clean)
	}
}

// ---- scripted client, real server ----

func genPullRawClient(r *Rand) *Plan {
	p := &Plan{Cfg: map[string]int{}}
	p.schedule(r)
	p.network(r)
	p.Cfg["mp"] = r.b(40)
	p.Cfg["style"] = r.n(16)
	p.Cfg["percon"] = r.b(20)
	p.Cfg["batch"] = r.b(30)
	p.Cfg["stall"] = r.pick(0, 0, 1000, 50000, 2000000) // the client does not read for that long
	n := r.in(1, 8)
	for i := 0; i < n; i++ {
		op := genPullOp(r)
		op.T = int64(r.n(4) * r.pick(0, 100, 3000))
		if r.p(20) {
			op = Op{K: "inv", X: r.in(0, 50), Y: r.in(0, 50)}
		}
		if r.p(10) {
			op = Op{K: "first", X: r.in(1, 5), Y: r.pick(0, 500)}
		}
		p.Ops = append(p.Ops, op)
	}
	return p
}

func runPullRawClient(e *Env) {
	w := newWorld(e)
	p := e.plan
	srv := w.server(w.ctx, 0, signalr.TimeoutInterval(120*time.Second))
	peer, sc, _ := w.rawClient(srv, "cli", w.proto)
	if err := peer.handshake(20 * time.Second); err != nil {
		e.fail("connect", "handshake: %v", err)
		return
	}
	if s := p.c("stall"); s > 0 {
		peer.pause(time.Duration(s) * time.Microsecond)
	}
	base := e.us()
	var batch []byte
	ops := append([]Op(nil), p.Ops...)
	order := make([]int, len(ops))
	for i := range order {
		order[i] = i
	}
	sort.SliceStable(order, func(a, b int) bool { return ops[order[a]].T < ops[order[b]].T })
	for _, i := range order {
		op := ops[i]
		m := Msg{Type: mStream, ID: fmt.Sprintf("s%d", i+1), HasID: true}
		switch op.K {
		case "inv":
			m = Msg{Type: mInvoke, ID: m.ID, HasID: true, Target: "Add", Args: []any{i + 1, op.X, op.Y}}
		case "first":
			m = Msg{Type: mInvoke, ID: m.ID, HasID: true, Target: "Count", Args: []any{i + 1, op.X, op.Y}}
		default:
			sp := pullSpecOf(op, i+1)
			m.Target, m.Args = sp.method, sp.args
		}
		if p.b("batch") {
			batch = append(batch, encode(w.proto, m, peer.style)...)
			e.log("cli -> (batched) %v", m)
			continue
		}
		e.sleepUntilUs(base + op.T)
		if err := peer.send(m); err != nil {
			e.fail("connection-lost", "the server closed the connection: %v", err)
			return
		}
	}
	if batch != nil {
		_ = peer.write(batch)
	}
	peer.waitMsgs(len(ops), 60*time.Second, func(m Msg) bool { return m.Type == mCompl })
	time.Sleep(100 * time.Millisecond)
	e.count("streams", len(ops))
	got := peer.msgs()
	known := map[string]bool{}
	for i, op := range ops {
		id := fmt.Sprintf("s%d", i+1)
		known[id] = true
		var items []string
		var compl []Msg
		after := false
		for _, m := range got {
			if m.ID != id {
				continue
			}
			switch m.Type {
			case mItem:
				items = append(items, canon(m.Item))
				if len(compl) > 0 {
					after = true
				}
			case mCompl:
				compl = append(compl, m)
			}
		}
		var sp pullSpec
		switch op.K {
		case "inv":
			sp = pullSpec{method: "Add"}
			if len(compl) == 1 && canon(compl[0].Result) != canon(op.X+op.Y) {
				e.fail("stream-mixed", "%s: result %s, want %d", id, canon(compl[0].Result), op.X+op.Y)
			}
		case "first":
			sp = pullSpec{method: "Count"}
			if len(compl) == 1 && canon(compl[0].Result) != canon((i+1)*1000) {
				e.fail("stream-mixed", "%s: result %s, want %d", id, canon(compl[0].Result), (i+1)*1000)
			}
		default:
			sp = pullSpecOf(op, i+1)
		}
		if len(compl) != 1 {
			e.fail("stream-completions", "stream %s (%s) got %d completions: %v", id, op.K, len(compl), compl)
			continue
		}
		if after {
			e.fail("stream-item-after-end", "stream %s (%s) got items after its completion", id, op.K)
		}
		if fmt.Sprint(items) != fmt.Sprint(sp.items) {
			e.fail("stream-wrong-items", "stream %s (%s): got %v, want %v", id, op.K, items, sp.items)
		}
		if (compl[0].Err != "") != (sp.fails != "") || (sp.fails != "?" && !strings.Contains(compl[0].Err, sp.fails)) {
			e.fail("stream-wrong-error", "stream %s (%s) ended with error %q, want %q", id, op.K, compl[0].Err, sp.fails)
		}
		if op.K != "inv" && op.K != "first" && compl[0].HasResult && compl[0].Result != nil {
			e.fail("stream-end-with-result", "stream %s (%s) got items and a result", id, op.K)
		}
		if n := len(w.callsOf("", i+1)); (sp.runs || op.K == "inv" || op.K == "first") && n != 1 || n > 1 {
			e.fail("stream-executed", "%s (%s) ran %d times", id, op.K, n)
		}
	}
	for _, m := range got {
		if (m.Type == mItem || m.Type == mCompl) && !known[m.ID] {
			e.fail("stream-unknown-id", "message with an id nobody uses: %v", m)
		}
	}
	select {
	case <-sc.done:
		e.fail("connection-lost", "Serve returned without a fault: %v", sc.err)
	default:
	}
}

// ---- uploads ----

// UploadAny collects a client stream of arbitrary values.
func (h *SimHub) UploadAny(tag int, ch <-chan interface{}) []string {
	h.w.call(h, "UploadAny", tag, "")
	l := []string{}
	for x := range ch {
		l = append(l, canon(x))
		h.w.call(h, "UploadItem", tag, canon(x))
	}
	h.w.call(h, "UploadEnd", tag, fmt.Sprint(l))
	return l
}

// UploadPar is like Upload with the channel in front and a second parameter.
func (h *SimHub) UploadRec(ch <-chan Record, tag int) int {
	h.w.call(h, "UploadRec", tag, "")
	n := 0
	for x := range ch {
		n++
		h.w.call(h, "UploadItem", tag, canon(x))
	}
	h.w.call(h, "UploadEnd", tag, fmt.Sprint(n))
	return n
}

// pushSpec is the reference model of an upload.
type pushSpec struct {
	method string
	args   func(chs []any) []any
	items  [2][]string // what arrives on each channel, canonical as the hub records it
	want   string
	fails  string
}

func intsOf(tag, n, k int) (l []int, s []string) {
	l = []int{}
	for i := 0; i < n; i++ {
		l = append(l, tag*1000+k*500+i)
		s = append(s, fmt.Sprint(tag*1000+k*500+i))
	}
	return
}

func genPushOp(r *Rand) Op {
	op := Op{K: r.picks("up", "up", "up", "slow", "two2", "two2", "any", "urec", "uvoid"), X: r.pick(0, 1, 2, 5, 9, 10, 11, 12, 20, 30), Y: r.pick(0, 1, 5, 11), Z: r.n(1 << 20),
		A: r.pick(0, 0, 0, 50, 1000, 20000)} // time between items, microseconds
	if r.p(2) && op.K != "any" { // whose result would be too large
		op.X, op.A = r.pick(100, 129, 270, 1100), r.pick(0, 0, 50)
	}
	return op
}

func genPushE2E(r *Rand) *Plan {
	p := &Plan{Cfg: map[string]int{}}
	p.schedule(r)
	p.network(r)
	p.Cfg["mp"] = r.b(40)
	p.Cfg["percon"] = r.b(20)
	p.Cfg["cap"] = r.pick(0, 0, 1, 2, 30)
	n := r.in(1, 6)
	span := r.pick(1, 1000, 20000, 100000)
	for i := 0; i < n; i++ {
		op := genPushOp(r)
		op.L = []int{r.pick(0, 0, 1)} // 1: buffered channel filled in advance
		if r.p(20) {
			op = genInvokeOp(r, 3000)
		} else if r.p(3) {
			op.K = "anyodd" // item Y can not be encoded
			op.Y = r.n(op.X + 1)
		} else if r.p(3) {
			op.K = "oddarg"
		}
		op.T = int64(r.n(span))
		if r.p(40) {
			op.T = int64(span / 2)
		}
		p.Ops = append(p.Ops, op)
	}
	p.genBreak(r, 40, span+10000)
	if p.Cfg["f_kind"] == 3 {
		p.Cfg["f_byte"] = r.in(1, 2500)
	}
	return p
}

// feed sends items into an upload channel made by mk, and closes it.
func feed[T any](e *Env, ch chan T, items []T, gapUs int, sent *int, done *bool, mu *sync.Mutex) {
	go func() {
		for _, it := range items {
			if gapUs > 0 {
				time.Sleep(time.Duration(gapUs) * time.Microsecond)
			}
			select {
			case ch <- it:
				mu.Lock()
				*sent++
				mu.Unlock()
			case <-time.After(5 * time.Minute):
				return
			}
		}
		mu.Lock()
		*done = true
		mu.Unlock()
		close(ch)
	}()
}

func runPushE2E(e *Env) {
	w := newWorld(e)
	p := e.plan
	x := newE2E(w, capOpt(p), nil)
	if x == nil {
		return
	}
	outs := make([]*outcome, len(p.Ops))
	specs := make([]pushSpec, len(p.Ops))
	ended := make([][2]bool, len(p.Ops))
	var mu sync.Mutex
	var sent int
	var wg sync.WaitGroup
	for i, op := range p.Ops {
		wg.Add(1)
		go func() {
			defer wg.Done()
			tag := i + 1
			e.sleepUntilUs(x.base + op.T)
			name := fmt.Sprintf("op%d", tag)
			e.log("%s %s", name, op.K)
			buf := 0
			if len(op.L) > 0 && op.L[0] == 1 {
				buf = 40
			}
			switch op.K {
			case "up", "slow":
				l, s := intsOf(tag, op.X, 0)
				specs[i] = pushSpec{method: "Upload", items: [2][]string{s}, want: canon(l)}
				ch := make(chan int, buf)
				feed(e, ch, l, op.A, &sent, &ended[i][0], &mu)
				if op.K == "slow" {
					outs[i] = w.watch(name, x.cl.PushStreams("UploadSlow", tag, op.Y, ch), 0)
				} else {
					outs[i] = w.watch(name, x.cl.PushStreams("Upload", tag, ch), 0)
				}
			case "two2":
				la, sa := intsOf(tag, op.X, 0)
				var lb []string
				for k := 0; k < op.Y; k++ {
					lb = append(lb, fmt.Sprintf("t%d-%d", tag, k))
				}
				specs[i] = pushSpec{method: "Upload2", items: [2][]string{sa, lb}, want: canon([]any{fmt.Sprint(la), fmt.Sprint(lb)})}
				ca, cb := make(chan int, buf), make(chan string, buf)
				feed(e, ca, la, op.A, &sent, &ended[i][0], &mu)
				feed(e, cb, lb, op.A/2, &sent, &ended[i][1], &mu)
				outs[i] = w.watch(name, x.cl.PushStreams("Upload2", ca, tag, cb), 0)
			case "any", "anyodd":
				var l []any
				var s []string
				for k := 0; k < op.X; k++ {
					if op.K == "anyodd" && k == op.Y {
						// such an upload can only be ended by ending the connection
						x.br.mu.Lock()
						x.br.struck = true
						x.br.mu.Unlock()
						l = append(l, oddValue(tag, op.Z%2*3))
						s = append(s, "can not be encoded")
						continue
					}
					l = append(l, valOf(op.Z+k*7919, 2))
					s = append(s, canon(l[k]))
				}
				specs[i] = pushSpec{method: "UploadAny", items: [2][]string{s}, want: canonStrings(s)}
				ch := make(chan any, buf)
				feed(e, ch, l, op.A, &sent, &ended[i][0], &mu)
				outs[i] = w.watch(name, x.cl.PushStreams("UploadAny", tag, ch), 0)
			case "urec":
				var l []Record
				var s []string
				for k := 0; k < op.X; k++ {
					l = append(l, recOf(op.Z+k))
					s = append(s, canon(l[k]))
				}
				specs[i] = pushSpec{method: "UploadRec", items: [2][]string{s}, want: canon(op.X)}
				ch := make(chan Record, buf)
				feed(e, ch, l, op.A, &sent, &ended[i][0], &mu)
				outs[i] = w.watch(name, x.cl.PushStreams("UploadRec", ch, tag), 0)
			case "uvoid":
				l, s := intsOf(tag, op.X, 0)
				specs[i] = pushSpec{method: "UploadVoid", items: [2][]string{s}}
				ch := make(chan int, buf)
				feed(e, ch, l, op.A, &sent, &ended[i][0], &mu)
				outs[i] = w.watch(name, x.cl.PushStreams("UploadVoid", ch, tag), 0)
			case "oddarg":
				outs[i] = w.watch(name, x.cl.PushStreams("Upload", oddValue(tag, op.Z%2*3), make(chan int)), 0)
			default:
				sp := specOf(op, tag)
				outs[i] = w.watch(name, x.cl.Invoke(sp.method, sp.args...), 0)
			}
		}()
	}
	wg.Wait()
	w.awaitQuiet(w.limit()+30*time.Second, outs...)
	broken := x.broken()
	mu.Lock()
	defer mu.Unlock()
	e.count("uploads", len(p.Ops))
	e.count("items", sent)
	for i, op := range p.Ops {
		name := fmt.Sprintf("op%d", i+1)
		if specs[i].method == "" {
			w.checkInvoke(name, outs[i], specOf(op, i+1), broken)
			continue
		}
		w.checkPush(name, i+1, outs[i], specs[i], ended[i], broken)
	}
	if state := x.cl.State(); !x.broken() && state != signalr.ClientConnected {
		e.fail("connection-lost", "the client left the connected state without a fault (state %v, err %v)", x.cl.State(), x.cl.Err())
	}
}

func canonStrings(s []string) string {
	l := []any{}
	for _, x := range s {
		l = append(l, x)
	}
	return canon(l)
}

// UploadVoid collects a client stream and returns nothing.
func (h *SimHub) UploadVoid(ch <-chan int, tag int) {
	h.w.call(h, "UploadVoid", tag, "")
	n := 0
	for x := range ch {
		n++
		h.w.call(h, "UploadItem", tag, fmt.Sprint(x))
	}
	h.w.call(h, "UploadEnd", tag, fmt.Sprint(n))
}

func argsOf(calls []Call) (l []string) {
	for _, c := range calls {
		l = append(l, c.Args)
	}
	return
}

func isPrefix(a, b []string) bool {
	if len(a) > len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// checkPush compares an upload with the model. ended tells which channels the
// client has closed.
func (w *World) checkPush(name string, tag int, o *outcome, sp pushSpec, ended [2]bool, broken bool) {
	e := w.e
	ends := w.callsOf("UploadEnd", tag) // first: the hub method may still run
	got := [2][]string{argsOf(w.callsOf("UploadItem", tag)), argsOf(w.callsOf("UploadItemB", tag))}
	for k := range got {
		if !isPrefix(got[k], sp.items[k]) {
			e.fail("upload-wrong-items", "%s %s: channel %d of the hub method delivered %v, the client sent %v", name, sp.method, k, got[k], sp.items[k])
		}
	}
	complete := len(got[0]) == len(sp.items[0]) && len(got[1]) == len(sp.items[1])
	if len(ends) > 1 {
		e.fail("upload-executed-twice", "%s %s ended %d times", name, sp.method, len(ends))
	}
	if len(ends) == 1 && !complete {
		e.fail("upload-false-end", "%s %s: the hub method saw the regular end of an upload after %d+%d of %d+%d items", name, sp.method,
			len(got[0]), len(got[1]), len(sp.items[0]), len(sp.items[1]))
	}
	items, closed := o.snap()
	if !closed {
		e.fail("upload-unresolved", "%s %s: the result channel was not closed (hub got %d+%d of %d+%d items, %d ends)", name, sp.method,
			len(got[0]), len(got[1]), len(sp.items[0]), len(sp.items[1]), len(ends))
		return
	}
	if len(items) > 1 {
		e.fail("upload-many-results", "%s %s: %s", name, sp.method, showItems(items))
		return
	}
	if broken {
		if len(ends) == 0 && (len(items) == 0 || items[0].Error == nil) {
			e.fail("upload-false-success", "%s %s did not end on the server, but the client got %s", name, sp.method, showItems(items))
		}
		return
	}
	if len(ends) == 0 {
		e.fail("upload-lost-items", "%s %s: the hub method did not see the end of the upload (%d+%d of %d+%d items)", name, sp.method,
			len(got[0]), len(got[1]), len(sp.items[0]), len(sp.items[1]))
	}
	switch {
	case len(items) == 1 && items[0].Error != nil:
		e.fail("upload-wrong-error", "%s %s failed: %v", name, sp.method, items[0].Error)
	case sp.want == "" && len(items) == 1 && items[0].Value != nil:
		e.fail("upload-wrong-result", "%s %s returns nothing, but the caller got %s", name, sp.method, canon(items[0].Value))
	case sp.want != "" && (len(items) == 0 || canon(items[0].Value) != sp.want):
		e.fail("upload-wrong-result", "%s %s: the caller got %s, want %s", name, sp.method, showItems(items), trunc(sp.want, 300))
	}
}

// ---- scripted client uploads ----

func genPushRawClient(r *Rand) *Plan {
	p := &Plan{Cfg: map[string]int{}}
	p.schedule(r)
	p.network(r)
	p.Cfg["mp"] = r.b(40)
	p.Cfg["style"] = r.n(16)
	p.Cfg["percon"] = r.b(20)
	p.Cfg["cap"] = r.pick(0, 0, 1, 2, 30)
	p.Cfg["batch"] = r.pick(0, 0, 1, 4, 1000)
	p.Cfg["shuffle"] = r.n(1 << 20)
	p.Cfg["max"] = r.pick(0, 0, 0, 1, 2)
	p.Cfg["rounds"] = r.pick(1, 1, 2, 3) // ids are used again in the next round
	n := r.in(1, 5)
	for i := 0; i < n; i++ {
		op := genPushOp(r)
		op.A = r.b(25) // the upload is never ended
		p.Ops = append(p.Ops, op)
	}
	p.Cfg["end"] = r.pick(0, 0, 1, 2, 3)
	return p
}

func runPushRawClient(e *Env) {
	w := newWorld(e)
	p := e.plan
	srv := w.server(w.ctx, 0, append(capOpt(p), signalr.TimeoutInterval(120*time.Second))...)
	peer, sc, a := w.rawClient(srv, "cli", w.proto)
	if err := peer.handshake(20 * time.Second); err != nil {
		e.fail("connect", "handshake: %v", err)
		return
	}
	sr := newRand(uint64(p.c("shuffle")))
	tag := 0
	type up struct {
		tag   int
		id    string
		sp    pushSpec
		never bool
	}
	var all []up
	for round := 0; round < p.c("rounds"); round++ {
		last := round == p.c("rounds")-1
		var scripts [][]Msg
		var ups []up
		for i, op := range p.Ops {
			tag++
			u := up{tag: tag, id: fmt.Sprintf("i%d", tag), never: op.A == 1 && last}
			sid := fmt.Sprintf("s%d", i*2)
			sid2 := fmt.Sprintf("s%d", i*2+1)
			inv := Msg{Type: mInvoke, ID: u.id, HasID: true, StreamIDs: []string{sid}}
			var ms []Msg
			switch op.K {
			case "up", "slow":
				l, s := intsOf(tag, op.X, 0)
				u.sp = pushSpec{method: "Upload", items: [2][]string{s}, want: canon(l)}
				inv.Target, inv.Args = "Upload", []any{tag}
				if op.K == "slow" {
					inv.Target, inv.Args = "UploadSlow", []any{tag, op.Y}
				}
				for _, v := range l {
					ms = append(ms, Msg{Type: mItem, ID: sid, HasID: true, Item: v})
				}
			case "uvoid":
				l, s := intsOf(tag, op.X, 0)
				u.sp = pushSpec{method: "UploadVoid", items: [2][]string{s}}
				inv.Target, inv.Args = "UploadVoid", []any{tag}
				for _, v := range l {
					ms = append(ms, Msg{Type: mItem, ID: sid, HasID: true, Item: v})
				}
			case "any", "urec":
				var s []string
				for k := 0; k < op.X; k++ {
					v := valOf(op.Z+k*7919, 2)
					s = append(s, canon(v))
					ms = append(ms, Msg{Type: mItem, ID: sid, HasID: true, Item: v})
				}
				u.sp = pushSpec{method: "UploadAny", items: [2][]string{s}, want: canonStrings(s)}
				inv.Target, inv.Args = "UploadAny", []any{tag}
			case "two2":
				la, sa := intsOf(tag, op.X, 0)
				var lb []string
				for k := 0; k < op.Y; k++ {
					lb = append(lb, fmt.Sprintf("t%d-%d", tag, k))
				}
				u.sp = pushSpec{method: "Upload2", items: [2][]string{sa, lb}, want: canon([]any{fmt.Sprint(la), fmt.Sprint(lb)})}
				inv.Target, inv.Args, inv.StreamIDs = "Upload2", []any{tag}, []string{sid, sid2}
				ia, ib := 0, 0
				for ia < len(la) || ib < len(lb) {
					if ia < len(la) && (ib >= len(lb) || sr.p(50)) {
						ms = append(ms, Msg{Type: mItem, ID: sid, HasID: true, Item: la[ia]})
						ia++
					} else {
						ms = append(ms, Msg{Type: mItem, ID: sid2, HasID: true, Item: lb[ib]})
						ib++
					}
				}
				if !u.never {
					// one channel may end long before the other
					ms = append(ms, Msg{Type: mCompl, ID: sid, HasID: true})
					k := len(ms) - 1
					for k > 0 && ms[k-1].ID != sid && sr.p(70) {
						ms[k-1], ms[k] = ms[k], ms[k-1]
						k--
					}
				}
				sid = sid2
			}
			if !u.never {
				ms = append(ms, Msg{Type: mCompl, ID: sid, HasID: true})
			}
			scripts = append(scripts, append([]Msg{inv}, ms...))
			ups = append(ups, u)
		}
		// interleave
		pos := make([]int, len(scripts))
		var batch []byte
		nb := 0
		for {
			var left []int
			for i := range scripts {
				if pos[i] < len(scripts[i]) {
					left = append(left, i)
				}
			}
			if len(left) > 0 {
				i := left[sr.n(len(left))]
				m := scripts[i][pos[i]]
				pos[i]++
				e.log("cli -> %v", m)
				batch = append(batch, encode(w.proto, m, peer.style)...)
				nb++
			}
			if nb > 0 && (nb >= p.c("batch") || len(left) == 0) {
				if err := peer.write(batch); err != nil {
					e.fail("connection-lost", "the server closed the connection: %v", err)
					return
				}
				batch, nb = nil, 0
			}
			if len(left) == 0 {
				break
			}
		}
		all = append(all, ups...)
		for _, u := range ups {
			if !u.never {
				peer.waitMsgs(1, 300*time.Second, func(m Msg) bool { return m.Type == mCompl && m.ID == u.id })
			}
		}
	}
	for _, u := range all {
		if u.never {
			waitCond(300*time.Second, func() bool {
				return len(w.callsOf("UploadItem", u.tag)) >= len(u.sp.items[0]) && len(w.callsOf("UploadItemB", u.tag)) >= len(u.sp.items[1])
			})
		}
	}
	select {
	case <-sc.done:
		e.fail("connection-lost", "Serve returned without a fault: %v", sc.err)
	default:
	}
	// the connection ends
	switch p.c("end") {
	case 0:
		a.Close()
		e.fault("peer-close")
	case 1:
		a.Reset()
		e.fault("reset")
	case 2:
		_ = peer.send(Msg{Type: mClose})
		e.fault("client-close-message")
	case 3:
		sc.cancel()
		e.fault("connection-cancel")
	}
	time.Sleep(20 * time.Second)
	e.count("uploads", len(all))
	for _, u := range all {
		o := &outcome{closed: true}
		for _, m := range peer.completions(u.id) {
			ir := signalr.InvokeResult{Value: m.Result}
			if m.Err != "" {
				ir.Error = fmt.Errorf("%s", m.Err)
			}
			o.items = append(o.items, ir)
		}
		name := fmt.Sprintf("upload %s", u.id)
		if u.never {
			if len(w.callsOf("UploadEnd", u.tag)) > 0 {
				e.fail("upload-false-end", "%s %s: the hub method saw the regular end of an upload which the client never ended", name, u.sp.method)
			}
			if len(o.items) > 0 {
				e.fail("upload-false-success", "%s %s: completion %s for an upload that never ended", name, u.sp.method, showItems(o.items))
			}
			got := [2][]string{argsOf(w.callsOf("UploadItem", u.tag)), argsOf(w.callsOf("UploadItemB", u.tag))}
			for k := range got {
				if !isPrefix(got[k], u.sp.items[k]) || len(got[k]) != len(u.sp.items[k]) {
					e.fail("upload-wrong-items", "%s %s: channel %d of the hub method delivered %v, the client sent %v", name, u.sp.method, k, got[k], u.sp.items[k])
				}
			}
			continue
		}
		if len(o.items) == 0 {
			e.fail("upload-no-completion", "%s %s was not answered", name, u.sp.method)
			continue
		}
		w.checkPush(name, u.tag, o, u.sp, [2]bool{true, true}, false)
	}
}

// ---- cancel ----

func genCancel(r *Rand) *Plan {
	p := &Plan{Cfg: map[string]int{}}
	p.schedule(r)
	p.network(r)
	p.Cfg["mp"] = r.b(40)
	p.Cfg["style"] = r.n(16)
	p.Cfg["percon"] = r.b(20)
	p.Cfg["max"] = r.pick(0, 1, 2, 3, 0)
	n := r.in(2, 14)
	if r.p(15) {
		n = r.in(20, 60)
	}
	span := r.pick(500, 5000, 50000)
	for i := 0; i < n; i++ {
		switch r.n(10) {
		case 0, 1, 2, 3, 4:
			// a stream on slot X, started once the slot is free; Y items, gap Z, canceled after A us (-1: never)
			p.Ops = append(p.Ops, Op{K: "s", T: int64(r.n(span)), X: r.n(4), Y: r.pick(0, 1, 3, 10, 20), Z: r.pick(0, 0, 100, 1000, 5000), A: r.pick(-1, -1, 0, 0, 50, 500, 3000, 20000)})
			if op := &p.Ops[len(p.Ops)-1]; op.A >= 0 && r.p(15) {
				op.Y, op.Z = 20, 2000000 // ends with the next item, not with the method
			}
		case 5, 6:
			// a cancel for whatever runs on slot X, or nothing
			p.Ops = append(p.Ops, Op{K: "c", T: int64(r.n(span)), X: r.n(4)})
		case 7:
			p.Ops = append(p.Ops, Op{K: "cu", T: int64(r.n(span)), X: r.in(1, 8)}) // cancels for ids that never existed
		case 8:
			p.Ops = append(p.Ops, Op{K: "i", T: int64(r.n(span)), X: r.n(100)})
		case 9: // a stream invocation without stream, canceled
			p.Ops = append(p.Ops, Op{K: "v", T: int64(r.n(span)), X: r.n(4), A: r.pick(-1, 0, 100)})
		}
	}
	return p
}

func runCancel(e *Env) {
	w := newWorld(e)
	p := e.plan
	opts := []func(signalr.Party) error{signalr.TimeoutInterval(300 * time.Second)}
	if m := p.c("max"); m > 0 {
		opts = append(opts, signalr.MaxConcurrentStreams(uint(m)))
	}
	srv := w.server(w.ctx, 0, opts...)
	peer, sc, _ := w.rawClient(srv, "cli", w.proto)
	// which use of an id a message belongs to: the client starts the next
	// use only after the completion of the previous one
	type use struct {
		tag, slot  int
		n          int
		items      []string
		compl      []Msg
		single     bool
		started    bool
		cancelSent bool
		cancelAt   int64 // a message that proves the cancel was processed was answered
		itemsThen  int
		producedAt int
		end        chan struct{}
	}
	var mu sync.Mutex
	cur := map[string]*use{}
	var uses []*use
	invs := map[string][]Msg{}
	peer.onMsg = func(m Msg) {
		mu.Lock()
		defer mu.Unlock()
		switch m.Type {
		case mItem, mCompl:
			if strings.HasPrefix(m.ID, "i") {
				invs[m.ID] = append(invs[m.ID], m)
				return
			}
			u := cur[m.ID]
			if u == nil {
				e.fail("cancel-unknown-id", "message for an id that is not in use: %v", m)
				return
			}
			if len(u.compl) > 0 {
				e.fail("cancel-after-end", "stream %s tag %d got %v after its completion", m.ID, u.tag, m)
			}
			if m.Type == mItem {
				u.items = append(u.items, canon(m.Item))
			} else {
				u.compl = append(u.compl, m)
				if len(u.compl) == 1 {
					close(u.end)
				}
			}
		}
	}
	if err := peer.handshake(20 * time.Second); err != nil {
		e.fail("connect", "handshake: %v", err)
		return
	}
	base := e.us()
	var slotMu, sendMu [4]sync.Mutex
	var wg sync.WaitGroup
	ninv := 0
	send := func(m Msg) {
		if err := peer.send(m); err != nil {
			e.fail("connection-lost", "the server closed the connection: %v", err)
		}
	}
	fences := 0
	fence := func() {
		// the loop handles messages in order: the answer proves that what was sent before was handled
		mu.Lock()
		fences++
		id := fmt.Sprintf("if%d", fences)
		tag := 100000 + fences
		mu.Unlock()
		send(Msg{Type: mInvoke, ID: id, HasID: true, Target: "Void", Args: []any{tag}})
		if !waitCond(time.Minute, func() bool { mu.Lock(); defer mu.Unlock(); return len(invs[id]) > 0 }) {
			e.fail("cancel-blocks", "an invocation sent after a cancel was not answered")
		}
	}
	for i, op := range p.Ops {
		tag := i + 1
		wg.Add(1)
		go func() {
			defer wg.Done()
			e.sleepUntilUs(base + op.T)
			switch op.K {
			case "s", "v":
				slotMu[op.X].Lock()
				defer slotMu[op.X].Unlock()
				id := fmt.Sprintf("slot%d", op.X)
				u := &use{tag: tag, slot: op.X, n: op.Y, single: op.K == "v", end: make(chan struct{})}
				sendMu[op.X].Lock()
				mu.Lock()
				cur[id] = u
				uses = append(uses, u)
				mu.Unlock()
				if u.single {
					send(Msg{Type: mStream, ID: id, HasID: true, Target: "Wait", Args: []any{tag, 1}})
				} else {
					send(Msg{Type: mStream, ID: id, HasID: true, Target: "Count", Args: []any{tag, op.Y, op.Z}})
				}
				sendMu[op.X].Unlock()
				if op.A >= 0 {
					if op.A > 0 {
						time.Sleep(time.Duration(op.A) * time.Microsecond)
					}
					mu.Lock()
					over := len(u.compl) > 0
					u.cancelSent = !over || u.cancelSent
					mu.Unlock()
					send(Msg{Type: mCancel, ID: id, HasID: true})
					e.fault("cancel")
					if !over && !u.single {
						fence()
						produced := w.producedOf(tag)
						mu.Lock()
						u.cancelAt = 1
						u.producedAt = produced
						mu.Unlock()
					}
				}
				if !waitOr(u.end, 20*time.Second) {
					mu.Lock()
					defer mu.Unlock()
					e.fail("cancel-no-end", "stream %s tag %d got no completion (canceled: %v, %d of %d items)", id, tag, u.cancelSent, len(u.items), u.n)
				}
			case "c":
				id := fmt.Sprintf("slot%d", op.X)
				// nobody starts the next use between the look and the message
				sendMu[op.X].Lock()
				mu.Lock()
				if u := cur[id]; u != nil && len(u.compl) == 0 {
					u.cancelSent = true
				}
				mu.Unlock()
				send(Msg{Type: mCancel, ID: id, HasID: true})
				sendMu[op.X].Unlock()
				e.fault("cancel")
			case "cu":
				for k := 0; k < op.X; k++ {
					send(Msg{Type: mCancel, ID: fmt.Sprintf("never%d-%d", tag, k), HasID: true})
				}
				e.fault("cancel-unknown")
			case "i":
				mu.Lock()
				ninv++
				mu.Unlock()
				send(Msg{Type: mInvoke, ID: fmt.Sprintf("i%d", tag), HasID: true, Target: "Add", Args: []any{tag, op.X, 1}})
				if !waitCond(time.Minute, func() bool {
					mu.Lock()
					defer mu.Unlock()
					return len(invs[fmt.Sprintf("i%d", tag)]) > 0
				}) {
					e.fail("cancel-invocation", "an invocation was not answered")
				}
			}
		}()
	}
	wg.Wait()
	time.Sleep(100 * time.Millisecond)
	mu.Lock()
	defer mu.Unlock()
	e.count("streams", len(uses))
	for _, u := range uses {
		if len(u.compl) != 1 {
			if len(u.compl) > 1 {
				e.fail("cancel-completions", "stream of tag %d got %d completions", u.tag, len(u.compl))
			}
			continue
		}
		if u.single {
			if len(u.items) != 1 || u.items[0] != canon(u.tag*3) {
				e.fail("cancel-single", "stream invocation of a method without stream (tag %d) got %v", u.tag, u.items)
			}
			continue
		}
		if u.compl[0].Err != "" {
			e.fail("cancel-error", "stream of tag %d ended with error %q", u.tag, u.compl[0].Err)
		}
		for k, it := range u.items {
			if it != canon(u.tag*1000+k) {
				e.fail("cancel-wrong-item", "stream of tag %d: item %d is %s", u.tag, k, it)
			}
		}
		if !u.cancelSent && len(u.items) != u.n {
			e.fail("cancel-wrong-stream", "stream of tag %d was never canceled while it ran, but ended after %d of %d items", u.tag, len(u.items), u.n)
		}
		if u.cancelAt != 0 && len(u.items) > u.producedAt+1 {
			e.fail("cancel-ignored", "stream of tag %d: the cancel was handled when %d items had been produced, but %d of %d items were sent", u.tag, u.producedAt, len(u.items), u.n)
		}
	}
	for id, l := range invs {
		if len(l) != 1 {
			e.fail("cancel-invocation", "invocation %s got %d answers", id, len(l))
		}
	}
	select {
	case <-sc.done:
		e.fail("connection-lost", "Serve returned without a fault: %v", sc.err)
	default:
	}
}
