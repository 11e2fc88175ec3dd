package main

import (
	"context"
	"fmt"
	"strings"
	"sync"
	"time"

	"github.com/philippseith/signalr"
)

// ---- values ----

var words = []string{"", "a", "hello", "ümläut €", "q\"uo\\te", "line\nbreak\r\n", "sep\u001ein", "tab\t", "<html>&", "日本語", "\u2028x", "long-long-long-long-long-long-long-long", "data: x", "{\"type\":7}"}

// valOf makes an argument value from a number.
func valOf(seed int, depth int) any {
	r := newRand(uint64(seed)*2654435761 + 5)
	return genVal(r, depth)
}

func genVal(r *Rand, depth int) any {
	k := r.n(9)
	if depth <= 0 && k >= 7 {
		k = r.n(7)
	}
	switch k {
	case 0:
		return nil
	case 1:
		return r.p(50)
	case 2:
		return r.pick(0, 1, -1, 127, 128, -32, -33, 255, 256, 65535, 65536, -70000, 1<<31-1, 1<<31, -1<<31, 1<<40)
	case 3:
		return float64(r.in(-4000, 4000)) / 8
	case 4, 5:
		return words[r.n(len(words))]
	case 6:
		return strings.Repeat("x", r.pick(1, 31, 32, 200, 255, 256, 300))
	case 7:
		l := []any{}
		for i, n := 0, r.n(4); i < n; i++ {
			l = append(l, genVal(r, depth-1))
		}
		return l
	default:
		m := map[string]any{}
		for i, n := 0, r.n(4); i < n; i++ {
			m[r.picks("a", "b", "Key", "ключ")] = genVal(r, depth-1)
		}
		return m
	}
}

func recOf(seed int) Record {
	r := newRand(uint64(seed) + 99)
	rec := Record{Name: words[r.n(len(words))], Num: r.in(-1000, 1000), List: []string{}, Attr: map[string]string{}}
	for i := 0; i < r.n(4); i++ {
		rec.List = append(rec.List, words[r.n(len(words))])
	}
	for i := 0; i < r.n(3); i++ {
		rec.Attr[fmt.Sprint("k", i)] = words[r.n(len(words))]
	}
	if r.p(60) {
		rec.Inner = &Inner{F: float64(r.in(-100, 100)) / 4, B: r.p(50)}
	}
	return rec
}

// invokeSpec is the reference model of the hub's methods: arguments to send,
// what the hub must see and what the caller must get.
type invokeSpec struct {
	method string
	args   []any
	seen   string // canonical form of the hub's argument record ("" if not compared)
	want   string // canonical result
	void   bool
	fails  string // a piece of the error text, if the call must fail
	items  []any  // to upload
	runs   bool   // whether the hub method runs
}

func specOf(op Op, tag int) invokeSpec {
	switch op.K {
	case "add":
		return invokeSpec{method: "Add", args: []any{tag, op.X, op.Y}, seen: fmt.Sprintf("%d,%d", op.X, op.Y), want: canon(op.X + op.Y), runs: true}
	case "addalt": // a different capitalisation names the same method
		return invokeSpec{method: "aDD", args: []any{tag, op.X, op.Y}, seen: fmt.Sprintf("%d,%d", op.X, op.Y), want: canon(op.X + op.Y), runs: true}
	case "echo":
		v := valOf(op.Z, 2)
		return invokeSpec{method: "Echo", args: []any{tag, v}, seen: canon(v), want: canon(v), void: v == nil, runs: true}
	case "sum":
		l := []int{}
		s := 0
		for i := 0; i < op.X; i++ {
			l = append(l, i*op.Y)
			s += i * op.Y
		}
		return invokeSpec{method: "Sum", args: []any{tag, l}, seen: canon(l), want: canon(s), runs: true}
	case "wide": // more arguments than fit into the short form of messagepack
		args, l := []any{tag}, []any{}
		for i := 0; i < 17; i++ {
			args, l = append(args, op.Y+i*i), append(l, op.Y+i*i)
		}
		return invokeSpec{method: "Wide", args: args, seen: canon(l), want: canon(l), runs: true}
	case "rec":
		a := recOf(op.Z)
		b := a
		b.Num++
		return invokeSpec{method: "Rec", args: []any{tag, a}, seen: canon(a), want: canon(b), runs: true}
	case "two":
		s := words[(op.X+1000)%len(words)]
		return invokeSpec{method: "Two", args: []any{tag, s}, seen: s, want: canon([]any{tag, s + "!"}), runs: true}
	case "void":
		return invokeSpec{method: "Void", args: []any{tag}, void: true, runs: true}
	case "wait":
		return invokeSpec{method: "Wait", args: []any{tag, op.X}, want: canon(tag * 3), runs: true}
	case "blob":
		return invokeSpec{method: "Blob", args: []any{tag, make([]byte, op.X)}, want: canon(op.X), runs: true}
	case "big":
		return invokeSpec{method: "Big", args: []any{tag, op.X}, want: canon(bigString(tag, op.X)), runs: true}
	case "once":
		return invokeSpec{method: "Once", args: []any{tag, op.X}, want: canon(tag * 5), runs: true}
	case "oddret":
		return invokeSpec{method: "Odd", args: []any{tag, op.Z % 2 * 3}, fails: "?", runs: true}
	case "oddarg":
		return invokeSpec{method: "Echo", args: []any{tag, oddValue(tag, op.Z%2*3)}, fails: "?"}
	case "panic":
		return invokeSpec{method: "Panic", args: []any{tag}, fails: fmt.Sprintf("boom-%d", tag), runs: true}
	case "closed":
		return invokeSpec{method: "Closed", args: []any{tag}, fails: "closed chan", runs: true}
	case "unknown":
		return invokeSpec{method: fmt.Sprintf("NoSuch%d", tag), args: []any{tag}, fails: fmt.Sprintf("NoSuch%d", tag)}
	case "few":
		return invokeSpec{method: "Add", args: []any{tag, 1}, fails: "mismatch"}
	case "many":
		return invokeSpec{method: "Add", args: []any{tag, 1, 2, 3}, fails: "mismatch"}
	case "badtype":
		return invokeSpec{method: "Add", args: []any{tag, "x", 2}, fails: "?"}
	}
	panic("HARNESS: op " + op.K)
}

var invokeKinds = []string{"add", "add", "addalt", "echo", "echo", "sum", "rec", "two", "void", "wait", "wait", "big", "once", "panic", "closed", "unknown", "few", "many", "badtype", "oddret", "wide"}

func genInvokeOp(r *Rand, maxBig int) Op {
	op := Op{K: r.picks(invokeKinds...), X: r.in(-20, 500), Y: r.in(-50, 50), Z: r.n(1 << 20)}
	switch op.K {
	case "wait", "once":
		op.X = r.pick(0, 1, 5, 20, 100)
	case "sum":
		op.X = r.n(30)
	case "big":
		op.X = r.in(1, maxBig)
	}
	return op
}

// outcome is what a caller saw on one result channel.
type outcome struct {
	items  []signalr.InvokeResult
	closed bool
	done   chan struct{}
	mu     sync.Mutex
	endUs  int64
}

// watch collects a result channel until it closes. pace is the time the
// consumer takes for each item.
func (w *World) watch(name string, ch <-chan signalr.InvokeResult, pace time.Duration) *outcome {
	o := &outcome{done: make(chan struct{})}
	go func() {
		for ir := range ch {
			o.mu.Lock()
			o.items = append(o.items, ir)
			o.mu.Unlock()
			w.e.log("%s got %s err=%v", name, trunc(canon(ir.Value), 60), ir.Error)
			if pace > 0 {
				time.Sleep(pace)
			}
		}
		o.mu.Lock()
		o.closed = true
		o.endUs = w.e.us()
		o.mu.Unlock()
		w.e.log("%s closed", name)
		close(o.done)
	}()
	return o
}

func (w *World) watchErr(name string, ch <-chan error) *outcome {
	o := &outcome{done: make(chan struct{})}
	go func() {
		for err := range ch {
			o.mu.Lock()
			o.items = append(o.items, signalr.InvokeResult{Error: err})
			o.mu.Unlock()
			w.e.log("%s got err=%v", name, err)
		}
		o.mu.Lock()
		o.closed = true
		o.endUs = w.e.us()
		o.mu.Unlock()
		w.e.log("%s closed", name)
		close(o.done)
	}()
	return o
}

func (o *outcome) snap() (items []signalr.InvokeResult, closed bool) {
	o.mu.Lock()
	defer o.mu.Unlock()
	return append([]signalr.InvokeResult(nil), o.items...), o.closed
}

// checkInvoke compares an outcome with the model. broken tells whether the
// connection may have ended before the call completed, which allows an error.
func (w *World) checkInvoke(name string, o *outcome, sp invokeSpec, broken bool) {
	items, closed := o.snap()
	if !closed {
		w.e.fail("invoke-unresolved", "%s %s: the result channel was not closed (items so far: %d)", name, sp.method, len(items))
		return
	}
	if len(items) > 1 {
		w.e.fail("invoke-many-results", "%s %s: %d results: %s", name, sp.method, len(items), showItems(items))
		return
	}
	var ir signalr.InvokeResult
	if len(items) == 1 {
		ir = items[0]
	}
	switch {
	case ir.Error != nil:
		if broken {
			return
		}
		if sp.fails == "" {
			w.e.fail("invoke-wrong-error", "%s %s%s failed: %v", name, sp.method, trunc(canonList(sp.args), 200), ir.Error)
		} else if sp.fails != "?" && !strings.Contains(ir.Error.Error(), sp.fails) {
			w.e.fail("invoke-foreign-error", "%s %s failed with an error that is not its own: %v (want %q)", name, sp.method, ir.Error, sp.fails)
		}
	case sp.fails != "":
		w.e.fail("invoke-false-success", "%s %s must fail, but the caller got %s", name, sp.method, canon(ir.Value))
	case sp.void:
		if ir.Value != nil {
			w.e.fail("invoke-wrong-result", "%s %s returns nothing, but the caller got %s", name, sp.method, canon(ir.Value))
		}
	default:
		if len(items) == 0 || canon(ir.Value) != sp.want {
			w.e.fail("invoke-wrong-result", "%s %s%s: the caller got %s, want %s", name, sp.method, trunc(canonList(sp.args), 200), trunc(canon(ir.Value), 200), trunc(sp.want, 200))
		}
	}
}

func showItems(items []signalr.InvokeResult) string {
	var s []string
	for _, i := range items {
		s = append(s, fmt.Sprintf("{%s,%v}", trunc(canon(i.Value), 60), i.Error))
	}
	return strings.Join(s, " ")
}

// breaker strikes the connection as the plan says.
type breaker struct {
	w      *World
	struck bool
	mu     sync.Mutex
	silent bool
}

func (p *Plan) genBreak(r *Rand, pct int, span int) {
	if r.p(pct) {
		p.Cfg["f_kind"] = r.in(1, 7)
		p.Cfg["f_at"] = r.n(span)
		p.Cfg["f_byte"] = r.in(1, 600)
	}
}

// arm schedules the fault. a is the client's end, b the server's end.
func (w *World) arm(a, b *simConn, sc *serveConn, stop func(), srvStop func()) *breaker {
	br := &breaker{w: w}
	p := w.e.plan
	strike := func(name string, f func()) {
		go func() {
			w.e.sleepUntilUs(int64(p.c("f_at")))
			br.mu.Lock()
			br.struck = true
			br.mu.Unlock()
			w.e.fault(name)
			w.e.log("FAULT %s", name)
			f()
		}()
	}
	switch p.c("f_kind") {
	case 1:
		strike("reset", a.Reset)
	case 2:
		strike("peer-close", func() { b.Close() })
	case 3:
		br.struck = true
		a.CutAt(int64(p.c("f_byte")) + 40)
	case 4:
		br.struck = true
		b.CutAt(int64(p.c("f_byte")) + 3)
	case 5:
		strike("client-stop", stop)
	case 6:
		strike("server-cancel", srvStop)
	case 7:
		strike("blackhole", func() {
			br.mu.Lock()
			br.silent = true
			br.mu.Unlock()
			a.Hold(true)
			b.Hold(true)
		})
	}
	return br
}

func init() {
	register(&Scenario{Prop: "C01", Name: "invoke-e2e", Weight: 3, Gen: genInvokeE2E, Run: runInvokeE2E,
		Real: []string{"client", "server", "netConnection", "hub protocols"}, Stub: []string{"TCP stream"}})
	register(&Scenario{Prop: "C01", Name: "invoke-raw", Weight: 2, Gen: genInvokeRaw, Run: runInvokeRaw,
		Real: []string{"client", "netConnection", "hub protocols"}, Stub: []string{"TCP stream", "server (scripted)"}})
}

func genInvokeE2E(r *Rand) *Plan {
	p := &Plan{Cfg: map[string]int{}}
	p.schedule(r)
	p.network(r)
	p.Cfg["mp"] = r.b(40)
	p.Cfg["percon"] = r.b(20)
	n := r.in(1, 14)
	if r.p(1) {
		n = r.in(60, 300)
	}
	span := r.pick(1, 1000, 20000, 200000)
	for i := 0; i < n; i++ {
		op := genInvokeOp(r, 5000)
		op.T = int64(r.n(span))
		if r.p(40) {
			op.T = int64(span / 2)
		}
		if r.p(4) {
			op.K = "oddarg"
		}
		op.A = r.b(20) // 1: Send instead of Invoke
		p.Ops = append(p.Ops, op)
	}
	p.genBreak(r, 45, span+5000)
	return p
}

func runInvokeE2E(e *Env) {
	w := newWorld(e)
	p := e.plan
	sctx, scancel := context.WithCancel(w.ctx)
	srv := w.server(sctx, 0)
	a, b := newStream(e, w.cfg, "cli", "srv")
	w.serve(srv, b)
	cctx, ccancel := context.WithCancel(w.ctx)
	defer ccancel()
	defer scancel()
	cl := w.client(cctx, a)
	cl.Start()
	if err := w.waitConnected(cl, time.Minute); err != nil {
		e.fail("connect", "client did not connect: %v", err)
		return
	}
	base := e.us()
	p.Cfg["f_at"] += int(base)
	br := w.arm(a, b, nil, func() { cl.Stop() }, scancel)
	outs := make([]*outcome, len(p.Ops))
	specs := make([]invokeSpec, len(p.Ops))
	var wg sync.WaitGroup
	for i, op := range p.Ops {
		specs[i] = specOf(op, i+1)
		wg.Add(1)
		go func() {
			defer wg.Done()
			e.sleepUntilUs(base + op.T)
			name := fmt.Sprintf("call%d", i+1)
			e.log("%s %s", name, specs[i].method)
			if op.A == 1 {
				outs[i] = w.watchErr(name, cl.Send(specs[i].method, specs[i].args...))
			} else {
				outs[i] = w.watch(name, cl.Invoke(specs[i].method, specs[i].args...), 0)
			}
		}()
	}
	wg.Wait()
	limit := 20 * time.Second
	if p.c("f_kind") != 0 {
		limit = 90 * time.Second // a silent peer is detected by the timeout interval
	}
	w.awaitQuiet(limit, outs...)
	br.mu.Lock()
	broken := br.struck
	br.mu.Unlock()
	e.count("invocations", len(p.Ops))
	for i, o := range outs {
		name := fmt.Sprintf("call%d", i+1)
		sp := specs[i]
		runs := w.callsOf("", i+1)
		if len(runs) > 1 {
			e.fail("invoke-executed-twice", "%s %s ran %d times on the server", name, sp.method, len(runs))
		}
		if p.Ops[i].A == 1 {
			items, closed := o.snap()
			if !closed {
				e.fail("send-unresolved", "%s Send %s: the error channel was not closed", name, sp.method)
			} else if !broken && sp.fails == "" && len(items) > 0 && items[0].Error != nil {
				e.fail("send-wrong-error", "%s Send %s failed: %v", name, sp.method, items[0].Error)
			} else if sp.fails != "" && !broken && (len(items) == 0 || items[0].Error == nil) {
				e.fail("send-false-success", "%s Send %s must report an error", name, sp.method)
			}
			for _, it := range items {
				if it.Error == nil {
					e.fail("send-nil-error", "%s Send %s delivered a nil error", name, sp.method)
				}
			}
			if !broken && sp.runs && len(runs) != 1 {
				e.fail("invoke-not-executed", "%s Send %s ran %d times on the server", name, sp.method, len(runs))
			}
			continue
		}
		w.checkInvoke(name, o, sp, broken)
		items, closed := o.snap()
		ok := closed && (len(items) == 0 || items[0].Error == nil)
		if sp.runs && ok && len(runs) != 1 {
			e.fail("invoke-not-executed", "%s %s succeeded for the caller, but ran %d times on the server", name, sp.method, len(runs))
		}
		if !sp.runs && len(runs) > 0 {
			e.fail("invoke-unwanted-execution", "%s %s must not run, but did", name, sp.method)
		}
		if len(runs) == 1 && sp.seen != "" && runs[0].Args != sp.seen {
			e.fail("invoke-wrong-arguments", "%s %s: the server saw %s, want %s", name, sp.method, trunc(runs[0].Args, 200), trunc(sp.seen, 200))
		}
	}
	// the fault may strike while this is checked
	state := cl.State()
	br.mu.Lock()
	broken = br.struck
	br.mu.Unlock()
	if !broken && state != signalr.ClientConnected {
		e.fail("connection-lost", "the client left the connected state without a fault (state %v, err %v)", cl.State(), cl.Err())
	}
}

// ---- scripted server ----

func genInvokeRaw(r *Rand) *Plan {
	p := &Plan{Cfg: map[string]int{}}
	p.schedule(r)
	p.network(r)
	p.Cfg["mp"] = r.b(40)
	p.Cfg["style"] = r.n(16)
	p.Cfg["batch"] = r.b(40) // answers are written in one piece
	p.Cfg["shuffle"] = r.n(1 << 16)
	n := r.in(1, 12)
	if r.p(2) {
		n = r.in(60, 400) // many at once
	}
	for i := 0; i < n; i++ {
		// X: 0 result, 1 error, 2 void, 3 never; Y: answer delay in ms
		p.Ops = append(p.Ops, Op{K: "i", T: int64(r.n(3) * 500), X: r.pick(0, 0, 0, 1, 1, 2, 3), Y: r.pick(0, 0, 0, 1, 3, 10), Z: r.n(1 << 20), A: r.b(15)})
	}
	p.Cfg["end"] = r.n(6) // how the session ends
	if r.p(50) {
		span := r.pick(100, 1000, 20000)
		for i, n := 0, r.in(1, 8); i < n; i++ {
			// calls made while the session ends
			p.Ops = append(p.Ops, Op{K: "late", T: int64(r.n(span)), X: 3, A: r.pick(0, 0, 0, 1, 2, 3)})
		}
		p.Cfg["end_at"] = r.n(span)
	}
	return p
}

func runInvokeRaw(e *Env) {
	w := newWorld(e)
	p := e.plan
	a, b := newStream(e, w.cfg, "cli", "srv")
	peer := newRawPeer(e, b, w.proto, "srv")
	peer.style = p.c("style")
	cctx, ccancel := context.WithCancel(w.ctx)
	defer ccancel()
	cl := w.client(cctx, a, signalr.TimeoutInterval(30*time.Second))
	type want struct {
		id string
	}
	var mu sync.Mutex
	seen := map[int]string{} // tag -> id
	ids := map[string]int{}
	arrived := 0
	peer.onMsg = func(m Msg) {
		if m.Type != mInvoke && m.Type != mStream {
			return
		}
		tag := 0
		if len(m.Args) > 0 {
			fmt.Sscan(canon(m.Args[0]), &tag)
		}
		mu.Lock()
		defer mu.Unlock()
		if m.ID == "" {
			e.fail("invoke-no-id", "invocation %v has no id", m)
		}
		if other, dup := ids[m.ID]; dup {
			e.fail("duplicate-invocation-id", "invocations %d and %d of one connection have the same id %q", other, tag, m.ID)
		}
		ids[m.ID] = tag
		if _, dup := seen[tag]; dup {
			e.fail("invoke-sent-twice", "invocation %d was sent twice", tag)
		}
		seen[tag] = m.ID
		arrived++
	}
	// the client's handshake request comes first
	hs := make([]byte, 0, 64)
	hsDone := make(chan error, 1)
	go func() {
		buf := make([]byte, 1)
		for {
			n, err := b.Read(buf)
			if n == 1 {
				hs = append(hs, buf[0])
				if buf[0] == 0x1e {
					_, werr := b.Write([]byte("{}\x1e"))
					hsDone <- werr
					return
				}
			}
			if err != nil {
				hsDone <- err
				return
			}
		}
	}()
	cl.Start()
	if err := <-hsDone; err != nil {
		e.fail("connect", "handshake: %v", err)
		return
	}
	peer.start(false)
	if err := w.waitConnected(cl, time.Minute); err != nil {
		e.fail("connect", "client did not connect: %v", err)
		return
	}
	// keep the connection alive
	stopPing := make(chan struct{})
	go func() {
		for {
			select {
			case <-stopPing:
				return
			case <-time.After(5 * time.Second):
				_ = peer.write(encode(w.proto, Msg{Type: mPing}, 0))
			}
		}
	}()
	defer close(stopPing)
	base := e.us()
	outs := make([]*outcome, len(p.Ops))
	var wg sync.WaitGroup
	early := 0
	for i, op := range p.Ops {
		if op.K == "late" {
			continue
		}
		early++
		wg.Add(1)
		go func() {
			defer wg.Done()
			e.sleepUntilUs(base + op.T)
			name := fmt.Sprintf("call%d", i+1)
			if op.A == 1 {
				outs[i] = w.watchErr(name, cl.Send("M", i+1))
			} else {
				outs[i] = w.watch(name, cl.Invoke("M", i+1), 0)
			}
		}()
	}
	wg.Wait()
	if !waitCond(60*time.Second, func() bool { mu.Lock(); defer mu.Unlock(); return arrived >= early }) {
		mu.Lock()
		n := arrived
		mu.Unlock()
		e.fail("invocation-not-sent", "only %d of %d invocations reached the server", n, early)
		return
	}
	// answer in an order of our own
	order := make([]int, len(p.Ops))
	for i := range order {
		order[i] = i
	}
	sr := newRand(uint64(p.c("shuffle")))
	for i := len(order) - 1; i > 0; i-- {
		j := sr.n(i + 1)
		order[i], order[j] = order[j], order[i]
	}
	var batch []byte
	for _, i := range order {
		op := p.Ops[i]
		mu.Lock()
		id := seen[i+1]
		mu.Unlock()
		m := Msg{Type: mCompl, ID: id, HasID: true}
		switch op.X {
		case 0:
			m.Result, m.HasResult = map[string]any{"tag": i + 1, "v": valOf(op.Z, 1)}, true
		case 1:
			m.Err = fmt.Sprintf("failure-%d", i+1)
		case 3:
			continue
		}
		if id == "" {
			continue
		}
		if p.b("batch") {
			batch = append(batch, encode(w.proto, m, peer.style)...)
			e.log("srv -> (batched) %v", m)
			continue
		}
		if op.Y > 0 {
			time.Sleep(ms(op.Y))
		}
		if err := peer.send(m); err != nil {
			e.fail("connection-lost", "the client closed the connection: %v", err)
			return
		}
	}
	if len(batch) > 0 {
		_ = peer.write(batch)
	}
	end := time.After(60 * time.Second)
	for i, o := range outs {
		if p.Ops[i].X == 3 {
			continue
		}
		select {
		case <-o.done:
		case <-end:
			end = time.After(0)
		}
	}
	specFor := func(i int) invokeSpec {
		op := p.Ops[i]
		sp := invokeSpec{method: "M"}
		switch op.X {
		case 0:
			sp.want = canon(map[string]any{"tag": i + 1, "v": valOf(op.Z, 1)})
		case 1:
			sp.fails = fmt.Sprintf("failure-%d", i+1)
		case 2:
			sp.void = true
		}
		return sp
	}
	e.count("invocations", len(p.Ops))
	for i, o := range outs {
		if p.Ops[i].X == 3 {
			if o == nil {
				continue
			}
			if items, closed := o.snap(); closed || len(items) > 0 {
				e.fail("invoke-early-result", "call%d was never answered, but its channel delivered %s closed=%v", i+1, showItems(items), closed)
			}
			continue
		}
		name := fmt.Sprintf("call%d", i+1)
		if p.Ops[i].A == 1 {
			items, closed := o.snap()
			sp := specFor(i)
			if !closed {
				e.fail("send-unresolved", "%s Send: the error channel was not closed", name)
			}
			if sp.fails == "" && len(items) > 0 {
				e.fail("send-wrong-error", "%s Send: %v", name, items[0].Error)
			}
			if sp.fails != "" && (len(items) != 1 || items[0].Error == nil || !strings.Contains(items[0].Error.Error(), sp.fails)) {
				e.fail("send-false-success", "%s Send was answered with error %q, but reported %s", name, sp.fails, showItems(items))
			}
			continue
		}
		w.checkInvoke(name, o, specFor(i), false)
	}
	if cl.State() != signalr.ClientConnected {
		e.fail("connection-lost", "the client left the connected state without a fault (state %v, err %v)", cl.State(), cl.Err())
	}
	// the session ends: what was never answered must fail
	endBase := e.us()
	for i, op := range p.Ops {
		if op.K != "late" {
			continue
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			e.sleepUntilUs(endBase + op.T)
			name := fmt.Sprintf("late%d", i+1)
			e.log("%s", name)
			switch op.A {
			case 0:
				outs[i] = w.watch(name, cl.Invoke("M", i+1), 0)
			case 1:
				outs[i] = w.watchErr(name, cl.Send("M", i+1))
			case 2:
				outs[i] = w.watch(name, cl.PullStream("M", i+1), 0)
			case 3:
				ch := make(chan int)
				close(ch)
				outs[i] = w.watch(name, cl.PushStreams("M", i+1, ch), 0)
			}
		}()
	}
	e.sleepUntilUs(endBase + int64(p.c("end_at")))
	switch p.c("end") {
	case 0:
		_ = peer.send(Msg{Type: mClose})
		e.fault("server-close-message")
	case 1:
		_ = peer.send(Msg{Type: mClose, Err: "shutting down", Allow: true})
		e.fault("server-close-message")
	case 2:
		b.Close()
		e.fault("peer-close")
	case 3:
		b.Reset()
		e.fault("reset")
	case 4:
		go cl.Stop()
		e.fault("client-stop")
	case 5:
		ccancel()
		e.fault("client-cancel")
	}
	wg.Wait()
	end = time.After(60 * time.Second)
	for i, o := range outs {
		if p.Ops[i].X != 3 {
			continue
		}
		select {
		case <-o.done:
		case <-end:
			end = time.After(0)
		}
		items, closed := o.snap()
		name := fmt.Sprintf("call%d", i+1)
		if !closed {
			e.fail("invoke-unresolved", "%s (%s, kind %d) was pending when the connection ended (kind %d) and never resolved", name, p.Ops[i].K, p.Ops[i].A, p.c("end"))
		} else if p.Ops[i].K == "late" && p.Ops[i].A != 0 {
			// a Send may have been handed to the transport just before, a stream may end without items
			if len(items) > 1 {
				e.fail("invoke-many-results", "%s (kind %d): %s", name, p.Ops[i].A, showItems(items))
			}
		} else if len(items) != 1 || items[0].Error == nil {
			e.fail("invoke-false-success", "%s was pending when the connection ended (kind %d), but its channel delivered %s", name, p.c("end"), showItems(items))
		}
	}
}
