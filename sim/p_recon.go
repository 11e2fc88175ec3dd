package main

import (
	"context"
	"errors"
	"fmt"
	"sync"
	"time"

	"github.com/cenkalti/backoff/v4"
	"github.com/philippseith/signalr"
)

func init() {
	register(&Scenario{Prop: "C13", Name: "reconnect", Weight: 1, Gen: genReconnect, Run: runReconnect,
		Real: []string{"client", "server", "message loop", "netConnection", "hub protocols"}, Stub: []string{"TCP streams", "connector", "back-off", "server (scripted, on some attempts)"}})
	register(&Scenario{Prop: "C14", Name: "observe", Weight: 1, Gen: genObserve, Run: runReconnect,
		Real: []string{"client", "server", "message loop", "netConnection", "hub protocols"}, Stub: []string{"TCP streams", "connector", "back-off", "server (scripted, on some attempts)"}})
}

var attModes = []string{"ok", "ok", "ok", "raw", "raw", "raw", "refuse", "refuse", "hs-silent", "hs-error", "hs-close", "hs-garbage", "hs-reset", "hs-stuck", "hs-trickle", "hs-part"}
var attFaults = []string{"reset", "reset", "close", "close", "allow", "allow", "allow-err", "abort", "blackhole", "half"}

// genAttempts draws what the attempts to connect meet.
func (p *Plan) genAttempts(r *Rand, max int) {
	p.Cfg["mp"] = r.b(40)
	p.Cfg["percon"] = r.b(30)
	p.Cfg["style"] = r.n(16)
	p.Cfg["hto"] = r.pick(300, 1000, 5000)
	p.Cfg["timeout"] = r.pick(1500, 4000)
	p.Cfg["start"] = r.pick(0, 0, 1000, 5000)
	p.Cfg["stopat"] = -1 // index of the back-off that gives up
	p.Cfg["wrapctx"] = r.b(30)
	n := r.n(max + 1)
	if r.p(2) {
		n = r.in(15, 40)
	}
	boff := Op{K: "boff"}
	for i := 0; i <= n; i++ {
		op := Op{K: "att", S: attModes[r.n(len(attModes))], X: r.pick(0, 0, 0, 1, 5, 40, 300), T: int64(r.pick(1, r.n(500), r.n(20000), r.n(400000), r.n(2000000)))}
		f := attFaults[r.n(len(attFaults))]
		if r.p(7) {
			f = r.picks("deny", "deny-quiet", "deny-quiet")
		}
		op.Y = 0
		op.L = []int{}
		op.S += ":" + f
		p.Ops = append(p.Ops, op)
		boff.L = append(boff.L, r.pick(0, 1, 20, 100, 100, 500, 2000))
	}
	if r.p(15) && n > 0 {
		p.Cfg["stopat"] = r.n(n)
	}
	if r.p(8) {
		// stopped during a long back-off
		k := r.n(len(boff.L))
		boff.L[k] = 600000
		p.Ops = append(p.Ops, Op{K: r.picks("stop", "cancel", "stop"), T: 10000000, A: 5, L: []int{k, r.pick(0, r.n(400), r.n(100000))}})
	}
	p.Ops = append(p.Ops, boff)
	if r.p(45) {
		p.Ops = append(p.Ops, Op{K: r.picks("stop", "cancel", "stop"), T: int64(r.pick(r.n(3000), r.n(500000), r.n(3000000), r.n(10000000)))})
	}
	if r.p(60) {
		p.Ops = append(p.Ops, Op{K: "restart", T: int64(r.pick(0, 1000, 100000))})
	}
}

func (p *Plan) genCalls(r *Rand, n int) {
	for i := 0; i < n; i++ {
		p.Ops = append(p.Ops, Op{K: "call", T: int64(r.pick(0, r.n(10000), r.n(500000), r.n(3000000), r.n(10000000))), S: r.picks("invoke", "invoke", "send", "wait")})
	}
}

func (p *Plan) genObservers(r *Rand, n int) {
	for i := 0; i < n; i++ {
		op := Op{K: "obs", T: int64(r.pick(0, 0, r.n(10000), r.n(500000), r.n(3000000), r.n(10000000))),
			X: r.pick(0, 0, 1, 1, 3), Y: r.pick(0, 0, 0, 1, 50, 700, -1), S: r.picks("", "", "", "state", "invoke", "observe", "stop", "cancel-self")}
		if r.p(50) {
			op.Z = r.pick(1, 1+r.n(1000), r.n(500000)+1, r.n(3000000)+1, r.n(10000000)+1)
		}
		if op.S == "stop" && r.p(70) {
			op.S = ""
		}
		if (op.S == "" || op.S == "state") && r.p(15) {
			// it takes many states much later
			op.Y, op.Z = r.pick(5000, 30000), 0
		}
		p.Ops = append(p.Ops, op)
	}
}

func (p *Plan) genWaiters(r *Rand, n int) {
	for i := 0; i < n; i++ {
		p.Ops = append(p.Ops, Op{K: "waitfor", T: int64(r.pick(0, r.n(10000), r.n(500000), r.n(3000000), r.n(10000000))), X: r.pick(0, 1, 2, 2, 2, 3), Y: r.pick(0, 1, 20, 500, 3000, 60000)})
	}
}

// anchors are the moments near which operations are most likely to meet a
// change of the state.
var anchors = []string{"", "dial", "dialed", "handshake", "strike", "next", "reset", "starting", "started"}

// anchor moves some operations from a time to a moment.
func (p *Plan) anchor(r *Rand, pct int) {
	for i := range p.Ops {
		switch op := &p.Ops[i]; op.K {
		case "stop", "cancel", "call", "obs", "waitfor":
			if r.p(pct) {
				op.A = 1 + r.n(len(anchors)-1)
				op.L = []int{r.pick(0, 0, 0, 1, 2), r.pick(0, r.n(10), r.n(60), r.n(400))}
				if op.K == "waitfor" {
					op.X = r.pick(1, 2, 2, 2, 3)
					op.Y = r.pick(500, 3000, 60000)
					// several at almost the same time
					op.L = append(op.L, r.pick(1, 4, 12), r.pick(0, 1, 3, 10, 30))
				}
			}
		}
	}
}

func genReconnect(r *Rand) *Plan {
	p := &Plan{Cfg: map[string]int{}}
	p.schedule(r)
	p.network(r)
	p.calm()
	p.genAttempts(r, r.pick(1, 3, 6))
	p.genCalls(r, r.n(8))
	p.genObservers(r, r.n(2))
	p.anchor(r, r.pick(0, 0, 30, 80))
	return p
}

func genObserve(r *Rand) *Plan {
	p := &Plan{Cfg: map[string]int{}}
	p.schedule(r)
	p.network(r)
	p.calm()
	p.genAttempts(r, r.pick(1, 3))
	p.genObservers(r, r.in(1, 8))
	p.genWaiters(r, r.n(8))
	p.genCalls(r, r.n(3))
	p.anchor(r, r.pick(0, 0, 50, 90))
	return p
}

// simBackoff is a scripted back-off that records its use.
type simBackoff struct {
	x *recon
	i int
}

func (b *simBackoff) NextBackOff() time.Duration {
	x := b.x
	state := x.stateNow()
	x.event("next")
	x.mu.Lock()
	defer x.mu.Unlock()
	d := 300 * time.Millisecond
	if x.nextN < len(x.boff) {
		d = ms(x.boff[x.nextN])
	}
	if !x.goesOn && x.e.plan.c("stopat") == x.nextN {
		d = backoff.Stop
	}
	x.nextN++
	x.ev = append(x.ev, reconEv{"next", x.e.us(), d, state})
	x.e.log("NextBackOff %v", d)
	return d
}

// stateNow is the state of the client, or -1 if it can not be told now.
func (x *recon) stateNow() signalr.ClientState {
	ch := make(chan signalr.ClientState, 1)
	go func() { ch <- x.cl.State() }()
	select {
	case s := <-ch:
		return s
	case <-time.After(10 * time.Microsecond):
		return -1 // the client asks the back-off with its lock held
	}
}

func (b *simBackoff) Reset() {
	x := b.x
	x.event("reset")
	x.mu.Lock()
	defer x.mu.Unlock()
	x.ev = append(x.ev, reconEv{"reset", x.e.us(), 0, 0})
}

type reconEv struct {
	k     string // factory, next, reset, dial, dialed
	at    int64
	d     time.Duration
	state signalr.ClientState // at next
}

// attempt is one call of the connector.
type attempt struct {
	mode, fault    string
	dialAt, retAt  int64
	strikeAt       int64 // when the connection was broken (0: not)
	hsAt           int64 // when the handshake answer was sent (scripted server only)
	lost           string
	server         *simConn
	client         *simConn
	sc             *serveConn
	peer           *rawPeer
	hub            *SimHub
	ccancel        context.CancelFunc
	mayBeConnected bool
}

type stateAt struct {
	s  signalr.ClientState
	at int64
}

type recon struct {
	e    *Env
	w    *World
	mu   sync.Mutex
	ev   []reconEv
	boff []int
	atts []Op

	goesOn   bool // the back-off does not give up anymore
	nextN    int
	attempts []*attempt
	ref      []stateAt
	endAt    int64 // stop or cancel called
	endedAt  int64 // Stop returned
	starts   []int64
	cl       signalr.Client
	srv      signalr.Server

	amu    sync.Mutex
	moment map[string]chan struct{}
	seen   map[string]int
}

func (x *recon) momentOf(name string, n int) chan struct{} {
	k := fmt.Sprintf("%s/%d", name, n)
	if x.moment == nil {
		x.moment, x.seen = map[string]chan struct{}{}, map[string]int{}
	}
	if x.moment[k] == nil {
		x.moment[k] = make(chan struct{})
	}
	return x.moment[k]
}

// event tells the operations which wait for it.
func (x *recon) event(name string) {
	x.amu.Lock()
	defer x.amu.Unlock()
	c := x.momentOf(name, x.seen[name])
	x.seen[name]++
	close(c)
}

// wait waits for the time, or for the moment, of an operation.
func (x *recon) wait(op Op, at int64) {
	if op.A <= 0 || op.A >= len(anchors) || len(op.L) < 2 {
		x.e.sleepUntilUs(at)
		return
	}
	x.amu.Lock()
	c := x.momentOf(anchors[op.A], op.L[0])
	x.amu.Unlock()
	select {
	case <-c:
		if op.L[1] > 0 {
			time.Sleep(time.Duration(op.L[1]) * time.Microsecond)
		}
	case <-time.After(time.Duration(at-x.e.us()) * time.Microsecond):
	}
}

func (x *recon) states() []stateAt {
	x.mu.Lock()
	defer x.mu.Unlock()
	return append([]stateAt(nil), x.ref...)
}

func stateName(s signalr.ClientState) string {
	switch s {
	case signalr.ClientCreated:
		return "Created"
	case signalr.ClientConnecting:
		return "Connecting"
	case signalr.ClientConnected:
		return "Connected"
	case signalr.ClientClosed:
		return "Closed"
	}
	return fmt.Sprint(int(s))
}

func stateNames(l []stateAt) (s string) {
	for _, x := range l {
		s += fmt.Sprintf(" %s@%.3f", stateName(x.s), float64(x.at)/1000)
	}
	return
}

// dial is the connector.
func (x *recon) dial(ctx context.Context) (signalr.Connection, error) {
	e, w := x.e, x.w
	x.mu.Lock()
	n := len(x.attempts)
	op := Op{S: "ok:none"}
	if n < len(x.atts) {
		op = x.atts[n]
	}
	at := &attempt{dialAt: e.us()}
	for i := range op.S {
		if op.S[i] == ':' {
			at.mode, at.fault = op.S[:i], op.S[i+1:]
		}
	}
	x.attempts = append(x.attempts, at)
	x.ev = append(x.ev, reconEv{"dial", at.dialAt, 0, 0})
	x.mu.Unlock()
	e.log("DIAL %d %s", n, op.S)
	x.event("dial")
	if op.X > 0 {
		time.Sleep(ms(op.X))
	}
	defer func() {
		x.mu.Lock()
		at.retAt = e.us()
		x.mu.Unlock()
		x.event("dialed")
	}()
	if at.mode == "refuse" {
		e.fault("connect-refused")
		return nil, errors.New("connection refused")
	}
	cfg := w.cfg
	if at.mode == "hs-stuck" {
		cfg.Buf = 1
	}
	a, b := newStream(e, cfg, fmt.Sprintf("cli%d", n), fmt.Sprintf("srv%d", n))
	cctx, ccancel := context.WithCancel(ctx)
	x.mu.Lock()
	at.client, at.server, at.ccancel = a, b, ccancel
	x.mu.Unlock()
	if at.mode != "ok" && at.mode != "raw" {
		e.fault("connect-" + at.mode)
	}
	switch at.mode {
	case "ok":
		sc := w.serve(x.srv, b)
		x.mu.Lock()
		at.sc = sc
		at.mayBeConnected = true
		x.mu.Unlock()
		go x.strikeOK(at, op)
	default:
		peer := newRawPeer(e, b, w.proto, fmt.Sprintf("srv%d", n))
		peer.style = e.plan.c("style")
		peer.strict = false
		x.mu.Lock()
		at.peer = peer
		at.mayBeConnected = at.mode == "raw"
		x.mu.Unlock()
		go x.script(at, op)
	}
	return signalr.NewNetConnection(cctx, a), nil
}

func (x *recon) strike(at *attempt, what string, f func()) {
	x.mu.Lock()
	at.strikeAt = x.e.us()
	at.lost = what
	x.mu.Unlock()
	x.e.fault("conn-" + what)
	x.e.log("STRIKE %s", what)
	x.event("strike")
	f()
}

// strikeOK breaks a connection of the real server after a while.
func (x *recon) strikeOK(at *attempt, op Op) {
	if at.fault == "none" {
		return
	}
	time.Sleep(time.Duration(op.T) * time.Microsecond)
	var hub *SimHub
	id := at.sc.id
	get := func() bool {
		x.w.mu.Lock()
		defer x.w.mu.Unlock()
		return x.w.connUp[id] > 0
	}
	if at.fault == "abort" || at.fault == "deny" || at.fault == "deny-quiet" || at.fault == "allow" || at.fault == "allow-err" {
		if !get() || len(id) == 0 {
			// not connected yet: break it
			x.strike(at, "reset", at.client.Reset)
			return
		}
		x.mu.Lock()
		hub = at.hub
		x.mu.Unlock()
		if hub == nil {
			x.strike(at, "reset", at.client.Reset)
			return
		}
	}
	switch at.fault {
	case "reset":
		x.strike(at, "reset", at.client.Reset)
	case "close":
		x.strike(at, "close", func() { _ = at.server.Close() })
	case "half":
		x.strike(at, "half", func() { at.server.CloseWrite() })
	case "abort":
		x.strike(at, "abort", func() { hub.Abort() })
	case "allow", "allow-err":
		x.strike(at, "allow", func() { _ = hub.Close(map[string]string{"allow": "", "allow-err": "see you"}[at.fault], true) })
	case "deny":
		x.strike(at, "deny", func() { _ = hub.Close("bye", false) })
	case "deny-quiet":
		x.strike(at, "deny", func() { _ = hub.Close("", false) })
	case "blackhole":
		x.strike(at, "blackhole", func() { at.client.Hold(true); at.server.Hold(true) })
	}
}

// script plays a server that is not the library.
func (x *recon) script(at *attempt, op Op) {
	e, w, b, peer := x.e, x.w, at.server, at.peer
	if at.mode == "hs-stuck" {
		return
	}
	if _, err := readHandshakeRequest(b); err != nil {
		return
	}
	switch at.mode {
	case "hs-silent":
		return
	case "hs-error":
		_, _ = b.Write([]byte("{\"error\":\"not you\"}\x1e"))
		return
	case "hs-close":
		_ = b.Close()
		return
	case "hs-reset":
		b.Reset()
		return
	case "hs-part":
		_, _ = b.Write([]byte("{}"))
		_ = b.Close()
		return
	case "hs-garbage":
		_, _ = b.Write([]byte("HTTP/1.1 400 Bad Request\r\n\r\n\x1e"))
		return
	case "hs-trickle":
		for _, c := range []byte("{        }\x1e") {
			time.Sleep(ms(e.plan.c("hto"))/9 + time.Millisecond)
			if _, err := b.Write([]byte{c}); err != nil {
				return
			}
		}
		return
	}
	peer.onMsg = func(m Msg) {
		if m.Type == mClose {
			go func() { time.Sleep(time.Millisecond); _ = b.Close() }()
		}
		if m.Type == mInvoke && m.HasID && len(m.Args) > 0 {
			go func() {
				time.Sleep(ms(3))
				_ = peer.send(Msg{Type: mCompl, ID: m.ID, Result: m.Args[len(m.Args)-1], HasResult: true})
			}()
		}
	}
	x.mu.Lock()
	at.hsAt = e.us()
	x.mu.Unlock()
	x.event("handshake")
	_ = peer.write([]byte("{}\x1e"))
	peer.start(false)
	stop := make(chan struct{})
	go func() {
		for {
			select {
			case <-stop:
				return
			case <-peer.readDone:
				return
			case <-time.After(ms(e.plan.c("timeout") / 3)):
				_ = peer.write(encode(w.proto, Msg{Type: mPing}, 0))
			}
		}
	}()
	e.cleanup(func() { close(stop) })
	if at.fault == "none" {
		return
	}
	time.Sleep(time.Duration(op.T) * time.Microsecond)
	switch at.fault {
	case "reset", "abort":
		x.strike(at, "reset", b.Reset)
	case "close":
		x.strike(at, "close", func() { _ = b.Close() })
	case "half":
		x.strike(at, "half", b.CloseWrite)
	case "allow", "allow-err":
		x.strike(at, "allow", func() {
			_ = peer.send(Msg{Type: mClose, Err: map[string]string{"allow": "", "allow-err": "see you"}[at.fault], Allow: true})
		})
	case "deny":
		x.strike(at, "deny", func() { _ = peer.send(Msg{Type: mClose, Err: "bye"}) })
	case "deny-quiet":
		x.strike(at, "deny", func() { _ = peer.send(Msg{Type: mClose}) })
	case "blackhole":
		x.strike(at, "blackhole", func() { at.client.Hold(true); b.Hold(true) })
	}
}

// lossBound is how long the client may take to notice the end.
func (x *recon) lossBound(at *attempt) time.Duration {
	d := calmSlack
	hto := ms(x.e.plan.c("hto"))
	switch at.mode {
	case "refuse":
		return d
	case "hs-stuck":
		return hto + d
	case "hs-silent", "hs-trickle":
		return hto + d
	case "ok", "raw":
		if at.lost == "blackhole" {
			// the handshake might have been in flight
			return max(ms(x.e.plan.c("timeout")), hto) + hto + 5*time.Second + d
		}
		// the close message of the client may not be accepted for 5 seconds
		return d + hto
	}
	return d
}

type obsRun struct {
	op             Op
	mu             sync.Mutex
	got            []stateAt
	regA, regB     int64
	canA, canB     int64
	closedAt       int64
	handlerBlocked string
}

func runReconnect(e *Env) {
	p := e.plan
	w := newWorld(e)
	x := &recon{e: e, w: w}
	w.hubHook = func(h *SimHub, method string, tag int) {
		if method != "OnConnected" {
			return
		}
		x.mu.Lock()
		defer x.mu.Unlock()
		for _, at := range x.attempts {
			if at.sc != nil && at.sc.id == h.ConnectionID() {
				at.hub = h
			}
		}
	}
	var restart *Op
	for i := range p.Ops {
		switch p.Ops[i].K {
		case "att":
			x.atts = append(x.atts, p.Ops[i])
		case "boff":
			x.boff = p.Ops[i].L
		case "restart":
			restart = &p.Ops[i]
		}
	}
	T, hto := ms(p.c("timeout")), ms(p.c("hto"))
	common := []func(signalr.Party) error{signalr.TimeoutInterval(T), signalr.KeepAliveInterval(T / 3), signalr.HandshakeTimeout(hto)}
	x.srv = w.server(w.ctx, 0, common...)
	cctx, ccancel := context.WithCancel(w.ctx)
	connCtx := w.ctx
	if p.b("wrapctx") {
		connCtx = cctx
	}
	opts := append([]func(signalr.Party) error{signalr.WithConnector(func() (signalr.Connection, error) { return x.dial(connCtx) }),
		signalr.WithBackoff(func() backoff.BackOff {
			x.mu.Lock()
			defer x.mu.Unlock()
			x.ev = append(x.ev, reconEv{"factory", e.us(), 0, 0})
			return &simBackoff{x: x}
		}), signalr.WithReceiver(&Receiver{w: w})}, common...)
	cl, err := signalr.NewClient(cctx, w.clientOpts(opts...)...)
	if err != nil {
		panic("HARNESS: " + err.Error())
	}
	x.cl = cl
	// the reference observer
	refCh := make(chan signalr.ClientState, 4096)
	cl.ObserveStateChanged(refCh)
	refChanged := make(chan struct{}, 4096)
	go func() {
		for s := range refCh {
			x.mu.Lock()
			x.ref = append(x.ref, stateAt{s, e.us()})
			x.mu.Unlock()
			e.log("STATE %s", stateName(s))
			refChanged <- struct{}{}
		}
	}()
	last := func() signalr.ClientState {
		l := x.states()
		if len(l) == 0 {
			return signalr.ClientCreated
		}
		return l[len(l)-1].s
	}
	var stops sync.WaitGroup
	stop := func() {
		x.mu.Lock()
		if x.endAt == 0 {
			x.endAt = e.us()
		}
		// a connector that is at work is waited for
		x.mu.Unlock()
		e.log("STOP")
		e.fault("client-stop")
		t0 := e.us()
		cl.Stop()
		d := time.Duration(e.us()-t0) * time.Microsecond
		if limit := 6*time.Second + 300*time.Millisecond + calmSlack; d > limit {
			e.fail("stop-late", "Stop returned after %v", d)
		}
		if s := cl.State(); s != signalr.ClientClosed {
			e.fail("stop-not-closed", "Stop returned, but the state is %s", stateName(s))
		}
		x.mu.Lock()
		if x.endedAt == 0 {
			x.endedAt = e.us()
		}
		x.mu.Unlock()
		e.log("STOPPED")
	}
	base := e.us()
	startAt := base + int64(p.c("start"))
	var wg sync.WaitGroup
	started := make(chan struct{})
	startedOnce := sync.OnceFunc(func() { close(started) })
	start := func() {
		x.mu.Lock()
		x.starts = append(x.starts, e.us())
		x.mu.Unlock()
		e.log("START")
		x.event("starting")
		cl.Start()
		x.event("started")
		startedOnce()
	}
	wg.Add(1)
	go func() {
		defer wg.Done()
		e.sleepUntilUs(startAt)
		start()
	}()
	obs := make([]*obsRun, len(p.Ops))
	type callRun struct {
		o     *outcome
		at    int64
		kind  string
		value string
	}
	calls := make([]*callRun, len(p.Ops))
	type waitRun struct {
		at, endAt int64
		err       error
		done      chan struct{}
		before    signalr.ClientState
	}
	waits := make([][]*waitRun, len(p.Ops))
	lastOp := startAt
	for i, op := range p.Ops {
		i, op := i, op
		at := base + op.T
		switch op.K {
		case "stop", "cancel", "call", "obs", "waitfor":
			if op.A > 0 {
				at = base + max(op.T, 10000000)
			}
			lastOp = max(lastOp, at+int64(op.Z))
		}
		switch op.K {
		case "stop":
			stops.Add(1)
			go func() {
				defer stops.Done()
				x.wait(op, at)
				<-started
				stop()
			}()
		case "cancel":
			go func() {
				x.wait(op, at)
				<-started
				x.mu.Lock()
				if x.endAt == 0 {
					x.endAt = e.us()
				}
				x.mu.Unlock()
				e.log("CANCEL")
				e.fault("client-cancel")
				ccancel()
			}()
		case "call":
			wg.Add(1)
			go func() {
				defer wg.Done()
				x.wait(op, at)
				c := &callRun{at: e.us(), kind: op.S, value: fmt.Sprintf("v%d", i)}
				name := fmt.Sprintf("call%d", i)
				e.log("%s %s", name, op.S)
				switch op.S {
				case "send":
					c.o = w.watchErr(name, cl.Send("Echo", i, c.value))
				case "wait":
					c.o = w.watch(name, cl.Invoke("Wait", i, 30), 0)
				default:
					c.o = w.watch(name, cl.Invoke("Echo", i, c.value), 0)
				}
				calls[i] = c
			}()
		case "obs":
			o := &obsRun{op: op}
			obs[i] = o
			wg.Add(1)
			go func() {
				defer wg.Done()
				x.wait(op, at)
				x.observe(o, fmt.Sprintf("obs%d", i), stop)
			}()
		case "waitfor":
			n, gap := 1, 0
			if len(op.L) > 3 {
				n, gap = op.L[2], op.L[3]
			}
			moment := make(chan struct{})
			if n > 1 {
				go func() {
					x.wait(op, at)
					close(moment)
				}()
			}
			for k := 0; k < n; k++ {
				wr := &waitRun{done: make(chan struct{})}
				waits[i] = append(waits[i], wr)
				go func() {
					defer close(wr.done)
					if n > 1 {
						<-moment
						if k*gap > 0 {
							time.Sleep(time.Duration(k*gap) * time.Microsecond)
						}
					} else {
						x.wait(op, at)
					}
					ctx, cancel := context.WithTimeout(context.Background(), ms(op.Y))
					defer cancel()
					wr.at = e.us()
					ch := cl.WaitForState(ctx, signalr.ClientState(op.X))
					err, ok := <-ch
					if ok && err == nil {
						err = nil
					}
					wr.err = err
					wr.endAt = e.us()
					e.log("waitfor%d %s: %v", i, stateName(signalr.ClientState(op.X)), err)
					if ok {
						if err2, ok2 := <-ch; ok2 {
							e.fail("wait-twice", "WaitForState delivered a second value %v", err2)
						}
					}
				}()
			}
		}
	}
	wg.Wait()
	e.sleepUntilUs(lastOp)
	// the whole plan has been played: faults stop with the last planned attempt
	limit := 4 * time.Second
	for i := range x.atts {
		limit += ms(x.atts[i].X) + time.Duration(x.atts[i].T)*time.Microsecond + 2*hto + 2*T + 6*time.Second
		if i < len(x.boff) {
			limit += ms(x.boff[i])
		} else {
			limit += 300 * time.Millisecond
		}
	}
	seen := 0 // states observed before the client was started (again)
	settled := func() bool {
		x.mu.Lock()
		defer x.mu.Unlock()
		if x.endAt != 0 || len(x.ref) > seen && x.ref[len(x.ref)-1].s == signalr.ClientClosed {
			return true
		}
		return len(x.attempts) > len(x.atts) && len(x.ref) > 0 && x.ref[len(x.ref)-1].s == signalr.ClientConnected
	}
	if !waitCond(limit, settled) {
		e.fail("not-recovered", "the client is %s %v after Start, after %d attempts (%d planned with faults)", stateName(cl.State()), limit, len(x.attempts), len(x.atts))
		return
	}
	stops.Wait()
	x.mu.Lock()
	ended := x.endAt != 0
	x.mu.Unlock()
	if ended {
		if !waitCond(6*time.Second+calmSlack+300*time.Millisecond, func() bool { return cl.State() == signalr.ClientClosed }) {
			e.fail("not-closed", "the client was stopped or canceled, but its state is %s", stateName(cl.State()))
		}
	}
	time.Sleep(time.Second)
	restarted := false
	x.mu.Lock()
	ended = x.endAt != 0
	x.mu.Unlock()
	if last() == signalr.ClientClosed && !ended {
		x.checkGivenUp()
		if restart != nil {
			restarted = true
			time.Sleep(time.Duration(restart.T) * time.Microsecond)
			e.log("RESTART")
			x.mu.Lock()
			x.goesOn = true
			seen = len(x.ref)
			x.mu.Unlock()
			start()
			if !waitCond(limit, func() bool {
				s := settled()
				return s && cl.State() != signalr.ClientConnecting
			}) {
				e.fail("not-restarted", "the client is %s %v after it was started again", stateName(cl.State()), limit)
				return
			}
			time.Sleep(time.Second)
			if cl.State() == signalr.ClientClosed {
				x.checkGivenUp()
			}
		}
	}
	x.mu.Lock()
	ended = x.endAt != 0
	x.mu.Unlock()
	if !ended && cl.State() != signalr.ClientClosed {
		// faults have stopped: it has to work
		o := w.watch("final", cl.Invoke("Echo", 9999, "final"), 0)
		await(10*time.Second, o)
		items, closed := o.snap()
		x.mu.Lock()
		stopped := x.endAt != 0 // by a slow observer, meanwhile
		x.mu.Unlock()
		if !stopped && (!closed || len(items) != 1 || items[0].Error != nil || items[0].Value != "final") {
			e.fail("not-working", "after the last fault the client is %s, but an invocation ended with %v closed=%v", stateName(cl.State()), showItems(items), closed)
		}
	}
	finalState := cl.State()
	nAtt := len(x.attempts)
	// nothing happens anymore
	time.Sleep(20 * time.Second)
	x.mu.Lock()
	if x.endAt != 0 && !ended {
		// an observer has stopped it meanwhile
		finalState = signalr.ClientClosed
	}
	x.mu.Unlock()
	stops.Wait()
	if s := cl.State(); s != finalState {
		e.fail("not-stable", "the state changed from %s to %s, though nothing happened", stateName(finalState), stateName(s))
	}
	x.mu.Lock()
	ended = x.endAt != 0
	x.mu.Unlock()
	if err := cl.Err(); err != nil && !ended && cl.State() == signalr.ClientConnected {
		e.fail("stale-error", "the client is connected again, but its error is still %v", err)
	}
	if len(x.attempts) != nAtt {
		e.fail("connects-after-end", "the client is %s, but connected again", stateName(finalState))
	}
	if s := last(); s != cl.State() {
		e.fail("observer-misses", "the state is %s, but the observer got%s", stateName(cl.State()), stateNames(x.states()))
	}
	x.checkStates(restarted)
	x.checkBackoff()
	x.mu.Lock()
	for i, at := range x.attempts {
		if x.endedAt != 0 && at.dialAt > x.endedAt {
			e.fail("connects-after-end", "attempt %d to connect was made %v after Stop had returned", i, time.Duration(at.dialAt-x.endedAt)*time.Microsecond)
		}
	}
	var shaky [][2]int64
	for i, at := range x.attempts {
		if at.strikeAt == 0 {
			continue
		}
		iv := [2]int64{at.strikeAt, 1 << 60}
		// until it has noticed: from then on calls wait for the next connection.
		// States are observed late, the first ones might be of the attempt before
		next := int64(1 << 60)
		if i+1 < len(x.attempts) {
			next = x.attempts[i+1].dialAt + int64(calmSlack/time.Microsecond)
		}
		for k, s := range x.ref {
			if s.s == signalr.ClientConnecting && k > 0 && x.ref[k-1].s == signalr.ClientConnected && x.ref[k-1].at >= at.retAt && s.at >= at.strikeAt && s.at <= next {
				iv[1] = s.at + int64(calmSlack/time.Microsecond)
			}
		}
		iv[1] = min(iv[1], next)
		shaky = append(shaky, iv)
	}
	for _, s := range x.ref {
		if s.s == signalr.ClientClosed {
			shaky = append(shaky, [2]int64{s.at - int64(calmSlack/time.Microsecond), 1 << 60})
			break
		}
	}
	if x.endAt != 0 {
		shaky = append(shaky, [2]int64{x.endAt, 1 << 60})
	}
	x.mu.Unlock()
	for i, c := range calls {
		if c == nil {
			continue
		}
		items, closed := c.o.snap()
		if !closed {
			if finalState == signalr.ClientConnecting {
				continue
			}
			e.fail("call-unresolved", "%s %d issued at %.3f ms is not resolved; the client is %s", c.kind, i, float64(c.at)/1000, stateName(finalState))
			continue
		}
		e.count("calls", 1)
		n := len(w.callsOf("", i))
		if n > 1 {
			e.fail("call-repeated", "%s %d was executed %d times", c.kind, i, n)
		}
		if c.kind == "send" {
			continue
		}
		if len(items) != 1 {
			e.fail("call-results", "%s %d got %s", c.kind, i, showItems(items))
			continue
		}
		if items[0].Error == nil {
			want := c.value
			if c.kind == "invoke" && fmt.Sprint(items[0].Value) != want {
				e.fail("call-wrong", "%s %d got %v instead of %v", c.kind, i, items[0].Value, want)
			}
			continue
		}
		ok := c.at < startAt+int64(calmSlack/time.Microsecond)
		for _, s := range shaky {
			if c.o.endUs >= s[0] && c.at <= s[1] {
				ok = true
			}
		}
		if !ok {
			e.fail("call-failed", "%s %d issued at %.3f ms failed with %v, though the connection was not lost", c.kind, i, float64(c.at)/1000, items[0].Error)
		}
	}
	for i := range waits {
		for _, wr := range waits[i] {
			if !waitOr(wr.done, 61*time.Second) {
				e.fail("wait-hangs", "WaitForState(%s) with a context of %d ms did not return", stateName(signalr.ClientState(p.Ops[i].X)), p.Ops[i].Y)
				continue
			}
			e.count("waits", 1)
			x.checkWait(p.Ops[i], wr.at, wr.endAt, wr.err)
		}
	}
	for _, o := range obs {
		if o != nil && o.op.Y >= 5000 {
			// also the slowest one gets all of them
			n := len(x.states())
			waitCond(time.Duration(n*o.op.Y)*time.Millisecond, func() bool {
				o.mu.Lock()
				defer o.mu.Unlock()
				return len(o.got) >= n
			})
		}
	}
	for i, o := range obs {
		if o != nil {
			x.checkObserver(fmt.Sprintf("observer %d", i), o)
		}
	}
	stop()
	time.Sleep(time.Second)
	e.count("attempts", len(x.attempts))
}

// checkGivenUp looks why the client is closed though nobody stopped it.
func (x *recon) checkGivenUp() {
	x.mu.Lock()
	defer x.mu.Unlock()
	at := x.attempts[len(x.attempts)-1]
	if at.lost == "deny" || x.endAt != 0 {
		return
	}
	for i := len(x.ev) - 1; i >= 0; i-- {
		if x.ev[i].k == "next" {
			if x.ev[i].d == backoff.Stop {
				return
			}
			break
		}
	}
	// a server that closes may have sent a close message, which does not allow to reconnect
	x.e.fail("gave-up", "the client closed after attempt %d (%s:%s), though it was allowed to reconnect: %v", len(x.attempts), at.mode, at.lost, x.cl.Err())
}

// checkStates compares the changes the reference observer saw with what
// happened to the connections.
func (x *recon) checkStates(restarted bool) {
	e := x.e
	x.mu.Lock()
	defer x.mu.Unlock()
	prev := signalr.ClientCreated
	slack := int64(calmSlack / time.Microsecond)
	starts := 0
	for i, s := range x.ref {
		bad := ""
		switch s.s {
		case prev:
			bad = "reported twice"
		case signalr.ClientCreated:
			bad = "reported again"
		case signalr.ClientConnected:
			if prev != signalr.ClientConnecting {
				bad = "reached without Connecting"
			}
			// there is a connection
			n := 0
			for _, at := range x.attempts {
				if at.mayBeConnected && s.at >= at.retAt && (at.strikeAt == 0 || s.at <= at.strikeAt+slack) {
					n++
				}
			}
			if n == 0 {
				bad = "reported without a connection"
			}
		case signalr.ClientConnecting:
			if prev == signalr.ClientCreated || prev == signalr.ClientClosed {
				starts++
				if starts > len(x.starts) {
					bad = "reached without Start"
				}
			}
		case signalr.ClientClosed:
		}
		if bad != "" {
			e.fail("state-sequence", "state %d: %s is %s:%s", i, stateName(s.s), bad, stateNames(x.ref))
			return
		}
		prev = s.s
	}
	stateAfter := func(t int64) (r signalr.ClientState) {
		for _, s := range x.ref {
			if s.at <= t {
				r = s.s
			}
		}
		return
	}
	for i, at := range x.attempts {
		if !at.mayBeConnected {
			continue
		}
		end := int64(1 << 60)
		if at.strikeAt != 0 {
			end = at.strikeAt
		}
		if x.endAt != 0 {
			end = min(end, x.endAt)
		}
		if at.retAt != 0 && end > at.retAt+2*slack && stateAfter(at.retAt+2*slack) != signalr.ClientConnected {
			e.fail("state-late", "attempt %d succeeded at %.3f ms, but the client is not connected:%s", i, float64(at.retAt)/1000, stateNames(x.ref))
			return
		}
		if at.strikeAt != 0 {
			t := at.strikeAt + int64(x.lossBound(at)/time.Microsecond)
			if t > e.us() {
				continue
			}
			// it may be connected again
			again := i+1 < len(x.attempts) && x.attempts[i+1].dialAt < t
			if !again && stateAfter(t) == signalr.ClientConnected {
				e.fail("state-untrue", "the connection of attempt %d was lost (%s) at %.3f ms, but the client stays connected:%s", i, at.lost, float64(at.strikeAt)/1000, stateNames(x.ref))
				return
			}
		}
	}
}

// checkBackoff compares the attempts with the back-off.
func (x *recon) checkBackoff() {
	e := x.e
	x.mu.Lock()
	defer x.mu.Unlock()
	slack := int64(calmSlack / time.Microsecond)
	var next *reconEv
	first, reset := true, false
	n, lastNext := -1, int64(0)
	starts := 0
	show := func(i int) (s string) {
		for j := max(0, i-6); j <= i; j++ {
			s += fmt.Sprintf(" %s@%.3f", x.ev[j].k, float64(x.ev[j].at)/1000)
			if x.ev[j].k == "next" {
				s += fmt.Sprintf("(%v)", x.ev[j].d)
			}
		}
		return
	}
	for i := range x.ev {
		v := &x.ev[i]
		switch v.k {
		case "factory":
			starts++
			first, next, reset = true, nil, false
		case "reset":
			reset = true
		case "next":
			if next != nil {
				e.fail("backoff-twice", "the back-off was asked twice for one attempt:%s", show(i))
				return
			}
			if n < 0 {
				continue
			}
			before := lastNext
			next, lastNext = v, v.at
			at := x.attempts[n]
			// the attempt has ended
			endAt := at.retAt
			if at.mayBeConnected {
				endAt = at.strikeAt
			}
			if endAt == 0 || v.at < endAt {
				e.fail("backoff-early", "attempt %d (%s) has not ended, but the client prepares the next one:%s", n, at.mode, show(i))
				return
			}
			if late := v.at - endAt - int64(x.lossBound(at)/time.Microsecond); late > 0 {
				e.fail("reconnect-late", "the end of attempt %d (%s:%s) at %.3f ms was noticed %v too late:%s", n, at.mode, at.lost, float64(endAt)/1000, time.Duration(late)*time.Microsecond, show(i))
				return
			}
			// was it connected?
			var conAt int64
			stayed := false // until then: it is not the state of the attempt before, observed late
			for k, s := range x.ref {
				if s.s == signalr.ClientConnected && s.at >= at.retAt && s.at <= v.at {
					conAt = s.at
					stayed = s.at > before+slack && (k+1 == len(x.ref) || x.ref[k+1].at >= v.at-1000)
				}
			}
			if conAt == 0 && reset && !at.mayBeConnected {
				e.fail("backoff-reset", "the back-off was reset, though attempt %d did not connect:%s", n, show(i))
				return
			}
			if (conAt != 0 && stayed || v.state == signalr.ClientConnected) && at.mayBeConnected && !reset {
				e.fail("backoff-not-reset", "the back-off was not reset, though attempt %d connected:%s", n, show(i))
				return
			}
		case "dial":
			n++
			if !first {
				if next == nil {
					e.fail("backoff-ignored", "attempt %d without back-off:%s", n, show(i))
					return
				}
				d := int64(next.d / time.Microsecond)
				if next.d == backoff.Stop {
					e.fail("backoff-stop-ignored", "attempt %d after the back-off gave up:%s", n, show(i))
					return
				}
				if v.at < next.at+d {
					e.fail("backoff-short", "attempt %d came %v after the back-off of %v was asked:%s", n, time.Duration(v.at-next.at)*time.Microsecond, next.d, show(i))
					return
				}
				if v.at > next.at+d+slack {
					e.fail("backoff-long", "attempt %d came %v after the back-off of %v was asked:%s", n, time.Duration(v.at-next.at)*time.Microsecond, next.d, show(i))
					return
				}
				if x.attempts[n-1].lost == "deny" && x.attempts[n-1].mode == "raw" && x.attempts[n-1].mayBeConnected {
					for _, s := range x.ref {
						if s.s == signalr.ClientConnected && s.at >= x.attempts[n-1].retAt && s.at <= x.attempts[n-1].strikeAt {
							e.fail("reconnect-denied", "the server closed attempt %d without allowing to reconnect, but the client connects again", n-1)
							return
						}
					}
				}
			}
			if x.endedAt != 0 && v.at > x.endedAt {
				e.fail("connects-after-stop", "attempt %d after Stop has returned", n)
				return
			}
			first, next, reset = false, nil, false
		}
	}
}

// observe registers an observer and plays its part.
func (x *recon) observe(o *obsRun, name string, stop func()) {
	e := x.e
	ch := make(chan signalr.ClientState, o.op.X)
	o.regA = e.us()
	cancel := x.cl.ObserveStateChanged(ch)
	o.regB = e.us()
	e.log("%s registered", name)
	if d := o.regB - o.regA; d > int64(calmSlack/time.Microsecond) {
		e.fail("observe-blocks", "ObserveStateChanged took %d us", d)
	}
	doCancel := func() {
		o.mu.Lock()
		if o.canA == 0 {
			o.canA = e.us()
		}
		o.mu.Unlock()
		e.log("%s cancels", name)
		cancel()
		o.mu.Lock()
		if o.canB == 0 {
			o.canB = e.us()
		}
		o.mu.Unlock()
	}
	if o.op.Z > 0 {
		go func() {
			time.Sleep(time.Duration(o.op.Z) * time.Microsecond)
			t0 := e.us()
			doCancel()
			if d := e.us() - t0; d > int64(calmSlack/time.Microsecond) {
				e.fail("cancel-blocks", "canceling an observation took %d us", d)
			}
			if o.op.Y < 0 {
				// what is left in the channel, then its end
				end := time.After(calmSlack)
				for {
					select {
					case _, ok := <-ch:
						if !ok {
							return
						}
					case <-end:
						e.fail("channel-open", "the channel of a canceled observation is not closed")
						return
					}
				}
			}
		}()
	}
	if o.op.Y < 0 {
		return
	}
	go func() {
		k := 0
		for s := range ch {
			o.mu.Lock()
			o.got = append(o.got, stateAt{s, e.us()})
			o.mu.Unlock()
			e.log("%s %s", name, stateName(s))
			if o.op.Y > 0 {
				time.Sleep(ms(o.op.Y))
			}
			k++
			t0 := e.us()
			switch {
			case o.op.S == "state":
				_ = x.cl.State()
				_ = x.cl.Err()
			case o.op.S == "invoke" && k < 4:
				x.w.watch(name+"-call", x.cl.Invoke("Echo", 7000, "x"), 0)
			case o.op.S == "observe" && k < 4:
				c2 := make(chan signalr.ClientState)
				f := x.cl.ObserveStateChanged(c2)
				go f()
			case o.op.S == "stop" && k == 3:
				stop()
				continue
			case o.op.S == "cancel-self" && k == 2:
				doCancel()
			}
			if d := e.us() - t0; d > int64(calmSlack/time.Microsecond) {
				e.fail("handler-blocked", "an observer which calls the client (%s) while it handles %s was blocked for %d us", o.op.S, stateName(s), d)
			}
		}
		o.mu.Lock()
		o.closedAt = e.us()
		o.mu.Unlock()
		e.log("%s closed", name)
	}()
}

// checkObserver compares what an observer got with the reference.
func (x *recon) checkObserver(name string, o *obsRun) {
	e := x.e
	slack := int64(calmSlack / time.Microsecond)
	ref := x.states()
	o.mu.Lock()
	defer o.mu.Unlock()
	e.count("observers", 1)
	if o.canB != 0 && o.op.Y >= 0 && o.closedAt == 0 {
		e.fail("channel-open", "the channel of the canceled %s is not closed", name)
		return
	}
	if o.canB == 0 && o.closedAt != 0 {
		e.fail("channel-closed", "the channel of %s was closed, but it was not canceled", name)
		return
	}
	if o.op.Y < 0 {
		return
	}
	// it has to start with one of these
	lo, hi := 0, 0
	for i, s := range ref {
		if s.at < o.regA {
			lo = i + 1
		}
		if s.at <= o.regB+slack {
			hi = i + 1
		}
	}
	match := func(i int) bool {
		if i+len(o.got) > len(ref) {
			return false
		}
		for k, s := range o.got {
			if ref[i+k].s != s.s {
				return false
			}
		}
		return true
	}
	// must have got everything that happened before the cancel, if it takes it at once
	need := func(i int) int {
		n := 0
		pace := int64(o.op.Y) * 1000
		if o.op.S == "stop" {
			pace = 1 << 40
		}
		for k, s := range ref[i:] {
			end := o.canA
			if end == 0 {
				end = e.us()
			}
			if s.at+slack+int64(k+1)*pace < end {
				n = k + 1
			}
		}
		return n
	}
	for i := lo; i <= hi && i <= len(ref); i++ {
		if match(i) && len(o.got) >= need(i) {
			return
		}
	}
	e.fail("observer-wrong", "%s (registered %.3f-%.3f ms, canceled %.3f ms, pace %d ms, %s) got%s; the states were%s", name, float64(o.regA)/1000, float64(o.regB)/1000, float64(o.canA)/1000, o.op.Y, o.op.S, stateNames(o.got), stateNames(ref))
}

// checkWait compares the result of WaitForState with the reference.
func (x *recon) checkWait(op Op, at, endAt int64, err error) {
	e := x.e
	slack := int64(calmSlack / time.Microsecond)
	ref := append([]stateAt{{signalr.ClientCreated, 0}}, x.states()...)
	want := signalr.ClientState(op.X)
	x.mu.Lock()
	end := x.endAt
	// waiting is refused before the client was started
	early := len(x.starts) == 0 || at < x.starts[0]+slack
	x.mu.Unlock()
	reached, sure, dead := false, int64(0), int64(0)
	for i, s := range ref {
		until := int64(1 << 60)
		if i+1 < len(ref) {
			until = ref[i+1].at
		}
		if until < at-slack || s.at > endAt+slack {
			continue
		}
		if s.s == want {
			reached = true
		}
		// the state held long enough within the time of the call
		from := max(s.at+slack, at)
		if s.s == want && sure == 0 && until-slack > from+slack {
			sure = from + slack
		}
		if (s.s == signalr.ClientClosed || s.s == signalr.ClientCreated) && s.s != want && dead == 0 && until > max(s.at, at)+slack {
			dead = from + slack
		}
	}
	desc := fmt.Sprintf("WaitForState(%s) called at %.3f ms with a timeout of %d ms returned %v at %.3f ms; the states were%s", stateName(want), float64(at)/1000, op.Y, err, float64(endAt)/1000, stateNames(ref[1:]))
	if err == nil && !reached {
		e.fail("wait-untrue", "%s", desc)
		return
	}
	if endAt-at > int64(op.Y)*1000+slack {
		e.fail("wait-late", "%s", desc)
		return
	}
	if err == context.DeadlineExceeded && endAt-at < int64(op.Y)*1000 && end == 0 {
		e.fail("wait-early", "%s", desc)
		return
	}
	if sure != 0 && !early && sure < at+int64(op.Y)*1000 && dead == 0 && (end == 0 || sure < end) {
		if err != nil {
			e.fail("wait-missed", "%s", desc)
			return
		}
		if endAt > sure+slack {
			e.fail("wait-slow", "%s", desc)
			return
		}
	}
	if dead != 0 && err != nil && endAt > dead+slack && err != context.DeadlineExceeded {
		e.fail("wait-slow", "%s", desc)
		return
	}
	if err != nil && err != context.DeadlineExceeded && end == 0 {
		// only a client that is not started or closed is a reason
		ok := false
		for i, s := range ref {
			until := int64(1 << 60)
			if i+1 < len(ref) {
				until = ref[i+1].at
			}
			if (s.s == signalr.ClientCreated || s.s == signalr.ClientClosed) && s.at-slack <= endAt && until+slack >= at {
				ok = true
			}
		}
		if !ok {
			e.fail("wait-refused", "%s", desc)
		}
	}
}
