package main

import (
	"context"
	"fmt"
	"math"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/philippseith/signalr"
)

func init() {
	register(&Scenario{Prop: "C06", Name: "targets", Weight: 1, Gen: genTargets, Run: runTargets,
		Real: []string{"server", "hub clients", "groups", "lifetime manager", "netConnection", "hub protocols"}, Stub: []string{"TCP stream", "clients (scripted)"}})
	register(&Scenario{Prop: "C07", Name: "lifecycle", Weight: 1, Gen: genLifecycle, Run: runLifecycle,
		Real: []string{"server", "hub", "netConnection", "hub protocols"}, Stub: []string{"TCP stream", "clients (scripted)"}})
}

// span is the time an operation on groups or targets took, in the order of
// the events of the run.
type span struct {
	kind       string // join, leave, send
	conn       string // who joins or leaves, or is the target of a send to a client
	group      string
	tag        int
	start, end int64 // end is 0 while it runs
	us         int64
	shaky      bool // a fault may have changed its effect
}

const never = int64(1) << 60

func (s *span) until() int64 {
	if s.end == 0 {
		return never
	}
	return s.end
}

// next is the number of the next event.
func (w *World) next() int64 {
	w.mu.Lock()
	defer w.mu.Unlock()
	w.seq++
	return w.seq
}

// span records the start of an operation; the result records its end.
func (w *World) span(kind, conn, group string, tag int) func() {
	w.mu.Lock()
	defer w.mu.Unlock()
	w.seq++
	s := &span{kind: kind, conn: conn, group: group, tag: tag, start: w.seq}
	w.spans = append(w.spans, s)
	end := func() {
		w.mu.Lock()
		defer w.mu.Unlock()
		w.seq++
		s.end = w.seq
	}
	if w.settle == nil {
		return end
	}
	s.us = w.e.us()
	return func() { w.settle(s, end) }
}

// member is one connection of the scenario.
type member struct {
	w     *World
	n     int
	proto string
	peer  *rawPeer
	sc    *serveConn
	conn  *simConn
	id    string
	mu    sync.Mutex
	// in the order of events
	served int64 // it may be connected from here
	up     int64 // it is connected from here
	down   int64 // until here; 0 if it stays
	gone   int64 // it is surely not connected after this
	stuck  bool
	seq    int
}

// connect makes a new connection and asks the hub for its id.
func (w *World) connect(srv signalr.Server, n int, proto string) *member {
	m := &member{w: w, n: n, proto: proto, served: w.next(), gone: never}
	m.peer, m.sc, m.conn = w.rawClient(srv, fmt.Sprintf("cli%d", n), proto)
	if err := m.peer.handshake(20 * time.Second); err != nil {
		w.e.fail("connect", "client %d: handshake: %v", n, err)
		return nil
	}
	c := m.call("WhoAmI", time.Minute, 0)
	id, ok := c.Result.(string)
	if !ok {
		w.e.fail("connect", "client %d: WhoAmI was answered with %v", n, c)
		return nil
	}
	if id != m.sc.id {
		w.e.fail("wrong-connection-id", "the hub sees connection %q, want %q", id, m.sc.id)
	}
	m.id = id
	m.mu.Lock()
	m.up = w.next()
	m.mu.Unlock()
	go func() {
		<-m.sc.done
		m.mu.Lock()
		m.gone = w.next()
		m.mu.Unlock()
	}()
	return m
}

// call invokes a hub method and waits for the answer.
func (m *member) call(method string, d time.Duration, args ...any) Msg {
	m.mu.Lock()
	m.seq++
	id := fmt.Sprintf("c%d-%d", m.n, m.seq)
	m.mu.Unlock()
	if err := m.peer.send(Msg{Type: mInvoke, ID: id, HasID: true, Target: method, Args: args}); err != nil {
		return Msg{Err: err.Error()}
	}
	m.peer.waitMsgs(1, d, func(x Msg) bool { return x.Type == mCompl && x.ID == id })
	if l := m.peer.completions(id); len(l) > 0 {
		return l[0]
	}
	return Msg{Err: "no answer"}
}

// leaving marks the start of the end of the connection.
func (m *member) leaving() {
	m.mu.Lock()
	defer m.mu.Unlock()
	if m.down == 0 {
		m.down = m.w.next()
	}
}

func (m *member) state() (served, up, down, gone int64) {
	m.mu.Lock()
	defer m.mu.Unlock()
	down = m.down
	if down == 0 {
		down = never
	}
	return m.served, m.up, down, m.gone
}

// farewell is the error of the close message.
func (m *member) farewell() string {
	if m.id != "" && m.id[0]&1 == 1 {
		return "see you"
	}
	return ""
}

// end ends the connection in one of several ways.
func (m *member) end(how string) {
	m.leaving()
	m.w.e.fault("end-" + how)
	switch how {
	case "close":
		_ = m.conn.Close()
	case "reset":
		m.conn.Reset()
	case "abort":
		_ = m.peer.send(Msg{Type: mInvoke, Target: "AbortMe", Args: []any{0}})
	case "closeme":
		_ = m.peer.send(Msg{Type: mInvoke, Target: "CloseMe", Args: []any{0, "bye", true}})
		time.Sleep(20 * time.Millisecond)
		_ = m.conn.Close()
	case "closemsg":
		_ = m.peer.send(Msg{Type: mClose, Err: m.farewell()})
	case "garbage":
		_ = m.peer.write([]byte("\x07\x9f\xc1\xc1garb}{\x1e"))
		_ = m.peer.write([]byte("\x07\x9f\xc1\xc1garb}{\x1e"))
		time.Sleep(50 * time.Millisecond)
		_ = m.conn.Close()
	case "half":
		m.conn.CloseWrite()
	}
}

// groupNames are the names of the groups of a run.
func groupName(p *Plan, i int) string {
	return [][]string{{"g0", "g1", "g2"}, {"", "a:b*", "Ünïcode group \x01"}, {"all", "group:all", "*"}, {"Team", "team", "team "}}[p.c("gnames")%4][i%3]
}

// toOut makes the method and the arguments of a message that is sent from
// outside of a hub, and notes what has to arrive.
func (w *World) toOut(op Op, tag int) (string, []any) {
	method, args := "OnMsg", []any{tag, "out"}
	switch op.S {
	case "bare":
		method, args = fmt.Sprint("OnBare", tag), nil
	case "big":
		args[1] = bigInt
	case "val":
		args[1] = valOf(op.Z*1000+op.X*10+op.A, 2)
	case "uint":
		args[1] = []any{uint64(1<<64 - 1), uint64(1<<63 + 1), int64(-1 << 63), int64(-bigInt), 1e21, -2.5e-9, float64(1 << 60)}
	case "deep":
		args[1] = map[string]any{"m": map[string]any{"n": bigInt, "l": []any{bigInt + 1, []any{map[string]any{"k": 7}}, uint64(1<<64 - 2)}}, "l": []any{[]any{[]any{3, "x"}}}}
	case "long":
		args[1] = strings.Repeat("long ", 300)
	case "nan":
		args[1] = math.NaN()
	case "func":
		args[1] = func() {}
	case "list":
		args[1] = []any{[]int{1, 2}, map[string]int{"a": 1}, "x", uint8(200), int64(-5), 0.5, nil}
	}
	w.mu.Lock()
	defer w.mu.Unlock()
	if op.S == "nan" || op.S == "func" {
		w.unfit[tag] = op.S
		return method, args
	}
	w.sent[tag] = canonList(args)
	return method, args
}

const bigInt = int64(9007199254740993)

var endKinds = []string{"close", "reset", "abort", "closeme", "closemsg", "garbage", "half"}

func genTargets(r *Rand) *Plan {
	p := &Plan{Cfg: map[string]int{}}
	p.schedule(r)
	p.network(r)
	p.Cfg["percon"] = r.b(25)
	p.Cfg["style"] = r.n(16)
	p.Cfg["clients"] = r.in(2, 5)
	if r.p(4) {
		p.Cfg["clients"] = r.in(8, 24)
	}
	p.Cfg["mixed"] = r.n(4) // protocols of the clients
	p.Cfg["gnames"] = r.n(4)
	p.Cfg["stuck"] = r.pick(0, 0, 0, 1, 2)
	span := r.pick(200, 3000, 30000, 300000)
	n := r.in(2, 24)
	pick := func(v ...string) string { return v[r.n(len(v))] }
	mode := r.n(5)
	switch mode {
	case 0:
		// receivers that are stuck, and more messages than the buffers to them can take
		p.Cfg["n_buf"] = r.pick(256, 256, 2048)
		for i := 0; i < p.Cfg["clients"]; i++ {
			if r.p(80) {
				p.Ops = append(p.Ops, Op{K: "join", T: int64(r.n(span)), A: i, Z: 1})
			}
		}
		for i := r.in(1, p.Cfg["clients"]-1); i > 0; i-- {
			p.Ops = append(p.Ops, Op{K: "stuck", T: int64(span), A: r.n(p.Cfg["clients"])})
		}
		for i := r.in(2, 8); i > 0; i-- {
			p.Ops = append(p.Ops, Op{K: pick("out-all", "out-group", "out-client"), T: int64(span + r.n(span)), X: r.n(p.Cfg["clients"]), S: pick("long", "long", "", "big")})
		}
		n = r.n(10)
	case 1:
		// nearly empty groups
		n = r.in(8, 30)
		span = r.pick(20, 200, 3000)
	}
	if mode > 0 && p.Cfg["clients"] > 5 {
		// a large group
		for i := 0; i < p.Cfg["clients"]; i++ {
			if r.p(90) {
				p.Ops = append(p.Ops, Op{K: "join", T: int64(r.n(span / 4)), A: i, Z: 1})
			}
		}
	}
	for i := 0; i < n; i++ {
		op := Op{T: int64(r.n(span)), A: r.n(p.Cfg["clients"]), X: r.n(p.Cfg["clients"]), Y: r.n(3)}
		switch r.n(10) {
		case 0, 1:
			op.K = "join"
		case 2:
			op.K = pick("leave", "leaveother", "joinother")
		case 3:
			op.K = pick("all", "out-all")
		case 4, 5:
			op.K = pick("group", "out-group")
		case 6:
			op.K = pick("client", "out-client")
		case 7:
			op.K = pick("caller", "join")
		case 8:
			op.K = "end"
			op.S = endKinds[r.n(len(endKinds))]
			op.Z = r.n(2) // connect again
		case 9:
			op.K = pick("all", "group", "stuck")
			op.Z = r.n(3)
		}
		if mode == 1 && op.K != "end" && r.p(80) {
			op.K, op.Y = pick("join", "leave", "join", "leave", "out-group"), 0
		}
		if op.K != "end" {
			op.Z = r.n(2) // wait for the answer
			op.S = pick("", "", "bare", "big", "val", "list", "uint", "deep", "long")
			if strings.HasPrefix(op.K, "out-") && r.p(12) {
				op.S = pick("nan", "nan", "func") // json, or both, can not encode that
			}
		}
		p.Ops = append(p.Ops, op)
	}
	return p
}

func runTargets(e *Env) {
	w := newWorld(e)
	p := e.plan
	srv := w.server(w.ctx, 0, signalr.TimeoutInterval(1000*time.Second), signalr.KeepAliveInterval(400*time.Second))
	nc := p.c("clients")
	var mu sync.Mutex
	var members []*member      // all there ever were
	cur := make([]*member, nc) // the current one of each client
	proto := func(i int) string {
		if (p.c("mixed")+i)%2 == 0 {
			return "json"
		}
		return "messagepack"
	}
	for i := 0; i < nc; i++ {
		if m := w.connect(srv, i, proto(i)); m != nil {
			members = append(members, m)
			cur[i] = m
		} else {
			return
		}
	}
	base := e.us()
	get := func(i int) *member {
		mu.Lock()
		defer mu.Unlock()
		return cur[i]
	}
	perActor := make([][]Op, nc+1)
	ops := append([]Op(nil), p.Ops...)
	sort.SliceStable(ops, func(a, b int) bool { return ops[a].T < ops[b].T })
	tags := map[*Op]int{}
	for i := range ops {
		a := ops[i].A
		if strings.HasPrefix(ops[i].K, "out-") {
			a = nc
		}
		op := ops[i]
		op.L = []int{i + 1}
		perActor[a] = append(perActor[a], op)
		_ = tags
	}
	var wg sync.WaitGroup
	var stuckMs []*member
	for a := range perActor {
		wg.Add(1)
		go func(a int, ops []Op) {
			defer wg.Done()
			for _, op := range ops {
				e.sleepUntilUs(base + op.T)
				tag := op.L[0]
				g := groupName(p, op.Y)
				other := get(op.X)
				otherID := "nobody"
				if op.S == "bare" {
					otherID = ""
				}
				if other != nil && !(op.S == "bare" && op.Z == 1) {
					otherID = other.id
				}
				method, args := "", []any{tag}
				if strings.HasPrefix(op.K, "out-") {
					method, args = w.toOut(op, tag)
				}
				switch op.K {
				case "out-all":
					done := w.span("all", "", "", tag)
					srv.HubClients().All().Send(method, args...)
					done()
					continue
				case "out-group":
					done := w.span("group", "", g, tag)
					srv.HubClients().Group(g).Send(method, args...)
					done()
					continue
				case "out-client":
					done := w.span("client", otherID, "", tag)
					srv.HubClients().Client(otherID).Send(method, args...)
					done()
					continue
				}
				m := get(a)
				if m == nil {
					continue
				}
				switch op.K {
				case "join":
					method, args = "Join", append(args, g)
				case "leave":
					method, args = "Leave", append(args, g)
				case "joinother":
					method, args = "JoinOther", append(args, g, otherID)
				case "leaveother":
					method, args = "LeaveOther", append(args, g, otherID)
				case "all":
					method = "ToAll"
				case "caller":
					method = "ToCaller"
				case "client":
					method, args = "ToClient", append(args, otherID)
				case "group":
					method, args = "ToGroup", append(args, g)
				case "stuck":
					m.peer.pause(60 * time.Second)
					e.fault("receiver-stuck")
					mu.Lock()
					m.stuck = true
					stuckMs = append(stuckMs, m)
					mu.Unlock()
					continue
				case "end":
					mu.Lock()
					cur[a] = nil
					mu.Unlock()
					m.end(op.S)
					if op.Z == 1 {
						if m := w.connect(srv, a, proto(a)); m != nil {
							mu.Lock()
							members = append(members, m)
							cur[a] = m
							mu.Unlock()
						}
					}
					continue
				}
				if op.Z == 1 && !m.stuck {
					m.call(method, 10*time.Second, args...)
				} else {
					_ = m.peer.send(Msg{Type: mInvoke, Target: method, Args: args})
				}
			}
		}(a, perActor[a])
	}
	wg.Wait()
	// the methods that were sent last still run
	time.Sleep(10 * time.Second)
	w.checkTargets(members, false)
	if len(stuckMs) > 0 {
		time.Sleep(70 * time.Second)
		w.checkTargets(members, true)
	}
	e.count("connections", len(members))
}

// checkTargets compares what the connections received with what was sent.
func (w *World) checkTargets(members []*member, last bool) {
	e := w.e
	w.mu.Lock()
	wants := map[int]string{}
	for k, v := range w.sent {
		wants[k] = v
	}
	unfit := map[int]string{}
	for k, v := range w.unfit {
		unfit[k] = v
	}
	spans := make([]span, 0, len(w.spans))
	for _, s := range w.spans {
		spans = append(spans, *s)
	}
	w.mu.Unlock()
	type key struct {
		m   *member
		tag int
	}
	got := map[key]int{}
	sent := map[int]bool{}
	for _, s := range spans {
		if s.kind != "join" && s.kind != "leave" {
			sent[s.tag] = true
		}
	}
	for _, m := range members {
		for _, x := range m.peer.msgs() {
			if x.Type == mInvoke {
				if w.settle != nil && (x.Target == "OnForeign" || x.Target == "") && (!x.HasID || x.ID == "") {
					continue // not sent by a server
				}
				tag := 0
				if n, ok := strings.CutPrefix(x.Target, "OnBare"); ok && len(x.Args) == 0 {
					fmt.Sscan(n, &tag)
				} else if x.Target == "OnMsg" && len(x.Args) == 2 {
					fmt.Sscan(canon(x.Args[0]), &tag)
				}
				if tag == 0 || x.HasID && x.ID != "" {
					e.fail("targets-wrong-message", "client %d received %v", m.n, x)
					continue
				}
				if want, ok := wants[tag]; ok && want != canonList(x.Args) {
					e.fail("targets-arguments", "client %d received %s instead of %s", m.n, canonList(x.Args), want)
				}
				if !sent[tag] {
					e.fail("targets-unsent-message", "client %d received %v, which nobody sent", m.n, x)
				}
				got[key{m, tag}]++
			}
		}
	}
	for _, m := range members {
		if _, _, down, gone := m.state(); w.settle == nil && down == never && gone != never && !m.stuck {
			e.fail("targets-connection-lost", "the connection of client %d ended without a reason: %v", m.n, m.sc.err)
		}
	}
	n := 0
	for i := range spans {
		s := &spans[i]
		if s.kind == "join" || s.kind == "leave" {
			continue
		}
		for _, m := range members {
			served, up, down, gone := m.state()
			must := up < s.start && down == never
			may := served < s.until() && gone > s.start
			switch s.kind {
			case "client":
				must = must && m.id == s.conn
				may = may && m.id == s.conn
			case "group":
				isIn, maybe := membership(spans, m.id, s)
				must = must && isIn
				may = may && maybe
			}
			if how := unfit[s.tag]; how == "func" || how == "nan" && m.proto == "json" {
				must, may = false, false
			}
			n++
			c := got[key{m, s.tag}]
			what := fmt.Sprintf("message %d to %s %s%s (events %d to %d) at client %d (connected %d to %d)", s.tag, s.kind, s.group, short(s.conn), s.start, s.end, m.n, up, down)
			if s.shaky {
				must = false
			}
			if c > 1 && !s.shaky {
				e.fail("targets-duplicate", "%s was received %d times", what, c)
			}
			if c > 0 && !may {
				e.fail("targets-wrong-receiver", "%s was received, although the client does not belong to the target", what)
			}
			if c == 0 && must && (last || !m.stuck) {
				e.fail("targets-lost", "%s was not received", what)
			}
		}
	}
	e.count("deliveries-checked", n)
}

// membership tells whether a connection surely is and possibly is in the
// group during the whole of a send.
func membership(spans []span, id string, s *span) (is, maybe bool) {
	for i := range spans {
		j := &spans[i]
		if j.kind != "join" || j.conn != id || j.group != s.group {
			continue
		}
		if j.start < s.until() {
			undone := false
			for k := range spans {
				l := &spans[k]
				if l.kind == "leave" && l.conn == id && l.group == s.group && l.start > j.until() && l.until() < s.start {
					undone = true
				}
			}
			if !undone {
				maybe = true
			}
		}
		if j.until() < s.start {
			safe := true
			for k := range spans {
				l := &spans[k]
				if l.kind == "leave" && l.conn == id && l.group == s.group && !(l.until() < j.start || l.start > s.until()) {
					safe = false
				}
			}
			if safe {
				is = true
			}
		}
	}
	return
}

// ---- C07 ----

func genLifecycle(r *Rand) *Plan {
	p := &Plan{Cfg: map[string]int{}}
	p.schedule(r)
	p.network(r)
	p.Cfg["percon"] = r.pick(0, 1, 1, 1, 3)
	p.Cfg["style"] = r.n(16)
	p.Cfg["clients"] = r.in(1, 4)
	p.Cfg["mixed"] = r.n(4)
	p.Cfg["slowup"] = r.pick(0, 0, 0, 1, 30) // OnConnected takes that many ms
	p.Cfg["final"] = r.n(3)
	p.Cfg["upitem"] = r.b(40) // OnConnected stores an item
	span := r.pick(1, 300, 5000, 50000)
	for a := 0; a < p.Cfg["clients"]; a++ {
		for life, lives := 0, r.in(1, 3); life < lives; life++ {
			p.Ops = append(p.Ops, Op{K: "connect", A: a, X: r.n(span), Y: r.pick(0, 0, 0, 1, 2, 3)})
			if r.p(40) {
				p.Ops = append(p.Ops, Op{K: "burst", A: a, X: r.pick(0, r.n(span)), Z: r.in(2, 6), Y: r.n(2)})
			}
			for i, n := 0, r.n(6); i < n; i++ {
				op := Op{A: a, X: r.n(span), K: r.picks("inc", "inc", "set", "get", "who", "fake", "tocaller"), Z: r.n(2), Y: r.n(3)}
				p.Ops = append(p.Ops, op)
			}
			if r.p(85) {
				p.Ops = append(p.Ops, Op{K: "end", A: a, X: r.n(span), S: endKinds[r.n(len(endKinds))]})
			}
		}
	}
	return p
}

func runLifecycle(e *Env) {
	w := newWorld(e)
	p := e.plan
	w.slowUp = ms(p.c("slowup"))
	w.upItem = p.b("upitem")
	sctx, stop := context.WithCancel(w.ctx)
	defer stop()
	srv := w.server(sctx, 0, signalr.TimeoutInterval(30*time.Second))
	nc := p.c("clients")
	type life struct {
		m      *member
		shook  bool
		ended  bool
		incs   []int
		incTag []int
		items  map[string]string
	}
	var mu sync.Mutex
	var lives []*life
	var wg sync.WaitGroup
	tagN := 0
	nextTag := func() int {
		mu.Lock()
		defer mu.Unlock()
		tagN++
		return tagN
	}
	for a := 0; a < nc; a++ {
		wg.Add(1)
		go func(a int) {
			defer wg.Done()
			proto := "json"
			if (p.c("mixed")+a)%2 == 1 {
				proto = "messagepack"
			}
			var l *life
			for _, op := range p.Ops {
				if op.A != a {
					continue
				}
				time.Sleep(time.Duration(op.X) * time.Microsecond)
				if op.K == "connect" {
					if l != nil && !l.ended {
						l.ended = true
						l.m.end("close")
					}
					m := &member{w: w, n: a, proto: proto}
					m.peer, m.sc, m.conn = w.rawClient(srv, fmt.Sprintf("cli%d", a), proto)
					m.id = m.sc.id
					l = &life{m: m, items: map[string]string{}}
					mu.Lock()
					lives = append(lives, l)
					mu.Unlock()
					switch op.Y {
					case 1: // ends before the handshake
						e.fault("end-before-handshake")
						l.ended = true
						_ = m.conn.Close()
						continue
					case 2: // sends the handshake and is gone
						e.fault("end-in-handshake")
						_ = m.peer.write(handshakeRequest(proto))
						m.conn.CloseWrite()
						l.ended = true
						continue
					case 3: // an unknown protocol
						e.fault("handshake-unknown-protocol")
						_ = m.peer.write(handshakeRequest("xml"))
						_ = m.peer.waitHandshake(20 * time.Second)
						l.ended = true
						_ = m.conn.Close()
						continue
					}
					if err := m.peer.handshake(20 * time.Second); err != nil {
						e.fail("connect", "client %d: handshake: %v", a, err)
						l.ended = true
						continue
					}
					l.shook = true
					continue
				}
				if l == nil || l.ended {
					continue
				}
				m := l.m
				tag := nextTag()
				do := func(method string, args ...any) (Msg, bool) {
					args = append([]any{tag}, args...)
					if op.Z == 0 && method != "SetItem" {
						_ = m.peer.send(Msg{Type: mInvoke, Target: method, Args: args})
						return Msg{}, false
					}
					c := m.call(method, time.Minute, args...)
					if c.Type != mCompl || c.Err != "" {
						e.fail("lifecycle-call", "%s on connection %s was answered with %v", method, short(m.id), c)
						return c, false
					}
					return c, true
				}
				switch op.K {
				case "inc":
					c, ok := do("Inc")
					if ok {
						v := 0
						fmt.Sscan(canon(c.Result), &v)
						l.incs = append(l.incs, v)
					}
					l.incTag = append(l.incTag, tag)
				case "set":
					k, v := fmt.Sprint("k", op.Y), fmt.Sprint(m.id, "-", tag)
					if _, ok := do("SetItem", k, v); ok {
						l.items[k] = v
					}
				case "get":
					k := fmt.Sprint("k", op.Y)
					if c, ok := do("GetItem", k); ok {
						want := l.items[k]
						if want == "" {
							want = "<none>"
						}
						if c.Result != want {
							e.fail("lifecycle-items", "item %s of connection %s is %v, want %v", k, short(m.id), c.Result, want)
						}
					}
				case "burst":
					// concurrent calls, of which each stores an item
					var b []byte
					want := map[string]string{}
					for i := 0; i < op.Z; i++ {
						k, v := fmt.Sprint("b", i), fmt.Sprint(m.id, "-", tag, "-", i)
						want[k], l.items[k] = v, v
						msg := encode(proto, Msg{Type: mInvoke, ID: fmt.Sprintf("b%d-%d", tag, i), HasID: true, Target: "SetItem", Args: []any{nextTag(), k, v}}, m.peer.style)
						if op.Y == 0 {
							b = append(b, msg...)
						} else {
							_ = m.peer.write(msg)
						}
					}
					_ = m.peer.write(b)
					pre := fmt.Sprintf("b%d-", tag)
					m.peer.waitMsgs(op.Z, time.Minute, func(x Msg) bool { return x.Type == mCompl && strings.HasPrefix(x.ID, pre) })
					for _, k := range itemKeys(want) {
						if c := m.call("GetItem", time.Minute, nextTag(), k); c.Type != mCompl || c.Err != "" {
							e.fail("lifecycle-call", "GetItem on connection %s was answered with %v", short(m.id), c)
						} else if c.Result != want[k] {
							e.fail("lifecycle-items", "item %s of connection %s is %v, want %v", k, short(m.id), c.Result, want[k])
						}
					}
					if w.upItem {
						// OnConnected runs concurrently
						waitCond(10*time.Second, func() bool {
							w.mu.Lock()
							defer w.mu.Unlock()
							for _, s := range w.lifeEnd {
								if s == "up "+m.id {
									return true
								}
							}
							return false
						})
						if c := m.call("GetItem", time.Minute, nextTag(), "up"); c.Result != m.id {
							e.fail("lifecycle-items", "the item that OnConnected of connection %s has stored is %v", short(m.id), c)
						}
					}
				case "who":
					if c, ok := do("WhoAmI"); ok && c.Result != m.id {
						e.fail("lifecycle-connection-id", "the hub of connection %s sees the connection id %v", m.id, c.Result)
					}
				case "tocaller":
					_, _ = do("ToCaller")
				case "fake":
					// a client can not make lifecycle events happen
					_ = m.peer.send(Msg{Type: mInvoke, Target: []string{"OnConnected", "OnDisconnected", "ondisconnected"}[op.Y], Args: []any{"fake"}})
				case "end":
					l.ended = true
					m.end(op.S)
				}
			}
		}(a)
	}
	wg.Wait()
	switch p.c("final") {
	case 0:
		for _, l := range lives {
			if !l.ended {
				_ = l.m.conn.Close()
			}
		}
	case 1:
		e.fault("server-cancel")
		stop()
	case 2:
		// the others fall silent: the server has to notice
		e.fault("peer-silent")
	}
	for _, l := range lives {
		if !waitOr(l.m.sc.done, 100*time.Second) {
			e.fail("lifecycle-hang", "Serve of connection %s did not return", short(l.m.id))
			return
		}
	}
	time.Sleep(5 * time.Second)
	w.mu.Lock()
	order := append([]string(nil), w.life...)
	ended := append([]string(nil), w.lifeEnd...)
	w.mu.Unlock()
	known := map[string]*life{}
	for _, l := range lives {
		known[l.m.id] = l
	}
	for _, s := range order {
		f := strings.Fields(s)
		if known[f[1]] == nil {
			e.fail("lifecycle-unknown-connection", "lifecycle event %q for a connection that does not exist", s)
		}
	}
	e.count("connections", len(lives))
	calls := w.allCalls()
	owner := map[int]string{}
	for _, l := range lives {
		id := l.m.id
		up, down := 0, 0
		for _, s := range order {
			switch s {
			case "up " + id:
				up++
				if down > 0 {
					e.fail("lifecycle-order", "OnConnected of %s came after its OnDisconnected", short(id))
				}
			case "down " + id:
				down++
			}
		}
		for i, s := range ended {
			if s == "down "+id {
				for _, t := range ended[i:] {
					if t == "up "+id {
						e.fail("lifecycle-order", "OnDisconnected of %s ran before OnConnected had ended", short(id))
					}
				}
			}
		}
		answered := false
		select {
		case <-l.m.peer.hsDone:
			answered = l.m.peer.hs == "{}"
		default:
		}
		for _, c := range calls {
			if c.Conn == id && c.Method == "OnDisconnected" && c.Tag == -3 {
				e.fail("lifecycle-items", "the item that OnConnected of connection %s has stored was %s in OnDisconnected", short(id), c.Args)
			}
			if (c.Method == "OnConnected" || c.Method == "OnDisconnected") && c.Args == id && c.Conn != id {
				e.fail("lifecycle-connection-id", "%s of connection %s was called for the hub of connection %q", c.Method, id, c.Conn)
			}
		}
		what := fmt.Sprintf("connection %s (handshake done: %v): OnConnected ran %d times, OnDisconnected %d times", short(id), answered, up, down)
		switch {
		case p.c("final") == 1 && up == 0 && down == 0:
			// canceled before the server noticed that the response was sent
		case answered && (up != 1 || down != 1):
			e.fail("lifecycle-count", "%s", what)
		case !answered && (up != down || up > 1):
			e.fail("lifecycle-count", "%s", what)
		case !answered && up > 0 && l.m.peer.hs != "":
			e.fail("lifecycle-refused", "%s, although the handshake was refused", what)
		}
		if p.c("percon") != 1 {
			// a new hub for each invocation
			tags := map[int]int{}
			for _, c := range calls {
				if c.Conn != id || c.Tag < 0 {
					continue
				}
				if o, ok := tags[c.Inst]; ok && o != c.Tag {
					e.fail("lifecycle-reused", "hub instance %d ran the invocations %d and %d of connection %s", c.Inst, o, c.Tag, short(id))
				}
				tags[c.Inst] = c.Tag
				if o, ok := owner[c.Inst]; ok && o != id {
					e.fail("lifecycle-shared", "hub instance %d served the connections %s and %s", c.Inst, short(o), short(id))
				}
				owner[c.Inst] = id
			}
			for _, v := range l.incs {
				if v != 1 {
					e.fail("lifecycle-reused", "the counter of a new hub of connection %s was %d", short(id), v)
				}
			}
		} else {
			insts := map[int]bool{}
			for _, c := range calls {
				if c.Conn == id {
					insts[c.Inst] = true
				}
			}
			if len(insts) > 1 {
				e.fail("lifecycle-instances", "connection %s was served by %d hub instances %v", short(id), len(insts), keys(insts))
			}
			for i := range insts {
				if o, ok := owner[i]; ok && o != id {
					e.fail("lifecycle-shared", "hub instance %d served the connections %s and %s", i, short(o), short(id))
				}
				owner[i] = id
			}
			seen := map[int]bool{}
			for _, v := range l.incs {
				if v < 1 || v > len(l.incTag) || seen[v] {
					e.fail("lifecycle-state-lost", "the counter of the hub of connection %s went %v", short(id), l.incs)
					break
				}
				seen[v] = true
			}
		}
		// messages to the caller go to the caller only
		for _, x := range l.m.peer.msgs() {
			if x.Type == mInvoke {
				tag := 0
				fmt.Sscan(canon(x.Args[0]), &tag)
				for _, c := range calls {
					if c.Tag == tag && c.Method == "ToCaller" && c.Conn != id {
						e.fail("lifecycle-caller", "connection %s received the message of the caller %s", short(id), short(c.Conn))
					}
				}
			}
		}
	}
}

func itemKeys(m map[string]string) (l []string) {
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	return
}

func keys(m map[int]bool) (l []int) {
	for k := range m {
		l = append(l, k)
	}
	sort.Ints(l)
	return
}
