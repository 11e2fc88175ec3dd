package main

import (
	"bytes"
	"context"
	"fmt"
	"io"
	"sync"
	"time"

	"github.com/coder/websocket"
	"github.com/philippseith/signalr"
)

func init() {
	register(&Scenario{Prop: "C16", Name: "http-raw", Weight: 3, Gen: genHTTPRaw, Run: runHTTPRaw,
		Real: []string{"server", "httpMux", "router adapters", "serverSSEConnection", "webSocketConnection", "net/http server", "coder/websocket", "hub protocols"},
		Stub: []string{"TCP streams", "clients (scripted requests)"}})
}

func genHTTPRaw(r *Rand) *Plan {
	p := &Plan{Cfg: map[string]int{}}
	p.schedule(r)
	p.network(r)
	p.Cfg["router"] = r.pick(0, 0, 0, 1, 2, 3)
	if p.Cfg["n_buf"] == 256 {
		p.Cfg["n_buf"] = 2048
	}
	p.Cfg["percon"] = r.b(30)
	p.Cfg["limit"] = r.pick(0, 0, 300, 1024, 4096, 100000)
	limit := p.Cfg["limit"]
	if limit == 0 {
		limit = 1 << 15
	}
	for c := 0; c < r.in(1, 2); c++ {
		tr := r.pick(0, 1, 1)
		// Y: what happens at the end; Z: how the stream is cut
		op := Op{K: "cli", A: c, X: tr, T: int64(r.pick(0, 0, r.n(100000))), Y: r.pick(0, 0, 0, 1, 2, 3, 4), Z: r.n(6)}
		op.L = []int{r.b(50), r.n(8), r.b(30), r.b(30), r.pick(0, 0, 0, r.n(3000000)), r.n(1 << 20)} // messagepack, style, concurrent, compressed, pause
		if tr == 1 && op.L[0] == 1 && r.p(80) {
			op.L[0] = 0
		}
		p.Ops = append(p.Ops, op)
		for i := r.in(0, 14); i > 0; i-- {
			p.Ops = append(p.Ops, Op{K: r.picks("echo", "echo", "echo", "add", "big", "count", "ping", "void"), A: c, X: r.n(13), Y: r.pick(0, 0, 1, limit, limit-1, limit/2, r.n(limit)), T: int64(r.pick(0, 0, 0, 1, 60000))})
		}
	}
	return p
}

// rawWeb is one scripted client over HTTP.
type rawWeb struct {
	*World
	h       *httpNet
	hc      *httpClient
	op      Op
	name    string
	proto   string
	tr      string
	a       webAttempt
	peer    *rawPeer
	mu      sync.Mutex
	refused bool
	broken  bool // it ended its connection itself
}

type webMsg struct {
	tag    int
	op     Op
	b      []byte
	method string
	seen   string
	want   string
	status int // of its own POST
	atUs   int64
}

func runHTTPRaw(e *Env) {
	w := newWorld(e)
	p := e.plan
	h := newHTTPNet(w)
	opts := []func(signalr.Party) error{signalr.TimeoutInterval(time.Hour), signalr.KeepAliveInterval(20 * time.Second)}
	if l := p.c("limit"); l > 0 {
		opts = append(opts, signalr.MaximumReceiveMessageSize(uint(l)))
	}
	sctx, scancel := context.WithCancel(w.ctx)
	srv := w.server(sctx, 0, opts...)
	h.mapHub(srv)
	base := e.us()
	var wg sync.WaitGroup
	for _, op := range p.Ops {
		if op.K == "cli" {
			c := &rawWeb{World: w, h: h, op: op, name: fmt.Sprintf("raw%d", op.A), proto: "json", tr: []string{"ws", "sse"}[op.X%2]}
			if op.L[0] == 1 {
				c.proto = "messagepack"
			}
			c.hc = h.client(c.name)
			wg.Add(1)
			go func() {
				defer wg.Done()
				e.sleepUntilUs(base + op.T)
				c.run()
			}()
		}
	}
	fin := make(chan struct{})
	go func() { wg.Wait(); close(fin) }()
	if !waitOr(fin, 20*time.Minute) {
		e.fail("request-hangs", "a request was not answered")
		return
	}
	if !waitCond(100*time.Second, func() bool {
		w.mu.Lock()
		defer w.mu.Unlock()
		for id := range w.connUp {
			if w.connDown[id] != w.connUp[id] {
				return false
			}
		}
		return true
	}) {
		e.fail("end-unnoticed", "the server did not notice the end of a connection: %s", fmt.Sprint(p.Ops))
	}
	e.count("checked", 1)
	scancel()
	w.leftBehind(2 * time.Minute)
}

func (c *rawWeb) connect() bool {
	e := c.e
	ctx, cancel := context.WithCancel(c.ctx)
	e.cleanup(cancel)
	x := &negRun{World: c.World, h: c.h}
	s := &negSlot{done: make(chan struct{})}
	x.ask(c.hc, s, c.op.L[5]%2)
	if !s.ok {
		e.fail("connect", "%s was not negotiated: %d", c.name, s.status)
		return false
	}
	if c.tr == "sse" {
		c.a = c.hc.dialSSE(ctx, s.key())
	} else {
		c.hc.compress = c.op.L[3] == 1
		c.a = c.hc.dialWS(ctx, s.key(), false)
	}
	if c.a.conn == nil {
		e.fail("connect", "%s was refused: %d %v", c.name, c.a.status, c.a.err)
		return false
	}
	if ws, ok := c.a.conn.(*wsStream); ok {
		ws.binary = c.proto == "messagepack"
	}
	return true
}

func (c *rawWeb) run() {
	e := c.e
	if !c.connect() {
		return
	}
	limit := e.plan.c("limit")
	if limit == 0 {
		limit = 1 << 15
	}
	var msgs []*webMsg
	stream := handshakeRequest(c.proto)
	cuts := []int{len(stream)} // ends of messages
	for i, op := range e.plan.Ops {
		if op.K == "cli" || op.A != c.op.A {
			continue
		}
		m := &webMsg{tag: 100 + i, op: op}
		id := fmt.Sprintf("id%d", m.tag)
		var x Msg
		switch op.K {
		case "echo":
			if op.X == 0 || op.Y >= limit-1 {
				x, m.b, _ = sized(c.proto, c.op.L[1], m.tag, op.Y)
				m.want = canon(x.Args[1])
			} else {
				s := content(op.X, min(op.Y, (limit-150)/8), m.tag)
				x = Msg{Type: mInvoke, ID: id, HasID: true, Target: "Echo", Args: []any{m.tag, s}}
				m.want = canon(s)
			}
			m.method, m.seen = "Echo", m.want
		case "add":
			x = Msg{Type: mInvoke, ID: id, HasID: true, Target: "Add", Args: []any{m.tag, 3, 4}}
			m.method, m.seen, m.want = "Add", "3,4", "7"
		case "big":
			n := op.Y % 60000
			x = Msg{Type: mInvoke, ID: id, HasID: true, Target: "Big", Args: []any{m.tag, n}}
			m.method, m.seen, m.want = "Big", fmt.Sprint(n), canon(bigString(m.tag, n))
		case "count":
			x = Msg{Type: mStream, ID: id, HasID: true, Target: "Count", Args: []any{m.tag, op.X, 100}}
			m.method = "Count"
		case "void":
			x = Msg{Type: mInvoke, Target: "Void", Args: []any{m.tag}}
			m.method = "Void"
		case "ping":
			x = Msg{Type: mPing}
		}
		if m.b == nil {
			m.b = encode(c.proto, x, c.op.L[1])
		}
		stream = append(stream, m.b...)
		cuts = append(cuts, len(stream))
		msgs = append(msgs, m)
	}
	c.peer = newRawPeer(e, c.a.conn, c.proto, c.name)
	c.peer.start(true)
	if c.proto == "messagepack" && c.tr == "sse" {
		c.binaryOverText()
		return
	}
	if d := c.op.L[4]; d > 0 {
		e.fault("client-does-not-read")
		c.peer.pause(time.Duration(d) * time.Microsecond)
	}
	conc := c.op.L[2] == 1
	if conc {
		c.concurrent(msgs)
	} else {
		c.sequential(stream, cuts, msgs)
	}
	if c.broken {
		c.judge(msgs, true)
		c.end(true)
		return
	}
	for _, m := range msgs {
		if m.op.K == "ping" || conc && m.status != 200 {
			continue
		}
		if m.op.K == "void" {
			waitCond(100*time.Second, func() bool { return len(c.callsOf("Void", m.tag)) > 0 || c.peer.closed() })
			continue
		}
		id := fmt.Sprintf("id%d", m.tag)
		if !c.peer.waitMsgs(1, 100*time.Second, func(x Msg) bool { return x.Type == mCompl && x.ID == id }) {
			e.fail("not-answered", "%s (%s): %s %d (%d bytes) was not answered (closed=%v, conc=%v)", c.name, c.tr, m.op.K, m.tag, len(m.b), c.peer.closed(), conc)
			break
		}
	}
	time.Sleep(500 * time.Millisecond)
	c.judge(msgs, false)
	if c.peer.closed() {
		e.fail("disturbed", "%s (%s): the server ended the connection: %v", c.name, c.tr, c.peer.readErr)
	}
	c.end(false)
}

// binaryOverText asks for a protocol the transport can not carry.
func (c *rawWeb) binaryOverText() {
	_ = c.peer.write(handshakeRequest(c.proto))
	err := c.peer.waitHandshake(30 * time.Second)
	if err != nil && c.peer.hs == "" {
		c.e.fail("connect", "%s: a handshake for messagepack over server-sent events is not answered: %v", c.name, err)
	}
	if err == nil {
		_ = c.peer.send(Msg{Type: mInvoke, ID: "q", HasID: true, Target: "Echo", Args: []any{90, "data:\n\nx\r\n\n"}})
		if !c.peer.waitMsgs(1, 30*time.Second, func(m Msg) bool { return m.Type == mCompl && m.ID == "q" }) {
			c.e.fail("not-answered", "%s: messagepack over server-sent events was accepted, but an invocation is not answered", c.name)
		}
		for _, x := range c.peer.completions("q") {
			if canon(x.Result) != canon("data:\n\nx\r\n\n") {
				c.e.fail("wrong-answer", "%s: messagepack over server-sent events was accepted, but an answer is garbled: %v", c.name, x)
			}
		}
	}
	c.end(true)
}

// pieces cuts the bytes the client sends into what it sends at once.
func (c *rawWeb) pieces(n int, cuts []int) []int {
	r := newRand(uint64(c.op.L[5]))
	var l []int
	switch c.op.Z {
	case 0: // message by message
		l = cuts
	case 1: // all at once
		l = []int{n}
	case 2: // some messages together
		for _, x := range cuts {
			if r.p(40) {
				l = append(l, x)
			}
		}
	case 3: // anywhere
		for k := r.in(1, 12); k > 0; k-- {
			l = append(l, r.n(n+1))
		}
	case 4: // around the ends
		for _, x := range cuts {
			if d := x + r.in(-3, 3); r.p(70) && d > 0 && d < n {
				l = append(l, d)
			}
		}
	case 5: // small pieces at the start
		for x := 0; x < min(n, 120); x += r.in(1, 20) {
			l = append(l, x)
		}
	}
	l = append(l, n)
	for i := range l { // insertion sort
		for j := i; j > 0 && l[j] < l[j-1]; j-- {
			l[j], l[j-1] = l[j-1], l[j]
		}
	}
	return l
}

func (c *rawWeb) sequential(stream []byte, cuts []int, msgs []*webMsg) {
	e := c.e
	r := newRand(uint64(c.op.L[5]) + 77)
	pieces := c.pieces(len(stream), cuts)
	breakAt := -1
	if c.op.Y == 4 && c.tr == "sse" {
		breakAt = r.n(len(pieces))
	}
	at := 0
	for i, end := range pieces {
		b := stream[at:end]
		at = end
		if len(b) == 0 && !r.p(20) {
			continue
		}
		if i > 0 && r.p(30) {
			time.Sleep(time.Duration(r.pick(1, 1000, 60000)) * time.Microsecond)
		}
		if i == breakAt {
			e.fault("post-breaks")
			c.broken = true
			k := r.n(len(b) + 1)
			if r.p(20) {
				k = 0
			}
			_, _ = c.hc.post(c.ctx, c.a.conn.(*sseStream).url, &brokenBody{b: b[:k]})
			if at := end - len(b); at >= len(handshakeRequest("json")) && stream[at-1] == 0x1e {
				if k == 0 {
					time.Sleep(5 * time.Second)
				}
				c.afterBreak(r, k == 0)
			}
			return
		}
		e.count("piece", 1)
		var err error
		switch s := c.a.conn.(type) {
		case *wsStream:
			err = s.fragments(b, r)
		case *sseStream:
			var code int
			code, err = c.hc.post(c.ctx, s.url, c.body(b, r))
			if err == nil && code != 200 {
				err = statusError{code}
			}
		}
		if err != nil {
			e.fail("send", "%s (%s) could not send %d bytes: %v", c.name, c.tr, len(b), err)
			return
		}
	}
}

// afterBreak posts calls after a POST that broke off: those that are accepted
// have to be executed, whatever has been received of the POST before. When
// nothing of it has been received, they have to be accepted.
func (c *rawWeb) afterBreak(r *Rand, harmless bool) {
	for k := r.in(1, 3); k > 0; k-- {
		time.Sleep(time.Duration(r.pick(0, 1000, 100000)) * time.Microsecond)
		tag := 900000 + c.op.A*100 + k
		code, err := c.hc.post(c.ctx, c.a.conn.(*sseStream).url, bytes.NewReader(encode("json", Msg{Type: mInvoke, Target: "Void", Args: []any{tag}}, 0)))
		time.Sleep(2 * time.Second)
		n := len(c.callsOf("Void", tag))
		c.e.count(fmt.Sprintf("post-after-break-%d", code), 1)
		if err == nil && code == 200 && n != 1 || n > 1 {
			c.e.fail("swallowed", "%s: a call that was posted after a POST that broke off was answered with status %d, but executed %d times", c.name, code, n)
		}
		if harmless && code != 200 {
			c.e.fail("disturbed", "%s: after a POST of which nothing arrived, another one was refused: %d %v", c.name, code, err)
		}
	}
}

// concurrent posts message by message, not waiting for an answer.
func (c *rawWeb) concurrent(msgs []*webMsg) {
	e := c.e
	if err := c.peer.handshake(30 * time.Second); err != nil {
		e.fail("connect", "%s: %v", c.name, err)
		return
	}
	r := newRand(uint64(c.op.L[5]) + 78)
	base := e.us()
	var wg sync.WaitGroup
	at := int64(0)
	for _, m := range msgs {
		m, bd := m, c.body(m.b, r)
		at += m.op.T
		m.atUs = base + at
		wg.Add(1)
		go func() {
			defer wg.Done()
			e.sleepUntilUs(m.atUs)
			switch s := c.a.conn.(type) {
			case *wsStream:
				if _, err := s.Write(m.b); err == nil {
					m.status = 200
				} else {
					e.fail("send", "%s (ws): %v", c.name, err)
				}
			case *sseStream:
				code, err := c.hc.post(c.ctx, s.url, bd)
				m.status = code
				if err != nil || code != 200 && code != 409 {
					e.fail("send", "%s: a POST was answered with status %d %v", c.name, code, err)
				}
				e.count(fmt.Sprintf("post-%d", code), 1)
			}
		}()
	}
	wg.Wait()
}

// body is the body of a POST. It might come slowly, with or without a length.
func (c *rawWeb) body(b []byte, r *Rand) io.Reader {
	if len(b) == 0 || r.p(60) {
		return bytes.NewReader(b)
	}
	return &slowBody{b: b, n: r.pick(1, 10, 1000, 5000), us: r.pick(0, 0, 100, 3000), max: 30}
}

type slowBody struct {
	b   []byte
	n   int
	us  int
	max int
}

func (s *slowBody) Read(p []byte) (int, error) {
	if len(s.b) == 0 {
		return 0, io.EOF
	}
	n := s.n
	if s.max--; s.max <= 0 {
		n = len(s.b)
	} else {
		time.Sleep(time.Duration(s.us) * time.Microsecond)
	}
	n = copy(p[:min(len(p), n)], s.b)
	s.b = s.b[n:]
	return n, nil
}

type brokenBody struct{ b []byte }

func (s *brokenBody) Read(p []byte) (int, error) {
	if len(s.b) == 0 {
		return 0, fmt.Errorf("out of paper")
	}
	n := copy(p, s.b)
	s.b = s.b[n:]
	return n, nil
}

// fragments sends one websocket message in some frames.
func (s *wsStream) fragments(b []byte, r *Rand) error {
	if r.p(50) {
		_, err := s.Write(b)
		return err
	}
	t := websocket.MessageText
	if s.binary {
		t = websocket.MessageBinary
	}
	wr, err := s.c.Writer(s.ctx, t)
	if err != nil {
		return err
	}
	for k := r.in(1, 5); k > 0 && len(b) > 0; k-- {
		n := r.n(len(b) + 1)
		if _, err := wr.Write(b[:n]); err != nil {
			return err
		}
		b = b[n:]
	}
	if _, err := wr.Write(b); err != nil {
		return err
	}
	return wr.Close()
}

func (c *rawWeb) judge(msgs []*webMsg, broken bool) {
	e := c.e
	for _, m := range msgs {
		if m.op.K == "ping" {
			continue
		}
		id := fmt.Sprintf("id%d", m.tag)
		refused := c.op.L[2] == 1 && m.status != 200
		calls := c.callsOf(m.method, m.tag)
		if len(calls) > 1 {
			e.fail("executed-twice", "%s (%s): %s %d was executed %d times", c.name, c.tr, m.method, m.tag, len(calls))
		}
		if refused && len(calls) > 0 {
			e.fail("refused-but-executed", "%s: the POST of %s %d was answered with status %d, but it was executed", c.name, m.method, m.tag, m.status)
		}
		if len(calls) == 0 && !refused && !broken {
			e.fail("not-executed", "%s (%s): %s %d (%d bytes) was not executed", c.name, c.tr, m.method, m.tag, len(m.b))
		}
		for _, k := range calls {
			if m.seen != "" && k.Args != m.seen {
				e.fail("changed", "%s (%s): %s %d got %q instead of %q", c.name, c.tr, m.method, m.tag, trunc(k.Args, 200), trunc(m.seen, 200))
			}
		}
		l := c.peer.completions(id)
		if len(l) > 1 {
			e.fail("answered-twice", "%s (%s): %s %d was answered %d times", c.name, c.tr, m.method, m.tag, len(l))
		}
		for _, x := range l {
			if x.Err != "" || m.want != "" && canon(x.Result) != m.want {
				e.fail("wrong-answer", "%s (%s): %s %d was answered %q %q instead of %q", c.name, c.tr, m.method, m.tag, trunc(canon(x.Result), 200), x.Err, trunc(m.want, 200))
			}
		}
		if m.op.K == "count" && len(l) == 1 {
			n := 0
			for _, x := range c.peer.find(func(x Msg) bool { return x.Type == mItem && x.ID == id }) {
				if canon(x.Item) != canon(m.tag*1000+n) {
					e.fail("wrong-answer", "%s (%s): item %d of stream %d is %s", c.name, c.tr, n, m.tag, canon(x.Item))
				}
				n++
			}
			if n != m.op.X {
				e.fail("wrong-answer", "%s (%s): stream %d had %d items instead of %d", c.name, c.tr, m.tag, n, m.op.X)
			}
		}
		e.count("judged", 1)
	}
}

// checkTypes checks that text is sent as text and binary as binary. Only the
// handshake is always text.
func (w *World) checkTypes(name string, s *wsStream, binary bool) {
	s.tmu.Lock()
	defer s.tmu.Unlock()
	if !binary && s.types[websocket.MessageBinary] > 0 || binary && s.types[websocket.MessageText] > 1 {
		w.e.fail("message-type", "%s received %d text and %d binary websocket messages (messagepack=%v)", name, s.types[websocket.MessageText], s.types[websocket.MessageBinary], binary)
	}
}

// end ends the connection and waits for the server to notice.
func (c *rawWeb) end(broken bool) {
	e := c.e
	if s, ok := c.a.conn.(*wsStream); ok {
		c.checkTypes(c.name, s, c.proto == "messagepack")
	}
	switch c.op.Y {
	case 0, 4:
		if s, ok := c.a.conn.(*wsStream); ok {
			_ = s.c.Close(websocket.StatusNormalClosure, "bye")
		} else {
			_ = c.a.conn.Close()
		}
	case 1:
		e.fault("reset")
		c.hc.reset()
	case 2:
		if !broken {
			if err := c.peer.send(Msg{Type: mClose, Err: []string{"", "see you"}[c.op.L[5]&1]}); err != nil {
				e.fail("send", "%s (%s): close message: %v", c.name, c.tr, err)
			}
			if !waitOr(c.peer.readDone, 30*time.Second) {
				e.fail("end-unnoticed", "%s: the connection does not end after a close message", c.name)
			}
		}
	case 3:
		if !broken {
			if err := c.peer.send(Msg{Type: mInvoke, Target: "AbortMe", Args: []any{99}}); err != nil {
				e.fail("send", "%s (%s): abort: %v", c.name, c.tr, err)
			}
			if !waitOr(c.peer.readDone, 30*time.Second) {
				e.fail("end-unnoticed", "%s: the connection does not end after the server aborted the connection", c.name)
			}
		}
	}
	if c.op.Y >= 2 {
		_ = c.a.conn.Close()
	}
	c.hc.CloseIdleConnections()
}
