package main

import (
	"fmt"
	"net"
	"sync"
	"time"

	"github.com/philippseith/signalr"
)

func init() {
	register(&Scenario{Prop: "C09", Name: "frames-server", Weight: 3, Gen: genFrames, Run: runFramesServer,
		Real: []string{"server", "netConnection", "hub protocols"}, Stub: []string{"TCP stream", "client (scripted)"}})
	register(&Scenario{Prop: "C09", Name: "frames-client", Weight: 2, Gen: genFrames, Run: runFramesClient,
		Real: []string{"client", "netConnection", "hub protocols"}, Stub: []string{"TCP stream", "server (scripted)"}})
	register(&Scenario{Prop: "C09", Name: "writers", Weight: 2, Gen: genWriters, Run: runWriters,
		Real: []string{"server", "netConnection", "hub protocols"}, Stub: []string{"TCP stream", "client (scripted)"}})
	register(&Scenario{Prop: "C09", Name: "writers-client", Weight: 1, Gen: genWriters, Run: runWritersClient,
		Real: []string{"client", "netConnection", "hub protocols"}, Stub: []string{"TCP stream", "server (scripted)"}})
}

// segConn cuts the bytes that are written into pieces of its own, so that one
// read of the other side returns exactly one piece.
type segConn struct {
	net.Conn
	mu   sync.Mutex
	cond *sync.Cond
	buf  []byte
	stop bool
	idle bool
}

// newSegConn starts to pass on what is written. mode is how: 0 everything
// that was written so far, 1 byte by byte, 2 pieces around the borders of
// writes, 3 random pieces, 4 a fixed size, 5 one huge piece first.
func newSegConn(e *Env, c *simConn, mode int, seed int) *segConn {
	s := &segConn{Conn: c}
	s.cond = sync.NewCond(&s.mu)
	c.out.mu.Lock()
	c.out.exact = true
	c.out.mu.Unlock()
	r := newRand(uint64(seed))
	fixed := r.pick(2, 3, 5, 7, 16, 127, 128, 129, 1000, 32767, 32768, 32769)
	first := true
	go func() {
		for {
			s.mu.Lock()
			for len(s.buf) == 0 && !s.stop {
				s.cond.Wait()
			}
			if s.stop {
				s.mu.Unlock()
				return
			}
			if first && (mode == 5 || mode == 0) {
				// let the writers fill the buffer
				s.mu.Unlock()
				time.Sleep(2 * time.Millisecond)
				s.mu.Lock()
				first = false
			}
			n := len(s.buf)
			switch mode {
			case 1:
				n = 1
			case 2:
				n = r.in(1, 3)
				if r.p(30) {
					n = len(s.buf) - r.n(4)
				}
			case 3:
				n = r.in(1, r.pick(2, 10, 100, 1000, 40000))
			case 4:
				n = fixed
			}
			if len(s.buf) > 3000 && r.p(70) { // or it takes forever
				n = max(n, len(s.buf)/50)
			}
			n = max(1, min(n, len(s.buf)))
			p := append([]byte(nil), s.buf[:n]...)
			s.buf = s.buf[n:]
			s.mu.Unlock()
			e.fault("segment")
			if _, err := s.Conn.Write(p); err != nil {
				return
			}
			if mode != 0 && r.p(20) {
				time.Sleep(time.Duration(r.n(200)) * time.Microsecond)
			}
		}
	}()
	e.cleanup(func() {
		s.mu.Lock()
		s.stop = true
		s.cond.Broadcast()
		s.mu.Unlock()
	})
	return s
}

func (s *segConn) Write(p []byte) (int, error) {
	s.mu.Lock()
	s.buf = append(s.buf, p...)
	s.cond.Broadcast()
	s.mu.Unlock()
	return len(p), nil
}

func genFrames(r *Rand) *Plan {
	p := &Plan{Cfg: map[string]int{}}
	p.schedule(r)
	p.network(r)
	p.Cfg["n_seg"] = 0
	p.Cfg["n_delay"] = 0
	p.Cfg["n_buf"] = 1 << 20
	if p.Cfg["s_sitemax"] > 500 { // per piece
		p.Cfg["s_sitemax"] = 500
	}
	p.Cfg["mp"] = r.b(50)
	p.Cfg["style"] = r.n(16)
	p.Cfg["percon"] = 0
	p.Cfg["batch"] = r.pick(1, 3, 1000, 1000)
	p.Cfg["mode"] = r.n(6)
	p.Cfg["segseed"] = r.n(1 << 30)
	p.Cfg["together"] = r.b(60) // messages follow the handshake without a pause
	n := r.in(1, 20)
	span := r.pick(1, 1000, 20000)
	pads := r.pick(0, 10, 60)
	padded, room := 0, 300000
	if m := p.Cfg["mode"]; m != 0 && m != 5 { // many pieces
		room = 34000
	}
	huge := p.b("mp") && (p.Cfg["mode"] == 0 || p.Cfg["mode"] == 5) && r.p(5)
	for i := 0; i < n; i++ {
		op := genInvokeOp(r, 200)
		switch {
		case r.p(pads):
			op = Op{K: "pad", X: max(1, r.pick(60, 127, 128, 255, 256, 16383, 16384, 32768, 65536)-r.n(110))}
			if r.p(3) {
				op.X = 150000
			}
			for padded+op.X > room && op.X > 300 {
				op.X = op.X / 4
			}
			if huge && r.p(20) {
				op.X = 1<<21 - r.n(110)
				huge = false
			}
			padded += op.X
		case r.p(20):
			op = Op{K: "upl", Z: r.n(1 << 20)}
		case r.p(20):
			op = Op{K: r.picks("mix", "alt", "nullarg", "noargs", "blobs"), X: r.in(1, 50), Y: r.in(-50, 50), Z: r.n(1 << 20)}
		}
		if p.b("mp") && r.p(4) {
			op.K = "keys"
		}
		op.T = int64(r.n(span))
		op.A = r.pick(0, 0, 0, 1)
		op.S = r.picks("", "", "", "ping", "odd")
		p.Ops = append(p.Ops, op)
	}
	return p
}

func framesOpts() []func(signalr.Party) error {
	return []func(signalr.Party) error{signalr.TimeoutInterval(300 * time.Second), signalr.MaximumReceiveMessageSize(1 << 24),
		signalr.StreamBufferCapacity(4), signalr.ChanReceiveTimeout(60 * time.Second),
		signalr.WithAlternateMethodName("Renamed", "other.name")}
}

func runFramesServer(e *Env) {
	w := newWorld(e)
	p := e.plan
	srv := w.server(w.ctx, 0, framesOpts()...)
	a, b := newStream(e, w.cfg, "cli", "srv")
	sc := w.serve(srv, b)
	peer := newRawPeer(e, newSegConn(e, a, p.c("mode"), p.c("segseed")), w.proto, "cli")
	peer.style = p.c("style")
	peer.start(true)
	if err := peer.write(handshakeRequest(w.proto)); err != nil {
		e.fail("connect", "handshake: %v", err)
		return
	}
	if !p.b("together") {
		if err := peer.waitHandshake(20 * time.Second); err != nil {
			e.fail("connect", "handshake: %v", err)
			return
		}
	}
	w.dispatch(peer, func() (bool, error) {
		select {
		case <-sc.done:
			return true, sc.err
		default:
			return false, nil
		}
	})
	if peer.hs != "{}" {
		e.fail("handshake-answer", "the handshake was answered with %q", peer.hs)
	}
}

func runFramesClient(e *Env) {
	w := newWorld(e)
	p := e.plan
	rc := &Receiver{w: w}
	a, b := newStream(e, w.cfg, "cli", "srv")
	cl := w.client(w.ctx, a, append(framesOpts(), signalr.WithReceiver(rc))...)
	peer := newRawPeer(e, newSegConn(e, b, p.c("mode"), p.c("segseed")), w.proto, "srv")
	peer.style = p.c("style")
	cl.Start()
	if _, err := readHandshakeRequest(b); err != nil {
		e.fail("connect", "handshake: %v", err)
		return
	}
	peer.start(false)
	_ = peer.write([]byte("{}\x1e"))
	if !p.b("together") {
		if err := w.waitConnected(cl, time.Minute); err != nil {
			e.fail("connect", "client did not connect: %v", err)
			return
		}
	}
	w.dispatch(peer, func() (bool, error) { return cl.State() != signalr.ClientConnected, cl.Err() })
	cl.Stop()
}

// ---- concurrent writers ----

func genWriters(r *Rand) *Plan {
	p := &Plan{Cfg: map[string]int{}}
	p.schedule(r)
	p.network(r)
	p.Cfg["s_yield"] = r.pick(3276, 16384, 32768)
	p.Cfg["mp"] = r.b(50)
	p.Cfg["percon"] = 0
	p.Cfg["ka"] = r.pick(0, 0, 2, 10) // keep-alive interval in ms
	if p.Cfg["ka"] > 0 {              // a slow link is busy with pings
		p.Cfg["n_delay"] = 0
		p.Cfg["n_buf"] = max(p.Cfg["n_buf"], 4096)
	}
	p.Cfg["stall"] = r.pick(0, 0, 5000)
	huge := p.Cfg["n_seg"] == 0 && p.Cfg["n_delay"] == 0 && p.Cfg["n_buf"] == 0 && p.Cfg["ka"] == 0 && r.p(20)
	n := r.in(2, 24)
	span := r.pick(1, 200, 5000)
	for i := 0; i < n; i++ {
		op := Op{K: r.picks("big", "echo", "rec", "pull", "cast", "cast", "castgroup", "upl", "send"), X: r.in(0, 40), Y: r.in(0, 400), Z: r.n(1 << 20)}
		if op.K == "big" {
			op.X = r.pick(1, 100, 1000, 5000, 16384-r.n(60), 32768-r.n(60))
			if huge && r.p(20) {
				op.X = 1<<21 - r.n(60)
				huge = false
			}
		}
		if (op.K == "cast" || op.K == "castgroup") && r.p(10) {
			op.Y = 16384 - r.n(60)
		}
		op.T = int64(r.n(span))
		p.Ops = append(p.Ops, op)
	}
	return p
}

func writersOpts(p *Plan) []func(signalr.Party) error {
	o := framesOpts()
	if ka := p.c("ka"); ka > 0 {
		o = append(o, signalr.KeepAliveInterval(ms(ka)))
	}
	return o
}

// runWriters lets many goroutines of the server write to one client.
func runWriters(e *Env) {
	w := newWorld(e)
	p := e.plan
	srv := w.server(w.ctx, 0, writersOpts(p)...)
	peer, _, _ := w.rawClient(srv, "cli", w.proto)
	if err := peer.handshake(20 * time.Second); err != nil {
		e.fail("connect", "handshake: %v", err)
		return
	}
	_ = peer.send(Msg{Type: mInvoke, ID: "j", HasID: true, Target: "Join", Args: []any{9999, "g"}})
	if !peer.waitMsgs(1, time.Minute, func(m Msg) bool { return m.Type == mCompl && m.ID == "j" }) {
		e.fail("connect", "no answer to Join")
		return
	}
	if s := p.c("stall"); s > 0 {
		peer.pause(time.Duration(s) * time.Microsecond)
	}
	base := e.us()
	var wg sync.WaitGroup
	for i, op := range p.Ops {
		tag := i + 1
		id := fmt.Sprintf("id%d", tag)
		wg.Add(1)
		go func() {
			defer wg.Done()
			e.sleepUntilUs(base + op.T)
			switch op.K {
			case "big", "echo", "rec":
				sp := dispatchSpec(w.proto, op, tag)
				_ = peer.write(encode(w.proto, Msg{Type: mInvoke, ID: id, HasID: true, Target: sp.method, Args: sp.args}, 0))
			case "pull":
				_ = peer.write(encode(w.proto, Msg{Type: mStream, ID: id, HasID: true, Target: "Count", Args: []any{tag, op.X, op.Y}}, 0))
			case "upl", "send":
				sp := dispatchSpec(w.proto, Op{K: "echo", Z: op.Z}, tag)
				_ = peer.write(encode(w.proto, Msg{Type: mInvoke, ID: id, HasID: true, Target: sp.method, Args: sp.args}, 0))
			case "cast":
				srv.HubClients().All().Send("cast", tag, bigString(tag, op.Y))
			case "castgroup":
				srv.HubClients().Group("g").Send("cast", tag, bigString(tag, op.Y))
			}
		}()
	}
	wg.Wait()
	e.count("writers", len(p.Ops))
	total := 1
	for _, op := range p.Ops {
		total++
		if op.K == "pull" {
			total += op.X
		}
	}
	waitCond(240*time.Second, func() bool { return peer.closed() || peer.payloads() >= total })
	time.Sleep(100 * time.Millisecond)
	if peer.closed() {
		e.fail("connection-lost", "the connection was closed: %v", peer.readErr)
		return
	}
	for i, op := range p.Ops {
		tag := i + 1
		id := fmt.Sprintf("id%d", tag)
		switch op.K {
		case "cast", "castgroup":
			l := peer.casts(tag)
			if len(l) != 1 {
				e.fail("written-messages", "the broadcast %d arrived %d times", tag, len(l))
			} else if len(l[0].Args) != 2 || canon(l[0].Args[1]) != canon(bigString(tag, op.Y)) {
				e.fail("written-content", "the broadcast %d arrived as %v", tag, l[0])
			}
		case "pull":
			items := peer.find(func(m Msg) bool { return m.Type == mItem && m.ID == id })
			if len(items) != op.X {
				e.fail("written-messages", "stream %d has %d items, want %d", tag, len(items), op.X)
				break
			}
			for k, m := range items {
				if canon(m.Item) != canon(tag*1000+k) {
					e.fail("written-content", "item %d of stream %d is %v", k, tag, m)
					break
				}
			}
			if c := peer.completions(id); len(c) != 1 || c[0].Err != "" {
				e.fail("written-messages", "the completions of stream %d are %v", tag, c)
			}
		default:
			k := op
			if op.K == "upl" || op.K == "send" {
				k.K = "echo"
			}
			c := peer.completions(id)
			if len(c) != 1 {
				e.fail("written-messages", "invocation %d has %d completions", tag, len(c))
				break
			}
			w.checkCompletion(fmt.Sprintf("invocation %d", tag), dispatchSpec(w.proto, k, tag), c[0])
		}
	}
}

// casts returns the invocations with that tag as first argument.
func (p *rawPeer) casts(tag int) []Msg {
	want := canon(tag)
	return p.find(func(m Msg) bool {
		return m.Type == mInvoke && len(m.Args) > 0 && canon(m.Args[0]) == want
	})
}

// runWritersClient lets many goroutines of the client write.
func runWritersClient(e *Env) {
	w := newWorld(e)
	p := e.plan
	x := newRawServer(w, nil, append(writersOpts(p), signalr.WithReceiver(&Receiver{w: w}))...)
	if x == nil {
		return
	}
	if s := p.c("stall"); s > 0 {
		x.peer.pause(time.Duration(s) * time.Microsecond)
	}
	base := e.us()
	var wg sync.WaitGroup
	for i, op := range p.Ops {
		tag := i + 1
		wg.Add(1)
		go func() {
			defer wg.Done()
			e.sleepUntilUs(base + op.T)
			switch op.K {
			case "upl":
				ch := make(chan int, 1)
				x.cl.PushStreams("Upload", tag, ch)
				for k := 0; k < op.X; k++ {
					ch <- tag*1000 + k
				}
				close(ch)
			case "pull":
				x.cl.PullStream("Count", tag, bigString(tag, op.Y))
			case "send", "cast", "castgroup":
				x.cl.Send("Echo", tag, bigString(tag, op.Y))
			case "big":
				// a result of a receiver method
				_ = x.peer.write(encode(w.proto, Msg{Type: mInvoke, ID: fmt.Sprintf("id%d", tag), HasID: true, Target: "Big", Args: []any{tag, op.X}}, 0))
			default:
				x.cl.Invoke("Echo", tag, bigString(tag, op.Y))
			}
		}()
	}
	wg.Wait()
	e.count("writers", len(p.Ops))
	total := 0
	for _, op := range p.Ops {
		total++
		if op.K == "upl" {
			total += op.X + 1
		}
	}
	all := func(m Msg) bool { return m.Type != mPing }
	waitCond(240*time.Second, func() bool { return x.peer.closed() || x.peer.payloads() >= total })
	time.Sleep(100 * time.Millisecond)
	if x.peer.closed() {
		e.fail("connection-lost", "the client closed the connection: %v", x.cl.Err())
		return
	}
	if n := len(x.peer.find(all)); n != total {
		e.fail("written-messages", "%d messages arrived, want %d", n, total)
	}
	for i, op := range p.Ops {
		tag := i + 1
		if op.K == "big" {
			c := x.peer.completions(fmt.Sprintf("id%d", tag))
			if len(c) != 1 {
				e.fail("written-messages", "invocation %d has %d completions", tag, len(c))
			} else {
				w.checkCompletion(fmt.Sprintf("invocation %d", tag), dispatchSpec(w.proto, op, tag), c[0])
			}
			continue
		}
		want := canon(tag)
		l := x.peer.find(func(m Msg) bool {
			return (m.Type == mInvoke || m.Type == mStream) && len(m.Args) > 0 && canon(m.Args[0]) == want
		})
		if len(l) != 1 {
			e.fail("written-messages", "invocation %d arrived %d times", tag, len(l))
			continue
		}
		m := l[0]
		if op.K == "upl" {
			if len(m.StreamIDs) != 1 {
				e.fail("written-content", "upload %d arrived as %v", tag, m)
				continue
			}
			items := x.peer.find(func(o Msg) bool { return o.Type == mItem && o.ID == m.StreamIDs[0] })
			for k, it := range items {
				if canon(it.Item) != canon(tag*1000+k) {
					e.fail("written-content", "item %d of upload %d is %v", k, tag, it)
					break
				}
			}
			if c := x.peer.completions(m.StreamIDs[0]); len(items) != op.X || len(c) != 1 || c[0].Err != "" {
				e.fail("written-messages", "upload %d has %d items, want %d, and completions %v", tag, len(items), op.X, c)
			}
			continue
		}
		if (m.Type == mStream) != (op.K == "pull") || len(m.Args) != 2 || canon(m.Args[1]) != canon(bigString(tag, op.Y)) {
			e.fail("written-content", "invocation %d (%s) arrived as %v", tag, op.K, m)
		}
	}
	x.cl.Stop()
}
