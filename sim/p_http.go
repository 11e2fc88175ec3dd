package main

import (
	"context"
	"fmt"
	"runtime"
	"strings"
	"sync"
	"time"

	"github.com/philippseith/signalr"
)

func init() {
	register(&Scenario{Prop: "C16", Name: "http-full", Weight: 3, Gen: genHTTPFull, Run: runHTTPFull,
		Real: []string{"client", "httpConnection", "clientSSEConnection", "serverSSEConnection", "webSocketConnection", "httpMux", "router adapters", "server", "net/http server and client", "coder/websocket", "hub protocols"},
		Stub: []string{"TCP streams"}})
}

// content is a text that is not easy to transport.
func content(kind, n, tag int) string {
	piece := []string{"", "data: x\n\n", "\r\n", "\x1e", "ünï¢ödé €", "{\"type\":7}\x1e", "\\\"\u2028", "data:\n", "\x00\x01\x7f", ": comment\n\nevent: close\n\n", "<&>", "𝄞", "    "}[kind%13]
	if piece == "" {
		return bigString(tag, n)
	}
	s := fmt.Sprintf("%d-", tag) + strings.Repeat(piece, n/len(piece)+1)
	r := []rune(s)
	for len(string(r)) > n && len(r) > 1 {
		r = r[:len(r)-max(1, (len(string(r))-n)/4)]
	}
	return string(r)
}

func genHTTPFull(r *Rand) *Plan {
	p := &Plan{Cfg: map[string]int{}}
	p.schedule(r)
	p.network(r)
	p.Cfg["router"] = r.pick(0, 0, 0, 1, 2, 3)
	if p.Cfg["n_buf"] == 256 {
		p.Cfg["n_buf"] = 2048
	}
	p.Cfg["mp"] = r.b(35)
	p.Cfg["percon"] = r.b(30)
	p.Cfg["limit"] = r.pick(0, 0, 4096, 100000)
	limit := p.Cfg["limit"]
	if limit == 0 {
		limit = 1 << 15
	}
	nc := r.in(1, 3)
	span := r.pick(1, 1000, 100000, 1000000)
	for c := 0; c < nc; c++ {
		tr := r.pick(0, 0, 1, 1, 1)
		p.Ops = append(p.Ops, Op{K: "cli", A: c, X: tr, Y: r.pick(-1, 0, 1), Z: r.pick(0, 0, 0, 0, r.in(1, 4000)), T: int64(r.pick(0, 0, r.n(50000)))})
		m := r.in(0, 8)
		if r.p(15) {
			m = r.in(10, 25)
		}
		at := r.n(span)
		for i := 0; i < m; i++ {
			if r.p(50) {
				at = r.n(span)
			}
			op := Op{K: r.picks("echo", "echo", "echo", "pull", "push", "send", "add"), A: c, T: int64(at), X: r.n(13), Y: r.pick(1, 10, 200, 3000, limit/8, limit/2)}
			switch op.K {
			case "echo":
				if op.X%12 != 0 {
					op.Y = min(op.Y, (limit-300)/8)
				} else if r.p(20) {
					op.Y = limit - 250 + r.n(50)
				}
			case "pull":
				op.X, op.Y = r.n(12), r.pick(0, 0, 1000, 30000)
			case "push":
				op.X, op.Y = r.n(8), r.pick(0, 0, 1000, 30000)
			}
			p.Ops = append(p.Ops, op)
		}
		if r.p(60) {
			p.Ops = append(p.Ops, Op{K: "end", A: c, T: int64(r.n(span + 200000)), X: r.in(1, 6)})
		}
	}
	for i := r.pick(0, 0, 1, 3, 10); i > 0; i-- {
		p.Ops = append(p.Ops, Op{K: "say", T: int64(r.n(span + 100000)), A: r.in(-1, nc-1), X: r.n(13), Y: min(r.pick(1, 100, 2000, 4000), (limit-300)/8)})
		if op := &p.Ops[len(p.Ops)-1]; op.X == 12 && r.p(50) {
			op.Y = limit - 300
		}
	}
	if r.p(15) {
		p.Ops = append(p.Ops, Op{K: "cancel", T: int64(r.n(span + 200000))})
	}
	return p
}

// httpCli is one real client over HTTP.
type httpCli struct {
	i       int
	name    string
	hc      *httpClient
	cl      signalr.Client
	cancel  context.CancelFunc
	id      string
	up      bool
	mu      sync.Mutex
	struck  bool  // something ended it, or may have
	silent  bool  // in a way the other side cannot see
	upUs    int64 // connected, and its id is known
	endUs   int64
	endKind int
}

func (c *httpCli) strike(kind int, now int64) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if !c.struck {
		c.struck, c.endUs, c.endKind = true, now, kind
	}
}

func (c *httpCli) broken() bool {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.struck || c.hc.cutAt > 0 || c.hc.cutBk > 0
}

func runHTTPFull(e *Env) {
	w := newWorld(e)
	p := e.plan
	h := newHTTPNet(w)
	var lim []func(signalr.Party) error
	if l := p.c("limit"); l > 0 {
		lim = append(lim, signalr.MaximumReceiveMessageSize(uint(l)))
	}
	sctx, scancel := context.WithCancel(w.ctx)
	srv := w.server(sctx, 0, lim...)
	h.mapHub(srv)
	base := e.us()
	clis := map[int]*httpCli{}
	ready := map[int]chan struct{}{}
	for _, op := range p.Ops {
		if op.K == "cli" {
			c := &httpCli{i: op.A, name: fmt.Sprintf("c%d", op.A)}
			c.hc = h.client(c.name)
			if op.Z > 0 && op.Z%2 == 0 {
				c.hc.cutAt = int64(op.Z + 150)
			} else if op.Z > 0 {
				c.hc.cutBk = int64(op.Z + 150)
			}
			clis[op.A] = c
			ready[op.A] = make(chan struct{})
		}
	}
	type said struct {
		tag, to        int
		text           string
		startUs, endUs int64
	}
	var mu sync.Mutex
	var says []*said
	var checks []func()
	var outs []*outcome
	check := func(o *outcome, f func()) {
		mu.Lock()
		outs = append(outs, o)
		checks = append(checks, f)
		mu.Unlock()
	}
	var wg sync.WaitGroup
	for i, op := range p.Ops {
		op, tag := op, 100+i
		wg.Add(1)
		go func() {
			defer wg.Done()
			if op.K == "cli" {
				e.sleepUntilUs(base + op.T)
				w.httpConnect(clis[op.A], op, lim)
				close(ready[op.A])
				return
			}
			c := clis[op.A]
			if c == nil && op.A >= 0 {
				return
			}
			if c != nil {
				<-ready[op.A]
				if !c.up {
					return
				}
				e.sleepUntilUs(c.upUs + op.T)
			} else {
				e.sleepUntilUs(base + op.T)
			}
			name := ""
			if c != nil {
				name = fmt.Sprintf("%s#%d", c.name, tag)
			}
			switch op.K {
			case "echo":
				s := content(op.X, op.Y, tag)
				sp := invokeSpec{method: "Echo", args: []any{tag, s}, seen: canon(s), want: canon(s), runs: true}
				o := w.watch(name, c.cl.Invoke("Echo", tag, s), 0)
				check(o, func() {
					w.checkInvoke(name, o, sp, c.broken())
					w.checkRuns(name, tag, "Echo", sp.seen, c.broken())
				})
			case "add":
				o := w.watch(name, c.cl.Invoke("Add", tag, 3, 4), 0)
				check(o, func() {
					w.checkInvoke(name, o, invokeSpec{method: "Add", want: "7"}, c.broken())
					w.checkRuns(name, tag, "Add", "3,4", c.broken())
				})
			case "send":
				o := w.watchErr(name, c.cl.Send("Void", tag))
				check(o, func() {
					items, _ := o.snap()
					if len(items) > 0 && items[0].Error != nil && !c.broken() {
						e.fail("send-failed", "%s: %v", name, items[0].Error)
					}
					w.checkRuns(name, tag, "Void", "", c.broken() || len(items) > 0 && items[0].Error != nil)
				})
			case "pull":
				o := w.watch(name, c.cl.PullStream("Count", tag, op.X, op.Y), 0)
				sp := pullSpec{method: "Count"}
				for k := 0; k < op.X; k++ {
					sp.items = append(sp.items, canon(tag*1000+k))
				}
				check(o, func() { w.checkPull(name, o, sp, c.broken()) })
			case "push":
				ch := make(chan int)
				go func() {
					defer close(ch)
					for k := 0; k < op.X; k++ {
						time.Sleep(time.Duration(op.Y) * time.Microsecond)
						select {
						case ch <- tag*1000 + k:
						case <-time.After(10 * time.Minute):
							return
						}
					}
				}()
				sp := pushSpec{method: "Upload"}
				l := []int{}
				for k := 0; k < op.X; k++ {
					sp.items[0] = append(sp.items[0], fmt.Sprint(tag*1000+k))
					l = append(l, tag*1000+k)
				}
				sp.want = canon(l)
				o := w.watch(name, c.cl.PushStreams("Upload", tag, ch), 0)
				check(o, func() { w.checkPush(name, tag, o, sp, [2]bool{true, true}, c.broken()) })
			case "say":
				s := &said{tag: tag, to: op.A, text: content(op.X, op.Y, tag), startUs: e.us()}
				mu.Lock()
				says = append(says, s)
				mu.Unlock()
				if op.A < 0 {
					srv.HubClients().All().Send("OnMsg", tag, s.text)
				} else {
					srv.HubClients().Client(c.id).Send("OnMsg", tag, s.text)
				}
				mu.Lock()
				s.endUs = e.us()
				mu.Unlock()
			case "end":
				c.strike(op.X, e.us())
				e.fault("http-end-" + []string{"", "stop", "abort", "close", "reset", "blackhole", "cancel"}[op.X])
				switch op.X {
				case 1:
					c.cl.Stop()
				case 2:
					c.cl.Send("AbortMe", tag)
				case 3:
					c.cl.Send("CloseMe", tag, "bye", false)
				case 4:
					c.hc.reset()
				case 5:
					c.silent = true
					c.hc.blackhole()
				case 6:
					c.cancel()
				}
			case "cancel":
				for _, c := range clis {
					c.strike(7, e.us())
				}
				e.fault("server-cancel")
				scancel()
			}
		}()
	}
	fin := make(chan struct{})
	go func() { wg.Wait(); close(fin) }()
	if !waitOr(fin, 15*time.Minute) {
		e.fail("call-blocks", "a call of the library did not return")
		return
	}
	mu.Lock()
	all := append([]*outcome(nil), outs...)
	mu.Unlock()
	await(3*time.Minute, all...)
	for _, f := range checks {
		f()
	}
	// messages from the server: they may take their time
	missing := func() bool {
		mu.Lock()
		defer mu.Unlock()
		for _, s := range says {
			for _, c := range clis {
				if (s.to < 0 || s.to == c.i) && c.up && c.upUs <= s.startUs && !c.broken() {
					got := false
					for _, k := range w.callsOf("OnMsg", s.tag) {
						got = got || k.Conn == c.name
					}
					if !got {
						return true
					}
				}
			}
		}
		return false
	}
	for i := 0; i < 60 && missing(); i++ {
		time.Sleep(time.Second)
	}
	time.Sleep(time.Second)
	mu.Lock()
	for _, s := range says {
		for _, c := range clis {
			var got []Call
			for _, k := range w.callsOf("OnMsg", s.tag) {
				if k.Conn == c.name {
					got = append(got, k)
				}
			}
			if len(got) > 1 {
				e.fail("message-twice", "%s received message %d %d times", c.name, s.tag, len(got))
			}
			for _, k := range got {
				if k.Args != s.text {
					e.fail("message-changed", "%s received %q instead of %q", c.name, trunc(k.Args, 200), trunc(s.text, 200))
				}
				if s.to >= 0 && s.to != c.i {
					e.fail("message-astray", "%s received message %d", c.name, s.tag)
				}
			}
			if len(got) == 0 && (s.to < 0 || s.to == c.i) && c.up && c.upUs <= s.startUs && !c.broken() {
				e.fail("message-lost", "%s did not receive message %d (%d bytes)", c.name, s.tag, len(s.text))
			}
			e.count("messages", len(got))
		}
	}
	mu.Unlock()
	// both sides notice the end
	for i := 0; i < len(clis); i++ {
		c := clis[i]
		if c == nil || !c.up {
			continue
		}
		if c.broken() {
			if !c.struck {
				continue // the planned cut may not have happened
			}
			e.count("ended", 1)
			w.httpEnded(c, 100*time.Second)
		} else if c.cl.State() != signalr.ClientConnected {
			e.fail("disturbed", "%s is not connected anymore, for no reason: %v", c.name, c.cl.Err())
		} else {
			c.strike(1, e.us())
			c.cl.Stop()
			e.count("stopped", 1)
			w.httpEnded(c, 20*time.Second)
		}
	}
	e.count("checked", 1)
	// lost packets: some day the operating systems give up
	for _, c := range clis {
		if c.silent || c.hc.cutAt > 0 || c.hc.cutBk > 0 {
			c.hc.heal()
			c.hc.reset()
			if c.cl != nil {
				c.cl.Stop()
			}
			c.cancel()
		}
	}
	scancel()
	w.leftBehind(2 * time.Minute)
}

// checkRuns checks that a call was executed exactly once and unchanged.
func (w *World) checkRuns(name string, tag int, method, seen string, broken bool) {
	l := w.callsOf(method, tag)
	if len(l) > 1 {
		w.e.fail("executed-twice", "%s: %s was executed %d times", name, method, len(l))
	}
	if len(l) == 0 && !broken {
		w.e.fail("not-executed", "%s: %s was not executed", name, method)
	}
	for _, k := range l {
		if k.Args != seen {
			w.e.fail("changed", "%s: the hub got %q instead of %q", name, trunc(k.Args, 200), trunc(seen, 200))
		}
	}
}

func (w *World) httpConnect(c *httpCli, op Op, lim []func(signalr.Party) error) {
	e := w.e
	ctx, cancel := context.WithCancel(w.ctx)
	c.cancel = cancel
	tr := []signalr.TransportType{signalr.TransportWebSockets, signalr.TransportServerSentEvents}[op.X%2]
	mp := e.plan.b("mp") && op.X%2 == 0
	var conn signalr.Connection
	var err error
	dctx, dcancel := context.WithTimeout(ctx, time.Minute)
	switch {
	case op.Y < 0:
		conn, err = signalr.NewHTTPConnection(dctx, hubURL, signalr.WithHTTPClient(&c.hc.Client), signalr.WithTransports(tr))
	default:
		conn, err = signalr.NewHTTPConnection(dctx, hubURL, signalr.WithHTTPClient(&c.hc.Client), signalr.WithTransports(tr), signalr.WithNegotiateVersion(op.Y))
	}
	dcancel()
	if err != nil {
		e.log("%s could not connect: %v", c.name, err)
		if !c.broken() {
			e.fail("connect", "%s (%s, version %d): %v", c.name, tr, op.Y, err)
		}
		return
	}
	o := []func(signalr.Party) error{w.logger(), signalr.WithConnection(conn), signalr.WithReceiver(&Receiver{w: w, name: c.name})}
	if mp {
		o = append(o, signalr.TransferFormat(signalr.TransferFormatBinary))
	}
	c.cl, err = signalr.NewClient(ctx, append(o, lim...)...)
	if err != nil {
		panic("HARNESS: " + err.Error())
	}
	c.cl.Start()
	err = w.waitConnected(c.cl, 40*time.Second)
	if err == nil {
		who := w.watch(c.name, c.cl.Invoke("WhoAmI", 1), 0)
		await(60*time.Second, who)
		err = fmt.Errorf("no answer")
		if items, _ := who.snap(); len(items) > 0 {
			err = items[0].Error
			c.id, _ = items[0].Value.(string)
		}
		if c.id != "" && c.id != conn.ConnectionID() {
			e.fail("connection-id", "%s (%s, version %d): the server knows it as %s, the client as %s", c.name, tr, op.Y, c.id, conn.ConnectionID())
		}
	}
	if err != nil || c.id == "" {
		e.log("%s: %v", c.name, err)
		if !c.broken() {
			e.fail("connect", "%s (%s, version %d): %v", c.name, tr, op.Y, err)
		}
		return
	}
	e.log("%s is %s over %s", c.name, short(c.id), tr)
	c.upUs = e.us()
	c.up = true
	e.count("connected", 1)
}

// httpEnded waits for both sides to notice the end of the connection.
func (w *World) httpEnded(c *httpCli, d time.Duration) {
	e := w.e
	if !waitCond(d, func() bool { return c.cl.State() == signalr.ClientClosed }) {
		e.fail("end-unnoticed", "%s did not notice the end of its connection (kind %d, state %v)", c.name, c.endKind, c.cl.State())
	}
	if !waitCond(d, func() bool {
		w.mu.Lock()
		defer w.mu.Unlock()
		return w.connDown[c.id] > 0
	}) {
		e.fail("end-unnoticed", "the server did not notice the end of the connection of %s (kind %d)", c.name, c.endKind)
	}
}

// leftBehind looks for goroutines of the library that are still there when
// all connections have ended.
func (w *World) leftBehind(d time.Duration) {
	time.Sleep(d)
	b := make([]byte, 4<<20)
	b = b[:runtime.Stack(b, true)]
	for _, g := range strings.Split(string(b), "\n\n") {
		if !strings.Contains(g, "philippseith/signalr.") || strings.Contains(g, "main.") || strings.Contains(g, "runtime.Sim") {
			continue
		}
		w.e.fail("left-behind", "a goroutine of the library does not end:\n%s", trunc(g, 1200))
		return
	}
}
