package main

import (
	"context"
	"fmt"
	"net"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/cenkalti/backoff/v4"
	"github.com/philippseith/signalr"
)

func init() {
	register(&Scenario{Prop: "C12", Name: "end-server", Weight: 3, Gen: genEndServer, Run: runEndServer,
		Real: []string{"server", "message loop", "netConnection", "hub protocols"}, Stub: []string{"TCP stream", "client (scripted)"}})
	register(&Scenario{Prop: "C12", Name: "end-client", Weight: 3, Gen: genEndClient, Run: runEndClient,
		Real: []string{"client", "message loop", "netConnection", "hub protocols"}, Stub: []string{"TCP stream", "server (scripted)"}})
	register(&Scenario{Prop: "C12", Name: "end-both", Weight: 2, Gen: genEndBoth, Run: runEndBoth,
		Real: []string{"server", "client", "message loop", "netConnection", "hub protocols"}, Stub: []string{"TCP stream"}})
}

// libGoroutines returns the goroutines that run code of the library, without
// those that run methods of the application.
func libGoroutines(except ...string) (l []string) {
	buf := make([]byte, 4<<20)
	buf = buf[:runtime.Stack(buf, true)]
next:
	for _, g := range strings.Split(string(buf), "\n\n") {
		if i := strings.Index(g, "\ncreated by "); i >= 0 {
			g = g[:i]
		}
		if !strings.Contains(g, "philippseith/signalr.") || strings.Contains(g, "libGoroutines") {
			continue
		}
		for _, x := range append(except, "main.(*SimHub).", "main.(*Receiver).") {
			if strings.Contains(g, x) {
				continue next
			}
		}
		var f []string
		for _, line := range strings.Split(g, "\n") {
			if i := strings.LastIndex(line, "philippseith/signalr."); i >= 0 && !strings.HasPrefix(line, "\t") {
				line = line[i+len("philippseith/signalr."):]
				if j := strings.LastIndex(line, "("); j > 0 {
					line = line[:j]
				}
				f = append(f, line)
			}
		}
		l = append(l, strings.Join(f, " < "))
	}
	sort.Strings(l)
	return
}

// noLeak waits for all goroutines of the library to end.
func (e *Env) noLeak(when string, d time.Duration, except ...string) {
	end := time.Now().Add(d)
	wait := 100 * time.Millisecond
	for {
		l := libGoroutines(except...)
		if n := runtime.SimTickers(); n > 0 {
			l = append(l, fmt.Sprintf("%d tickers that go on", n))
		}
		if len(l) == 0 || runtime.SimExhausted() {
			return
		}
		if !time.Now().Before(end) {
			e.fail("goroutine-leak", "%d goroutines or tickers are left %v %s: %s", len(l), d, when, strings.Join(l, "; "))
			return
		}
		time.Sleep(wait)
		wait = min(wait*2, 20*time.Second)
	}
}

func genEndServer(r *Rand) *Plan {
	p := &Plan{Cfg: map[string]int{}}
	p.schedule(r)
	p.network(r)
	p.calm()
	p.Cfg["mp"] = r.b(50)
	p.Cfg["percon"] = r.b(50)
	p.Cfg["style"] = r.n(16)
	p.Cfg["stage"] = r.pick(0, 1, 2, 3, 3, 4, 4, 4, 4, 4)
	p.Cfg["mute"] = r.b(25) // the peer does not read
	if p.Cfg["mute"] == 1 || p.Cfg["stage"] == 2 {
		p.Cfg["n_buf"] = r.pick(1, 64, 1000)
		p.Cfg["n_delay"] = 0
		p.Cfg["mute"] = 1
	}
	p.Cfg["hto"] = r.pick(300, 2000, 15000)
	p.Cfg["timeout"] = r.pick(3000, 10000, 30000)
	kinds := []string{"reset", "close", "half", "deaf", "closemsg", "garbage", "abort", "hubclose", "cancel-server", "cancel-conn", "silence"}
	for i := r.pick(1, 1, 2, 3); i > 0; i-- {
		p.Ops = append(p.Ops, Op{K: kinds[r.n(len(kinds))], T: int64(r.pick(r.n(2000), r.n(60000), r.n(60000), r.n(1000000)))})
	}
	for i := r.n(12); p.Cfg["stage"] == 4 && i > 0; i-- {
		p.Ops = append(p.Ops, Op{K: "op", S: r.picks("wait", "count", "fastcount", "upload", "uploadslow", "never", "echo", "send", "big", "early"), T: int64(r.n(60000)), X: r.n(30), Y: r.pick(0, 0, 1)})
	}
	return p
}

// Never returns a channel nobody sends on.
func (h *SimHub) Never(tag int) <-chan int {
	h.w.call(h, "Never", tag, "")
	return make(chan int)
}

// Early does not read its upload.
func (h *SimHub) Early(tag int, ch <-chan int) int {
	h.w.call(h, "Early", tag, "")
	return tag
}

func runEndServer(e *Env) {
	w := newWorld(e)
	p := e.plan
	sctx, scancel := context.WithCancel(w.ctx)
	var hubMu sync.Mutex
	var theHub *SimHub
	w.hubHook = func(h *SimHub, method string, tag int) {
		hubMu.Lock()
		theHub = h
		hubMu.Unlock()
	}
	hto, T := ms(p.c("hto")), ms(p.c("timeout"))
	srv := w.server(sctx, 0, signalr.HandshakeTimeout(hto), signalr.TimeoutInterval(T), signalr.KeepAliveInterval(time.Second), signalr.StreamBufferCapacity(2), signalr.ChanReceiveTimeout(2*time.Second))
	a, b := newStream(e, w.cfg, "cli", "srv")
	sc := w.serve(srv, b)
	peer := newRawPeer(e, a, w.proto, "cli")
	peer.style = p.c("style")
	peer.onMsg = func(m Msg) {
		if m.Type == mClose {
			go func() {
				time.Sleep(time.Millisecond)
				_ = a.Close()
			}()
		}
	}
	if p.b("mute") {
		peer.pause(20 * time.Hour)
	}
	stage := p.c("stage")
	peer.start(true)
	stopAlive := make(chan struct{})
	switch stage {
	case 1:
		_ = peer.write([]byte(`{"protocol":"js`))
	case 2:
		go func() { _ = peer.write(handshakeRequest(w.proto)) }()
	case 3, 4:
		go func() {
			_ = peer.write(handshakeRequest(w.proto))
			for {
				select {
				case <-stopAlive:
					return
				case <-time.After(time.Second):
					if peer.write(encode(w.proto, Msg{Type: mPing}, 0)) != nil {
						return
					}
				}
			}
		}()
		if !p.b("mute") {
			if err := peer.waitHandshake(10 * time.Second); err != nil {
				e.fail("connect", "handshake: %v", err)
				return
			}
			if !waitCond(5*time.Second, func() bool { hubMu.Lock(); defer hubMu.Unlock(); return theHub != nil }) {
				e.fail("connect", "OnConnected did not run")
				return
			}
		}
	}
	base := e.us()
	wait := 6*time.Second + calmSlack // the close message may take 5 seconds
	items := 0
	first, firstAt, nEnds := "", int64(1<<60), 0
	silent := false
	var wlock sync.Mutex
	for i, op := range p.Ops {
		i, op := i, op
		if op.K == "op" {
			tag := i + 1
			go func() {
				e.sleepUntilUs(base + op.T)
				id := ""
				if op.Y == 0 {
					id = fmt.Sprintf("i%d", tag)
				}
				m := Msg{Type: mInvoke, ID: id, HasID: id != "", Args: []any{tag}}
				switch op.S {
				case "wait":
					m.Target, m.Args = "Wait", []any{tag, op.X * 3}
				case "count", "fastcount":
					m.Type, m.ID, m.HasID = mStream, fmt.Sprintf("i%d", tag), true
					m.Target, m.Args = "Count", []any{tag, op.X, map[string]int{"count": 10000, "fastcount": 0}[op.S]}
				case "never":
					m.Target = "Never"
					if m.ID, m.HasID = fmt.Sprintf("i%d", tag), true; op.X%2 == 0 {
						m.Type = mStream
					}
				case "echo":
					m.Target, m.Args = "Echo", []any{tag, "x"}
				case "big":
					m.Target, m.Args = "Big", []any{tag, op.X * 100}
				case "send":
					go srv.HubClients().All().Send("OnMsg", tag, "x")
					return
				case "upload", "uploadslow", "early":
					m.Target, m.StreamIDs = "Upload", []string{fmt.Sprintf("s%d", tag)}
					if op.S == "uploadslow" {
						m.Target, m.Args = "UploadSlow", []any{tag, 700}
					} else if op.S == "early" {
						m.Target = "Early"
					}
				}
				wlock.Lock()
				err := peer.send(m)
				wlock.Unlock()
				if err != nil || m.StreamIDs == nil {
					return
				}
				for k := 0; k < op.X/4; k++ {
					wlock.Lock()
					err := peer.send(Msg{Type: mItem, ID: m.StreamIDs[0], Item: k})
					wlock.Unlock()
					if err != nil {
						return
					}
					time.Sleep(time.Duration(op.X*100) * time.Microsecond)
				}
				if op.X%2 == 0 {
					wlock.Lock()
					_ = peer.send(Msg{Type: mCompl, ID: m.StreamIDs[0]})
					wlock.Unlock()
				}
			}()
			if strings.HasPrefix(op.S, "upload") || op.S == "early" {
				items += op.X / 4
			}
			continue
		}
		nEnds++
		if op.T < firstAt {
			firstAt, first = op.T, op.K
		}
		if op.K == "silence" {
			silent = true
		}
		go func() {
			e.sleepUntilUs(base + op.T)
			e.fault("end-" + op.K)
			e.log("END %s", op.K)
			hubMu.Lock()
			h := theHub
			hubMu.Unlock()
			switch op.K {
			case "reset":
				a.Reset()
			case "close":
				_ = a.Close()
			case "half":
				a.CloseWrite()
			case "deaf":
				a.Deaf()
			case "closemsg":
				_ = peer.send(Msg{Type: mClose, Err: []string{"", "see you"}[p.c("style")&1]})
			case "garbage":
				_ = peer.write([]byte("\x07\x9f\xc1\xc1garb}{\x1e\x07\x9f\xc1\xc1garb}{\x1e"))
			case "abort":
				if h != nil {
					h.Abort()
				}
			case "hubclose":
				if h != nil {
					_ = h.Close("bye", false)
				}
			case "cancel-server":
				scancel()
			case "cancel-conn":
				sc.cancel()
			}
			if op.K == "silence" || h == nil {
				select {
				case <-stopAlive:
				default:
					close(stopAlive)
				}
			}
		}()
	}
	// the latest event ends the connection for sure; a silent peer after its timeout
	var last int64
	sure := false
	for _, op := range p.Ops {
		if op.K == "op" {
			continue
		}
		last = max(last, op.T)
		switch op.K {
		case "reset", "close", "cancel-server", "cancel-conn":
			sure = true
		case "half":
			// what the server writes during the handshake may be stuck
			sure = sure || !p.b("mute")
		case "deaf":
			// noticed with the next ping
			sure = sure || stage >= 2
			wait += 1500 * time.Millisecond
		case "closemsg", "garbage", "abort":
			sure = sure || stage >= 3 && !p.b("mute")
		}
	}
	if !sure {
		// handled when the peer is quiet or does not read
		wait += T + hto
		if !silent {
			go func() {
				e.sleepUntilUs(base + last)
				time.Sleep(2 * time.Second)
				select {
				case <-stopAlive:
				default:
					close(stopAlive)
				}
			}()
			wait += 2 * time.Second
		}
	}
	wait += time.Duration(items) * 2 * time.Second // items nobody takes
	e.sleepUntilUs(base + last)
	if !waitOr(sc.done, wait+10*time.Second) {
		e.fail("serve-hangs", "Serve did not return within %v after the end (stage %d)", wait+10*time.Second, stage)
		scancel()
		return
	}
	if d := time.Duration(sc.endUs-base-last) * time.Microsecond; d > wait {
		e.fail("serve-late", "Serve returned %v after the end (stage %d, allowed %v)", d, stage, wait)
	}
	time.Sleep(time.Second)
	// told why
	if nEnds == 1 && stage >= 3 && !p.b("mute") && (first == "abort" || first == "silence") {
		if l := peer.find(func(m Msg) bool { return m.Type == mClose }); len(l) != 1 || l[0].Err == "" {
			e.fail("end-not-told", "the connection ended (%s), but the peer got no close message with an error: %v", first, l)
		}
	}
	if !p.b("mute") && !waitOr(peer.readDone, 5*time.Second) {
		e.fail("transport-open", "the peer can still read from the connection")
	}
	// pieces of the connection
	w.mu.Lock()
	up, down := w.connUp[sc.id], w.connDown[sc.id]
	w.mu.Unlock()
	if up != down || up > 1 || stage < 2 && up != 0 || stage >= 3 && !p.b("mute") && up != 1 {
		e.fail("end-lifecycle", "OnConnected ran %d times, OnDisconnected %d times (stage %d)", up, down, stage)
	}
	e.noLeak("after the end of the connection", 15*time.Minute)
	scancel()
	select {
	case <-stopAlive:
	default:
		close(stopAlive)
	}
}

func genEndClient(r *Rand) *Plan {
	p := &Plan{Cfg: map[string]int{}}
	p.schedule(r)
	p.network(r)
	p.calm()
	p.Cfg["mp"] = r.b(50)
	p.Cfg["style"] = r.n(16)
	p.Cfg["stage"] = r.pick(0, 1, 2, 3, 4, 4, 4, 4, 5)
	p.Cfg["connector"] = r.b(50)
	if s := p.Cfg["stage"]; s == 0 || s == 5 {
		p.Cfg["connector"] = 1
	}
	p.Cfg["dialms"] = r.n(3000)
	p.Cfg["mute"] = r.b(25)
	if p.Cfg["mute"] == 1 || p.Cfg["stage"] == 3 {
		p.Cfg["n_buf"] = r.pick(1, 40, 1000)
		p.Cfg["n_delay"] = 0
		p.Cfg["mute"] = 1
	}
	p.Cfg["hto"] = r.pick(300, 2000, 15000)
	if p.Cfg["stage"] == 4 {
		p.Cfg["hto"] = 15000
	}
	p.Cfg["timeout"] = r.pick(3000, 10000, 30000)
	p.Cfg["sep"] = r.b(30) // the connection has its own context
	kinds := []string{"stop", "stop", "cancel", "stop"}
	if p.Cfg["connector"] == 0 {
		kinds = append(kinds, "reset", "close", "closemsg", "garbage", "silence", "half", "deaf")
	}
	n := r.pick(1, 1, 2, 3)
	for i := 0; i < n; i++ {
		p.Ops = append(p.Ops, Op{K: kinds[r.n(len(kinds))], T: int64(r.pick(r.n(2000), r.n(60000), r.n(60000), r.n(1000000)))})
	}
	for i := r.n(12); i > 0; i-- {
		p.Ops = append(p.Ops, Op{K: "op", S: r.picks("invoke", "send", "pull", "pull", "push", "push", "echo", "wait"), T: int64(r.n(70000)), X: r.n(30)})
	}
	return p
}

func runEndClient(e *Env) {
	w := newWorld(e)
	p := e.plan
	cctx, ccancel := context.WithCancel(w.ctx)
	connCtx, connCancel := cctx, func() {}
	if p.b("sep") {
		connCtx, connCancel = context.WithCancel(w.ctx)
	}
	defer connCancel()
	hto, T := ms(p.c("hto")), ms(p.c("timeout"))
	stage := p.c("stage")
	opts := []func(signalr.Party) error{signalr.HandshakeTimeout(hto), signalr.TimeoutInterval(T), signalr.KeepAliveInterval(time.Second), signalr.WithReceiver(&Receiver{w: w}), w.logger()}
	if w.proto == "messagepack" {
		opts = append(opts, signalr.TransferFormat(signalr.TransferFormatBinary))
	}
	var mu sync.Mutex
	var conns []*simConn // server ends
	var peers []*rawPeer
	stopAlive := make(chan struct{})
	closeAlive := sync.OnceFunc(func() { close(stopAlive) })
	accept := func(b *simConn) {
		peer := newRawPeer(e, b, w.proto, "srv")
		peer.style = p.c("style")
		mu.Lock()
		conns = append(conns, b)
		peers = append(peers, peer)
		mu.Unlock()
		peer.onMsg = func(m Msg) {
			switch {
			case m.Type == mClose:
				go func() {
					time.Sleep(time.Millisecond)
					_ = b.Close()
				}()
			case m.Target == "Echo":
				go func() { _ = peer.send(Msg{Type: mCompl, ID: m.ID, Result: m.Args[1], HasResult: true}) }()
			case m.Type == mStream:
				go func() {
					for i := 0; i < 5; i++ {
						if peer.send(Msg{Type: mItem, ID: m.ID, Item: i}) != nil {
							return
						}
						time.Sleep(3 * time.Millisecond)
					}
				}()
			}
		}
		if stage == 3 || p.b("mute") && stage >= 3 {
			peer.pause(20 * time.Hour)
		}
		go func() {
			if stage == 3 {
				peer.start(false)
				return
			}
			if _, err := readHandshakeRequest(b); err != nil {
				return
			}
			switch stage {
			case 1:
			case 2:
				_ = peer.write([]byte(`{"err`))
			case 4:
				_ = peer.write([]byte("{}\x1e"))
			}
			peer.start(false)
			for stage == 4 {
				select {
				case <-stopAlive:
					return
				case <-peer.readDone:
					return
				case <-time.After(time.Second):
					if peer.write(encode(w.proto, Msg{Type: mPing}, 0)) != nil {
						return
					}
				}
			}
		}()
	}
	dial := func() net.Conn {
		a, b := newStream(e, w.cfg, "cli", "srv")
		accept(b)
		return a
	}
	dials := 0
	if p.b("connector") {
		opts = append(opts, signalr.WithConnector(func() (signalr.Connection, error) {
			mu.Lock()
			dials++
			mu.Unlock()
			if stage == 0 {
				time.Sleep(ms(p.c("dialms")))
			}
			if stage == 5 || stage == 0 && p.c("dialms")%2 == 0 {
				return nil, fmt.Errorf("dial refused")
			}
			return signalr.NewNetConnection(connCtx, dial()), nil
		}), signalr.WithBackoff(func() backoff.BackOff { return backoff.NewConstantBackOff(7 * time.Second) }))
	} else {
		opts = append(opts, signalr.WithConnection(signalr.NewNetConnection(connCtx, dial())))
	}
	cl, err := signalr.NewClient(cctx, opts...)
	if err != nil {
		panic("HARNESS: " + err.Error())
	}
	cl.Start()
	if stage == 4 {
		if err := w.waitConnected(cl, time.Minute); err != nil {
			e.fail("connect", "client did not connect: %v", err)
			return
		}
	}
	base := e.us()
	var outs []*outcome
	var omu sync.Mutex
	var opsDone sync.WaitGroup
	feeding := make(chan struct{})
	issue := func(tag int, op Op) {
		var o *outcome
		name := fmt.Sprintf("op%d", tag)
		switch op.S {
		case "invoke":
			o = w.watch(name, cl.Invoke("Unanswered", tag), 0)
		case "echo":
			o = w.watch(name, cl.Invoke("Echo", tag, "v"), 0)
		case "wait":
			ctx, cancel := context.WithCancel(context.Background())
			_ = cancel
			o = w.watchErr(name, cl.WaitForState(ctx, signalr.ClientClosed))
		case "send":
			o = w.watchErr(name, cl.Send("Unanswered", tag))
		case "pull":
			o = w.watch(name, cl.PullStream("Count", tag), 0)
		case "push":
			ch := make(chan int)
			o = w.watch(name, cl.PushStreams("Upload", tag, ch), 0)
			go func() {
				for k := 0; k < op.X/3; k++ {
					select {
					case ch <- k:
					case <-feeding:
						return
					}
					time.Sleep(time.Duration(op.X*100) * time.Microsecond)
				}
				if op.X%2 == 0 {
					close(ch)
				}
			}()
		}
		omu.Lock()
		outs = append(outs, o)
		omu.Unlock()
	}
	var last int64
	var stopsLate atomic.Int64
	var stops sync.WaitGroup
	sure := false
	var patience time.Duration
	nEnds := 0
	for i, op := range p.Ops {
		i, op := i, op
		if op.K == "op" {
			opsDone.Add(1)
			go func() {
				defer opsDone.Done()
				e.sleepUntilUs(base + op.T)
				issue(i+1, op)
			}()
			continue
		}
		nEnds++
		last = max(last, op.T)
		switch op.K {
		case "stop", "cancel", "reset", "close":
			sure = true
		case "half":
			sure = sure || !p.b("mute")
		case "deaf":
			sure = sure || stage == 4
			patience += 1500 * time.Millisecond
		case "closemsg", "garbage":
			sure = sure || stage == 4 && !p.b("mute")
		}
		if op.K == "stop" {
			stops.Add(1)
		}
		go func() {
			e.sleepUntilUs(base + op.T)
			e.fault("end-" + op.K)
			e.log("END %s", op.K)
			mu.Lock()
			var b *simConn
			var peer *rawPeer
			if len(conns) > 0 {
				b, peer = conns[len(conns)-1], peers[len(peers)-1]
			}
			mu.Unlock()
			switch op.K {
			case "stop":
				t := time.Now()
				cl.Stop()
				if d := time.Since(t); int64(d) > stopsLate.Load() {
					stopsLate.Store(int64(d))
				}
				if s := cl.State(); s != signalr.ClientClosed {
					e.fail("state-after-stop", "the state is %v after Stop returned", s)
				}
				stops.Done()
			case "cancel":
				ccancel()
			case "reset":
				b.Reset()
			case "close":
				_ = b.Close()
			case "half":
				b.CloseWrite()
			case "deaf":
				// it goes on to write
				go func() {
					for stage == 4 {
						select {
						case <-stopAlive:
							return
						case <-time.After(700 * time.Millisecond):
							if peer.write(encode(w.proto, Msg{Type: mPing}, 0)) != nil {
								return
							}
						}
					}
				}()
				b.Deaf()
			case "closemsg":
				_ = peer.send(Msg{Type: mClose, Err: []string{"", "see you"}[p.c("style")&1], Allow: true})
			case "garbage":
				_ = peer.write([]byte("\x07\x9f\xc1\xc1garb}{\x1e\x07\x9f\xc1\xc1garb}{\x1e"))
			case "silence":
				closeAlive()
			}
		}()
	}
	wait := 6*time.Second + calmSlack + patience
	if stage == 0 {
		wait += ms(p.c("dialms"))
	}
	if !sure {
		wait += T + hto
		go func() {
			e.sleepUntilUs(base + last)
			closeAlive()
		}()
	}
	e.sleepUntilUs(base + last)
	at := e.us()
	ended := func() bool { return cl.State() == signalr.ClientClosed }
	if !waitCond(wait+10*time.Second, ended) {
		e.fail("client-hangs", "the client is in state %v %v after its end (stage %d)", cl.State(), wait+10*time.Second, stage)
		return
	}
	if d := time.Duration(e.us()-at) * time.Microsecond; d > wait+5*time.Millisecond {
		e.fail("client-late", "the client was closed %v after its end (stage %d)", d, stage)
	}
	stopped := make(chan struct{})
	go func() { stops.Wait(); close(stopped) }()
	if !waitOr(stopped, wait) {
		e.fail("stop-hangs", "Stop did not return (stage %d)", stage)
		return
	}
	if d := time.Duration(stopsLate.Load()); d > wait {
		e.fail("stop-late", "Stop took %v (stage %d)", d, stage)
	}
	opsDone.Wait()
	// operations from now on fail
	for i, k := range []string{"invoke", "send", "pull", "push", "wait"} {
		issue(1000+i, Op{S: k})
	}
	await(20*time.Second, outs...)
	for i, o := range outs {
		items, closed := o.snap()
		if !closed {
			e.fail("operation-unresolved", "an operation is still unresolved after the end of the client (%d, stage %d, %d items)", i, stage, len(items))
		}
	}
	for i, o := range outs[len(outs)-5 : len(outs)-1] {
		items, _ := o.snap()
		if len(items) != 1 || items[0].Error == nil {
			e.fail("operation-after-end", "operation %d after the end of the client did not fail, but gave %s", i, showItems(items))
		}
	}
	if s := cl.State(); s != signalr.ClientClosed {
		e.fail("state-after-end", "the closed client is in state %v", s)
	}
	// the other side notices
	mu.Lock()
	ps := append([]*rawPeer(nil), peers...)
	bs := append([]*simConn(nil), conns...)
	mu.Unlock()
	for i, peer := range ps {
		// Before the handshake is done, there is no message to tell it. The transport ends with its context.
		if p.b("mute") || stage < 4 {
			continue
		}
		if !waitOr(peer.readDone, 10*time.Second) {
			e.fail("peer-not-told", "the server side of connection %d did not notice the end of the client (stage %d)", i, stage)
		}
	}
	e.count("operations", len(outs))
	for _, b := range bs {
		_ = b.Close()
	}
	mu.Lock()
	n := dials
	mu.Unlock()
	// Channels of uploads may stay open for ever.
	e.noLeak("after the end of the client", 5*time.Minute, "signalr.NewNetConnection")
	connCancel()
	ccancel()
	e.noLeak("after the end of the connection", time.Minute)
	close(feeding)
	mu.Lock()
	if dials != n {
		e.fail("dial-after-end", "the client dialed after it was closed")
	}
	mu.Unlock()
	if s := cl.State(); s != signalr.ClientClosed {
		e.fail("state-after-end", "the closed client is in state %v", s)
	}
}

func genEndBoth(r *Rand) *Plan {
	p := &Plan{Cfg: map[string]int{}}
	p.schedule(r)
	p.network(r)
	p.calm()
	p.Cfg["mp"] = r.b(50)
	p.Cfg["percon"] = r.b(50)
	p.Cfg["n"] = r.in(1, 4)
	p.Cfg["timeout"] = r.pick(3000, 10000, 30000)
	for i := r.in(1, 3); i > 0; i-- {
		p.Ops = append(p.Ops, Op{K: r.picks("stop", "cancel-client", "cancel-server", "abort", "hubclose", "reset", "close", "blackhole", "stuck"), A: r.n(p.Cfg["n"]), T: int64(r.pick(r.n(2000), r.n(60000), r.n(300000)))})
	}
	for i := r.n(20); i > 0; i-- {
		p.Ops = append(p.Ops, Op{K: "op", S: r.picks("invoke", "send", "pull", "push", "all", "slowpull", "never"), A: r.n(p.Cfg["n"]), T: int64(r.n(100000)), X: r.n(30)})
	}
	return p
}

func runEndBoth(e *Env) {
	w := newWorld(e)
	p := e.plan
	sctx, scancel := context.WithCancel(w.ctx)
	T := ms(p.c("timeout"))
	o := []func(signalr.Party) error{signalr.TimeoutInterval(T), signalr.KeepAliveInterval(time.Second)}
	var hubMu sync.Mutex
	hubs := map[string]*SimHub{}
	w.hubHook = func(h *SimHub, method string, tag int) {
		if method == "OnConnected" {
			hubMu.Lock()
			hubs[h.ConnectionID()] = h
			hubMu.Unlock()
		}
	}
	srv := w.server(sctx, 0, o...)
	type pair struct {
		cl     signalr.Client
		a, b   *simConn
		sc     *serveConn
		cancel context.CancelFunc
		ended  bool
	}
	var ps []*pair
	for i := 0; i < p.c("n"); i++ {
		x := &pair{}
		x.a, x.b = newStream(e, w.cfg, fmt.Sprintf("cli%d", i), "srv")
		x.sc = w.serve(srv, x.b)
		cctx, ccancel := context.WithCancel(w.ctx)
		x.cancel = ccancel
		x.cl = w.client(cctx, x.a, append(o, signalr.WithReceiver(&Receiver{w: w}))...)
		x.cl.Start()
		ps = append(ps, x)
	}
	for i, x := range ps {
		if err := w.waitConnected(x.cl, time.Minute); err != nil {
			e.fail("connect", "client %d did not connect: %v", i, err)
			return
		}
	}
	if !waitCond(5*time.Second, func() bool { hubMu.Lock(); defer hubMu.Unlock(); return len(hubs) == len(ps) }) {
		e.fail("connect", "OnConnected did not run for all clients")
		return
	}
	base := e.us()
	var outs []*outcome
	var of []int
	var omu sync.Mutex
	var started, events sync.WaitGroup
	var last int64
	for i, op := range p.Ops {
		i, op, x := i, op, ps[op.A]
		if op.K == "op" {
			started.Add(1)
			go func() {
				defer started.Done()
				e.sleepUntilUs(base + op.T)
				name := fmt.Sprintf("op%d", i+1)
				var o *outcome
				switch op.S {
				case "invoke":
					o = w.watch(name, x.cl.Invoke("Wait", i+1, op.X*5), 0)
				case "send":
					o = w.watchErr(name, x.cl.Send("Void", i+1))
				case "pull":
					o = w.watch(name, x.cl.PullStream("Count", i+1, op.X, 1000), 0)
				case "slowpull":
					o = w.watch(name, x.cl.PullStream("Count", i+1, op.X, 1000), 100*time.Millisecond)
				case "never":
					if op.X%2 == 0 {
						o = w.watch(name, x.cl.PullStream("Never", i+1), 0)
					} else {
						o = w.watch(name, x.cl.Invoke("Never", i+1), 0)
					}
				case "push":
					ch := make(chan int)
					o = w.watch(name, x.cl.PushStreams("Upload", i+1, ch), 0)
					go func() {
						defer close(ch)
						for k := 0; k < op.X; k++ {
							select {
							case ch <- k:
							case <-time.After(3 * time.Second):
								return
							}
						}
					}()
				case "all":
					go srv.HubClients().All().Send("OnMsg", i+1, "x")
					return
				}
				omu.Lock()
				outs = append(outs, o)
				of = append(of, op.A)
				omu.Unlock()
			}()
			continue
		}
		last = max(last, op.T)
		x.ended = true
		if op.K == "cancel-server" {
			for _, y := range ps {
				y.ended = true
			}
		}
		events.Add(1)
		go func() {
			e.sleepUntilUs(base + op.T)
			e.fault("end-" + op.K)
			e.log("END %d %s", op.A, op.K)
			hubMu.Lock()
			h := hubs[x.sc.id]
			hubMu.Unlock()
			switch op.K {
			case "stop":
				t := time.Now()
				x.cl.Stop()
				if d := time.Since(t); d > 6*time.Second+calmSlack {
					e.fail("stop-late", "Stop took %v", d)
				}
			case "cancel-client":
				x.cancel()
			case "cancel-server":
				scancel()
			case "abort":
				h.Abort()
			case "hubclose":
				_ = h.Close("bye", op.T%2 == 0)
			case "reset":
				x.a.Reset()
			case "close":
				_ = x.b.Close()
			case "blackhole":
				x.a.Hold(true)
				x.b.Hold(true)
			case "stuck":
				c := x.a
				if op.T%2 == 0 {
					c = x.b
				}
				c.in.mu.Lock()
				c.in.hold = true
				c.in.cfg.Buf = 0
				c.in.mu.Unlock()
			}
			events.Done()
		}()
	}
	e.sleepUntilUs(base + last)
	started.Wait()
	wait := T + 15*time.Second
	if !waitCond(wait, func() bool {
		for _, x := range ps {
			if !x.ended {
				continue
			}
			select {
			case <-x.sc.done:
			default:
				return false
			}
			if x.cl.State() != signalr.ClientClosed {
				return false
			}
		}
		return true
	}) {
		for i, x := range ps {
			if x.ended {
				e.log("client %d: state %v", i, x.cl.State())
			}
		}
		e.fail("end-hangs", "a client or Serve has not ended %v after the last event", wait)
		return
	}
	done := make(chan struct{})
	go func() { events.Wait(); close(done) }()
	if !waitOr(done, 10*time.Second) {
		e.fail("stop-hangs", "Stop or Close did not return")
		return
	}
	await(60*time.Second, outs...)
	for i, o := range outs {
		items, closed := o.snap()
		if !closed && (ps[of[i]].ended || p.Ops[0].K == "") {
			e.fail("operation-unresolved", "an operation of client %d is still unresolved after its end: %s", of[i], showItems(items))
		}
	}
	time.Sleep(time.Second)
	for i, x := range ps {
		w.mu.Lock()
		up, down := w.connUp[x.sc.id], w.connDown[x.sc.id]
		w.mu.Unlock()
		want := 0
		if x.ended {
			want = 1
		}
		if up != 1 || down != want {
			e.fail("end-lifecycle", "client %d: OnConnected ran %d times, OnDisconnected %d times", i, up, down)
		}
		if !x.ended && x.cl.State() != signalr.ClientConnected {
			e.fail("connection-lost", "client %d lost its connection: %v", i, x.cl.Err())
		}
	}
	scancel()
	for _, x := range ps {
		if !waitOr(x.sc.done, 10*time.Second) {
			e.fail("serve-hangs", "Serve did not return after the server was canceled")
			return
		}
		t := time.Now()
		x.cl.Stop()
		if d := time.Since(t); d > 6*time.Second+calmSlack {
			e.fail("stop-late", "Stop took %v", d)
		}
		x.cancel()
	}
	e.noLeak("after the end of everything", 15*time.Minute)
}
