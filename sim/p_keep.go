package main

import (
	"context"
	"fmt"
	"strings"
	"sync/atomic"
	"time"

	"github.com/philippseith/signalr"
)

func init() {
	register(&Scenario{Prop: "C11", Name: "keep-server", Weight: 2, Gen: genKeepRaw, Run: func(e *Env) { runKeepRaw(e, true) },
		Real: []string{"server", "message loop", "netConnection", "hub protocols"}, Stub: []string{"TCP stream", "client (scripted)"}})
	register(&Scenario{Prop: "C11", Name: "keep-client", Weight: 2, Gen: genKeepRaw, Run: func(e *Env) { runKeepRaw(e, false) },
		Real: []string{"client", "message loop", "netConnection", "hub protocols"}, Stub: []string{"TCP stream", "server (scripted)"}})
	register(&Scenario{Prop: "C11", Name: "keep-both", Weight: 1, Gen: genKeepBoth, Run: runKeepBoth,
		Real: []string{"server", "client", "message loop", "netConnection", "hub protocols"}, Stub: []string{"TCP stream"}})
}

// calm bounds the stalls so that times can be judged.
func (p *Plan) calm() {
	p.Cfg["s_sitemax"] = min(p.Cfg["s_sitemax"], 500)
	p.Cfg["s_stallmax"] = min(p.Cfg["s_stallmax"], 2000)
	if p.Cfg["n_unit"] > 1000 {
		p.Cfg["n_unit"] = 1000
	}
}

// calmSlack is the scheduling and network delay allowed in calm runs.
const calmSlack = 250 * time.Millisecond

func genKeepRaw(r *Rand) *Plan {
	p := &Plan{Cfg: map[string]int{}}
	p.schedule(r)
	p.network(r)
	p.calm()
	p.Cfg["n_buf"] = r.pick(0, 0, 256)
	p.Cfg["mp"] = r.b(50)
	p.Cfg["style"] = r.n(16)
	p.Cfg["percon"] = r.b(30)
	T := r.pick(1500, 2000, 3000, 10000, 30000, 60000)
	K := r.pick(700, 1000, 2000, 5000, 15000, 40000)
	p.Cfg["timeout"], p.Cfg["keep"] = T, K
	p.Cfg["slow"] = r.b(25)
	p.Cfg["chantimeout"] = r.pick(5000, 5000, 20000)
	// 0: none 1: silent 2: does not read either 3: half a message 4: as 2 with much to send 5: does not read, and its last messages need answers
	p.Cfg["silence"] = r.pick(0, 1, 2, 3, 4, 5)
	span := r.pick(5, 10, 40, 100) * T
	margin := max(T/5, 500)
	t := 0
	for n := 0; t < span && n < 200; n++ {
		gap := T - margin
		switch r.n(5) {
		case 0:
			gap = r.n(gap)
		case 1:
			gap = r.n(min(gap, 300))
		case 2:
			gap = gap / 2
		}
		t += gap
		p.Ops = append(p.Ops, Op{K: r.picks("ping", "ping", "ping", "invoke", "item", "batch", "void"), T: int64(t) * 1000, X: r.n(400)})
	}
	if r.p(50) {
		// the other side has something to say
		for i := r.in(1, 60); i > 0; i-- {
			p.Ops = append(p.Ops, Op{K: "say", T: int64(r.n(t+2*T)) * 1000, X: r.pick(1, 1, 50, 600)})
		}
	}
	if p.Cfg["silence"] == 4 {
		for i := r.in(5, 60); i > 0; i-- {
			p.Ops = append(p.Ops, Op{K: "say", T: int64(t+r.n(T)) * 1000, X: r.pick(1, 50, 600, 600)})
		}
	}
	if p.Cfg["silence"] == 5 {
		if r.p(60) {
			p.Cfg["n_buf"] = 256
		}
		p.Cfg["rejects"] = r.in(1, 60)
		p.Cfg["overflow"] = r.pick(0, 0, 2, 4)
	}
	if r.p(20) && p.Cfg["silence"] < 2 {
		// does not read for some time, but keeps writing
		p.Ops = append(p.Ops, Op{K: "pause", T: int64(r.n(t)) * 1000, X: r.in(1, 3*T)})
	}
	return p
}

func runKeepRaw(e *Env, server bool) {
	w := newWorld(e)
	p := e.plan
	T, K := ms(p.c("timeout")), ms(p.c("keep"))
	opts := []func(signalr.Party) error{signalr.TimeoutInterval(T), signalr.KeepAliveInterval(K), signalr.ChanReceiveTimeout(ms(p.c("chantimeout"))), signalr.StreamBufferCapacity(1)}
	a, b := newStream(e, w.cfg, "cli", "srv")
	var peer *rawPeer
	var raw *simConn
	var endUs atomic.Int64
	var endErr atomic.Value
	end := func(err error) {
		if err == nil {
			err = fmt.Errorf("<nil>")
		}
		endErr.Store(err.Error())
		endUs.Store(e.us())
	}
	var say func(i, n int)
	if server {
		srv := w.server(w.ctx, 0, opts...)
		sc := w.serve(srv, b)
		raw = a
		peer = newRawPeer(e, a, w.proto, "cli")
		peer.style = p.c("style")
		peer.start(true)
		if err := peer.handshake(10 * time.Second); err != nil {
			e.fail("connect", "handshake: %v", err)
			return
		}
		go func() { <-sc.done; end(sc.err) }()
		say = func(i, n int) { srv.HubClients().All().Send("OnMsg", i, strings.Repeat("s", n)) }
	} else {
		raw = b
		cl := w.client(w.ctx, a, append(opts, signalr.WithReceiver(&Receiver{w: w}))...)
		peer = newRawPeer(e, b, w.proto, "srv")
		peer.style = p.c("style")
		cl.Start()
		if _, err := readHandshakeRequest(b); err != nil {
			e.fail("connect", "handshake: %v", err)
			return
		}
		peer.start(false)
		_ = peer.write([]byte("{}\x1e"))
		if err := w.waitConnected(cl, 10*time.Second); err != nil {
			e.fail("connect", "client did not connect: %v", err)
			return
		}
		go func() {
			ctx, cancel := context.WithCancel(context.Background())
			defer cancel()
			<-cl.WaitForState(ctx, signalr.ClientClosed)
			end(cl.Err())
		}()
		say = func(i, n int) { <-cl.Send("Void", i, strings.Repeat("s", n)) }
	}
	// The observation starts with the time the connection is established.
	base := e.us()
	var lastSend int64 = base
	sayN := 0
	item := 0
	var pausedFrom, pausedTo int64
	for _, op := range p.Ops {
		if op.K == "say" {
			sayN++
			op, i := op, sayN
			go func() {
				e.sleepUntilUs(base + op.T)
				if endUs.Load() == 0 {
					say(i, op.X)
				}
			}()
		}
		if op.K == "pause" {
			op := op
			pausedFrom = base + op.T
			pausedTo = pausedFrom + int64(op.X)*1000
			go func() {
				e.sleepUntilUs(base + op.T)
				e.fault("peer-stops-reading")
				peer.pause(ms(op.X))
			}()
		}
	}
	if p.b("slow") && server {
		// a hub method that takes its time
		_ = peer.send(Msg{Type: mInvoke, ID: "up", HasID: true, Target: "UploadSlow", Args: []any{9, p.c("chantimeout") * 7 / 10}, StreamIDs: []string{"s1"}})
	}
	tag := 100
	for _, op := range p.Ops {
		if op.K == "say" || op.K == "pause" {
			continue
		}
		e.sleepUntilUs(base + op.T)
		if endUs.Load() != 0 {
			break
		}
		tag++
		var err error
		lastSend = e.us() // the arrival is not before
		switch op.K {
		case "ping":
			err = peer.write(encode(w.proto, Msg{Type: mPing}, p.c("style")))
		case "invoke":
			err = peer.send(Msg{Type: mInvoke, ID: fmt.Sprint("i", tag), HasID: true, Target: "Echo", Args: []any{tag, "x"}})
		case "void":
			err = peer.send(Msg{Type: mInvoke, Target: "Void", Args: []any{tag}})
		case "item":
			if p.b("slow") && server {
				item++
				err = peer.send(Msg{Type: mItem, ID: "s1", Item: item})
			} else {
				err = peer.send(Msg{Type: mPing})
			}
		case "batch":
			var bs []byte
			for i := 0; i < op.X%30; i++ {
				if p.b("slow") && server && i%2 == 0 {
					item++
					bs = append(bs, encode(w.proto, Msg{Type: mItem, ID: "s1", Item: item}, p.c("style"))...)
				} else {
					bs = append(bs, encode(w.proto, Msg{Type: mPing}, p.c("style"))...)
				}
			}
			bs = append(bs, encode(w.proto, Msg{Type: mPing}, p.c("style"))...)
			err = peer.write(bs)
		}
		if err != nil {
			break
		}
	}
	e.count("messages-of-peer", len(p.Ops))
	if t := endUs.Load(); t != 0 {
		e.fail("living-peer-dropped", "the connection ended %v after the last message arrived, the timeout is %v: %v", time.Duration(t-lastSend)*time.Microsecond, T, endErr.Load())
		return
	}
	// Gaps in what the peer got
	checkGaps := func(until int64) {
		if p.b("slow") {
			return
		}
		allowed := int64((K + calmSlack) / time.Microsecond)
		prev := base
		peer.mu.Lock()
		at := append([]int64(nil), peer.gotAt...)
		peer.mu.Unlock()
		at = append(at, until)
		for _, t := range at {
			t = min(t, until)
			if t-prev > allowed && !(pausedTo != 0 && prev <= pausedTo && t >= pausedFrom) {
				e.fail("keepalive-missing", "%v passed without any message to the peer, the keep-alive interval is %v", time.Duration(t-prev)*time.Microsecond, K)
				return
			}
			prev = max(t, prev)
		}
		e.count("gaps-checked", len(at))
	}
	if p.c("silence") == 0 {
		time.Sleep(T - ms(max(p.c("timeout")/5, 500)))
		if t := endUs.Load(); t != 0 {
			e.fail("living-peer-dropped", "the connection ended %v after the last message, the timeout is %v: %v", time.Duration(t-lastSend)*time.Microsecond, T, endErr.Load())
		}
		checkGaps(e.us())
		return
	}
	switch p.c("silence") {
	case 1:
		e.fault("peer-silent")
	case 2, 4:
		e.fault("peer-silent-and-stuck")
		checkGaps(e.us())
		peer.pause(10 * time.Hour)
	case 3:
		e.fault("peer-stops-in-message")
		f := encode(w.proto, Msg{Type: mInvoke, ID: "half", HasID: true, Target: "Echo", Args: []any{7777, "xyz"}}, p.c("style"))
		_ = peer.write(f[:len(f)/2])
	}
	late := 0
	if p.c("silence") == 5 {
		e.fault("peer-stuck-needs-answers")
		checkGaps(e.us())
		peer.pause(10 * time.Hour)
		if server {
			late = p.c("overflow")
		}
		patience := time.Duration(late)*ms(p.c("chantimeout")) + 20*time.Second
		if p.b("slow") && server {
			patience += time.Duration(item+2) * ms(p.c("chantimeout"))
		}
		sent := make(chan struct{})
		var tail atomic.Int64
		tail.Store(lastSend)
		go func() {
			defer close(sent)
			for i := 0; i < p.c("rejects"); i++ {
				m := Msg{Type: mInvoke, ID: fmt.Sprint("r", i), HasID: true, Target: "NoSuchMethod", Args: []any{i}}
				if server {
					switch i % 5 {
					case 1:
						m.Target, m.Args = "Echo", []any{i} // too few arguments
					case 2:
						m.Target, m.Args = "Echo", []any{"notanumber", "x"}
					case 3:
						m.Target, m.Args = "Panic", []any{i}
					case 4:
						m.Target, m.Args = "Echo", []any{i, "x"}
					}
				}
				tail.Store(e.us())
				_ = peer.send(m)
				if n := p.c("overflow"); server && n > 0 && i == p.c("rejects")-1 {
					// nobody takes what is uploaded
					_ = peer.send(Msg{Type: mInvoke, ID: "lazy", HasID: true, Target: "UploadSlow", Args: []any{10, -10 * (p.c("chantimeout") + p.c("timeout"))}, StreamIDs: []string{"sl"}})
					for j := 0; j < n; j++ {
						_ = peer.send(Msg{Type: mItem, ID: "sl", Item: j})
					}
				}
			}
		}()
		select {
		case <-sent:
		case <-time.After(patience):
			if endUs.Load() == 0 {
				e.fail("not-reading", "what a peer sends, which does not read at the moment, is not read")
				return
			}
		}
		lastSend = tail.Load() // the arrival is not before
	}
	silentAt := e.us()
	wait := T + 6*time.Second + calmSlack + time.Duration(late)*ms(p.c("chantimeout"))
	if p.b("slow") && server {
		// what was sent before has to be handled first
		wait += time.Duration(item+2) * ms(p.c("chantimeout"))
	}
	waitCond(wait+20*time.Second, func() bool { return endUs.Load() != 0 })
	t := endUs.Load()
	if t == 0 {
		e.fail("dead-peer-kept", "a peer silent for %v is still connected, the timeout is %v", wait+20*time.Second, T)
		return
	}
	if d := time.Duration(t-lastSend) * time.Microsecond; d < T {
		e.fail("living-peer-dropped", "the connection ended %v after the last message of the peer, the timeout is %v: %v", d, T, endErr.Load())
	}
	if d := time.Duration(t-silentAt) * time.Microsecond; d > wait {
		e.fail("dead-peer-late", "the connection ended %v after the last message of the peer, the timeout is %v: %v", d, T, endErr.Load())
	}
	if p.c("silence") == 1 || p.c("silence") == 3 {
		checkGaps(t)
		// the peer is told
		time.Sleep(time.Second)
		if l := peer.find(func(m Msg) bool { return m.Type == mClose }); len(l) != 1 || l[0].Err == "" {
			if !(pausedTo != 0 && pausedTo > t) {
				e.fail("timeout-not-told", "the peer got no close message with an error after its timeout: %v", l)
			}
		}
	}
	_ = raw
}

func genKeepBoth(r *Rand) *Plan {
	p := &Plan{Cfg: map[string]int{}}
	p.schedule(r)
	p.network(r)
	p.calm()
	p.Cfg["n_seg"], p.Cfg["n_buf"] = 0, 0
	p.Cfg["mp"] = r.b(50)
	p.Cfg["percon"] = r.b(30)
	for _, s := range []string{"s", "c"} {
		p.Cfg["keep"+s] = r.pick(500, 1000, 5000, 15000)
	}
	// each timeout is larger than the keep-alive interval of the other
	p.Cfg["timeouts"] = p.Cfg["keepc"]*r.pick(11, 13, 20, 40)/10 + 600
	p.Cfg["timeoutc"] = p.Cfg["keeps"]*r.pick(11, 13, 20, 40)/10 + 600
	p.Cfg["span"] = r.pick(3, 20, 100) * max(p.Cfg["timeouts"], p.Cfg["timeoutc"])
	for i := r.n(40); i > 0; i-- {
		p.Ops = append(p.Ops, Op{K: r.picks("invoke", "say", "stream"), T: int64(r.n(p.Cfg["span"])) * 1000, X: r.n(20)})
	}
	p.Cfg["f"] = r.n(6) // 0: none 1: server to client held 2: client to server held 3: both 4: client does not read 5: server does not read
	return p
}

func runKeepBoth(e *Env) {
	w := newWorld(e)
	p := e.plan
	e.plan.Cfg["f_kind"] = 0
	sT, cT := ms(p.c("timeouts")), ms(p.c("timeoutc"))
	x := newE2E(w, []func(signalr.Party) error{signalr.TimeoutInterval(sT), signalr.KeepAliveInterval(ms(p.c("keeps")))},
		[]func(signalr.Party) error{signalr.TimeoutInterval(cT), signalr.KeepAliveInterval(ms(p.c("keepc"))), signalr.WithReceiver(&Receiver{w: w})})
	if x == nil {
		return
	}
	for i, op := range p.Ops {
		i, op := i, op
		go func() {
			e.sleepUntilUs(x.base + op.T)
			switch op.K {
			case "invoke":
				r, ok := <-x.cl.Invoke("Add", 1000+i, i, 1)
				if !ok || r.Error != nil {
					e.fail("call-failed", "a call failed on an idle connection: %v %v", r, ok)
				}
			case "say":
				x.srv.HubClients().All().Send("OnMsg", 2000+i, "x")
			case "stream":
				for r := range x.cl.PullStream("Count", 3000+i, 3, 100000) {
					if r.Error != nil {
						e.fail("call-failed", "a stream failed on an idle connection: %v", r.Error)
					}
				}
			}
		}()
	}
	ended := func() bool {
		select {
		case <-x.sc.done:
			return true
		default:
			return x.cl.State() != signalr.ClientConnected
		}
	}
	stop := x.base + int64(p.c("span"))*1000
	for e.us() < stop {
		e.sleepUntilUs(min(stop, e.us()+500000))
		if ended() {
			e.fail("living-peer-dropped", "an idle connection ended after %v (timeouts %v and %v): server %v client %v", time.Duration(e.us()-x.base)*time.Microsecond, sT, cT, x.sc.err, x.cl.Err())
			return
		}
	}
	e.count("idle-seconds", p.c("span")/1000)
	time.Sleep(2 * time.Second) // operations in flight
	if p.c("f") == 0 {
		return
	}
	e.fault([]string{"", "hold-to-client", "hold-to-server", "hold-both", "client-stuck", "server-stuck"}[p.c("f")])
	switch p.c("f") {
	case 1:
		x.b.Hold(true)
	case 2:
		x.a.Hold(true)
	case 3:
		x.a.Hold(true)
		x.b.Hold(true)
	case 4, 5:
		// back-pressure: the direction is full
		h := x.a.in
		if p.c("f") == 5 {
			h = x.b.in
		}
		h.mu.Lock()
		h.hold = true
		h.cfg.Buf = 0
		h.mu.Unlock()
	}
	at := e.us()
	var cEnd, sEnd int64
	limit := max(sT, cT) + 12*time.Second
	waitCond(limit+30*time.Second, func() bool {
		if cEnd == 0 && x.cl.State() == signalr.ClientClosed {
			cEnd = e.us()
		}
		if sEnd == 0 {
			select {
			case <-x.sc.done:
				sEnd = x.sc.endUs
			default:
			}
		}
		return cEnd != 0 && sEnd != 0
	})
	for _, s := range []struct {
		name string
		end  int64
		T    time.Duration
		h    *half
		err  error
	}{{"server", sEnd, sT, x.b.in, x.sc.err}, {"client", cEnd, cT, x.a.in, x.cl.Err()}} {
		if s.end == 0 {
			e.fail("dead-peer-kept", "%s still connected %v after the network failed (timeouts %v, %v)", s.name, limit+30*time.Second, sT, cT)
			continue
		}
		d := time.Duration(s.end-at) * time.Microsecond
		if d > limit {
			e.fail("dead-peer-late", "%s ended %v after the network failed (timeouts %v, %v): %v", s.name, d, sT, cT, s.err)
		}
		s.h.mu.Lock()
		last := s.h.lastRead
		s.h.mu.Unlock()
		if q := time.Duration(s.end-int64(last.Sub(e.start)/time.Microsecond)) * time.Microsecond; s.err != nil && strings.Contains(s.err.Error(), "timeout interval elapsed ("+s.T.String()) &&
			!strings.Contains(s.err.Error(), "close") && q < s.T-2*time.Millisecond {
			// (the message of the other side's close has the text of the other side's error)
			if sT != cT {
				e.fail("living-peer-dropped", "%s ended %v after it read something, its timeout is %v: %v", s.name, q, s.T, s.err)
			}
		}
	}
}
