package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"net"
	"strings"
	"sync"
	"time"

	"github.com/philippseith/signalr"
)

func init() {
	register(&Scenario{Prop: "C18", Name: "shake-server", Weight: 3, Gen: genShakeServer, Run: runShakeServer,
		Real: []string{"server", "handshake", "netConnection", "hub protocols"}, Stub: []string{"TCP streams", "clients (scripted)"}})
	register(&Scenario{Prop: "C18", Name: "shake-client", Weight: 3, Gen: genShakeClient, Run: runShakeClient,
		Real: []string{"client", "handshake", "netConnection", "hub protocols"}, Stub: []string{"TCP stream", "server (scripted)"}})
}

// handshake texts. Valid ones are served, all others are not.
func requestText(kind string, proto string, n int) string {
	q := func(s string) string { b, _ := json.Marshal(s); return string(b) }
	switch kind {
	case "ok":
		return fmt.Sprintf(`{"protocol":%s,"version":1}`, q(proto))
	case "ok-ws":
		return []string{
			fmt.Sprintf(" {\n\t\"version\" : 1 ,\r\n \"protocol\" : %s }  ", q(proto)),
			fmt.Sprintf(`{"version":1,"extra":{"a":[1,2,{"protocol":"x"}]},"protocol":%s}`, q(proto)),
			fmt.Sprintf(`{"protocol":"%s","version":1,"x":"}{\u001e\""}`, strings.NewReplacer("s", `\u0073`, "o", `\u006f`).Replace(proto)),
			fmt.Sprintf(`{"protocol":%s,"version":1,"pad":"%s"}`, q(proto), strings.Repeat("p", 300)),
		}[n%4]
	case "proto":
		return fmt.Sprintf(`{"protocol":%s,"version":1}`, q([]string{"", "xml", "JSON ", "blazorpack", `a"b`, `\`, "x\x00y", "ünïcode\u2028", `","error":"`, "%s%d%n", "<script>", strings.Repeat("long", 60), "json\x1e"}[n%13]))
	case "missing":
		return []string{`{"version":1}`, `{}`, `null`, `{"protocol":null,"version":1}`, `{"proto":"json"}`}[n%5]
	case "wrongtype":
		return []string{`{"protocol":5,"version":1}`, `{"protocol":["json"],"version":1}`, `{"protocol":{"json":1},"version":1}`, `{"protocol":true}`}[n%4]
	case "nojson":
		return []string{`{"protocol":"json","version":1`, `"protocol":"json"}`, "GET / HTTP/1.1\r\n\r\n", "\x00\x01\x02", "{'protocol':'json'}", "json", "\xff\xfe{\x00", "{}{}", `{"protocol":"json","version":1}}`, `{"protocol":"json","version":1} x`}[n%10]
	case "array":
		return []string{`[]`, `["json",1]`, `"json"`, `5`, `true`}[n%5]
	case "empty":
		return []string{"", " ", "\n"}[n%3]
	}
	panic("HARNESS: " + kind)
}

func genShakeServer(r *Rand) *Plan {
	p := &Plan{Cfg: map[string]int{}}
	p.schedule(r)
	p.network(r)
	p.calm()
	p.Cfg["n_buf"] = 0
	p.Cfg["percon"] = r.b(40)
	p.Cfg["hto"] = r.pick(500, 2000, 15000)
	n := r.in(1, 5)
	for i := 0; i < n; i++ {
		p.Ops = append(p.Ops, Op{K: "peer",
			S: r.picks("ok", "ok", "ok-ws", "ok-ws", "ok-slow", "ok-more", "ok-more", "proto", "proto", "missing", "wrongtype", "nojson", "array", "empty", "silent", "partial", "slow", "eof", "reset", "big", "deaf", "proto-deaf"),
			A: r.b(50), // messagepack
			T: int64(r.pick(0, r.n(1000), r.n(100000))), X: r.n(6), Y: r.n(1 << 30), Z: r.n(64)})
	}
	return p
}

type shakePeer struct {
	op      Op
	peer    *rawPeer
	a       *simConn
	sc      *serveConn
	startAt int64 // the request was complete (0: never)
	connAt  int64
}

func runShakeServer(e *Env) {
	w := newWorld(e)
	p := e.plan
	hto := ms(p.c("hto"))
	sctx, scancel := context.WithCancel(w.ctx)
	srv := w.server(sctx, 0, signalr.HandshakeTimeout(hto), signalr.TimeoutInterval(10*time.Minute), signalr.KeepAliveInterval(time.Minute))
	var wg sync.WaitGroup
	peers := make([]*shakePeer, len(p.Ops))
	for i, op := range p.Ops {
		i, op := i, op
		wg.Add(1)
		go func() {
			defer wg.Done()
			e.sleepUntilUs(op.T)
			peers[i] = runShakePeer(e, w, srv, i, op, hto)
		}()
	}
	wg.Wait()
	slack := int64(calmSlack / time.Microsecond)
	for i, sp := range peers {
		valid := strings.HasPrefix(sp.op.S, "ok")
		w.mu.Lock()
		up, down := w.connUp[sp.sc.id], w.connDown[sp.sc.id]
		w.mu.Unlock()
		desc := fmt.Sprintf("peer %d (%s)", i, sp.op.S)
		sp.peer.mu.Lock()
		answered := false
		select {
		case <-sp.peer.hsDone:
			answered = true
		default:
		}
		hs, rest := sp.peer.hs, append([]byte(nil), sp.peer.buf...)
		got := len(sp.peer.got)
		sp.peer.mu.Unlock()
		if valid {
			e.count("served", 1)
			if up != 1 {
				e.fail("not-served", "%s: OnConnected ran %d times", desc, up)
			}
			continue
		}
		e.count("refused", 1)
		if up != 0 || down != 0 {
			e.fail("hub-called", "%s: OnConnected ran %d times, OnDisconnected %d times", desc, up, down)
		}
		for _, c := range w.allCalls() {
			if c.Conn == sp.sc.id {
				e.fail("hub-called", "%s: %s was called", desc, c.Method)
				break
			}
		}
		if answered {
			var o map[string]any
			if err := json.Unmarshal([]byte(hs), &o); err != nil {
				e.fail("bad-answer", "%s was answered with %q: %v", desc, hs, err)
			} else if s, _ := o["error"].(string); s == "" {
				e.fail("false-answer", "%s was answered with %q", desc, hs)
			}
		}
		if len(rest) != 0 || got != 0 {
			e.fail("bad-answer", "%s got %d messages and %q behind the answer", desc, got, rest)
		}
		select {
		case <-sp.sc.done:
		default:
			e.fail("not-dropped", "%s is still connected", desc)
			continue
		}
		if sp.sc.err == nil {
			e.fail("no-error", "%s: Serve returned without an error", desc)
		}
		// in time
		limit := sp.connAt + int64(hto/time.Microsecond) + slack
		switch {
		case sp.op.S == "eof" || sp.op.S == "reset" || sp.startAt != 0 && sp.op.S != "deaf" && sp.op.S != "proto-deaf":
			limit = sp.startAt + slack
		case sp.op.S == "deaf" || sp.op.S == "proto-deaf":
			limit = sp.startAt + int64(hto/time.Microsecond) + slack
		}
		if sp.sc.endUs > limit {
			e.fail("late", "%s connected at %.3f ms, sent its handshake at %.3f ms and was dropped at %.3f ms, the handshake timeout is %v", desc, float64(sp.connAt)/1000, float64(sp.startAt)/1000, float64(sp.sc.endUs)/1000, hto)
		}
		switch sp.op.S {
		case "silent", "partial", "slow":
			if sp.sc.endUs < sp.connAt+int64(hto/time.Microsecond) {
				e.fail("early", "%s connected at %.3f ms and was dropped at %.3f ms, the handshake timeout is %v", desc, float64(sp.connAt)/1000, float64(sp.sc.endUs)/1000, hto)
			}
		}
		if n := sp.a.out.consumed(); n > 1<<18 {
			e.fail("unbounded", "%s: %d bytes of a handshake were received", desc, n)
		}
	}
	scancel()
	e.noLeak("after the server", 2*time.Minute)
}

func runShakePeer(e *Env, w *World, srv signalr.Server, i int, op Op, hto time.Duration) *shakePeer {
	name := fmt.Sprintf("p%d", i)
	proto := "json"
	if op.A == 1 {
		proto = "messagepack"
	}
	cfg := w.cfg
	if strings.HasSuffix(op.S, "deaf") {
		cfg.Buf = 1
		cfg.DelayP = 0
	}
	a, b := newStream(e, cfg, name, "srv")
	sp := &shakePeer{op: op, a: a, connAt: e.us()}
	sp.sc = w.serve(srv, b)
	sp.peer = newRawPeer(e, a, proto, name)
	sp.peer.strict = false
	if strings.HasSuffix(op.S, "deaf") {
		sp.peer.pause(20 * time.Hour)
	}
	sp.peer.start(true)
	r := newRand(uint64(op.Y))
	var out net.Conn = a
	if op.X != 0 && !strings.HasSuffix(op.S, "deaf") {
		out = newSegConn(e, a, op.X%6, op.Y)
	}
	e.log("%s %s", name, op.S)
	send := func(b []byte) { _, _ = out.Write(b) }
	slowly := func(b []byte, total time.Duration) {
		for _, c := range b {
			send([]byte{c})
			time.Sleep(total / time.Duration(len(b)))
		}
	}
	valid := strings.HasPrefix(op.S, "ok")
	if valid && op.S != "ok" {
		e.fault("handshake-" + op.S)
	} else if !valid {
		e.fault("handshake-" + op.S)
	}
	more := 0
	switch op.S {
	case "ok", "ok-ws", "proto", "missing", "wrongtype", "nojson", "array", "empty":
		send(append([]byte(requestText(op.S, proto, op.Z)), 0x1e))
		sp.startAt = e.us()
	case "ok-slow":
		slowly(append([]byte(requestText("ok-ws", proto, op.Z%3)), 0x1e), hto*6/10)
	case "ok-more":
		buf := append([]byte(requestText("ok", proto, op.Z)), 0x1e)
		more = r.in(1, 6)
		for k := 0; k < more; k++ {
			buf = append(buf, encode(proto, Msg{Type: mInvoke, ID: fmt.Sprintf("m%d", k), HasID: true, Target: "Echo", Args: []any{i*100 + k, "more"}}, 0)...)
		}
		send(buf)
	case "silent":
	case "partial":
		t := requestText("ok", proto, 0)
		send([]byte(t)[:r.in(1, len(t))])
	case "slow":
		go slowly(append([]byte(requestText("ok-ws", proto, op.Z%3)), 0x1e), hto*15/10)
	case "eof":
		t := requestText("ok", proto, 0)
		send([]byte(t)[:r.n(len(t)+1)])
		time.Sleep(ms(r.n(30)))
		a.CloseWrite()
		sp.startAt = e.us()
		if op.X != 0 {
			sp.startAt += 20000
		}
	case "reset":
		t := requestText("ok", proto, 0)
		send([]byte(t)[:r.n(len(t)+1)])
		time.Sleep(ms(r.n(30)))
		a.Reset()
		sp.startAt = e.us()
	case "big":
		go func() {
			t := []byte(fmt.Sprintf(`{"protocol":"%s","version":1,"x":"`, proto))
			_, _ = a.Write(t)
			for k := 0; k < 100; k++ {
				if _, err := a.Write(bytes.Repeat([]byte("x"), 10000)); err != nil {
					return
				}
			}
		}()
	case "deaf", "proto-deaf":
		kind := map[string]string{"deaf": "ok", "proto-deaf": "proto"}[op.S]
		send(append([]byte(requestText(kind, proto, 3)), 0x1e))
		sp.startAt = e.us()
	}
	if !valid {
		waitOr(sp.sc.done, 2*hto+30*time.Second)
		time.Sleep(100 * time.Millisecond)
		if op.S == "big" {
			waitOr(sp.sc.done, time.Second)
		}
		return sp
	}
	if err := sp.peer.waitHandshake(hto); err != nil {
		e.fail("refused", "%s (%s) sent a valid handshake, but got: %v (%q)", name, op.S, err, sp.peer.hs)
		return sp
	}
	var o map[string]any
	if err := json.Unmarshal([]byte(sp.peer.hs), &o); err != nil || len(o) != 0 {
		e.fail("bad-answer", "%s sent a valid handshake, the answer is %q", name, sp.peer.hs)
	}
	// it is served, also long after the handshake timeout
	for round := 0; round < 2; round++ {
		id := fmt.Sprintf("r%d", round)
		send(encode(proto, Msg{Type: mInvoke, ID: id, HasID: true, Target: "Echo", Args: []any{9000 + i, id}}, 0))
		if !sp.peer.waitMsgs(1, 5*time.Second, func(m Msg) bool { return m.Type == mCompl && m.ID == id }) {
			e.fail("not-served", "%s completed the handshake, but its invocation %d is not answered (bad: %v)", name, round, sp.peer.bad)
			return sp
		}
		if round == 0 {
			time.Sleep(hto + time.Second)
		}
	}
	for k := 0; k < more; k++ {
		id := fmt.Sprintf("m%d", k)
		if n := len(sp.peer.completions(id)); n != 1 {
			e.fail("lost-with-handshake", "%s sent an invocation together with the handshake, it got %d completions", name, n)
			return sp
		}
	}
	if sp.peer.bad != nil {
		e.fail("bad-answer", "%s got malformed messages: %v", name, sp.peer.bad)
	}
	return sp
}

func genShakeClient(r *Rand) *Plan {
	p := &Plan{Cfg: map[string]int{}}
	p.schedule(r)
	p.network(r)
	p.calm()
	p.Cfg["n_buf"] = 0
	p.Cfg["mp"] = r.b(50)
	p.Cfg["hto"] = r.pick(500, 2000, 15000)
	p.Ops = append(p.Ops, Op{K: "server",
		S: r.picks("ok", "ok", "ok", "ok-slow", "ok-more", "ok-more", "ok-wait", "error", "error", "message", "message", "nojson", "array", "empty", "silent", "partial", "slow", "eof", "reset", "big", "deaf", "eager"),
		X: r.n(6), Y: r.n(1 << 30), Z: r.n(64), A: r.n(100)})
	return p
}

func responseText(kind string, n int) string {
	switch kind {
	case "ok":
		return []string{"{}", " { } ", `{"error":null}`, `{"minorVersion":1}`, "{\n}", `{"x":{"error":"no","type":1},"y":[{}]}`, `{"x":"\u001e"}`}[n%7]
	case "error":
		return []string{`{"error":"not you"}`, `{"error":"\"quoted\" \u0000 \\"}`, `{"minorVersion":1,"error":"x"}`, `{"error": " "}`}[n%4]
	case "message":
		return []string{`{"type":6}`, `{"type":7}`, `{"type":7,"error":"bye"}`, `{"type":1,"target":"OnMsg","arguments":[1,"x"]}`, `{"type":3,"invocationId":"0","result":1}`, `{"type":7,"allowReconnect":true}`}[n%6]
	case "nojson":
		return []string{"HTTP/1.1 404 Not Found\r\n\r\n", "{", "}", "{}{}", "{}x", "\x00", "ok", "\xff\xff", "{'error':'x'}", `{"error":"x"`}[n%10]
	case "array":
		return []string{"[]", "5", `"ok"`, "true", "null", `{"error":5}`, `{"error":["x"]}`}[n%7]
	case "empty":
		return []string{"", " ", "\r\n"}[n%3]
	}
	panic("HARNESS: " + kind)
}

func runShakeClient(e *Env) {
	w := newWorld(e)
	p := e.plan
	op := p.Ops[0]
	hto := ms(p.c("hto"))
	cfg := w.cfg
	if op.S == "deaf" {
		cfg.Buf = 1
		cfg.DelayP = 0
	}
	a, b := newStream(e, cfg, "cli", "srv")
	cctx, ccancel := context.WithCancel(w.ctx)
	cl := w.client(cctx, a, signalr.HandshakeTimeout(hto), signalr.TimeoutInterval(10*time.Minute), signalr.KeepAliveInterval(time.Minute), signalr.WithReceiver(&Receiver{w: w}))
	peer := newRawPeer(e, b, w.proto, "srv")
	peer.strict = false
	r := newRand(uint64(op.Y))
	var out net.Conn = b
	if op.X != 0 && op.S != "deaf" {
		out = newSegConn(e, b, op.X%6, op.Y)
	}
	send := func(b []byte) { _, _ = out.Write(b) }
	startUs := e.us()
	if op.S != "ok" {
		e.fault("response-" + op.S)
	}
	eager := op.S == "eager"
	if eager {
		// the response does not wait for the request
		send([]byte("{}\x1e"))
	}
	var sawConnected bool
	var smu sync.Mutex
	obs := make(chan signalr.ClientState, 100)
	cl.ObserveStateChanged(obs)
	go func() {
		for s := range obs {
			e.log("STATE %s", stateName(s))
			smu.Lock()
			sawConnected = sawConnected || s == signalr.ClientConnected
			smu.Unlock()
		}
	}()
	cl.Start()
	valid := strings.HasPrefix(op.S, "ok") || eager
	doneAt := int64(0)
	more := 0
	if op.S != "deaf" {
		req, err := readHandshakeRequest(b)
		if err != nil {
			e.fail("no-request", "the client sent %q: %v", req, err)
			return
		}
		var o map[string]any
		if err := json.Unmarshal(bytes.TrimSuffix(req, []byte{0x1e}), &o); err != nil || len(o) != 2 || o["protocol"] != w.proto || o["version"] != float64(1) {
			e.fail("bad-request", "the client requested %q", req)
		}
		slowly := func(b []byte, total time.Duration) {
			for _, c := range b {
				send([]byte{c})
				time.Sleep(total / time.Duration(len(b)))
			}
		}
		w.mu.Lock()
		early := len(w.calls)
		w.mu.Unlock()
		if early != 0 {
			e.fail("early-call", "a receiver method was called before the handshake")
		}
		peer.start(false)
		switch op.S {
		case "ok", "error", "message", "nojson", "array", "empty":
			send(append([]byte(responseText(op.S, op.Z)), 0x1e))
			doneAt = e.us()
		case "ok-wait":
			time.Sleep(hto * time.Duration(r.n(60)) / 100)
			send([]byte("{}\x1e"))
		case "ok-slow":
			slowly([]byte("{              }\x1e"), hto*6/10)
		case "ok-more":
			buf := []byte("{}\x1e")
			more = r.in(1, 5)
			for k := 0; k < more; k++ {
				buf = append(buf, encode(w.proto, Msg{Type: mInvoke, Target: "OnMsg", Args: []any{k, "more"}}, 0)...)
			}
			send(buf)
		case "silent":
		case "partial":
			t := []byte(`{"minorVersion":1}`)
			send(t[:r.in(1, len(t))])
		case "slow":
			go slowly([]byte("{              }\x1e"), hto*15/10)
		case "eof":
			t := []byte(`{"minorVersion":1}`)
			send(t[:r.n(len(t)+1)])
			time.Sleep(ms(r.n(30)))
			_ = b.Close()
			doneAt = e.us()
		case "reset":
			t := []byte(`{"minorVersion":1}`)
			send(t[:r.n(len(t)+1)])
			time.Sleep(ms(r.n(30)))
			b.Reset()
			doneAt = e.us()
		case "big":
			go func() {
				_, _ = b.Write([]byte(`{"x":"`))
				for k := 0; k < 100; k++ {
					if _, err := b.Write(bytes.Repeat([]byte("x"), 10000)); err != nil {
						return
					}
				}
			}()
		}
	}
	if valid {
		if err := w.waitConnected(cl, hto+calmSlack); err != nil {
			e.fail("not-connected", "the server accepted (%s %q), but the client did not connect: %v", op.S, responseText("ok", op.Z), err)
			return
		}
		e.count("connected", 1)
		for round := 0; round < 2; round++ {
			v := fmt.Sprintf("v%d", round)
			peer.onMsg = nil
			o := w.watch("inv", cl.Invoke("Echo", round, v), 0)
			if !peer.waitMsgs(round+1, 5*time.Second, func(m Msg) bool { return m.Type == mInvoke }) {
				e.fail("not-working", "the client is connected, but its invocation %d did not arrive (bad: %v)", round, peer.bad)
				return
			}
			inv := peer.find(func(m Msg) bool { return m.Type == mInvoke })
			send(encode(w.proto, Msg{Type: mCompl, ID: inv[round].ID, Result: v, HasResult: true}, 0))
			await(5*time.Second, o)
			if items, closed := o.snap(); !closed || len(items) != 1 || items[0].Error != nil || items[0].Value != v {
				e.fail("not-working", "the client is connected, but an invocation ended with %s", showItems(items))
				return
			}
			if round == 0 {
				time.Sleep(hto + time.Second)
			}
		}
		for k := 0; k < more; k++ {
			if n := len(w.callsOf("OnMsg", k)); n != 1 {
				e.fail("lost-with-handshake", "invocation %d sent together with the handshake response was executed %d times", k, n)
				return
			}
		}
		if peer.bad != nil {
			e.fail("bad-output", "the client sent malformed messages: %v", peer.bad)
		}
	} else {
		limit := hto + calmSlack
		from := startUs
		if doneAt != 0 {
			from, limit = doneAt, calmSlack
			if op.X == 1 || op.S == "eof" || op.S == "reset" {
				limit += 50 * time.Millisecond
			}
		}
		if !waitCond(3*hto+10*time.Second, func() bool { return cl.State() == signalr.ClientClosed }) {
			e.fail("attempt-hangs", "the server did not complete the handshake (%s), but the client is still %s", op.S, stateName(cl.State()))
			return
		}
		at := e.us()
		if d := time.Duration(at-from) * time.Microsecond; d > limit {
			e.fail("attempt-late", "the attempt (%s) ended after %v, the handshake timeout is %v", op.S, d, hto)
		}
		switch op.S {
		case "silent", "partial", "slow", "deaf":
			if d := time.Duration(at-startUs) * time.Microsecond; d < hto {
				e.fail("attempt-early", "the attempt (%s) ended after %v, the handshake timeout is %v", op.S, d, hto)
			}
		}
		smu.Lock()
		if sawConnected {
			e.fail("false-connected", "the handshake failed (%s), but the client was connected", op.S)
		}
		smu.Unlock()
		if cl.Err() == nil {
			e.fail("no-error", "the handshake failed (%s), but the client has no error", op.S)
		}
		if len(w.allCalls()) != 0 {
			e.fail("receiver-called", "the handshake failed (%s), but the receiver was called", op.S)
		}
		if len(peer.msgs()) != 0 {
			e.fail("sent-more", "the handshake failed (%s), but the client sent %v", op.S, peer.msgs())
		}
		o := w.watch("inv", cl.Invoke("Echo", 1, "x"), 0)
		await(time.Second, o)
		if items, closed := o.snap(); !closed || len(items) != 1 || items[0].Error == nil {
			e.fail("call-on-closed", "the handshake failed (%s), an invocation ended with %s", op.S, showItems(items))
		}
		if n := b.out.consumed(); n > 1<<18 {
			e.fail("unbounded", "%d bytes of a handshake response were received", n)
		}
		e.count("refused", 1)
	}
	cl.Stop()
	ccancel()
	time.Sleep(time.Second)
	_ = b.Close()
	e.noLeak("after the client", 2*time.Minute)
}
