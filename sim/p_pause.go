package main

import (
	"fmt"
	"time"

	"github.com/philippseith/signalr"
)

func init() {
	register(&Scenario{Prop: "C09", Name: "pause-server", Weight: 2, Gen: genPause, Run: runPauseServer,
		Real: []string{"server", "netConnection", "hub protocols"}, Stub: []string{"TCP stream", "client (scripted)"}})
	register(&Scenario{Prop: "C09", Name: "pause-client", Weight: 1, Gen: genPause, Run: runPauseClient,
		Real: []string{"client", "netConnection", "hub protocols"}, Stub: []string{"TCP stream", "server (scripted)"}})
}

// genPause: a peer that stops sending at any byte. What is complete until
// then has its effect, what is not has none yet.
func genPause(r *Rand) *Plan {
	p := &Plan{Cfg: map[string]int{}}
	p.schedule(r)
	p.network(r)
	p.Cfg["n_delay"] = 0
	p.Cfg["n_buf"] = 1 << 20
	p.Cfg["mp"] = r.b(50)
	p.Cfg["style"] = r.n(16)
	p.Cfg["percon"] = 0
	p.Cfg["together"] = r.b(50) // the handshake belongs to the bytes
	p.Cfg["n_exact"] = r.b(50)
	for i, n := 0, r.in(1, 8); i < n; i++ {
		op := genInvokeOp(r, 100)
		if r.p(40) {
			op = Op{K: r.picks("mix", "alt", "nullarg", "noargs", "blobs", "pad"), X: r.pick(1, 60, 110, 111, 112, 113, 114, 240, 1000), Y: r.in(-50, 50), Z: r.n(1 << 20)}
		}
		op.T = int64(r.n(1 << 30)) // where a pause is
		op.A = r.pick(0, 1, 1, 2)  // number of pauses in this message
		op.L = []int{r.n(6)}
		p.Ops = append(p.Ops, op)
	}
	return p
}

func runPauseServer(e *Env) {
	w := newWorld(e)
	p := e.plan
	srv := w.server(w.ctx, 0, framesOpts()...)
	a, b := newStream(e, w.cfg, "cli", "srv")
	sc := w.serve(srv, b)
	peer := newRawPeer(e, a, w.proto, "cli")
	peer.style = p.c("style")
	if p.b("n_exact") {
		a.out.mu.Lock()
		a.out.exact = true
		a.out.mu.Unlock()
	}
	peer.start(true)
	first := handshakeRequest(w.proto)
	if !p.b("together") {
		_ = peer.write(first)
		if err := peer.waitHandshake(20 * time.Second); err != nil {
			e.fail("connect", "handshake: %v", err)
			return
		}
		first = nil
	}
	w.pauses(peer, first)
	select {
	case <-sc.done:
		e.fail("connection-lost", "the connection ended without a fault: %v", sc.err)
	default:
	}
}

func runPauseClient(e *Env) {
	w := newWorld(e)
	p := e.plan
	rc := &Receiver{w: w}
	a, b := newStream(e, w.cfg, "cli", "srv")
	cl := w.client(w.ctx, a, append(framesOpts(), signalr.WithReceiver(rc))...)
	peer := newRawPeer(e, b, w.proto, "srv")
	peer.style = p.c("style")
	if p.b("n_exact") {
		b.out.mu.Lock()
		b.out.exact = true
		b.out.mu.Unlock()
	}
	cl.Start()
	if _, err := readHandshakeRequest(b); err != nil {
		e.fail("connect", "handshake: %v", err)
		return
	}
	peer.start(false)
	first := []byte("{}\x1e")
	if !p.b("together") {
		_ = peer.write(first)
		if err := w.waitConnected(cl, time.Minute); err != nil {
			e.fail("connect", "client did not connect: %v", err)
			return
		}
		first = nil
	}
	w.pauses(peer, first)
	if s := cl.State(); s != signalr.ClientConnected {
		e.fail("connection-lost", "the connection ended without a fault: %v", cl.Err())
	}
	cl.Stop()
}

// pauses sends the messages of the plan and checks at each pause what they have caused.
func (w *World) pauses(peer *rawPeer, first []byte) {
	e, p := w.e, w.e.plan
	all := first
	type end struct{ at, i int }
	var ends []end
	var cuts []int
	specs := make([]invokeSpec, len(p.Ops))
	id := func(i int) string { return fmt.Sprintf("id%d", i+1) }
	if len(first) > 0 && p.Ops[0].A == 2 {
		cuts = append(cuts, 1+int(p.Ops[0].T)%len(first))
	}
	for i, op := range p.Ops {
		specs[i] = dispatchSpec(w.proto, op, i+1)
		m := encode(w.proto, Msg{Type: mInvoke, ID: id(i), HasID: true, Target: specs[i].method, Args: specs[i].args}, peer.style)
		start := len(all)
		all = append(all, m...)
		ends = append(ends, end{len(all), i})
		r := newRand(uint64(op.T))
		for k := 0; k < op.A; k++ {
			at := start + 1 + r.n(len(m))
			mode := 0
			if len(op.L) > 0 {
				mode = op.L[0]
			}
			switch mode {
			case 0:
				at = start + 1
			case 1:
				at = len(all) - 1
			case 2:
				at = len(all)
			case 3:
				at = start + min(2, len(m))
			}
			if len(cuts) == 0 || cuts[len(cuts)-1] < at {
				cuts = append(cuts, at)
			}
		}
	}
	if len(cuts) == 0 || cuts[len(cuts)-1] < len(all) {
		cuts = append(cuts, len(all))
	}
	sent := 0
	for _, at := range cuts {
		if err := peer.write(all[sent:at]); err != nil {
			e.fail("connection-lost", "the connection was closed: %v", err)
			return
		}
		sent = at
		e.fault("pause")
		complete := 0
		for _, x := range ends {
			if x.at <= at {
				complete++
			}
		}
		missing := func() int {
			for i := 0; i < complete; i++ {
				if len(peer.completions(id(i))) == 0 {
					return i
				}
			}
			return -1
		}
		if !waitCond(60*time.Second, func() bool { return missing() < 0 }) {
			i := missing()
			e.fail("complete-message-ignored", "invocation %d (%s) was sent completely (%d of %d bytes are sent, it ends with byte %d), but not answered after a minute",
				i+1, specs[i].method, at, len(all), ends[i].at)
			return
		}
		for i := complete; i < len(p.Ops); i++ {
			if len(peer.completions(id(i))) > 0 || len(w.callsOf("", i+1)) > 0 {
				e.fail("incomplete-message-processed", "invocation %d (%s) was processed before all of it was sent", i+1, specs[i].method)
			}
		}
	}
	time.Sleep(100 * time.Millisecond)
	e.count("invocations", len(p.Ops))
	e.count("pauses", len(cuts))
	for i := range p.Ops {
		c := peer.completions(id(i))
		if len(c) != 1 {
			e.fail("completions", "invocation %d of %s got %d completions: %v", i+1, specs[i].method, len(c), c)
			continue
		}
		w.checkCompletion(fmt.Sprintf("invocation %d", i+1), specs[i], c[0])
		want := 0
		if specs[i].runs {
			want = 1
		}
		if runs := w.callsOf("", i+1); len(runs) != want {
			e.fail("dispatch-executions", "invocation %d (%s) ran %d times, want %d", i+1, specs[i].method, len(runs), want)
		} else if want == 1 && specs[i].seen != "" && runs[0].Args != specs[i].seen {
			e.fail("dispatch-wrong-arguments", "invocation %d (%s): the method saw %s, want %s", i+1, specs[i].method, trunc(runs[0].Args, 200), trunc(specs[i].seen, 200))
		}
	}
}
