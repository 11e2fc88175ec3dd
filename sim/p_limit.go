package main

import (
	"fmt"
	"net"
	"strings"
	"time"

	"github.com/philippseith/signalr"
)

func init() {
	register(&Scenario{Prop: "C10", Name: "limit-server", Weight: 2, Gen: genLimit, Run: func(e *Env) { runLimit(e, true) },
		Real: []string{"server", "netConnection", "hub protocols"}, Stub: []string{"TCP stream", "client (scripted)"}})
	register(&Scenario{Prop: "C10", Name: "limit-client", Weight: 1, Gen: genLimit, Run: func(e *Env) { runLimit(e, false) },
		Real: []string{"client", "netConnection", "hub protocols"}, Stub: []string{"TCP stream", "server (scripted)"}})
}

// bodySize is the size of a message as the limit counts it.
func bodySize(proto string, b []byte) int {
	f, _, ok, err := splitFrame(proto, b)
	if !ok || err != nil {
		panic("HARNESS: bodySize")
	}
	return len(f)
}

// sized makes an invocation of Echo whose size is want, or as near below as
// possible.
func sized(proto string, style, tag, want int) (Msg, []byte, int) {
	mk := func(n int) (Msg, []byte) {
		m := Msg{Type: mInvoke, ID: fmt.Sprintf("id%d", tag), HasID: true, Target: "Echo", Args: []any{tag, strings.Repeat("z", n)}}
		return m, encode(proto, m, style)
	}
	m, b := mk(0)
	n := want - bodySize(proto, b)
	if n <= 0 {
		return m, b, bodySize(proto, b)
	}
	for ; n > 0; n-- {
		m, b = mk(n)
		if bodySize(proto, b) <= want {
			break
		}
	}
	return m, b, bodySize(proto, b)
}

func genLimit(r *Rand) *Plan {
	p := &Plan{Cfg: map[string]int{}}
	p.schedule(r)
	p.network(r)
	p.Cfg["n_seg"], p.Cfg["n_delay"], p.Cfg["n_buf"] = 0, 0, 1<<20
	if p.Cfg["s_sitemax"] > 500 {
		p.Cfg["s_sitemax"] = 500
	}
	p.Cfg["mp"] = r.b(50)
	p.Cfg["style"] = r.n(8)
	p.Cfg["percon"] = 0
	p.Cfg["limit"] = r.pick(150, 200, 256, 300, 500, 1000, 1024, 4096, 16384, 32767, 32768, 0, 0) // 0: the default
	p.Cfg["mode"] = r.n(6)
	p.Cfg["segseed"] = r.n(1 << 30)
	p.Cfg["over"] = r.pick(0, 0, 1, 2, 3, 4, 5)
	p.Cfg["together"] = r.b(50)
	p.Cfg["other"] = r.pick(0, 0, 0, 100, 150, 1000, 100000) // the limit of somebody else in the same process
	n := r.in(0, 40)
	if p.Cfg["mode"] != 0 && p.Cfg["mode"] != 5 && p.Cfg["limit"] > 10000 {
		n = r.in(0, 5)
	}
	for i := 0; i < n; i++ {
		p.Ops = append(p.Ops, Op{K: "msg", X: r.pick(0, 0, 1, 2, 3), Y: r.n(100)})
	}
	return p
}

func runLimit(e *Env, server bool) {
	w := newWorld(e)
	p := e.plan
	limit := p.c("limit")
	opts := []func(signalr.Party) error{signalr.TimeoutInterval(600 * time.Second)}
	if limit > 0 {
		opts = append(opts, signalr.MaximumReceiveMessageSize(uint(limit)))
	} else {
		limit = 1 << 15
	}
	a, b := newStream(e, w.cfg, "cli", "srv")
	var peer *rawPeer
	var ended func() (bool, error)
	var cl signalr.Client
	raw := a
	if server {
		srv := w.server(w.ctx, 0, opts...)
		sc := w.serve(srv, b)
		peer = newRawPeer(e, newSegConn(e, a, p.c("mode"), p.c("segseed")), w.proto, "cli")
		peer.start(true)
		_ = peer.write(handshakeRequest(w.proto))
		ended = func() (bool, error) {
			select {
			case <-sc.done:
				return true, sc.err
			default:
				return false, nil
			}
		}
		if !p.b("together") {
			if err := peer.waitHandshake(20 * time.Second); err != nil {
				e.fail("connect", "handshake: %v", err)
				return
			}
		}
	} else {
		raw = b
		cl = w.client(w.ctx, a, append(opts, signalr.WithReceiver(&Receiver{w: w}))...)
		peer = newRawPeer(e, newSegConn(e, b, p.c("mode"), p.c("segseed")), w.proto, "srv")
		cl.Start()
		if _, err := readHandshakeRequest(b); err != nil {
			e.fail("connect", "handshake: %v", err)
			return
		}
		peer.start(false)
		_ = peer.write([]byte("{}\x1e"))
		if !p.b("together") {
			if err := w.waitConnected(cl, time.Minute); err != nil {
				e.fail("connect", "client did not connect: %v", err)
				return
			}
		}
		ended = func() (bool, error) { return cl.State() == signalr.ClientClosed, cl.Err() }
	}
	if o := p.c("other"); o > 0 && !p.b("together") {
		// it has a limit of its own
		oopts := []func(signalr.Party) error{signalr.TimeoutInterval(600 * time.Second), signalr.MaximumReceiveMessageSize(uint(o))}
		if o%200 == 0 {
			op, _, _ := w.rawClient(w.server(w.ctx, 1, oopts...), "other", w.proto)
			if err := op.handshake(20 * time.Second); err != nil {
				e.fail("connect", "handshake: %v", err)
				return
			}
		} else if newRawServer(w, nil, oopts...) == nil {
			return
		}
		time.Sleep(time.Millisecond)
		e.count("other-limit", 1)
	}
	// messages within the limit, all at once
	var batch []byte
	msgs := map[int]Msg{}
	for i, op := range p.Ops {
		tag := i + 1
		want := limit
		switch op.X {
		case 1:
			want = limit - op.Y%8
		case 2:
			want = limit * op.Y / 100
		case 3:
			want = 0
		}
		m, f, n := sized(w.proto, p.c("style"), tag, want)
		if n > limit {
			panic("HARNESS: message larger than planned")
		}
		msgs[tag] = m
		batch = append(batch, f...)
	}
	if len(batch) > 0 {
		_ = peer.write(batch)
	}
	waitCond(120*time.Second, func() bool {
		if peer.closed() {
			return true
		}
		return peer.payloads() >= len(msgs)
	})
	e.count("messages-within-limit", len(msgs))
	for i := range p.Ops {
		tag := i + 1
		c := peer.completions(fmt.Sprintf("id%d", tag))
		if len(c) != 1 || c[0].Err != "" || canon(c[0].Result) != canon(msgs[tag].Args[1]) {
			_, err := ended()
			e.fail("message-refused", "message %d of %d with %d bytes (limit %d) was answered with %s; end of the connection: %v", tag, len(p.Ops),
				bodySize(w.proto, encode(w.proto, msgs[tag], p.c("style"))), limit, trunc(fmt.Sprint(c), 200), err)
			return
		}
	}
	if p.c("over") == 0 {
		time.Sleep(time.Second)
		if over, err := ended(); over || peer.closed() {
			e.fail("connection-lost", "the connection ended though no message was larger than the limit %d: %v", limit, err)
		}
		return
	}
	if server {
		if err := peer.waitHandshake(20 * time.Second); err != nil {
			e.fail("connect", "handshake: %v", err)
			return
		}
	} else if err := w.waitConnected(cl, time.Minute); err != nil {
		e.fail("connect", "client did not connect: %v", err)
		return
	}
	// and one which is larger
	e.fault("message-over-limit")
	const tag = 5000
	want := limit + 1
	switch p.c("over") {
	case 2:
		want = limit + 10
	case 3:
		want = limit*2 + 7
	case 4:
		want = limit*11 + 1
	}
	var f []byte
	r := newRand(uint64(p.c("segseed")) + 1)
	if p.c("over") == 5 {
		// it never ends
		total := 80 * (limit + 1<<15)
		if w.proto == "json" {
			f = []byte(fmt.Sprintf(`{"type":1,"invocationId":"x","target":"Echo","arguments":[%d,"`, tag))
		} else {
			f = []byte{0xff, 0xff, 0xff, 0x7f} // 2^28-1
		}
		f = append(f, []byte(strings.Repeat("z", total))...)
	} else {
		for n := 0; n <= limit; want++ {
			_, f, n = sized(w.proto, p.c("style"), tag, want)
		}
		if r.p(30) {
			// in the company of regular ones
			_, x, _ := sized(w.proto, p.c("style"), tag+1, 0)
			f = append(f, x...)
		}
	}
	before := raw.out.consumed()
	var c net.Conn = raw
	if p.c("over") < 4 {
		c = peer.conn
	}
	go func() { _, _ = c.Write(f) }()
	if !waitCond(120*time.Second, func() bool { o, _ := ended(); return o }) {
		e.fail("oversized-not-ended", "the connection still lives 120 seconds after a message larger than the limit %d was sent (case %d)", limit, p.c("over"))
	} else if _, err := ended(); err == nil {
		e.fail("oversized-no-error", "the connection ended without an error after a message larger than the limit %d", limit)
	}
	time.Sleep(100 * time.Millisecond)
	if l := w.callsOf("", tag); len(l) > 0 {
		e.fail("oversized-processed", "a message larger than the limit %d was processed (case %d)", limit, p.c("over"))
	}
	if n := raw.out.consumed() - before; p.c("over") == 5 && n > int64(40*(limit+1<<15)) {
		e.fail("oversized-buffered", "%d bytes of a message were read though the limit is %d", n, limit)
	}
}

// consumed is the number of bytes the reader has taken.
func (h *half) consumed() int64 {
	h.mu.Lock()
	defer h.mu.Unlock()
	return h.total - int64(h.size)
}
