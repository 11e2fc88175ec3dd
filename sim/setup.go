package main

import (
	"context"
	"time"

	"github.com/philippseith/signalr"
)

// e2e is one real client connected to a real server.
type e2e struct {
	w       *World
	srv     signalr.Server
	cl      signalr.Client
	a, b    *simConn
	sc      *serveConn
	br      *breaker
	scancel context.CancelFunc
	ccancel context.CancelFunc
	base    int64
}

// newE2E connects the client and arms the planned fault. It returns nil when
// the connection fails.
func newE2E(w *World, sopts, copts []func(signalr.Party) error) *e2e {
	x := &e2e{w: w}
	sctx, scancel := context.WithCancel(w.ctx)
	x.scancel = scancel
	x.srv = w.server(sctx, 0, sopts...)
	x.a, x.b = newStream(w.e, w.cfg, "cli", "srv")
	x.sc = w.serve(x.srv, x.b)
	cctx, ccancel := context.WithCancel(w.ctx)
	x.ccancel = ccancel
	x.cl = w.client(cctx, x.a, copts...)
	x.cl.Start()
	if err := w.waitConnected(x.cl, 20*time.Second); err != nil {
		w.e.fail("connect", "client did not connect: %v", err)
		return nil
	}
	x.base = w.e.us()
	w.e.plan.Cfg["f_at"] += int(x.base)
	x.br = w.arm(x.a, x.b, nil, func() { x.cl.Stop() }, scancel)
	return x
}

func (x *e2e) broken() bool {
	x.br.mu.Lock()
	defer x.br.mu.Unlock()
	return x.br.struck
}

// await waits for all outcomes, in all at most d.
func await(d time.Duration, outs ...*outcome) {
	end := time.After(d)
	for _, o := range outs {
		if o == nil {
			continue
		}
		select {
		case <-o.done:
		case <-end:
			end = time.After(0)
		}
	}
}

// awaitQuiet waits until the outcomes are complete, or for d nothing has
// happened: many items take their time on a slow network.
func (w *World) awaitQuiet(d time.Duration, outs ...*outcome) {
	for last, round := -1, 0; round < 50; round++ {
		await(d, outs...)
		w.mu.Lock()
		n := len(w.calls)
		w.mu.Unlock()
		open := false
		for _, o := range outs {
			if o != nil {
				items, closed := o.snap()
				n += len(items)
				open = open || !closed
			}
		}
		if !open || n == last {
			return
		}
		last = n
	}
}

// limit is how long outcomes may take.
func (w *World) limit() time.Duration {
	if w.e.plan.c("f_kind") != 0 {
		return 90 * time.Second // a silent peer is detected by the timeout interval
	}
	return 25 * time.Second
}

// rawServer is a scripted server with one real client.
type rawServer struct {
	w    *World
	peer *rawPeer
	cl   signalr.Client
	a, b *simConn
	stop chan struct{}
	canc context.CancelFunc
}

// newRawServer connects the client to a scripted server that keeps the
// connection alive.
func newRawServer(w *World, onMsg func(Msg), copts ...func(signalr.Party) error) *rawServer {
	e := w.e
	x := &rawServer{w: w, stop: make(chan struct{})}
	x.a, x.b = newStream(e, w.cfg, "cli", "srv")
	x.peer = newRawPeer(e, x.b, w.proto, "srv")
	x.peer.style = e.plan.c("style")
	x.peer.onMsg = onMsg
	cctx, ccancel := context.WithCancel(w.ctx)
	x.canc = ccancel
	x.cl = w.client(cctx, x.a, copts...)
	hs := make(chan error, 1)
	go func() {
		_, err := readHandshakeRequest(x.b)
		if err == nil {
			_, err = x.b.Write([]byte("{}\x1e"))
		}
		hs <- err
	}()
	x.cl.Start()
	if err := <-hs; err != nil {
		e.fail("connect", "handshake: %v", err)
		return nil
	}
	x.peer.start(false)
	if err := w.waitConnected(x.cl, 20*time.Second); err != nil {
		e.fail("connect", "client did not connect: %v", err)
		return nil
	}
	go x.peer.keepAlive(x.stop)
	e.cleanup(func() { close(x.stop) })
	return x
}

// readHandshakeRequest reads byte by byte up to the record separator.
func readHandshakeRequest(c *simConn) ([]byte, error) {
	var hs []byte
	buf := make([]byte, 1)
	for {
		n, err := c.Read(buf)
		if n == 1 {
			hs = append(hs, buf[0])
			if buf[0] == 0x1e {
				return hs, nil
			}
		}
		if err != nil {
			return hs, err
		}
	}
}

// keepAlive sends pings until stop.
func (p *rawPeer) keepAlive(stop chan struct{}) {
	for {
		select {
		case <-stop:
			return
		case <-p.readDone:
			return
		case <-time.After(5 * time.Second):
			_ = p.write(encode(p.proto, Msg{Type: mPing}, 0))
		}
	}
}
