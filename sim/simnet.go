package main

import (
	"errors"
	"io"
	"net"
	"os"
	"runtime"
	"sync"
	"syscall"
	"time"
)

// netCfg describes how a simulated byte stream behaves.
type netCfg struct {
	SegP   int  // chance (of 65536) that a read returns only part of what is there
	DelayP int  // chance (of 65536) that a write is delivered late
	DelayU int  // unit of that delay, microseconds
	Buf    int  // capacity of a direction in bytes (back-pressure beyond)
	Last   bool // the end is reported with the last bytes, not after them
}

func netCfgOf(p *Plan) netCfg {
	c := netCfg{SegP: p.c("n_seg"), DelayP: p.c("n_delay"), DelayU: p.c("n_unit"), Buf: p.c("n_buf"), Last: p.b("n_last")}
	if c.Buf == 0 {
		c.Buf = 1 << 18
	}
	if c.DelayU == 0 {
		c.DelayU = 1000
	}
	return c
}

// network draws a network behaviour.
func (p *Plan) network(r *Rand) {
	p.Cfg["n_seg"] = r.pick(0, 0, 6000, 20000, 50000)
	p.Cfg["n_delay"] = r.pick(0, 0, 6000, 30000)
	p.Cfg["n_unit"] = r.pick(100, 1000, 5000)
	p.Cfg["n_buf"] = r.pick(0, 0, 0, 256, 4096)
	p.Cfg["n_last"] = r.b(30)
}

type chunk struct {
	at   time.Time
	data []byte
}

// half is one direction of a stream.
type half struct {
	mu             sync.Mutex
	cond           *sync.Cond
	env            *Env
	cfg            netCfg
	chunks         []chunk
	size           int
	wmu            sync.Mutex // one writer at a time, as for a file descriptor
	eof            bool       // writer side closed: reader sees EOF after the data
	rst            error      // both ends fail with this at once
	rclosed        bool       // reader side closed: writer gets EPIPE
	hold           bool       // delivery stopped (silent peer, data lost in the network)
	total          int64      // bytes accepted
	lastRead       time.Time  // when the reader got bytes
	cutAt          int64      // reset the link when that many bytes were accepted (0: never)
	onCut          func()
	last           time.Time
	rdl, wdl       time.Time
	exact          bool // a read returns bytes of one write only
	rlocal, wlocal bool // that end was closed locally
	record         func([]byte)
}

func newHalf(e *Env, cfg netCfg) *half {
	h := &half{env: e, cfg: cfg}
	h.cond = sync.NewCond(&h.mu)
	return h
}

func (h *half) wakeAt(t time.Time) {
	time.AfterFunc(time.Until(t), func() {
		h.mu.Lock()
		h.cond.Broadcast()
		h.mu.Unlock()
	})
}

var delaySteps = []int{0, 1, 3, 10, 30, 100}

func (h *half) write(p []byte) (int, error) {
	h.wmu.Lock()
	defer h.wmu.Unlock()
	h.mu.Lock()
	defer h.mu.Unlock()
	written := 0
	for len(p) > 0 {
		if h.wlocal {
			return written, net.ErrClosed
		}
		if h.rst != nil {
			return written, h.rst
		}
		if h.rclosed {
			return written, syscall.EPIPE
		}
		if !h.wdl.IsZero() && !time.Now().Before(h.wdl) {
			return written, os.ErrDeadlineExceeded
		}
		room := h.cfg.Buf - h.size
		if room <= 0 {
			h.cond.Wait()
			continue
		}
		n := min(room, len(p))
		cut := false
		if h.cutAt > 0 && h.total+int64(n) >= h.cutAt {
			n = int(max(h.cutAt-h.total, 0))
			cut = true
		}
		if n > 0 {
			at := time.Now()
			if v := runtime.SimChance(kDelay, uint32(h.cfg.DelayP), uint32(len(delaySteps))); v != 0 {
				at = at.Add(time.Duration(delaySteps[v]*h.cfg.DelayU) * time.Microsecond)
				h.env.fault("net-delay")
			}
			if at.Before(h.last) {
				at = h.last
			}
			h.last = at
			d := append([]byte(nil), p[:n]...)
			if h.record != nil {
				h.record(d)
			}
			h.chunks = append(h.chunks, chunk{at, d})
			h.size += n
			h.total += int64(n)
			written += n
			p = p[n:]
			if at.After(time.Now()) {
				h.wakeAt(at)
			}
			h.cond.Broadcast()
		}
		if cut {
			h.cutAt = 0
			h.env.fault("net-cut-at-byte")
			if f := h.onCut; f != nil {
				go f()
			}
			h.rst = syscall.ECONNRESET
			h.cond.Broadcast()
			return written, h.rst
		}
	}
	return written, nil
}

func (h *half) read(p []byte) (int, error) {
	h.mu.Lock()
	defer h.mu.Unlock()
	for {
		if h.rlocal {
			return 0, net.ErrClosed
		}
		if h.rst != nil && len(h.chunks) == 0 {
			return 0, h.rst
		}
		if !h.rdl.IsZero() && !time.Now().Before(h.rdl) {
			return 0, os.ErrDeadlineExceeded
		}
		if len(p) == 0 {
			return 0, nil
		}
		now := time.Now()
		avail := 0
		if !h.hold {
			for _, c := range h.chunks {
				if c.at.After(now) {
					break
				}
				avail += len(c.data)
				if h.exact {
					break
				}
			}
		}
		if avail > 0 {
			n := min(avail, len(p))
			if n > 1 {
				if v := runtime.SimChance(kSeg, uint32(h.cfg.SegP), 8); v != 0 {
					h.env.fault("net-segment")
					m := n
					switch v {
					case 1:
						m = 1
					case 2:
						m = 2
					case 3:
						m = 5
					case 4:
						m = n / 2
					case 5:
						m = n - 1
					case 6:
						m = 3
					case 7:
						m = 17
					}
					n = max(min(m, n), 1)
				}
			}
			got := 0
			for got < n {
				c := &h.chunks[0]
				k := copy(p[got:n], c.data)
				got += k
				c.data = c.data[k:]
				if len(c.data) == 0 {
					h.chunks = h.chunks[1:]
				}
			}
			h.size -= n
			h.lastRead = now
			h.cond.Broadcast()
			if h.cfg.Last && len(h.chunks) == 0 && !h.hold && (h.rst != nil || h.eof) {
				h.env.fault("net-end-with-data")
				if h.rst != nil {
					return n, h.rst
				}
				return n, io.EOF
			}
			return n, nil
		}
		if h.eof && len(h.chunks) == 0 && !h.hold {
			return 0, io.EOF
		}
		h.cond.Wait()
	}
}

// simConn is one end of a simulated stream.
type simConn struct {
	in, out *half
	peer    *simConn
	name    string
	once    sync.Once
}

type simAddr string

func (a simAddr) Network() string { return "sim" }
func (a simAddr) String() string  { return string(a) }

// newStream makes a connected pair.
func newStream(e *Env, cfg netCfg, a, b string) (*simConn, *simConn) {
	ab, ba := newHalf(e, cfg), newHalf(e, cfg)
	ca := &simConn{in: ba, out: ab, name: a}
	cb := &simConn{in: ab, out: ba, name: b}
	ca.peer, cb.peer = cb, ca
	ab.onCut = ca.Reset
	ba.onCut = ca.Reset
	return ca, cb
}

func (c *simConn) Read(p []byte) (int, error) {
	n, err := c.in.read(p)
	if err != nil && err != io.EOF {
		err = &net.OpError{Op: "read", Net: "sim", Addr: simAddr(c.name), Err: err}
	}
	return n, err
}

func (c *simConn) Write(p []byte) (int, error) {
	n, err := c.out.write(p)
	if err != nil {
		err = &net.OpError{Op: "write", Net: "sim", Addr: simAddr(c.name), Err: err}
	}
	return n, err
}

// Close closes this end: the peer reads what is left, then EOF.
func (c *simConn) Close() error {
	c.once.Do(func() {
		c.out.mu.Lock()
		c.out.eof = true
		c.out.wlocal = true
		c.out.cond.Broadcast()
		c.out.mu.Unlock()
		c.in.mu.Lock()
		c.in.rlocal = true
		c.in.rclosed = true
		c.in.cond.Broadcast()
		c.in.mu.Unlock()
	})
	return nil
}

// CloseWrite half-closes.
func (c *simConn) CloseWrite() {
	c.out.mu.Lock()
	c.out.eof = true
	c.out.wlocal = true
	c.out.cond.Broadcast()
	c.out.mu.Unlock()
}

// Deaf closes the receiving side only: What the other end writes fails, what
// this end writes still arrives.
func (c *simConn) Deaf() {
	c.in.mu.Lock()
	c.in.rlocal = true
	c.in.rclosed = true
	c.in.cond.Broadcast()
	c.in.mu.Unlock()
}

// Reset breaks the stream for both ends. Bytes already delivered to an end
// may still be read there; bytes in flight are lost.
func (c *simConn) Reset() {
	for _, h := range []*half{c.in, c.out} {
		h.mu.Lock()
		if h.rst == nil {
			h.rst = syscall.ECONNRESET
		}
		now := time.Now()
		keep := 0
		for keep < len(h.chunks) && !h.chunks[keep].at.After(now) && !h.hold {
			keep++
		}
		h.chunks = h.chunks[:keep]
		h.cond.Broadcast()
		h.mu.Unlock()
	}
}

// Hold stops (or resumes) delivery of what this end sends.
func (c *simConn) Hold(on bool) {
	c.out.mu.Lock()
	c.out.hold = on
	c.out.cond.Broadcast()
	c.out.mu.Unlock()
}

// CutAt resets the link once this end has sent n bytes in total.
func (c *simConn) CutAt(n int64) {
	c.out.mu.Lock()
	c.out.cutAt = n
	c.out.mu.Unlock()
}

func (c *simConn) LocalAddr() net.Addr  { return simAddr(c.name) }
func (c *simConn) RemoteAddr() net.Addr { return simAddr(c.peer.name) }
func (c *simConn) SetDeadline(t time.Time) error {
	_ = c.SetReadDeadline(t)
	return c.SetWriteDeadline(t)
}
func (c *simConn) SetReadDeadline(t time.Time) error {
	c.in.mu.Lock()
	c.in.rdl = t
	c.in.cond.Broadcast()
	c.in.mu.Unlock()
	if !t.IsZero() {
		c.in.wakeAt(t)
	}
	return nil
}
func (c *simConn) SetWriteDeadline(t time.Time) error {
	c.out.mu.Lock()
	c.out.wdl = t
	c.out.cond.Broadcast()
	c.out.mu.Unlock()
	if !t.IsZero() {
		c.out.wakeAt(t)
	}
	return nil
}

// simListener accepts simulated streams.
type simListener struct {
	env    *Env
	cfg    netCfg
	ch     chan net.Conn
	closed chan struct{}
	once   sync.Once
	n      int
	mu     sync.Mutex
	refuse bool
	onDial func(client, server *simConn)
}

func newSimListener(e *Env, cfg netCfg) *simListener {
	return &simListener{env: e, cfg: cfg, ch: make(chan net.Conn, 64), closed: make(chan struct{})}
}

func (l *simListener) Accept() (net.Conn, error) {
	select {
	case c := <-l.ch:
		return c, nil
	case <-l.closed:
		return nil, net.ErrClosed
	}
}
func (l *simListener) Close() error   { l.once.Do(func() { close(l.closed) }); return nil }
func (l *simListener) Addr() net.Addr { return simAddr("sim:80") }

func (l *simListener) Dial() (net.Conn, error) {
	l.mu.Lock()
	refuse := l.refuse
	l.n++
	n := l.n
	l.mu.Unlock()
	if refuse {
		l.env.fault("dial-refused")
		return nil, &net.OpError{Op: "dial", Net: "sim", Err: syscall.ECONNREFUSED}
	}
	a, b := newStream(l.env, l.cfg, "10.0.0.1:"+itoa(40000+n), "10.0.0.2:80")
	if l.onDial != nil {
		l.onDial(a, b)
	}
	select {
	case l.ch <- b:
		return a, nil
	case <-l.closed:
		return nil, &net.OpError{Op: "dial", Net: "sim", Err: syscall.ECONNREFUSED}
	default:
		return nil, errors.New("backlog full")
	}
}

func itoa(n int) string {
	if n == 0 {
		return "0"
	}
	neg := n < 0
	if neg {
		n = -n
	}
	s := ""
	for n > 0 {
		s = string(rune('0'+n%10)) + s
		n /= 10
	}
	if neg {
		s = "-" + s
	}
	return s
}
