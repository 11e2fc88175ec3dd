package main

import (
	"encoding/json"
	"fmt"
	"net"
	"sync"
	"time"
)

// rawPeer speaks the wire protocol over a simulated stream, under the
// control of the scenario.
type rawPeer struct {
	env   *Env
	conn  net.Conn
	proto string
	name  string
	style int

	mu       sync.Mutex
	cond     *sync.Cond
	got      []Msg
	gotAt    []int64
	buf      []byte
	bad      error // first byte sequence that is not well-formed protocol
	readErr  error
	readDone chan struct{}
	lastIn   time.Time
	hs       string // handshake answer
	hsDone   chan struct{}
	onMsg    func(Msg)
	sent     int
	nload    int       // messages that are no pings
	paused   time.Time // do not read before
	strict   bool      // report malformed bytes as a violation at once
}

func newRawPeer(e *Env, c net.Conn, proto, name string) *rawPeer {
	p := &rawPeer{env: e, conn: c, proto: proto, name: name, readDone: make(chan struct{}), hsDone: make(chan struct{}), lastIn: time.Now(), strict: true}
	p.cond = sync.NewCond(&p.mu)
	return p
}

// start reads in the background. asClient: the first frame is the handshake
// response.
func (p *rawPeer) start(asClient bool) {
	go func() {
		defer close(p.readDone)
		hs := asClient
		b := make([]byte, 1<<15)
		for {
			for {
				p.mu.Lock()
				d := time.Until(p.paused)
				p.mu.Unlock()
				if d <= 0 {
					break
				}
				time.Sleep(min(d, 5*time.Second))
			}
			n, err := p.conn.Read(b)
			p.mu.Lock()
			if n > 0 {
				p.buf = append(p.buf, b[:n]...)
				p.lastIn = time.Now()
			}
			for p.bad == nil {
				if hs {
					f, rest, ok, _ := splitFrame("json", p.buf)
					if !ok {
						break
					}
					p.hs = string(f)
					p.buf = rest
					hs = false
					close(p.hsDone)
					p.env.log("%s handshake answer %s", p.name, f)
					continue
				}
				f, rest, ok, ferr := splitFrame(p.proto, p.buf)
				if ferr != nil {
					p.bad = ferr
					break
				}
				if !ok {
					break
				}
				p.buf = rest
				m, derr := decode(p.proto, f)
				if derr != nil {
					p.bad = derr
					break
				}
				if m.Type != mPing {
					p.nload++
					p.env.log("%s <- %v", p.name, m)
				}
				p.got = append(p.got, m)
				p.gotAt = append(p.gotAt, p.env.us())
				if cb := p.onMsg; cb != nil {
					p.mu.Unlock()
					cb(m)
					p.mu.Lock()
				}
			}
			if p.bad != nil && p.strict {
				p.strict = false
				bad := p.bad
				p.mu.Unlock()
				p.env.fail("malformed-output", "%s received bytes that are no well-formed message: %v", p.name, bad)
				p.mu.Lock()
			}
			if err != nil {
				p.readErr = err
				p.env.log("%s read ended: %v", p.name, err)
			}
			p.cond.Broadcast()
			p.mu.Unlock()
			if err != nil {
				return
			}
		}
	}()
}

func (p *rawPeer) write(b []byte) error {
	_, err := p.conn.Write(b)
	return err
}

func (p *rawPeer) send(m Msg) error {
	p.env.log("%s -> %v", p.name, m)
	return p.write(encode(p.proto, m, p.style))
}

func handshakeRequest(proto string) []byte {
	b, _ := json.Marshal(map[string]any{"protocol": proto, "version": 1})
	return append(b, 0x1e)
}

// handshake performs the client's part and waits for the answer.
func (p *rawPeer) handshake(d time.Duration) error {
	if err := p.write(handshakeRequest(p.proto)); err != nil {
		return err
	}
	return p.waitHandshake(d)
}

func (p *rawPeer) waitHandshake(d time.Duration) error {
	select {
	case <-p.hsDone:
	case <-p.readDone:
		select {
		case <-p.hsDone:
		default:
			return fmt.Errorf("no handshake answer: %v", p.readErr)
		}
	case <-time.After(d):
		return fmt.Errorf("no handshake answer within %v", d)
	}
	var o struct{ Error string }
	if err := json.Unmarshal([]byte(p.hs), &o); err != nil {
		return err
	}
	if o.Error != "" {
		return fmt.Errorf("handshake refused: %s", o.Error)
	}
	return nil
}

// msgs is a snapshot of everything received.
func (p *rawPeer) msgs() []Msg {
	p.mu.Lock()
	defer p.mu.Unlock()
	return append([]Msg(nil), p.got...)
}

// closed tells whether the other side ended the stream.
func (p *rawPeer) closed() bool {
	select {
	case <-p.readDone:
		return true
	default:
		return false
	}
}

// find returns the messages that satisfy f.
func (p *rawPeer) find(f func(Msg) bool) (l []Msg) {
	p.mu.Lock()
	defer p.mu.Unlock()
	for _, m := range p.got {
		if f(m) {
			l = append(l, m)
		}
	}
	return
}

func (p *rawPeer) completions(id string) []Msg {
	return p.find(func(m Msg) bool { return m.Type == mCompl && m.ID == id })
}

// waitMsgs waits until n messages satisfy f, or the stream ended, or d passed.
func (p *rawPeer) waitMsgs(n int, d time.Duration, f func(Msg) bool) bool {
	end := time.Now().Add(d)
	for {
		if len(p.find(f)) >= n {
			return true
		}
		if p.closed() || !time.Now().Before(end) {
			return len(p.find(f)) >= n
		}
		time.Sleep(2 * time.Millisecond)
	}
}

// pause stops reading for that long.
func (p *rawPeer) pause(d time.Duration) {
	p.mu.Lock()
	p.paused = time.Now().Add(d)
	p.mu.Unlock()
}

// payloads is the number of messages received, without pings.
func (p *rawPeer) payloads() int {
	p.mu.Lock()
	defer p.mu.Unlock()
	return p.nload
}
