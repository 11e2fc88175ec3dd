package main

import (
	"bufio"
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"log"
	"net"
	"net/http"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/coder/websocket"
	"github.com/go-chi/chi/v5"
	"github.com/gorilla/mux"
	"github.com/julienschmidt/httprouter"
	"github.com/philippseith/signalr"
	"github.com/philippseith/signalr/router"
)

// httpNet is a real HTTP server and real HTTP clients over simulated streams.
type httpNet struct {
	w      *World
	ln     *simListener
	mux    *http.ServeMux
	hs     *http.Server
	mapped atomic.Pointer[http.Handler] // instead of mux
}

func newHTTPNet(w *World) *httpNet {
	h := &httpNet{w: w, ln: newSimListener(w.e, w.cfg), mux: http.NewServeMux()}
	h.hs = &http.Server{Handler: h, ErrorLog: log.New(httpLog{w.e}, "", 0)}
	go func() { _ = h.hs.Serve(h.ln) }()
	return h
}

// mapHub makes the server reachable at /hub, with the router of the plan.
func (h *httpNet) mapHub(s signalr.Server) {
	r := h.router(s, h.mux)
	h.mapped.Store(&r)
}

func (h *httpNet) ServeHTTP(rw http.ResponseWriter, r *http.Request) {
	if m := h.mapped.Load(); m != nil {
		(*m).ServeHTTP(rw, r)
		return
	}
	h.mux.ServeHTTP(rw, r)
}

// router maps the server with the router of the plan.
func (h *httpNet) router(s signalr.Server, m *http.ServeMux) http.Handler {
	switch h.w.e.plan.c("router") {
	case 1:
		r := chi.NewRouter()
		s.MapHTTP(router.WithChiRouter(r), "/hub")
		return r
	case 2:
		r := mux.NewRouter()
		s.MapHTTP(router.WithGorillaRouter(r), "/hub")
		return r
	case 3:
		r := httprouter.New()
		s.MapHTTP(router.WithHttpRouter(r), "/hub")
		return r
	}
	s.MapHTTP(signalr.WithHTTPServeMux(m), "/hub")
	return m
}

// httpLog sees what net/http reports. A handler that panics is a crash which
// net/http contains: it is none the less a request that was not served.
type httpLog struct{ e *Env }

func (l httpLog) Write(p []byte) (int, error) {
	s := string(p)
	if strings.Contains(s, "panic serving") {
		l.e.fail("handler-panic", "%s", trunc(s, 900))
	}
	return len(p), nil
}

// httpClient is a client with connections of its own.
type httpClient struct {
	http.Client
	h        *httpNet
	name     string
	mu       sync.Mutex
	conns    []*simConn
	hold     bool
	compress bool
	origin   string    // of websocket requests
	upgrade  [2]string // if set, their Connection and Upgrade headers
	cutAt    int64     // reset each connection when the client sent that many bytes
	cutBk    int64     // as cutAt, for what the server sent
	lost     bool      // a fault struck
}

func (h *httpNet) client(name string) *httpClient {
	c := &httpClient{h: h, name: name}
	c.Transport = &http.Transport{
		DialContext: func(ctx context.Context, _, _ string) (net.Conn, error) {
			x, err := h.ln.Dial()
			if err != nil {
				return nil, err
			}
			s := x.(*simConn)
			c.mu.Lock()
			defer c.mu.Unlock()
			if c.hold {
				s.Hold(true)
				s.peer.Hold(true)
			}
			if c.cutAt > 0 {
				s.CutAt(c.cutAt)
			}
			if c.cutBk > 0 {
				s.peer.CutAt(c.cutBk)
			}
			c.conns = append(c.conns, s)
			return s, nil
		},
		DisableCompression: true,
	}
	return c
}

// reset breaks all connections the client has now.
func (c *httpClient) reset() {
	c.mu.Lock()
	l := append([]*simConn(nil), c.conns...)
	c.lost = true
	c.mu.Unlock()
	for _, s := range l {
		s.Reset()
	}
}

// blackhole loses everything on all present and future connections.
func (c *httpClient) blackhole() {
	c.mu.Lock()
	l := append([]*simConn(nil), c.conns...)
	c.lost, c.hold = true, true
	c.mu.Unlock()
	for _, s := range l {
		s.Hold(true)
		s.peer.Hold(true)
	}
}

// heal lets future connections work.
func (c *httpClient) heal() {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.hold, c.cutAt, c.cutBk = false, 0, 0
}

// idle waits until nothing is on the way to the client for some time.
func (c *httpClient) idle(quiet, d time.Duration) {
	since := time.Now()
	waitCond(d, func() bool {
		c.mu.Lock()
		l := append([]*simConn(nil), c.conns...)
		c.mu.Unlock()
		for _, s := range l {
			s.in.mu.Lock()
			if s.in.size > 0 {
				since = time.Now()
			}
			s.in.mu.Unlock()
		}
		return time.Since(since) > quiet
	})
}

func (c *httpClient) faulted() bool {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.lost
}

const hubURL = "http://sim/hub"

// httpConnStub is what a message transport over HTTP lacks of a net.Conn.
type httpConnStub struct{}

func (httpConnStub) LocalAddr() net.Addr              { return simAddr("http") }
func (httpConnStub) RemoteAddr() net.Addr             { return simAddr("http") }
func (httpConnStub) SetDeadline(time.Time) error      { return nil }
func (httpConnStub) SetReadDeadline(time.Time) error  { return nil }
func (httpConnStub) SetWriteDeadline(time.Time) error { return nil }

// wsStream is the scripted end of a websocket.
type wsStream struct {
	httpConnStub
	c      *websocket.Conn
	ctx    context.Context
	binary bool
	rest   []byte
	tmu    sync.Mutex
	types  map[websocket.MessageType]int // received, by type
	nmsg   int
}

func (s *wsStream) Read(p []byte) (int, error) {
	for len(s.rest) == 0 {
		t, d, err := s.c.Read(s.ctx)
		if err != nil {
			return 0, err
		}
		s.nmsg++
		if s.types != nil {
			s.tmu.Lock()
			s.types[t]++
			s.tmu.Unlock()
		}
		s.rest = d
	}
	n := copy(p, s.rest)
	s.rest = s.rest[n:]
	return n, nil
}

func (s *wsStream) Write(p []byte) (int, error) {
	t := websocket.MessageText
	if s.binary {
		t = websocket.MessageBinary
	}
	if err := s.c.Write(s.ctx, t, p); err != nil {
		return 0, err
	}
	return len(p), nil
}

func (s *wsStream) Close() error { return s.c.Close(websocket.StatusNormalClosure, "") }

// sseStream is the scripted client end of server-sent events and POSTs.
type sseStream struct {
	httpConnStub
	hc     *httpClient
	url    string
	body   io.ReadCloser
	r      *bufio.Reader
	cancel context.CancelFunc
	rest   []byte
	events int
}

func newSSEStream(hc *httpClient, url string, body io.ReadCloser, cancel context.CancelFunc) *sseStream {
	return &sseStream{hc: hc, url: url, body: body, r: bufio.NewReader(body), cancel: cancel}
}

// Read delivers the data of the events, as the SSE specification has it.
func (s *sseStream) Read(p []byte) (int, error) {
	for len(s.rest) == 0 {
		var data []byte
		has := false
		for {
			line, err := s.r.ReadBytes('\n')
			if err != nil {
				return 0, err
			}
			line = bytes.TrimSuffix(bytes.TrimSuffix(line, []byte("\n")), []byte("\r"))
			if len(line) == 0 {
				break
			}
			if v, ok := bytes.CutPrefix(line, []byte("data:")); ok {
				v = bytes.TrimPrefix(v, []byte(" "))
				if has {
					data = append(data, '\n')
				}
				data = append(data, v...)
				has = true
			}
		}
		if has {
			s.events++
		}
		s.rest = data
	}
	n := copy(p, s.rest)
	s.rest = s.rest[n:]
	return n, nil
}

type statusError struct{ code int }

func (s statusError) Error() string { return fmt.Sprintf("status %d", s.code) }

// post sends a body and returns the status.
func (c *httpClient) post(ctx context.Context, url string, body io.Reader) (int, error) {
	req, err := http.NewRequestWithContext(ctx, "POST", url, body)
	if err != nil {
		panic("HARNESS: " + err.Error())
	}
	resp, err := c.Do(req)
	if err != nil {
		return 0, err
	}
	_, _ = io.Copy(io.Discard, resp.Body)
	_ = resp.Body.Close()
	return resp.StatusCode, nil
}

func (s *sseStream) Write(p []byte) (int, error) {
	code, err := s.hc.post(context.Background(), s.url, bytes.NewReader(p))
	if err != nil {
		return 0, err
	}
	if code/100 != 2 {
		return 0, statusError{code}
	}
	return len(p), nil
}

func (s *sseStream) Close() error {
	s.cancel()
	return s.body.Close()
}

// webAttempt is the outcome of a request for a transport connection.
type webAttempt struct {
	conn   net.Conn
	status int   // HTTP status, when there was one
	err    error // otherwise
	close  int   // websocket close code after the upgrade
}

// upgrader sends the headers that ask for a websocket as configured.
type upgrader struct{ c *httpClient }

func (u upgrader) RoundTrip(req *http.Request) (*http.Response, error) {
	req = req.Clone(req.Context())
	req.Header.Set("Connection", u.c.upgrade[0])
	req.Header.Set("Upgrade", u.c.upgrade[1])
	return u.c.Transport.RoundTrip(req)
}

// dialWS asks for a websocket connection.
func (c *httpClient) dialWS(ctx context.Context, key string, noID bool) webAttempt {
	u := "ws://sim/hub?id=" + key
	if noID {
		u = "ws://sim/hub"
	}
	o := &websocket.DialOptions{HTTPClient: &c.Client}
	if c.compress {
		o.CompressionMode = websocket.CompressionContextTakeover
		o.CompressionThreshold = 1
	}
	if c.origin != "" {
		o.HTTPHeader = http.Header{"Origin": {c.origin}}
	}
	if c.upgrade[0] != "" {
		o.HTTPClient = &http.Client{Transport: upgrader{c}}
	}
	ws, resp, err := websocket.Dial(ctx, u, o)
	if err != nil {
		a := webAttempt{err: err}
		if resp != nil {
			a.status = resp.StatusCode
		}
		return a
	}
	ws.SetReadLimit(-1)
	return webAttempt{status: 101, conn: &wsStream{c: ws, ctx: ctx, types: map[websocket.MessageType]int{}}}
}

// dialSSE asks for a server-sent event stream.
func (c *httpClient) dialSSE(ctx context.Context, key string) webAttempt {
	ctx, cancel := context.WithCancel(ctx)
	u := hubURL + "?id=" + key
	req, err := http.NewRequestWithContext(ctx, "GET", u, nil)
	if err != nil {
		panic("HARNESS: " + err.Error())
	}
	req.Header.Set("Accept", "text/event-stream")
	resp, err := c.Do(req)
	if err != nil {
		cancel()
		return webAttempt{err: err}
	}
	if resp.StatusCode != 200 {
		_, _ = io.Copy(io.Discard, resp.Body)
		_ = resp.Body.Close()
		cancel()
		return webAttempt{status: resp.StatusCode}
	}
	return webAttempt{status: 200, conn: newSSEStream(c, u, resp.Body, cancel)}
}

func closeCode(err error) int {
	var ce websocket.CloseError
	if errors.As(err, &ce) {
		return int(ce.Code)
	}
	return 0
}

var _ = runtime.SimChance
