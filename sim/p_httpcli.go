package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"io"
	"net"
	"net/http"
	"regexp"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/coder/websocket"
	"github.com/philippseith/signalr"
)

func init() {
	register(&Scenario{Prop: "C16", Name: "http-client", Weight: 3, Gen: genHTTPCli, Run: runHTTPCli,
		Real: []string{"client", "httpConnection", "clientSSEConnection", "webSocketConnection", "net/http client", "coder/websocket", "hub protocols"},
		Stub: []string{"TCP streams", "server (scripted)"}})
}

func genHTTPCli(r *Rand) *Plan {
	p := &Plan{Cfg: map[string]int{}}
	p.schedule(r)
	p.network(r)
	if p.Cfg["n_buf"] == 256 {
		p.Cfg["n_buf"] = 2048
	}
	p.Cfg["sse"] = r.pick(0, 1, 1)
	p.Cfg["mp"] = r.b(40) &^ p.Cfg["sse"]
	p.Cfg["style"] = r.n(8)
	p.Cfg["seed"] = r.n(1 << 30)
	p.Cfg["version"] = r.in(-1, 1)
	p.Cfg["answer"] = r.n(4) // how the negotiate response looks like
	p.Cfg["transports"] = r.n(4)
	p.Cfg["event"] = r.n(64) // how the events look like
	p.Cfg["cut"] = r.pick(0, 0, 1, 2, 3)
	p.Cfg["auth"] = r.b(40)
	p.Cfg["cookies"] = r.b(40)
	p.Cfg["slow"] = r.b(50) // pings come seldom
	p.Cfg["limit"] = r.pick(0, 0, 300, 4096, 200000)
	limit := p.Cfg["limit"]
	if limit == 0 {
		limit = 1 << 15
	}
	if r.p(20) {
		// the connection can not be established
		p.Cfg["refuse"] = r.in(1, 9)
	}
	span := r.pick(1, 1000, 100000, 1000000)
	n := r.in(0, 12)
	at := r.n(span)
	for i := 0; i < n; i++ {
		if r.p(60) {
			at = r.n(span)
		}
		op := Op{K: r.picks("echo", "echo", "pull", "send", "say", "say", "sized", "push"), T: int64(at), X: r.n(13), Y: r.pick(1, 10, 300, limit/8, limit-400), Z: r.pick(0, 0, 1000, 30000)}
		if op.K == "sized" {
			op.X = r.pick(0, 0, 1, 2)
		}
		if op.X%12 != 0 || op.K != "echo" && op.K != "say" {
			op.Y = min(op.Y, (limit-250)/8)
		}
		op.Y = max(0, min(op.Y, limit-250))
		p.Ops = append(p.Ops, op)
	}
	if p.Cfg["sse"] == 1 && r.p(45) {
		// some POSTs fail or take long
		for i := r.in(1, 3); i > 0; i-- {
			p.Ops = append(p.Ops, Op{K: "post", A: r.n(n + 2), X: r.pick(404, 409, 500, 503, 1, 1, 2, 204), Y: r.n(3000)})
		}
	}
	p.Ops = append(p.Ops, Op{K: "end", T: int64(span + r.n(300000)), X: r.n(8)})
	if r.p(50) {
		p.Ops[len(p.Ops)-1].T = int64(r.n(span + 1))
	}
	return p
}

// webServer is the scripted server.
type webServer struct {
	*World
	h      *httpNet
	hc     *httpClient
	mu     sync.Mutex
	keyID  string // the client has to use it
	posts  int
	inPost int
	peer   *rawPeer
	up     chan struct{} // the handshake has arrived
	end    chan struct{} // end the response
	abort  bool
	down   chan struct{} // the transport request has ended
	conn   io.Closer
	bad    map[int]Op
	lost   bool          // a POST failed
	not    map[int]int64 // when the call was refused
	nhs    int
}

func (x *webServer) fail(kind, f string, a ...any) { x.e.fail(kind, f, a...) }

// authorized checks that a request carries the configured headers.
func (x *webServer) authorized(rw http.ResponseWriter, r *http.Request) bool {
	if x.e.plan.b("auth") && r.Header.Get("X-Auth") != "secret" {
		x.fail("header-missing", "%s %s came without the configured headers", r.Method, r.URL)
		rw.WriteHeader(401)
		return false
	}
	return true
}

func (x *webServer) negotiate(rw http.ResponseWriter, r *http.Request) {
	p := x.e.plan
	if !x.authorized(rw, r) {
		return
	}
	if r.Method != "POST" {
		x.fail("negotiate", "negotiate request with method %s", r.Method)
	}
	if v := p.c("version"); (v >= 0) != (r.URL.Query().Get("negotiateVersion") != "") {
		x.fail("negotiate", "negotiate request with query %q", r.URL.RawQuery)
	}
	if r.URL.Query().Get("tenant") != "7" {
		x.fail("negotiate", "negotiate request with query %q lost a part of the address", r.URL.RawQuery)
	}
	switch p.c("refuse") {
	case 1:
		rw.WriteHeader([]int{503, 404, 500, 401}[p.c("answer")])
		if p.c("transports")&1 == 1 {
			// what comes with the error does not count
			_, _ = rw.Write([]byte(`{"negotiateVersion":0,"connectionId":"abc","availableTransports":[{"transport":"ServerSentEvents","transferFormats":["Text"]},{"transport":"WebSockets","transferFormats":["Text","Binary"]}]}`))
		}
		return
	case 2:
		_, _ = rw.Write([]byte(`{"connectionId":"abc`))
		return
	case 3:
		_, _ = rw.Write([]byte(`{"negotiateVersion":0,"connectionId":"abc","availableTransports":[{"transport":"LongPolling","transferFormats":["Text"]}]}`))
		return
	case 4:
		x.e.fault("negotiate-hangs")
		<-r.Context().Done()
		return
	case 5:
		x.e.fault("negotiate-reset")
		panic(http.ErrAbortHandler)
	}
	type tr struct {
		Transport       string   `json:"transport"`
		TransferFormats []string `json:"transferFormats"`
	}
	ws, sse, lp := tr{"WebSockets", []string{"Text", "Binary"}}, tr{"ServerSentEvents", []string{"Text"}}, tr{"LongPolling", []string{"Text", "Binary"}}
	ts := [][]tr{{ws, sse, lp}, {lp, sse, ws}, {sse, ws}, {ws, sse}}[p.c("transports")]
	m := map[string]any{"availableTransports": ts, "connectionId": "id/1+2 3=="}
	x.keyID = "id/1+2 3=="
	if v := p.c("version"); v >= 0 || p.c("answer")&1 == 1 {
		m["negotiateVersion"] = max(v, 0)
	}
	if p.c("version") == 1 {
		m["connectionToken"] = "token&4%5?6"
		x.keyID = "token&4%5?6"
	}
	if p.c("answer")&2 == 2 {
		m["useStatefulReconnect"] = false
		m["unknown"] = []any{1, nil, map[string]any{"a": "b"}}
	}
	b, _ := json.Marshal(m)
	rw.Header().Set("Content-Type", "application/json")
	if p.b("cookies") {
		rw.Header().Add("Set-Cookie", "node=17")
		rw.Header().Add("Set-Cookie", "lb=a-b_c; Path=/; HttpOnly")
	}
	_, _ = rw.Write(b)
}

func (x *webServer) hub(rw http.ResponseWriter, r *http.Request) {
	if !x.authorized(rw, r) {
		return
	}
	if r.URL.Query().Get("id") != x.keyID || r.URL.Query().Get("tenant") != "7" {
		x.fail("wrong-id", "%s request with query %q, the id or token is %q", r.Method, r.URL.RawQuery, x.keyID)
		rw.WriteHeader(404)
		return
	}
	if r.Method == "POST" {
		x.post(rw, r)
		return
	}
	if r.Method != "GET" {
		x.fail("connect", "%s request", r.Method)
	}
	p := x.e.plan
	if p.b("cookies") && !p.b("sse") {
		// a load balancer finds the right server with them
		got := map[string]string{}
		for _, c := range r.Cookies() {
			got[c.Name] = c.Value
		}
		if got["node"] != "17" || got["lb"] != "a-b_c" {
			x.fail("cookies", "the cookies of the negotiation are not sent with the websocket request: %v", r.Header)
			rw.WriteHeader(404)
			return
		}
	}
	switch p.c("refuse") {
	case 6:
		rw.WriteHeader(404)
		return
	case 7:
		x.e.fault("transport-hangs")
		<-r.Context().Done()
		close(x.down)
		return
	case 8:
		x.e.fault("transport-reset")
		panic(http.ErrAbortHandler)
	}
	var conn net.Conn
	if p.b("sse") {
		if r.Header.Get("Accept") != "text/event-stream" || r.Header.Get("Upgrade") != "" {
			x.fail("connect", "the request for server-sent events has headers %v", r.Header)
		}
		s := &sseServer{rw: rw, style: p.c("event"), cut: p.c("cut"), r: newRand(uint64(p.c("seed"))), e: x.e}
		s.pr, s.pw = io.Pipe()
		rw.Header().Set("Content-Type", "text/event-stream")
		rw.WriteHeader(200)
		if p.c("event")&1 == 0 {
			_, _ = io.WriteString(rw, ":\r\n\r\n")
		}
		rw.(http.Flusher).Flush()
		conn = s
		x.mu.Lock()
		x.conn = s.pw
		x.mu.Unlock()
	} else {
		c, err := websocket.Accept(rw, r, &websocket.AcceptOptions{CompressionMode: websocket.CompressionMode(p.c("answer"))})
		if err != nil {
			x.fail("connect", "the websocket request was not acceptable: %v", err)
			return
		}
		c.SetReadLimit(-1)
		s := &wsStream{c: c, ctx: r.Context(), binary: p.b("mp"), types: map[websocket.MessageType]int{}}
		conn = s
		defer x.checkTypes("the server", s, p.b("mp"))
		if p.c("cut") != 0 {
			conn = &wsCutter{wsStream: s, r: newRand(uint64(p.c("seed"))), e: x.e}
		}
	}
	defer close(x.down)
	proto := "json"
	if p.b("mp") {
		proto = "messagepack"
	}
	peer := newRawPeer(x.e, conn, proto, "srv")
	peer.style = p.c("style")
	hsDone := make(chan error, 1)
	go func() {
		hs, err := readUntilRS(conn)
		x.e.log("handshake request %q %v", hs, err)
		hsDone <- err
		if err == nil && p.c("refuse") == 9 {
			peer.start(false)
			_, _ = conn.Write([]byte("{\"error\":\"no\"}\x1e"))
			return
		}
		if err == nil {
			peer.start(false)
			_, _ = conn.Write([]byte("{}\x1e"))
			x.mu.Lock()
			x.peer = peer
			x.mu.Unlock()
			close(x.up)
		}
	}()
	if s, ok := conn.(*sseServer); ok {
		select {
		case <-r.Context().Done():
			x.e.log("the client has gone")
		case <-x.end:
		}
		s.mu.Lock()
		s.over = true
		s.mu.Unlock()
		_ = s.pw.CloseWithError(fmt.Errorf("events ended"))
		if x.aborts() {
			panic(http.ErrAbortHandler)
		}
		return
	}
	<-hsDone
	select {
	case <-peer.readDone:
	case <-x.end:
		if x.aborts() {
			return // resets
		}
		_ = conn.Close()
	}
}

func readUntilRS(c io.Reader) ([]byte, error) {
	var hs []byte
	buf := make([]byte, 1)
	for {
		n, err := c.Read(buf)
		if n == 1 {
			hs = append(hs, buf[0])
			if buf[0] == 0x1e {
				return hs, nil
			}
		}
		if err != nil {
			return hs, err
		}
	}
}

// argTags finds the tags of the calls in a POST.
var argTags = regexp.MustCompile(`"arguments":\[(\d+)[,\]]`)

func (x *webServer) post(rw http.ResponseWriter, r *http.Request) {
	x.mu.Lock()
	n := x.posts
	x.posts++
	x.inPost++
	if x.inPost > 1 && !x.hc.faulted() {
		x.fail("concurrent-posts", "POST %d comes while another one is not answered, servers refuse it", n)
	}
	pw, _ := x.conn.(*io.PipeWriter)
	op, isBad := x.bad[n]
	x.mu.Unlock()
	defer func() {
		x.mu.Lock()
		x.inPost--
		x.mu.Unlock()
	}()
	b, err := io.ReadAll(r.Body)
	if err != nil || pw == nil {
		rw.WriteHeader(400)
		return
	}
	x.e.log("POST %d: %d bytes", n, len(b))
	if isBad {
		x.e.fault(fmt.Sprintf("post-%d", op.X))
		if op.X >= 200 || op.X == 2 {
			x.mu.Lock()
			for _, m := range argTags.FindAllSubmatch(b, -1) {
				if tag, err := strconv.Atoi(string(m[1])); err == nil {
					x.not[tag] = x.e.us()
				}
			}
			x.mu.Unlock()
		}
		switch {
		case op.X >= 200:
			x.mu.Lock()
			x.lost = true
			x.mu.Unlock()
			rw.WriteHeader(op.X)
			return
		case op.X == 1:
			time.Sleep(time.Duration(op.Y) * time.Millisecond)
		case op.X == 2:
			x.mu.Lock()
			x.lost = true
			x.mu.Unlock()
			panic(http.ErrAbortHandler)
		}
	}
	if _, err := pw.Write(b); err != nil {
		rw.WriteHeader(404)
		return
	}
	_, _ = io.WriteString(rw, "ok")
}

// wsCutter sends what it gets in websocket messages of any size.
type wsCutter struct {
	*wsStream
	mu sync.Mutex
	r  *Rand
	e  *Env
}

func (s *wsCutter) Write(b []byte) (int, error) {
	s.mu.Lock()
	defer s.mu.Unlock()
	n := len(b)
	for k := s.r.in(0, 3); k > 0; k-- {
		l := s.r.n(len(b) + 1)
		if err := s.fragments(b[:l], s.r); err != nil {
			return 0, err
		}
		b = b[l:]
	}
	if err := s.fragments(b, s.r); err != nil {
		return 0, err
	}
	return n, nil
}

// sseServer is the scripted server end of server-sent events.
type sseServer struct {
	httpConnStub
	mu    sync.Mutex
	rw    http.ResponseWriter
	over  bool
	style int
	cut   int
	r     *Rand
	e     *Env
	pr    *io.PipeReader
	pw    *io.PipeWriter
	late  []byte
}

func (s *sseServer) Read(p []byte) (int, error) { return s.pr.Read(p) }

func (s *sseServer) Close() error { return nil }

// Write formats what it gets as events, in one of the ways the SSE
// specification allows.
func (s *sseServer) Write(b []byte) (int, error) {
	s.mu.Lock()
	defer s.mu.Unlock()
	if s.over {
		return 0, fmt.Errorf("events ended")
	}
	nl := []string{"\n", "\r\n"}[s.style>>1&1]
	field := []string{"data: ", "data:"}[s.style>>2&1]
	var o bytes.Buffer
	parts := [][]byte{b}
	if s.style>>3&1 == 1 {
		parts = nil
		rest := b
		for len(rest) > 1 && s.r.p(50) {
			n := s.r.in(1, len(rest)-1)
			if rest[n] == ' ' || rest[n]&0xC0 == 0x80 {
				continue
			}
			parts = append(parts, rest[:n])
			rest = rest[n:]
		}
		parts = append(parts, rest)
	}
	for _, d := range parts {
		if s.style>>4&1 == 1 {
			for k := s.r.n(3); k > 0; k-- {
				o.WriteString([]string{"event: message", "id: 7", ": data: {}\x1e", "retry: 100", ":", "unknown: x", "datax: {\"type\":7}\x1e"}[s.r.n(7)] + nl)
			}
		}
		o.WriteString(field)
		o.Write(d)
		o.WriteString(nl)
		if s.style>>4&1 == 1 && s.r.p(30) {
			o.WriteString("id: 8" + nl)
		}
		o.WriteString(nl)
	}
	if s.style>>5&1 == 1 && s.r.p(40) {
		o.WriteString(": alive" + nl + nl)
	}
	out := o.Bytes()
	flush := func() { s.rw.(http.Flusher).Flush() }
	if s.cut != 0 {
		for k := s.r.n([]int{0, 3, 6, 20}[s.cut]); k > 0 && len(out) > 0; k-- {
			n := s.r.n(min(len(out), []int{0, 1 << 20, 100, 8}[s.cut])) + 1
			if _, err := s.rw.Write(out[:n]); err != nil {
				return 0, err
			}
			out = out[n:]
			flush()
			if s.r.p(20) {
				time.Sleep(time.Duration(s.r.n(2000)) * time.Microsecond)
			}
		}
	}
	if _, err := s.rw.Write(out); err != nil {
		return 0, err
	}
	flush()
	return len(b), nil
}

func runHTTPCli(e *Env) {
	w := newWorld(e)
	p := e.plan
	h := newHTTPNet(w)
	x := &webServer{World: w, h: h, hc: h.client("cli"), up: make(chan struct{}), end: make(chan struct{}), down: make(chan struct{}), bad: map[int]Op{}, not: map[int]int64{}}
	for _, op := range p.Ops {
		if op.K == "post" {
			x.bad[op.A] = op
		}
	}
	h.mux.HandleFunc("/hub/negotiate", x.negotiate)
	h.mux.HandleFunc("/hub", x.hub)
	refuse := p.c("refuse")
	tr := signalr.TransportWebSockets
	if p.b("sse") {
		tr = signalr.TransportServerSentEvents
	}
	opts := []any{}
	_ = opts
	ctx, cancel := context.WithCancel(w.ctx)
	dctx, dcancel := context.WithTimeout(ctx, 30*time.Second)
	hdr := func() http.Header { return nil }
	_ = hdr
	type connRes struct {
		c   signalr.Connection
		err error
	}
	res := make(chan connRes, 1)
	go func() {
		auth := func() http.Header {
			hd := http.Header{}
			hd.Set("X-Auth", "secret")
			return hd
		}
		var r connRes
		const u = hubURL + "?tenant=7"
		switch {
		case p.b("auth") && p.c("version") >= 0:
			r.c, r.err = signalr.NewHTTPConnection(dctx, u, signalr.WithHTTPClient(&x.hc.Client), signalr.WithTransports(tr), signalr.WithNegotiateVersion(p.c("version")), signalr.WithHTTPHeaders(auth))
		case p.b("auth"):
			r.c, r.err = signalr.NewHTTPConnection(dctx, u, signalr.WithHTTPClient(&x.hc.Client), signalr.WithTransports(tr), signalr.WithHTTPHeaders(auth))
		case p.c("version") >= 0:
			r.c, r.err = signalr.NewHTTPConnection(dctx, u, signalr.WithHTTPClient(&x.hc.Client), signalr.WithTransports(tr), signalr.WithNegotiateVersion(p.c("version")))
		default:
			r.c, r.err = signalr.NewHTTPConnection(dctx, u, signalr.WithHTTPClient(&x.hc.Client), signalr.WithTransports(tr))
		}
		res <- r
	}()
	var r connRes
	select {
	case r = <-res:
	case <-time.After(time.Minute):
		e.fail("connect-hangs", "NewHTTPConnection does not return though its context is done (refuse %d, sse %v)", refuse, p.b("sse"))
		return
	}
	dcancel()
	if (r.err == nil) != (refuse == 0 || refuse == 9) {
		e.fail("connect", "NewHTTPConnection returned %v (refuse %d, sse %v)", r.err, refuse, p.b("sse"))
	}
	if r.err != nil {
		e.count("refused", 1)
		x.hc.CloseIdleConnections()
		time.Sleep(time.Second)
		w.leftBehind(time.Second)
		return
	}
	if id := r.c.ConnectionID(); id != "id/1+2 3==" {
		e.fail("connect", "the connection has the id %q", id)
	}
	o := []func(signalr.Party) error{w.logger(), signalr.WithConnection(r.c), signalr.WithReceiver(&Receiver{w: w, name: "cli"}), signalr.TimeoutInterval(20 * time.Second), signalr.KeepAliveInterval(5 * time.Second)}
	if p.b("slow") {
		o = append(o, signalr.TimeoutInterval(80*time.Second), signalr.KeepAliveInterval(70*time.Second))
	}
	if p.b("mp") {
		o = append(o, signalr.TransferFormat(signalr.TransferFormatBinary))
	}
	limit := 1 << 15
	if l := p.c("limit"); l > 0 {
		limit = l
		o = append(o, signalr.MaximumReceiveMessageSize(uint(l)))
	}
	cl, err := signalr.NewClient(ctx, o...)
	if err != nil {
		panic("HARNESS: " + err.Error())
	}
	cl.Start()
	err = w.waitConnected(cl, 40*time.Second)
	if refuse == 9 {
		if err == nil {
			e.fail("connect", "the client is connected though the handshake was refused")
		}
		x.finish(cl, cancel)
		return
	}
	if bad := x.failed(); err != nil {
		if !bad {
			e.fail("connect", "the client did not get connected: %v", err)
		}
		x.finish(cl, cancel)
		return
	}
	e.count("connected", 1)
	<-x.up
	stopPing := make(chan struct{})
	defer close(stopPing)
	go x.peer.keepAlive(stopPing)
	x.play(cl, cancel, limit)
	x.finish(cl, cancel)
}

func (x *webServer) failed() bool {
	x.mu.Lock()
	defer x.mu.Unlock()
	return x.lost
}

func (x *webServer) play(cl signalr.Client, cancel context.CancelFunc, limit int) {
	e, p, w := x.e, x.e.plan, x.World
	proto := x.peer.proto
	base := e.us()
	var mu sync.Mutex
	broken := false
	ended := int64(0)
	isBroken := func() bool {
		mu.Lock()
		defer mu.Unlock()
		return broken || x.failed()
	}
	byTag := map[int]Op{}
	seen := map[int]int{}
	type upload struct{ tag, got int }
	uploads := map[string]*upload{}
	for i, op := range p.Ops {
		byTag[100+i] = op
	}
	// the server's part
	x.peer.mu.Lock()
	x.peer.onMsg = func(m Msg) {
		if m.Type == mItem || m.Type == mCompl {
			// an upload: what arrives is its beginning, and its regular end
			// comes after all of it
			mu.Lock()
			defer mu.Unlock()
			u := uploads[m.ID]
			if u == nil {
				return
			}
			switch {
			case m.Type == mCompl && m.Err == "" && u.got != byTag[u.tag].X:
				e.fail("upload-end", "the upload of call %d ends regularly after %d of %d items", u.tag, u.got, byTag[u.tag].X)
			case m.Type == mItem && int(numOf(m.Item)) != u.tag*1000+u.got:
				e.fail("upload-items", "the upload of call %d: item %v arrived where %d should be", u.tag, m.Item, u.tag*1000+u.got)
			}
			u.got++
			return
		}
		if m.Type != mInvoke && m.Type != mStream || len(m.Args) == 0 {
			return
		}
		tag := int(numOf(m.Args[0]))
		op := byTag[tag]
		mu.Lock()
		seen[tag]++
		for _, id := range m.StreamIDs {
			uploads[id] = &upload{tag: tag}
		}
		mu.Unlock()
		go func() {
			time.Sleep(time.Duration(op.Z) * time.Microsecond)
			switch op.K {
			case "echo":
				_ = x.peer.send(Msg{Type: mCompl, ID: m.ID, HasID: true, Result: m.Args[1], HasResult: true})
			case "pull":
				var b []byte
				for k := 0; k < op.X; k++ {
					b = append(b, encode(proto, Msg{Type: mItem, ID: m.ID, HasID: true, Item: tag*1000 + k}, x.peer.style)...)
					if op.Y%2 == 0 {
						_ = x.peer.write(b)
						b = nil
					}
				}
				_ = x.peer.write(append(b, encode(proto, Msg{Type: mCompl, ID: m.ID, HasID: true}, x.peer.style)...))
			default:
				_ = x.peer.send(Msg{Type: mCompl, ID: m.ID, HasID: true})
			}
		}()
	}
	x.peer.mu.Unlock()
	type said struct {
		tag  int
		text string
		ok   bool
	}
	var says []*said
	var outs []*outcome
	var checks []func()
	var wg sync.WaitGroup
	for i, op := range p.Ops {
		op, tag := op, 100+i
		name := fmt.Sprintf("#%d", tag)
		wg.Add(1)
		go func() {
			defer wg.Done()
			e.sleepUntilUs(base + op.T)
			add := func(o *outcome, f func()) {
				mu.Lock()
				outs = append(outs, o)
				checks = append(checks, f, func() {
					items, closed := o.snap()
					ok := closed
					for _, it := range items {
						ok = ok && it.Error == nil
					}
					x.mu.Lock()
					at, refused := x.not[tag]
					x.mu.Unlock()
					mu.Lock()
					n := seen[tag]
					end := ended
					mu.Unlock()
					switch {
					case refused && ok:
						e.fail("refused-but-success", "call %d was successful, but the server did not accept it", tag)
					case refused && (!closed || o.endUs > at+5e6) && (end == 0 || end > at+5e6):
						e.fail("refusal-unnoticed", "call %d did not fail, though the server has refused it", tag)
					case p.b("sse") && ok && n == 0:
						e.fail("lost-success", "call %d was successful, but the server did not receive it", tag)
					}
				})
				mu.Unlock()
			}
			once := func() {
				mu.Lock()
				n := seen[tag]
				mu.Unlock()
				if n > 1 || n == 0 && !isBroken() {
					e.fail("executed", "call %d arrived %d times", tag, n)
				}
			}
			switch op.K {
			case "echo":
				s := content(op.X, op.Y, tag)
				o := w.watch(name, cl.Invoke("Echo", tag, s), 0)
				add(o, func() {
					once()
					w.checkInvoke(name, o, invokeSpec{method: "Echo", want: canon(s)}, isBroken())
				})
			case "pull":
				o := w.watch(name, cl.PullStream("Count", tag, op.X), 0)
				sp := pullSpec{method: "Count"}
				for k := 0; k < op.X; k++ {
					sp.items = append(sp.items, canon(tag*1000+k))
				}
				add(o, func() { once(); w.checkPull(name, o, sp, isBroken()) })
			case "send":
				o := w.watchErr(name, cl.Send("Void", tag))
				add(o, once)
			case "push":
				ch := make(chan int)
				go func() {
					defer close(ch)
					for k := 0; k < op.X; k++ {
						select {
						case ch <- tag*1000 + k:
						case <-time.After(time.Minute):
							return
						}
					}
				}()
				o := w.watch(name, cl.PushStreams("Upload", tag, ch), 0)
				add(o, once)
			case "say", "sized":
				s := &said{tag: tag, text: content(op.X, op.Y, tag)}
				m := Msg{Type: mInvoke, Target: "OnMsg", Args: []any{tag, s.text}}
				if op.K == "sized" {
					n := limit - bodySize(proto, encode(proto, Msg{Type: mInvoke, Target: "OnMsg", Args: []any{tag, ""}}, x.peer.style)) - op.X
					for {
						s.text = strings.Repeat("s", n)
						m.Args[1] = s.text
						if bodySize(proto, encode(proto, m, x.peer.style)) <= limit {
							break
						}
						n--
					}
				}
				go func() { // blocks when nobody reads
					err := x.peer.send(m)
					mu.Lock()
					s.ok = err == nil && !broken
					says = append(says, s)
					mu.Unlock()
				}()
			case "end":
				mu.Lock()
				broken = true
				if op.X != 0 {
					ended = e.us()
				}
				mu.Unlock()
				e.fault("end-" + []string{"none", "stop", "cancel", "body-end", "abort", "reset", "blackhole", "close-message"}[op.X])
				switch op.X {
				case 0:
					mu.Lock()
					broken = false
					mu.Unlock()
				case 1:
					cl.Stop()
				case 2:
					cancel()
				case 3:
					close(x.end)
				case 4:
					x.mu.Lock()
					x.abort = true
					x.mu.Unlock()
					x.hc.reset()
					close(x.end)
				case 5:
					x.hc.reset()
				case 6:
					x.hc.blackhole()
				case 7:
					_ = x.peer.send(Msg{Type: mClose, Err: "bye"})
				}
				if op.X == 3 || op.X == 7 {
					// what was sent before comes first
					x.hc.idle(time.Second, 2*time.Minute)
				}
				if op.X != 0 && op.X != 6 && !waitCond(10*time.Second, func() bool { return cl.State() == signalr.ClientClosed }) {
					// long before the timeout
					e.fail("end-unnoticed", "the client has not noticed the end of the connection after 10 s, it is %s", stateName(cl.State()))
				}
			}
		}()
	}
	fin := make(chan struct{})
	go func() { wg.Wait(); close(fin) }()
	if !waitOr(fin, 5*time.Minute) {
		e.fail("call-blocks", "a call of the library did not return")
		return
	}
	mu.Lock()
	all := append([]*outcome(nil), outs...)
	mu.Unlock()
	await(3*time.Minute, all...)
	for _, f := range checks {
		f()
	}
	lost := func() *said {
		mu.Lock()
		defer mu.Unlock()
		for _, s := range says {
			if s.ok && !broken && len(w.callsOf("OnMsg", s.tag)) == 0 {
				return s
			}
		}
		return nil
	}
	time.Sleep(time.Second)
	waitCond(30*time.Second, func() bool { return lost() == nil })
	if s := lost(); s != nil && (cl.State() == signalr.ClientConnected || !x.failed()) {
		e.fail("message-lost", "message %d of %d bytes did not arrive", s.tag, len(s.text))
	}
	mu.Lock()
	sent := append([]*said(nil), says...)
	mu.Unlock()
	for _, s := range sent {
		l := w.callsOf("OnMsg", s.tag)
		if len(l) > 1 {
			e.fail("message-twice", "message %d arrived %d times", s.tag, len(l))
		}
		for _, k := range l {
			if k.Args != s.text {
				e.fail("message-changed", "message %d arrived as %q instead of %q", s.tag, trunc(k.Args, 200), trunc(s.text, 200))
			}
		}
		e.count("messages", len(l))
	}
	if !isBroken() && cl.State() != signalr.ClientConnected {
		e.fail("disturbed", "the client is not connected anymore: %v", cl.Err())
	}
	if broken && !waitCond(100*time.Second, func() bool { return cl.State() == signalr.ClientClosed }) {
		e.fail("end-unnoticed", "the client did not notice the end of the connection, it is %s", stateName(cl.State()))
	}
	e.count("checked", 1)
}

// finish stops the client. The server has to notice and nothing must stay.
func (x *webServer) finish(cl signalr.Client, cancel context.CancelFunc) {
	e := x.e
	stopped := make(chan struct{})
	go func() { cl.Stop(); close(stopped) }()
	if !waitOr(stopped, time.Minute) {
		e.fail("stop-hangs", "Stop did not return")
	}
	x.mu.Lock()
	dead := x.hc.lost
	x.mu.Unlock()
	if !dead && !waitOr(x.down, 30*time.Second) {
		e.fail("end-unnoticed", "the client was stopped, but its transport request is still there")
	}
	if dead {
		x.hc.heal()
		x.hc.reset()
	}
	cancel()
	x.leftBehind(2 * time.Minute)
}

func numOf(v any) float64 {
	switch n := v.(type) {
	case float64:
		return n
	case json.Number:
		f, _ := n.Float64()
		return f
	case int:
		return float64(n)
	case int64:
		return float64(n)
	case uint64:
		return float64(n)
	case int8:
		return float64(n)
	case uint8:
		return float64(n)
	case int16:
		return float64(n)
	case uint16:
		return float64(n)
	case int32:
		return float64(n)
	case uint32:
		return float64(n)
	}
	return -1
}

func (x *webServer) aborts() bool {
	x.mu.Lock()
	defer x.mu.Unlock()
	return x.abort
}
