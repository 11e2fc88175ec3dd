package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"io"
	"net/http"
	"strings"
	"sync"
	"time"

	"github.com/philippseith/signalr"
)

func init() {
	register(&Scenario{Prop: "C15", Name: "negotiate", Weight: 4, Gen: genNego, Run: runNego,
		Real: []string{"httpMux", "router adapters", "server", "webSocketConnection", "serverSSEConnection", "net/http server and client", "coder/websocket", "hub protocols"},
		Stub: []string{"TCP streams", "clients (scripted requests)"}})
}

func genNego(r *Rand) *Plan {
	p := &Plan{Cfg: map[string]int{}}
	p.schedule(r)
	p.network(r)
	p.Cfg["router"] = r.pick(0, 0, 0, 1, 2, 3)
	p.calm()
	p.Cfg["n_buf"] = 0
	p.Cfg["percon"] = r.b(30)
	p.Cfg["ttl"] = r.pick(500, 1000, 1000, 3000, 15000)
	p.Cfg["max"] = r.pick(-1, -1, 0, 1, 1, 2, 2, 3, 5, 10) // -1: the default
	p.Cfg["transports"] = r.pick(0, 0, 1, 2, 3)            // default, ws, sse, sse+ws
	p.Cfg["bystander"] = r.n(3)                            // none, ws, sse
	p.Cfg["origin"] = r.pick(0, 0, 1, 1, 2)                // the same only, a pattern, any
	ttl := p.Cfg["ttl"] * 1000
	t := 0
	slot := 0
	use := func(s, at int) {
		k := r.in(1, 4)
		if r.p(40) {
			k = 1
		}
		spread := r.pick(1, 1, 30, 1000, 100000)
		for i := 0; i < k; i++ {
			op := Op{K: "use", T: int64(at + r.n(spread)), A: s, X: r.pick(0, 0, 1, 1, 1), Y: r.pick(0, 0, 50, 500, 5000), Z: r.n(6)}
			if r.p(10) {
				op.S = "id" // the connection id, also when there is a token
			}
			if op.X == 0 && r.p(20) {
				op.X += 2 * r.in(1, 3) // other headers
			}
			if r.p(8) {
				op.L = []int{r.pick(1, 2, 3), r.n(5000)} // cancel, reset or cut that webAttempt
			}
			if op.X%2 == 0 && op.S == "" && r.p(30) {
				op.S = origins[r.n(len(origins))].s
			}
			p.Ops = append(p.Ops, op)
		}
		if r.p(35) {
			for i := r.in(1, 3); i > 0; i-- {
				p.Ops = append(p.Ops, Op{K: "post", T: int64(at + r.n(2*spread+50000) - r.n(20000)), A: s, X: r.n(6), Y: r.n(3000)})
			}
		}
	}
	for n := r.in(1, 10); n > 0; n-- {
		t += r.pick(0, 0, 10, 1000, 50000, ttl/2, ttl, ttl*2, ttl*3)
		switch r.n(10) {
		default:
			m := 1
			if r.p(30) {
				m = r.in(2, 6) // at once
			}
			for ; m > 0; m-- {
				p.Ops = append(p.Ops, Op{K: "neg", T: int64(t + r.n(3)), X: r.n(8)})
				if r.p(75) {
					at := t + r.pick(0, 1000, 20000, ttl/3, ttl-50000, ttl, ttl*2)
					use(slot, at)
					if r.p(40) {
						use(slot, at+r.pick(1000, 100000, 1000000, 20000000)) // once more
					}
				}
				slot++
			}
		case 0, 1:
			p.Ops = append(p.Ops, Op{K: "odd", T: int64(t), X: r.n(12), Y: r.n(8), A: r.n(max(slot, 1))})
		case 2:
			use(-1, t)
		case 3:
			op := Op{K: "use", T: int64(t), A: -2, X: r.pick(0, 0, 1), Y: r.n(500), Z: r.n(6)}
			if op.X == 0 && r.p(40) {
				op.S = origins[r.n(len(origins))].s
			}
			p.Ops = append(p.Ops, op)
		}
	}
	if r.p(50) {
		// use ids again that have ended or expired
		for s := 0; s < slot; s++ {
			use(s, t+r.in(1, 20)*1000000)
		}
	}
	return p
}

// origins of websocket requests, and the least cfg "origin" that admits them:
// 0 the host itself, 1 with the pattern *.good.example, 2 without a check.
var origins = []struct {
	s    string
	from int
}{
	{"http://sim", 0}, {"https://SIM", 0},
	{"https://a.good.example", 1}, {"http://b.Good.example", 1},
	{"https://good.example", 2}, {"https://evil.example", 2}, {"https://a.good.example.evil.example", 2},
	{"https://evilgood.example", 2}, {"http://sim.evil.example", 2}, {"http://sim:8080", 2}, {"null", 2},
}

// originOf tells whether s is an origin, and if a server with cfg "origin"
// must admit it.
func originOf(s string, cfg int) (bool, bool) {
	for _, o := range origins {
		if o.s == s {
			return true, cfg >= o.from
		}
	}
	return false, true
}

// negSlot is one negotiated id.
type negSlot struct {
	i        int
	startUs  int64
	endUs    int64
	ok       bool
	status   int
	id       string
	token    string
	done     chan struct{}
	claimMin int64 // start of the first use
	claimMax int64 // end of the use that was admitted
	tainted  bool  // somebody else posts to it
}

func (s *negSlot) key() string {
	if s.token != "" {
		return s.token
	}
	return s.id
}

// negUse is one request for a transport with such an id.
type negUse struct {
	op       Op
	slot     *negSlot
	startUs  int64
	endUs    int64 // decided
	admitted bool
	unclear  bool
	sse      bool
	desc     string
}

type negRun struct {
	*World
	h     *httpNet
	mu    sync.Mutex
	slots []*negSlot
	uses  []*negUse
	ttl   int64 // microseconds
	max   int
}

func runNego(e *Env) {
	w := newWorld(e)
	p := e.plan
	x := &negRun{World: w, h: newHTTPNet(w), ttl: int64(p.c("ttl")) * 1000, max: p.c("max")}
	opts := []func(signalr.Party) error{signalr.HandshakeTimeout(ms(p.c("ttl"))), signalr.TimeoutInterval(time.Hour), signalr.KeepAliveInterval(time.Minute)}
	want := []string{"WebSockets", "ServerSentEvents"}
	switch p.c("transports") {
	case 1:
		want = []string{"WebSockets"}
		opts = append(opts, signalr.HTTPTransports(signalr.TransportWebSockets))
	case 2:
		want = []string{"ServerSentEvents"}
		opts = append(opts, signalr.HTTPTransports(signalr.TransportServerSentEvents))
	case 3:
		want = []string{"ServerSentEvents", "WebSockets"}
		opts = append(opts, signalr.HTTPTransports(signalr.TransportServerSentEvents, signalr.TransportWebSockets))
	}
	if x.max >= 0 {
		opts = append(opts, signalr.MaxNegotiationConnections(x.max))
	} else {
		x.max = 1000
	}
	switch p.c("origin") {
	case 1:
		opts = append(opts, signalr.AllowOriginPatterns([]string{"*.good.example"}))
	case 2:
		opts = append(opts, signalr.InsecureSkipVerify(true))
	}
	srv := w.server(w.ctx, 0, opts...)
	x.h.mapHub(srv)
	stopBy := x.bystander(p.c("bystander"))
	base := e.us()

	for _, op := range p.Ops {
		if op.K == "neg" {
			x.slots = append(x.slots, &negSlot{i: len(x.slots), done: make(chan struct{}), claimMin: -1, claimMax: -1})
		}
	}
	for _, op := range p.Ops {
		if op.K == "post" && op.A >= 0 && op.A < len(x.slots) {
			x.slots[op.A].tainted = true
		}
	}
	var wg sync.WaitGroup
	n := 0
	for _, op := range p.Ops {
		op := op
		i := n
		if op.K == "neg" {
			n++
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			e.sleepUntilUs(base + op.T)
			switch op.K {
			case "neg":
				x.negotiate(x.slots[i], op, want)
			case "use":
				x.use(op)
			case "post":
				x.post(op)
			case "odd":
				x.odd(op)
			}
		}()
	}
	fin := make(chan struct{})
	go func() { wg.Wait(); close(fin) }()
	if !waitOr(fin, 10*time.Minute) {
		e.fail("request-hangs", "a request was not answered")
		return
	}
	if stopBy != nil {
		stopBy()
	}
	x.judge()
	// whatever happened, a new client is served, at the latest when the
	// unused ids have expired
	time.Sleep(time.Duration(2*x.ttl)*time.Microsecond + time.Second)
	e.mu.Lock()
	tr := signalr.TransportType(want[e.nlines%len(want)])
	e.mu.Unlock()
	conn, err := signalr.NewHTTPConnection(w.ctx, hubURL, signalr.WithHTTPClient(&x.h.client("last").Client), signalr.WithTransports(tr))
	if err != nil {
		e.fail("no-more-service", "a new client could not connect: %v", err)
		return
	}
	cl, err := signalr.NewClient(w.ctx, signalr.WithConnection(conn), w.logger())
	if err != nil {
		panic("HARNESS: " + err.Error())
	}
	cl.Start()
	if err := w.waitConnected(cl, time.Minute); err != nil {
		e.fail("no-more-service", "a new client did not get connected over %s: %v", tr, err)
		return
	}
	select {
	case r := <-cl.Invoke("Add", 7, 3, 4):
		if r.Error != nil || canon(r.Value) != "7" {
			e.fail("no-more-service", "a new client over %s got %v %v", tr, r.Value, r.Error)
		}
	case <-time.After(time.Minute):
		e.fail("no-more-service", "a new client over %s got no answer", tr)
	}
	e.count("checked", 1)
}

// bystander is connected all the time and must not be disturbed.
func (x *negRun) bystander(kind int) func() {
	if kind == 0 {
		return nil
	}
	e := x.e
	hc := x.h.client("by")
	s := &negSlot{done: make(chan struct{})}
	x.ask(hc, s, 0)
	if !s.ok {
		e.fail("connect", "bystander was not negotiated: %d", s.status)
		return nil
	}
	var a webAttempt
	if kind == 1 {
		a = hc.dialWS(x.ctx, s.key(), false)
	} else {
		a = hc.dialSSE(x.ctx, s.key())
	}
	if a.conn == nil {
		e.fail("connect", "bystander was refused: %d %v", a.status, a.err)
		return nil
	}
	p := newRawPeer(e, a.conn, "json", "by")
	p.start(true)
	if err := p.handshake(20 * time.Second); err != nil {
		e.fail("connect", "bystander: %v", err)
		return nil
	}
	stop := make(chan struct{})
	done := make(chan struct{})
	go func() {
		defer close(done)
		for i := 1; ; i++ {
			id := fmt.Sprintf("by%d", i)
			if err := p.send(Msg{Type: mInvoke, ID: id, HasID: true, Target: "Add", Args: []any{1000 + i, i, 1}}); err != nil {
				e.fail("bystander-disturbed", "could not send: %v", err)
				return
			}
			if !p.waitMsgs(1, time.Minute, func(m Msg) bool { return m.Type == mCompl && m.ID == id }) {
				e.fail("bystander-disturbed", "invocation %d was not answered (closed=%v)", i, p.closed())
				return
			}
			if c := p.completions(id); len(c) != 1 || c[0].Err != "" || canon(c[0].Result) != fmt.Sprint(i+1) {
				e.fail("bystander-disturbed", "invocation %d was answered %v", i, c)
				return
			}
			e.count("bystander-call", 1)
			select {
			case <-stop:
				return
			case <-time.After(400 * time.Millisecond << uint(min(i/8, 6))):
			}
		}
	}()
	return func() { close(stop); <-done }
}

// ask sends a negotiate request.
func (x *negRun) ask(hc *httpClient, s *negSlot, variant int) *negotiation {
	defer close(s.done)
	u := hubURL + "/negotiate"
	hdr := ""
	switch variant {
	case 1, 5:
		u += "?negotiateVersion=1"
	case 2:
		hdr = "1"
	case 3:
		u += "?negotiateVersion=abc"
	case 4:
		u += "?negotiateVersion=0&foo=bar"
	case 6:
		u += "?negotiateVersion=1"
		hdr = "x"
	}
	req, _ := http.NewRequest("POST", u, strings.NewReader(strings.Repeat("n", variant*3)))
	if hdr != "" {
		req.Header.Set("negotiateVersion", hdr)
	}
	s.startUs = x.e.us()
	resp, err := hc.Do(req)
	s.endUs = x.e.us()
	if err != nil {
		x.e.fail("negotiate", "request failed: %v", err)
		return nil
	}
	b, err := io.ReadAll(resp.Body)
	_ = resp.Body.Close()
	s.endUs = x.e.us()
	s.status = resp.StatusCode
	x.e.log("negotiate %d variant %d: %d %s", s.i, variant, resp.StatusCode, trunc(string(b), 200))
	if resp.StatusCode != 200 || err != nil {
		return nil
	}
	var n negotiation
	if err := json.Unmarshal(b, &n); err != nil {
		x.e.fail("negotiate", "the response is not json: %q", b)
		return nil
	}
	s.id, s.token, s.ok = n.ConnectionID, n.ConnectionToken, true
	return &n
}

type negotiation struct {
	ConnectionToken     string
	ConnectionID        string
	NegotiateVersion    int
	AvailableTransports []struct {
		Transport       string
		TransferFormats []string
	}
}

func (x *negRun) negotiate(s *negSlot, op Op, want []string) {
	e := x.e
	n := x.ask(x.h.client("neg"), s, op.X)
	if n == nil {
		if s.status != 200 && s.status != 429 {
			e.fail("negotiate", "negotiate request %d was answered with status %d", s.i, s.status)
		}
		return
	}
	e.count("negotiated", 1)
	v1 := op.X == 1 || op.X == 2 || op.X == 5 || op.X == 6
	if s.id == "" || (s.token != "") != v1 || (n.NegotiateVersion == 1) != v1 {
		e.fail("negotiate", "negotiate request %d (version 1: %v) was answered %+v", s.i, v1, *n)
	}
	var got []string
	for _, t := range n.AvailableTransports {
		got = append(got, t.Transport)
		f := strings.Join(t.TransferFormats, ",")
		if t.Transport == "WebSockets" && f != "Text,Binary" || t.Transport == "ServerSentEvents" && f != "Text" {
			e.fail("negotiate", "transfer formats of %s: %s", t.Transport, f)
		}
	}
	if strings.Join(got, ",") != strings.Join(want, ",") {
		e.fail("negotiate", "available transports are %v, configured are %v", got, want)
	}
}

// slot waits for the negotiation an op refers to. It returns nil when there
// is none to refer to.
func (x *negRun) slot(i int) *negSlot {
	if i < 0 || i >= len(x.slots) {
		return nil
	}
	<-x.slots[i].done
	if !x.slots[i].ok {
		return nil
	}
	return x.slots[i]
}

func (x *negRun) use(op Op) {
	e := x.e
	u := &negUse{op: op, sse: op.X%2 == 1}
	key := ""
	switch op.A {
	case -1:
		key = []string{"unknown", "..%2F..", "AAAAAAAAAAAAAAAAAAAAAA%3D%3D", "%00", strings.Repeat("k", 2000)}[op.Y%5]
		u.desc = "an unknown id"
	case -2:
		u.desc = "no id"
	default:
		s := x.slot(op.A)
		if s == nil {
			return
		}
		key = s.key()
		u.slot = s
		if op.S == "id" && s.token != "" {
			key = s.id
			u.slot = nil
			u.desc = "the id where there is a token"
		} else {
			u.desc = fmt.Sprintf("id %d", s.i)
		}
	}
	hc := x.h.client("use")
	hc.upgrade = [][2]string{{}, {"keep-alive, Upgrade", "websocket"}, {"upgrade", "WebSocket"}, {"Upgrade,keep-alive", "websocket"}}[op.X/2%4]
	ctx, cancel := context.WithCancel(x.ctx)
	defer cancel()
	if len(op.L) == 2 {
		u.unclear = true
		switch op.L[0] {
		case 1:
			time.AfterFunc(time.Duration(op.L[1])*time.Microsecond, func() { e.fault("request-canceled"); cancel() })
		case 2:
			time.AfterFunc(time.Duration(op.L[1])*time.Microsecond, func() { e.fault("request-reset"); hc.reset() })
		case 3:
			hc.cutAt = int64(op.L[1]%600 + 1)
		}
	}
	if isOrigin, ok := originOf(op.S, e.plan.c("origin")); isOrigin && !u.sse {
		hc.origin = op.S
		u.desc += " from " + op.S
		if !ok {
			// refused, and whoever may use the id can still do that
			a := hc.dialWS(ctx, key, op.A == -2)
			e.log("use of %s: status %d err %v", u.desc, a.status, a.err)
			if a.conn != nil {
				e.fail("origin", "a websocket request with %s was accepted", u.desc)
				_ = a.conn.Close()
				return
			}
			if !u.unclear && a.status != 403 {
				e.fail("origin", "a websocket request with %s was answered with status %d, %v", u.desc, a.status, a.err)
			}
			e.count("origin-refused", 1)
			hc.reset()
			return
		}
		e.count("origin-allowed", 1)
	}
	x.mu.Lock()
	x.uses = append(x.uses, u)
	x.mu.Unlock()
	u.startUs = e.us()
	var a webAttempt
	if u.sse {
		a = hc.dialSSE(ctx, key)
	} else {
		a = hc.dialWS(ctx, key, op.A == -2)
	}
	var peer *rawPeer
	if a.conn != nil {
		peer = newRawPeer(e, a.conn, "json", fmt.Sprintf("use%d", op.A))
		peer.start(true)
		err := peer.handshake(30 * time.Second)
		if u.sse {
			u.admitted = true // the status says so
			if err != nil && !u.unclear && u.slot != nil && !u.slot.tainted {
				e.fail("admitted-not-served", "%s: SSE was admitted, but: %v", u.desc, err)
			}
		} else if err == nil {
			u.admitted = true
		} else {
			a.err = err
			a.close = closeCode(peer.readErr)
			peer = nil
		}
	}
	u.endUs = e.us()
	e.log("use of %s sse=%v: status %d close %d err %v admitted %v", u.desc, u.sse, a.status, a.close, a.err, u.admitted)
	if !u.admitted && !u.unclear {
		e.count("refused", 1)
		if a.status >= 500 || a.status == 0 || a.status/100 == 2 || (a.status == 101 && (a.close == 0 || a.close == 1011)) {
			e.fail("not-a-refusal", "%s (sse %v) was answered with status %d, close code %d, error %v", u.desc, u.sse, a.status, a.close, a.err)
		}
	}
	if u.admitted {
		e.count("admitted", 1)
		time.Sleep(ms(op.Y))
		if peer != nil && !peer.closed() && !hc.faulted() && !u.unclear && (u.slot == nil || !u.slot.tainted) {
			if err := peer.send(Msg{Type: mInvoke, ID: "q", HasID: true, Target: "Add", Args: []any{5000, 1, 2}}); err != nil {
				e.fail("admitted-not-served", "%s: could not send: %v", u.desc, err)
			} else if !peer.waitMsgs(1, time.Minute, func(m Msg) bool { return m.Type == mCompl && m.ID == "q" && canon(m.Result) == "3" }) {
				e.fail("admitted-not-served", "%s: was admitted, but an invocation is not answered", u.desc)
			} else if u.slot != nil && op.T%3 == 0 {
				// it has got the negotiated id, and never the token
				who := ""
				if peer.send(Msg{Type: mInvoke, ID: "w", HasID: true, Target: "WhoAmI", Args: []any{5003}}) == nil && peer.waitMsgs(1, time.Minute, func(m Msg) bool {
					if m.Type == mCompl && m.ID == "w" {
						who = fmt.Sprint(m.Result)
					}
					return m.Type == mCompl && m.ID == "w"
				}) && who != u.slot.id {
					e.fail("connection-id", "%s: the connection got the id %s, negotiated were id %s, token %s", u.desc, who, u.slot.id, u.slot.token)
				}
			}
		}
		switch op.Z {
		case 0:
			_ = a.conn.Close()
		case 1:
			hc.reset()
		case 2:
			if peer != nil {
				_ = peer.send(Msg{Type: mInvoke, Target: "AbortMe", Args: []any{5001}})
			}
		case 3:
			if peer != nil {
				_ = peer.send(Msg{Type: mInvoke, Target: "CloseMe", Args: []any{5002, "bye", false}})
			}
		case 4:
			if peer != nil {
				_ = peer.send(Msg{Type: mClose})
			}
		}
		if op.Z >= 2 && op.Z <= 4 {
			time.Sleep(2 * time.Second)
		}
		if op.Z != 5 {
			_ = a.conn.Close()
			hc.reset()
		} else {
			e.cleanup(func() { hc.reset() })
		}
	}
	if s := u.slot; s != nil {
		x.mu.Lock()
		if s.claimMin < 0 || u.startUs < s.claimMin {
			s.claimMin = u.startUs
		}
		if u.admitted && u.endUs > s.claimMax {
			s.claimMax = u.endUs
		}
		x.mu.Unlock()
	}
}

// post sends something to an id, whatever its state.
func (x *negRun) post(op Op) {
	e := x.e
	key := "unknown"
	s := x.slot(op.A)
	if s != nil {
		key = s.key()
	} else if op.A == -2 {
		key = ""
	}
	body := [][]byte{nil, []byte("garbage"), handshakeRequest("json"), []byte(`{"type":6}` + "\x1e"), bytes.Repeat([]byte("x"), op.Y*20), []byte("\x1e\x1e")}[op.X]
	hc := x.h.client("post")
	start := e.us()
	code, err := hc.post(x.ctx, hubURL+"?id="+key, bytes.NewReader(body))
	took := e.us() - start
	e.log("post to slot %d: %d %v after %dus", op.A, code, err, took)
	e.count("post", 1)
	if err != nil {
		e.fail("post", "a POST to id %d was not answered: %v", op.A, err)
		return
	}
	if code >= 500 || (s == nil && code/100 != 4) {
		e.fail("post", "a POST to id %d (negotiated %v) was answered with status %d", op.A, s != nil, code)
	}
	if lim := x.ttl + 5000000; took > lim {
		e.fail("post", "a POST to id %d took %dus", op.A, took)
	}
}

// odd sends a request that makes no sense.
func (x *negRun) odd(op Op) {
	e := x.e
	method := []string{"GET", "PUT", "DELETE", "HEAD", "OPTIONS", "PATCH", "POST", "GET", "GET", "GET", "BREW", "POST"}[op.X]
	path := []string{"/hub", "/hub/negotiate", "/hub?id=", "/hub?id=unknown", "/hub?id=a&id=b", "/hub/negotiate?negotiateVersion=-5", "/hub?id=%zz", "/hub?%69d=x"}[op.Y]
	if method == "POST" && strings.HasPrefix(path, "/hub/neg") {
		return
	}
	req, err := http.NewRequest(method, "http://sim"+path, nil)
	if err != nil {
		panic("HARNESS: " + err.Error())
	}
	switch op.X {
	case 7:
		req.Header.Set("Accept", "text/event-stream")
	case 8:
		req.Header.Set("Connection", "keep-alive, Upgrade")
		req.Header.Set("Upgrade", "websocket")
	case 9:
		req.Header.Set("Connection", "Upgrade")
		req.Header.Set("Upgrade", "h2c")
		req.Header.Set("Accept", "text/html")
	}
	hc := x.h.client("odd")
	resp, err := hc.Do(req)
	if err != nil {
		e.fail("odd-request", "%s %s was not answered: %v", method, path, err)
		return
	}
	_, _ = io.Copy(io.Discard, resp.Body)
	_ = resp.Body.Close()
	e.log("odd %s %s: %d", method, path, resp.StatusCode)
	e.count("odd", 1)
	if method == "OPTIONS" && e.plan.c("router") == 3 && resp.StatusCode == 200 {
		return // by httprouter itself
	}
	if resp.StatusCode/100 != 4 {
		e.fail("odd-request", "%s %s was answered with status %d", method, path, resp.StatusCode)
	}
}

func (x *negRun) judge() {
	e := x.e
	x.mu.Lock()
	defer x.mu.Unlock()
	seen := map[string]int{}
	for _, s := range x.slots {
		if !s.ok {
			continue
		}
		for _, k := range []string{s.id, s.token} {
			if k == "" {
				continue
			}
			if o, ok := seen[k]; ok {
				e.fail("id-not-fresh", "negotiations %d and %d got the same id or token %q", o, s.i, k)
			}
			seen[k] = s.i
		}
		n, clear, firstEnd := 0, true, int64(0)
		tries := 0
		for _, u := range x.uses {
			if u.slot != s {
				continue
			}
			tries++
			if u.admitted {
				n++
			}
			if u.unclear {
				clear = false
			}
			if firstEnd == 0 || u.endUs < firstEnd {
				firstEnd = u.endUs
			}
		}
		if n > 1 {
			e.fail("admitted-twice", "id %d admitted %d connections", s.i, n)
		}
		if tries > 0 && n == 0 && clear && firstEnd < s.startUs+x.ttl {
			e.fail("not-admitted", "id %d was used in time, but no connection was admitted", s.i)
		}
	}
	for _, u := range x.uses {
		if u.slot == nil && u.admitted && !(u.op.A == -2 && !u.sse) {
			e.fail("admitted-unknown", "a request with %s was admitted (sse %v)", u.desc, u.sse)
		}
		if u.op.A == -2 && !u.sse && !u.admitted && !u.unclear {
			e.fail("not-admitted", "a websocket request without negotiation was refused")
		}
	}
	if x.max == 0 {
		for _, s := range x.slots {
			if s.status == 429 {
				e.fail("limit", "negotiation %d was refused although there is no limit", s.i)
			}
		}
		return
	}
	const slack = 100000
	for _, s := range x.slots {
		hi, lo := 0, 0
		for _, o := range x.slots {
			if o == s || o.startUs == 0 {
				continue
			}
			if o.status == 429 {
				continue
			}
			// may it be pending while s is decided?
			if o.startUs <= s.endUs && !(o.claimMax >= 0 && o.claimMax < s.startUs) && o.endUs+2*x.ttl+slack > s.startUs {
				hi++
			}
			// is it pending for sure?
			if o.ok && o.endUs <= s.startUs && !(o.claimMin >= 0 && o.claimMin <= s.endUs) && o.startUs+x.ttl-slack > s.endUs {
				lo++
			}
		}
		for _, u := range x.uses {
			// the library may count a websocket without negotiation
			if u.op.A == -2 && u.startUs <= s.endUs && u.endUs >= s.startUs {
				hi++
			}
		}
		if s.status == 429 && hi < x.max {
			e.fail("limit", "negotiation %d was refused with at most %d pending, the limit is %d", s.i, hi, x.max)
		}
		if s.status == 200 && lo >= x.max {
			e.fail("limit", "negotiation %d was accepted with %d pending, the limit is %d", s.i, lo, x.max)
		}
		if s.status == 429 {
			e.count("limited", 1)
		}
		if !s.ok {
			continue
		}
		// all that are pending for sure when s has been answered
		n := 0
		for _, o := range x.slots {
			if o.ok && o.endUs <= s.endUs && !(o.claimMin >= 0 && o.claimMin <= s.endUs) && o.startUs+x.ttl-slack > s.endUs {
				n++
			}
		}
		if n > x.max {
			e.fail("limit", "after negotiation %d, %d ids are pending, the limit is %d", s.i, n, x.max)
		}
	}
}
