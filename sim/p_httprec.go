package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"io"
	"net/http"
	"net/http/cookiejar"
	"reflect"
	"slices"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/cenkalti/backoff/v4"
	"github.com/philippseith/signalr"
)

func init() {
	register(&Scenario{Prop: "C19", Name: "http-reconnect", Weight: 4, Gen: genHTTPRec, Run: runHTTPRec,
		Real: []string{"client", "HttpConnectionFactory", "httpConnection", "clientSSEConnection", "webSocketConnection", "server", "httpMux", "router adapters", "serverSSEConnection", "net/http", "coder/websocket", "hub protocols"},
		Stub: []string{"TCP streams", "reverse proxy before the server"}})
}

const (
	reqNeg = iota
	reqWS
	reqSSE
	reqPost
)

var reqNames = []string{"negotiate", "websocket", "events", "POST"}

func genHTTPRec(r *Rand) *Plan {
	p := &Plan{Cfg: map[string]int{}}
	p.schedule(r)
	p.network(r)
	p.Cfg["router"] = r.pick(0, 0, 0, 1, 2, 3)
	if p.Cfg["n_buf"] == 256 {
		p.Cfg["n_buf"] = 2048
	}
	p.Cfg["clients"] = r.pick(1, 1, 1, 2, 3)
	p.Cfg["transports"] = r.n(5)                // of the client
	p.Cfg["offer"] = r.pick(0, 0, 0, 1, 2, 3)   // of the server
	p.Cfg["order"] = r.n(24)                    // of the options
	p.Cfg["headers"] = r.pick(0, 1, 2, 2, 3, 4) // no function, new headers for every request, always the same, none, nil
	p.Cfg["version"] = r.in(-1, 1)
	p.Cfg["cookies"] = r.b(50)
	p.Cfg["jar"] = r.b(30)
	p.Cfg["direct"] = r.b(30) // WithConnector(HttpConnectionFactory)
	p.Cfg["percon"] = r.b(20)
	p.Cfg["backoff"] = r.pick(100, 500, 3000)
	p.Cfg["max"] = r.pick(0, 0, 2, 3) // ids negotiated and not used
	p.Cfg["again"] = r.b(50)
	span := r.pick(1000, 100000, 3000000, 20000000)
	for i := r.in(0, 5); i > 0; i-- {
		// bad weather: some requests are not served
		p.Ops = append(p.Ops, Op{K: "bad", T: int64(r.n(span)), A: r.in(0, 2), X: r.n(8), Y: r.n(4000), Z: r.pick(1000, 100000, 1000000, 10000000)})
	}
	for i := r.in(0, 5); i > 0; i-- {
		p.Ops = append(p.Ops, Op{K: "break", T: int64(r.n(span)), X: r.n(2)})
	}
	for i := r.in(0, 6); i > 0; i-- {
		p.Ops = append(p.Ops, Op{K: "call", T: int64(r.n(span)), A: r.n(p.Cfg["clients"])})
	}
	if r.p(40) {
		p.Ops = append(p.Ops, Op{K: "stop", T: int64(r.n(span)), A: r.n(p.Cfg["clients"]), X: r.n(2)})
	}
	return p
}

// webReq is one request as the proxy has seen it.
type webReq struct {
	kind    int
	us      int64
	endUs   int64
	id      string // which it used, or got
	token   string
	cookies []string
	limited bool // refused because of the limit of the server
	refused bool // answered so that the client has to give up
	over    bool
}

// proxy stands before the server.
type proxy struct {
	*World
	hc     *httpClient
	next   http.Handler
	mu     sync.Mutex
	bad    []badTime
	log    map[string][]*webReq // by client
	breaks []int64
	nodes  int
	fairUs int64
}

type badTime struct {
	from, to int64
	op       Op
}

// answer keeps what a handler answers to a negotiation.
type answer struct {
	http.ResponseWriter
	code int
	buf  bytes.Buffer
}

func (a *answer) WriteHeader(c int) { a.code = c; a.ResponseWriter.WriteHeader(c) }

func (a *answer) Write(b []byte) (int, error) {
	a.buf.Write(b)
	return a.ResponseWriter.Write(b)
}

func (x *proxy) ServeHTTP(rw http.ResponseWriter, r *http.Request) {
	e, p := x.e, x.e.plan
	q := r.URL.Query()
	cli := q.Get("cli")
	kind := reqPost
	switch {
	case strings.HasSuffix(r.URL.Path, "/negotiate"):
		kind = reqNeg
	case r.Method == "GET" && r.Header.Get("Upgrade") != "":
		kind = reqWS
	case r.Method == "GET":
		kind = reqSSE
	}
	q0 := &webReq{kind: kind, us: e.us(), id: q.Get("id")}
	for _, c := range r.Cookies() {
		q0.cookies = append(q0.cookies, c.Name+"="+c.Value)
	}
	sort.Strings(q0.cookies)
	if v := p.c("headers"); v == 1 || v == 2 {
		if l := r.Header.Values("X-Auth"); len(l) != 1 || l[0] != "secret" {
			e.fail("headers", "%s request with X-Auth %q, the option gives one", reqNames[kind], l)
		}
	}
	if v := q.Get("negotiateVersion"); kind == reqNeg && p.c("version") >= 0 && v != fmt.Sprint(p.c("version")) {
		e.fail("headers", "negotiation with version %q", v)
	}
	if q.Get("tenant") != "7 8" {
		e.fail("headers", "%s request with query %q", reqNames[kind], r.URL.RawQuery)
	}
	x.mu.Lock()
	var bad *Op
	var until int64
	for _, b := range x.bad {
		if b.op.A == kind && b.from <= q0.us && q0.us < b.to {
			op := b.op
			bad, until = &op, b.to
		}
	}
	x.log[cli] = append(x.log[cli], q0)
	x.nodes++
	node := fmt.Sprint(x.nodes)
	x.mu.Unlock()
	e.log("%s %s id=%s cookies=%v bad=%v", cli, reqNames[kind], short(q0.id), q0.cookies, bad != nil)
	e.count(reqNames[kind], 1)
	defer func() {
		x.mu.Lock()
		q0.endUs, q0.over = e.us(), true
		x.mu.Unlock()
	}()
	if bad != nil {
		e.fault(fmt.Sprintf("%s-%s", reqNames[kind], []string{"404", "503", "abort", "slow", "hang", "garbage", "empty", "204"}[bad.X]))
		refuse := func() {
			x.mu.Lock()
			q0.refused = true
			x.mu.Unlock()
		}
		switch bad.X {
		case 0, 1:
			refuse()
			rw.WriteHeader([]int{404, 503}[bad.X])
			if bad.Y%3 > 0 {
				_, _ = rw.Write(make([]byte, bad.Y*200))
			}
			return
		case 2:
			refuse()
			panic(http.ErrAbortHandler)
		case 3:
			time.Sleep(time.Duration(bad.Y) * time.Millisecond)
		case 4:
			select {
			case <-r.Context().Done():
			case <-time.After(time.Duration(until-e.us()) * time.Microsecond):
			}
			refuse()
			panic(http.ErrAbortHandler)
		case 5:
			refuse()
			rw.WriteHeader([]int{200, 500, 202}[kind])
			_, _ = io.WriteString(rw, "{\"connectionId\": \"x\", []\n\n")
			return
		case 6:
			refuse()
			if kind != reqNeg {
				rw.WriteHeader(502)
			}
			return
		case 7:
			refuse()
			rw.WriteHeader(204)
			return
		}
	}
	if kind != reqNeg {
		x.next.ServeHTTP(rw, r)
		return
	}
	if p.b("cookies") {
		http.SetCookie(rw, &http.Cookie{Name: "node", Value: node, Path: "/"})
	}
	a := &answer{ResponseWriter: rw, code: 200}
	x.next.ServeHTTP(a, r)
	var resp struct{ ConnectionID, ConnectionToken string }
	x.mu.Lock()
	defer x.mu.Unlock()
	if a.code != 200 || json.Unmarshal(a.buf.Bytes(), &resp) != nil {
		q0.refused = true
		if a.code == 429 {
			e.count("limited", 1)
			q0.limited = true
		}
		return
	}
	q0.id, q0.token = resp.ConnectionID, node
	if resp.ConnectionToken != "" {
		q0.id = resp.ConnectionToken
	}
}

func sliceOf[T any](l ...T) []T { return l }

func permute[T any](l []T, k int) []T {
	l = append([]T(nil), l...)
	for i := len(l); i > 1; i-- {
		j := k % i
		k /= i
		l[i-1], l[j] = l[j], l[i-1]
	}
	return l
}

func runHTTPRec(e *Env) {
	w := newWorld(e)
	p := e.plan
	h := newHTTPNet(w)
	ws, sse := signalr.TransportWebSockets, signalr.TransportServerSentEvents
	sopts := []func(signalr.Party) error{signalr.TimeoutInterval(12 * time.Second), signalr.KeepAliveInterval(4 * time.Second), signalr.HandshakeTimeout(5 * time.Second)}
	sopts = append(sopts, signalr.MaxNegotiationConnections(p.c("max")*4))
	offer := [][]signalr.TransportType{nil, {ws}, {sse}, {sse, ws}}[p.c("offer")]
	if offer != nil {
		sopts = append(sopts, signalr.HTTPTransports(offer...))
	}
	sctx, scancel := context.WithCancel(w.ctx)
	srv := w.server(sctx, 0, sopts...)
	inner := http.NewServeMux()
	routed := h.router(srv, inner)
	x := &proxy{World: w, hc: h.client("cli"), next: routed, log: map[string][]*webReq{}}
	h.mux.Handle("/", x)
	if p.b("jar") {
		x.hc.Jar, _ = cookiejar.New(nil)
	}
	base := e.us()
	for _, op := range p.Ops {
		if op.K == "bad" {
			x.bad = append(x.bad, badTime{base + op.T, base + op.T + int64(op.Z), op})
			x.fairUs = max(x.fairUs, base+op.T+int64(op.Z))
		}
		x.fairUs = max(x.fairUs, base+op.T)
	}
	// the options; all clients use the same
	mine := [][]signalr.TransportType{nil, {ws}, {sse}, {ws, sse}, {sse, ws}}[p.c("transports")]
	given := append([]signalr.TransportType(nil), mine...)
	shared := http.Header{"X-Auth": {"secret"}}
	opts := sliceOf(signalr.WithHTTPClient(&x.hc.Client))
	if mine != nil {
		opts = append(opts, signalr.WithTransports(mine...))
	}
	switch p.c("headers") {
	case 1:
		opts = append(opts, signalr.WithHTTPHeaders(func() http.Header { return http.Header{"X-Auth": {"secret"}} }))
	case 2:
		opts = append(opts, signalr.WithHTTPHeaders(func() http.Header { return shared }))
	case 3:
		opts = append(opts, signalr.WithHTTPHeaders(func() http.Header { return http.Header{} }))
	case 4:
		opts = append(opts, signalr.WithHTTPHeaders(func() http.Header { return nil }))
	}
	if v := p.c("version"); v >= 0 {
		opts = append(opts, signalr.WithNegotiateVersion(v))
	}
	opts = permute(opts, p.c("order"))
	type cli struct {
		name    string
		cl      signalr.Client
		cancel  context.CancelFunc
		stopped bool
		upUs    int64
	}
	var clis []*cli
	for i := 0; i < max(1, p.c("clients")); i++ {
		c := &cli{name: fmt.Sprint("c", i)}
		ctx, cancel := context.WithCancel(w.ctx)
		c.cancel = cancel
		u := hubURL + "?tenant=7+8&cli=" + c.name
		con := signalr.WithHttpConnection(ctx, u, opts...)
		if p.b("direct") {
			con = signalr.WithConnector(func() (signalr.Connection, error) { return signalr.HttpConnectionFactory(ctx, u, opts...) })
		}
		cl, err := signalr.NewClient(ctx, w.logger(), con, signalr.WithReceiver(&Receiver{w: w, name: c.name}),
			signalr.TimeoutInterval(12*time.Second), signalr.KeepAliveInterval(4*time.Second), signalr.HandshakeTimeout(5*time.Second),
			signalr.WithBackoff(func() backoff.BackOff {
				return backoff.NewConstantBackOff(time.Duration(p.c("backoff")) * time.Millisecond)
			}))
		if err != nil {
			panic("HARNESS: " + err.Error())
		}
		c.cl = cl
		clis = append(clis, c)
		cl.Start()
	}
	can := func(t signalr.TransportType) bool {
		in := func(l []signalr.TransportType) bool {
			if l == nil {
				return true
			}
			for _, o := range l {
				if o == t {
					return true
				}
			}
			return false
		}
		return in(mine) && in(offer)
	}
	strike := func() {
		x.mu.Lock()
		x.breaks = append(x.breaks, e.us())
		x.mu.Unlock()
		e.fault("break")
		x.hc.reset()
	}
	stop := func(c *cli, how int) {
		x.mu.Lock()
		was := c.stopped
		c.stopped = true
		x.mu.Unlock()
		if was {
			return
		}
		if how == 1 {
			c.cancel()
		}
		done := make(chan struct{})
		go func() { c.cl.Stop(); close(done) }()
		if !waitOr(done, 40*time.Second) {
			e.fail("stop-hangs", "%s: Stop did not return", c.name)
		}
		c.cancel()
		if !waitCond(time.Second, func() bool { return c.cl.State() == signalr.ClientClosed }) {
			e.fail("stop-hangs", "%s is %s after Stop", c.name, stateName(c.cl.State()))
		}
	}
	var outs []*outcome
	var wg sync.WaitGroup
	for i, op := range p.Ops {
		op, tag := op, 100+i
		wg.Add(1)
		go func() {
			defer wg.Done()
			if op.K == "bad" {
				return
			}
			e.sleepUntilUs(base + op.T)
			switch op.K {
			case "break":
				if op.X == 0 {
					strike()
					return
				}
				e.fault("abort")
				for _, c := range clis {
					w.watchErr("abort", c.cl.Send("AbortMe", tag))
				}
			case "call":
				o := w.watch(fmt.Sprint("#", tag), clis[op.A].cl.Invoke("Echo", tag, fmt.Sprint("e", tag)), 0)
				x.mu.Lock()
				outs = append(outs, o)
				x.mu.Unlock()
				await(20*time.Second, o)
				if items, closed := o.snap(); closed && len(items) == 1 && items[0].Error == nil && canon(items[0].Value) != canon(fmt.Sprint("e", tag)) {
					e.fail("wrong-result", "call %d returned %v", tag, canon(items[0].Value))
				}
			case "stop":
				stop(clis[op.A], op.X)
			}
		}()
	}
	wg.Wait()
	e.sleepUntilUs(x.fairUs)
	works := func(what string) {
		for i, c := range clis {
			if c.stopped {
				continue
			}
			tag := 10000 + i
			d := 90 * time.Second
			if !can(ws) && !can(sse) {
				d = 5 * time.Second
			}
			err := w.waitConnected(c.cl, d)
			if !can(ws) && !can(sse) {
				if err == nil {
					e.fail("connect", "%s is connected, though no transport is possible", c.name)
				}
				continue
			}
			if err != nil {
				e.fail("connect", "%s is not connected %s: %v, %s", c.name, what, err, x.last(c.name))
				continue
			}
			e.count("connected", 1)
			var items []signalr.InvokeResult
			for try := 0; try < 3; try++ {
				o := w.watch("again", c.cl.Invoke("Echo", tag, "again"), 0)
				await(time.Minute, o)
				if items, _ = o.snap(); len(items) == 1 && items[0].Error == nil {
					break
				}
				// an AbortMe that had to wait for the connection, too
				time.Sleep(10 * time.Second)
			}
			if len(items) != 1 || items[0].Error != nil || canon(items[0].Value) != canon("again") {
				e.fail("connect", "%s does not work %s: %v", c.name, what, items)
			}
		}
	}
	// also the end of a connection needs its time to be noticed
	time.Sleep(6 * time.Second)
	works("after the server was reachable again")
	if can(ws) || can(sse) {
		if p.b("again") {
			strike()
			// the end is noticed
			time.Sleep(6 * time.Second)
			works("after its connection was broken")
		}
		for _, c := range clis {
			if !c.stopped {
				w.watchErr("abort", c.cl.Send("AbortMe", 1))
			}
		}
		time.Sleep(6 * time.Second)
		works("after its connection was aborted")
		for _, c := range clis {
			if c.stopped {
				continue
			}
			want, got := reqSSE, -1
			if can(ws) {
				want = reqWS
			}
			x.mu.Lock()
			limited := false // the server refused the negotiation for websockets
			for _, q := range x.log[c.name] {
				switch q.kind {
				case reqNeg:
					limited = limited || q.limited
				case reqWS, reqSSE:
					if got = q.kind; limited && got == reqSSE {
						got = want
					}
					limited = false
				}
			}
			x.mu.Unlock()
			if got != want && got >= 0 {
				e.fail("transport", "%s is connected with a %s request, %s is possible and preferred", c.name, reqNames[got], reqNames[want])
			}
		}
	}
	openConns := func() (open int) {
		x.hc.mu.Lock()
		defer x.hc.mu.Unlock()
		for _, s := range x.hc.conns {
			if !s.closedLocally() {
				open++
			}
		}
		return open
	}
	if can(ws) || can(sse) {
		// what is left of refused attempts does not wait for the end of the client
		live := 0
		for _, c := range clis {
			if !c.stopped {
				live++
			}
		}
		time.Sleep(20 * time.Second)
		open := 0
		for try := 0; try < 30; try++ {
			// unless a ping is on its way
			x.hc.CloseIdleConnections()
			time.Sleep(700 * time.Millisecond)
			if open = openConns(); open <= live {
				break
			}
		}
		if open > live {
			e.fail("left-open", "%d of %d TCP connections are open, though only %d clients are connected", open, len(x.hc.conns), live)
		}
	}
	for _, c := range clis {
		stop(c, 0)
	}
	await(30*time.Second, outs...)
	for _, o := range outs {
		if _, closed := o.snap(); !closed {
			e.fail("call-hangs", "a call got no result, though the client has stopped")
		}
	}
	x.check(can(ws), can(sse), func(t signalr.TransportType) bool {
		for _, o := range mine {
			if o == t {
				return true
			}
		}
		return mine == nil
	})
	if !reflect.DeepEqual(shared, http.Header{"X-Auth": {"secret"}}) {
		e.fail("options-changed", "the headers of the user have become %v", shared)
	}
	if !reflect.DeepEqual(mine, given) && mine != nil {
		e.fail("options-changed", "the transports of the user have become %v", mine)
	}
	e.count("checked", 1)
	time.Sleep(30 * time.Second)
	x.hc.CloseIdleConnections()
	time.Sleep(10 * time.Second)
	if open := openConns(); open > 0 {
		e.fail("left-open", "%d of %d TCP connections are still open, though all clients have stopped", open, len(x.hc.conns))
	}
	scancel()
	w.leftBehind(time.Minute)
}

// closedLocally tells whether the owner of this end has closed it.
func (c *simConn) closedLocally() bool {
	c.in.mu.Lock()
	defer c.in.mu.Unlock()
	return c.in.rlocal
}

func (x *proxy) last(cli string) string {
	x.mu.Lock()
	defer x.mu.Unlock()
	l := x.log[cli]
	s := ""
	for _, q := range l[max(0, len(l)-6):] {
		s += fmt.Sprintf("[%s refused=%v] ", reqNames[q.kind], q.refused)
	}
	return s
}

// check judges the requests of each client.
func (x *proxy) check(ws, sse bool, allowed func(signalr.TransportType) bool) {
	x.mu.Lock()
	defer x.mu.Unlock()
	e, p := x.e, x.e.plan
	struck := func(from, to int64) bool {
		for _, b := range x.breaks {
			if from <= b && b <= to {
				return true
			}
		}
		return false
	}
	ws1, sse1 := allowed(signalr.TransportWebSockets), allowed(signalr.TransportServerSentEvents)
	// An attempt negotiates for websockets (phase 1), and then for events
	// (phase 2), as far as the options allow. Which phase a negotiation
	// belongs to follows from what came before, unless requests got lost.
	const one, two = 1, 2
	start, second := one, one|two
	if ws1 && sse1 {
		second = two
	} else if ws1 {
		second = one
	} else {
		start, second = two, two
	}
	for _, cli := range sortedKeys(x.log) {
		var neg *webReq // the last negotiation
		var prev *webReq
		next := start // phases the next negotiation may belong to
		now := 0
		for _, q := range x.log[cli] {
			if q.kind == reqPost {
				if p.b("jar") && len(q.cookies) > 1 {
					e.fail("cookies", "%s: send request with cookies %v", cli, q.cookies)
				}
				continue
			}
			// a pooled connection may turn out to be broken later
			lost := struck(0, q.us)
			if prev != nil {
				lost = struck(prev.us-1e6, q.us)
			}
			switch q.kind {
			case reqWS, reqSSE:
				if q.kind == reqWS && !ws || q.kind == reqSSE && !sse {
					e.fail("transport", "%s: %s request, the options of client and server do not allow that", cli, reqNames[q.kind])
				}
				if lost && neg != nil {
					// negotiations overtake each other
					for _, o := range x.log[cli] {
						if o.kind == reqNeg && o.id == q.id {
							neg = o
						}
					}
				}
				if neg == nil || neg.refused || neg.id != q.id {
					e.fail("wrong-id", "%s: %s request with id %q, not that of the negotiation before", cli, reqNames[q.kind], q.id)
					break
				}
				want := []string(nil)
				if p.b("cookies") {
					want = []string{"node=" + neg.token}
				}
				if p.b("jar") {
					// the jar adds the latest one, and without redirects no other
					if q.kind == reqWS && len(want) > 0 && (!slices.Contains(q.cookies, want[0]) || len(q.cookies) > 2) ||
						q.kind == reqSSE && len(want) > 0 && len(q.cookies) != 1 {
						e.fail("cookies", "%s: %s request with cookies %v, the negotiation set %v", cli, reqNames[q.kind], q.cookies, want)
					}
				} else if q.kind == reqWS && !reflect.DeepEqual(q.cookies, want) {
					e.fail("cookies", "%s: websocket request with cookies %v, the negotiation set %v", cli, q.cookies, want)
				}
				if q.kind == reqSSE && now&two == 0 {
					e.fail("transport", "%s: events without trying a websocket first", cli)
				}
				if q.kind == reqWS && now&one == 0 {
					e.fail("transport", "%s: another websocket request instead of events after a failed one", cli)
				}
				next = start
				if q.kind == reqWS && q.refused {
					next = second
				} else if struck(q.us, q.endUs) {
					next |= second
				}
			case reqNeg:
				if len(q.cookies) > p.c("jar") {
					e.fail("cookies", "%s: negotiation with the cookies %v of another one", cli, q.cookies)
				}
				now = next
				if lost {
					now = start | second
				}
				next = 0
				if now&one != 0 {
					next |= second
				}
				if now&two != 0 {
					next |= start
				}
				neg = q
			}
			prev = q
		}
	}
}
