package main

import (
	"context"
	"fmt"
	"net"
	"os"
	"sync"
	"sync/atomic"
	"time"

	"github.com/go-kit/log"
	"github.com/philippseith/signalr"
)

// Call is one execution of a hub or receiver method.
type Call struct {
	Method string
	Tag    int
	Conn   string
	Inst   int // hub instance
	Srv    int
	AtUs   int64
	Args   string
	Fresh  bool // per-connection hub: seen OnConnected before
}

// World holds the servers and clients of a run and what they observed.
type World struct {
	e     *Env
	proto string
	cfg   netCfg
	ctx   context.Context

	mu       sync.Mutex
	calls    []Call
	insts    int
	made     []int // instances made by the per-connection factory
	connUp   map[string]int
	connDown map[string]int
	life     []string // "up id inst", "down id inst" in order
	hubHook  func(h *SimHub, method string, tag int)
	produced map[int]int // items a stream method could hand over, per tag
	seq      int64
	spans    []*span
	lifeEnd  []string // as life, when the method has ended
	slowUp   time.Duration
	upItem   bool                      // OnConnected stores an item
	sent     map[int]string            // arguments of messages, by tag
	unfit    map[int]string            // messages that not every protocol can encode, by tag
	settle   func(s *span, end func()) // decides when an operation on targets has ended
	tame     bool                      // bound what clients can make the hub do
}

func newWorld(e *Env) *World {
	w := &World{e: e, calls: make([]Call, 0, 1<<12), cfg: netCfgOf(e.plan), connUp: map[string]int{}, connDown: map[string]int{}, produced: map[int]int{}, sent: map[int]string{}, unfit: map[int]string{}}
	w.proto = "json"
	if e.plan.b("mp") {
		w.proto = "messagepack"
	}
	ctx, cancel := context.WithCancel(context.Background())
	w.ctx = ctx
	e.cleanup(cancel)
	return w
}

func (w *World) logger() func(signalr.Party) error {
	if w.e.verb && os.Getenv("SIM_LIBLOG") != "" {
		return signalr.Logger(log.NewLogfmtLogger(os.Stderr), true)
	}
	return signalr.Logger(log.NewNopLogger(), false)
}

func (w *World) call(h *SimHub, method string, tag int, args string) {
	c := Call{Method: method, Tag: tag, Conn: h.ConnectionID(), Inst: h.inst, Srv: h.srv, AtUs: w.e.us(), Args: args}
	hook := w.addCall(c)
	w.e.log("hub %d %s tag=%d %s", h.inst, method, tag, trunc(args, 80))
	if hook != nil {
		hook(h, method, tag)
	}
}

//go:norace
func (w *World) addCall(c Call) func(h *SimHub, method string, tag int) {
	raceQuiet()
	w.mu.Lock()
	w.calls = append(w.calls, c)
	hook := w.hubHook
	w.mu.Unlock()
	raceLoud()
	return hook
}

// callsOf returns the executions of a method with that tag.
func (w *World) callsOf(method string, tag int) (l []Call) {
	w.mu.Lock()
	defer w.mu.Unlock()
	for _, c := range w.calls {
		if c.Tag == tag && (method == "" || c.Method == method) {
			l = append(l, c)
		}
	}
	return
}

func (w *World) producedOf(tag int) int {
	w.mu.Lock()
	defer w.mu.Unlock()
	return w.produced[tag]
}

func (w *World) allCalls() []Call {
	w.mu.Lock()
	defer w.mu.Unlock()
	return append([]Call(nil), w.calls...)
}

// server makes a real server whose hubs report to w.
func (w *World) server(ctx context.Context, idx int, opts ...func(signalr.Party) error) signalr.Server {
	o := []func(signalr.Party) error{}
	if w.e.plan.c("percon") == 2 {
		// one hub for all calls
		o = append(o, signalr.UseHub(w.newHub(idx)))
	} else if w.e.plan.c("percon") == 3 {
		// new hubs of that type
		simpleWorld.Store(w)
		o = append(o, signalr.SimpleHubFactory(&SimHub{}))
	} else if w.e.plan.b("percon") {
		o = append(o, signalr.PerConnectionHubFactory(func(id string) signalr.HubInterface {
			return w.newHub(idx)
		}))
	} else {
		o = append(o, signalr.HubFactory(func() signalr.HubInterface { return w.newHub(idx) }))
	}
	o = append(o, w.logger())
	o = append(o, opts...)
	s, err := signalr.NewServer(ctx, o...)
	if err != nil {
		panic("HARNESS: " + err.Error())
	}
	return s
}

func (w *World) newHub(srv int) *SimHub {
	w.mu.Lock()
	defer w.mu.Unlock()
	w.insts++
	return &SimHub{w: w, inst: w.insts, srv: srv}
}

// serveConn is one served connection.
type serveConn struct {
	conn   signalr.Connection
	id     string
	err    error
	done   chan struct{}
	endUs  int64
	cancel context.CancelFunc
}

// serve runs Server.Serve on the server side of a stream.
func (w *World) serve(s signalr.Server, c net.Conn) *serveConn {
	ctx, cancel := context.WithCancel(s.Context())
	nc := signalr.NewNetConnection(ctx, c)
	sc := &serveConn{conn: nc, id: nc.ConnectionID(), done: make(chan struct{}), cancel: cancel}
	go func() {
		sc.err = s.Serve(nc)
		sc.endUs = w.e.us()
		w.e.log("Serve %s returned: %v", short(sc.id), sc.err)
		close(sc.done)
		// the transport is closed when the server is done with it
		cancel()
	}()
	return sc
}

func short(id string) string { return trunc(id, 6) }

// rawClient connects a scripted client and completes the handshake.
func (w *World) rawClient(s signalr.Server, name string, proto string) (*rawPeer, *serveConn, *simConn) {
	a, b := newStream(w.e, w.cfg, name, "srv")
	sc := w.serve(s, b)
	p := newRawPeer(w.e, a, proto, name)
	p.style = w.e.plan.c("style")
	p.start(true)
	return p, sc, a
}

func (w *World) clientOpts(opts ...func(signalr.Party) error) []func(signalr.Party) error {
	o := []func(signalr.Party) error{w.logger()}
	if w.proto == "messagepack" {
		o = append(o, signalr.TransferFormat(signalr.TransferFormatBinary))
	}
	return append(o, opts...)
}

// client makes a real client over a stream.
func (w *World) client(ctx context.Context, c net.Conn, opts ...func(signalr.Party) error) signalr.Client {
	o := w.clientOpts(append([]func(signalr.Party) error{signalr.WithConnection(signalr.NewNetConnection(ctx, c))}, opts...)...)
	cl, err := signalr.NewClient(ctx, o...)
	if err != nil {
		panic("HARNESS: " + err.Error())
	}
	return cl
}

// waitConnected waits for the client to be connected.
func (w *World) waitConnected(c signalr.Client, d time.Duration) error {
	ctx, cancel := context.WithTimeout(context.Background(), d)
	defer cancel()
	select {
	case err := <-c.WaitForState(ctx, signalr.ClientConnected):
		return err
	case <-time.After(d + time.Second):
		return fmt.Errorf("WaitForState did not return")
	}
}

// Record is a structured argument.
type Record struct {
	Name  string            `json:"name"`
	Num   int               `json:"num"`
	List  []string          `json:"list"`
	Attr  map[string]string `json:"attr"`
	Inner *Inner            `json:"inner"`
}

// Inner is nested in Record.
type Inner struct {
	F float64 `json:"f"`
	B bool    `json:"b"`
}

// SimHub is the hub under the real server.
type SimHub struct {
	signalr.Hub
	w    *World
	inst int
	srv  int
	mu   sync.Mutex
	up   int
	down int
	n    int
}

// simpleWorld is the world of hubs which were not made by newHub.
var simpleWorld atomic.Pointer[World]

func (h *SimHub) Initialize(ctx signalr.HubContext) {
	if h.w == nil {
		h.w = simpleWorld.Load()
		h.w.mu.Lock()
		h.w.insts++
		h.inst = h.w.insts
		h.w.mu.Unlock()
	}
	h.Hub.Initialize(ctx)
}

func (h *SimHub) OnConnected(id string) {
	h.mu.Lock()
	h.up++
	h.mu.Unlock()
	h.w.mu.Lock()
	h.w.connUp[id]++
	h.w.life = append(h.w.life, fmt.Sprintf("up %s", id))
	h.w.mu.Unlock()
	h.w.call(h, "OnConnected", -1, id)
	if h.w.upItem {
		h.Items().Store("up", id)
	}
	if h.w.slowUp > 0 {
		time.Sleep(h.w.slowUp)
	}
	h.w.mu.Lock()
	h.w.lifeEnd = append(h.w.lifeEnd, fmt.Sprintf("up %s", id))
	h.w.mu.Unlock()
}

func (h *SimHub) OnDisconnected(id string) {
	h.mu.Lock()
	h.down++
	h.mu.Unlock()
	h.w.mu.Lock()
	h.w.connDown[id]++
	h.w.life = append(h.w.life, fmt.Sprintf("down %s", id))
	h.w.mu.Unlock()
	h.w.mu.Lock()
	h.w.lifeEnd = append(h.w.lifeEnd, fmt.Sprintf("down %s", id))
	h.w.mu.Unlock()
	h.w.call(h, "OnDisconnected", -2, id)
	if h.w.upItem {
		if v, ok := h.Items().Load("up"); !ok || v != id {
			h.w.call(h, "OnDisconnected", -3, fmt.Sprint(v))
		}
	}
}

func (h *SimHub) Echo(tag int, v interface{}) interface{} {
	h.w.call(h, "Echo", tag, canon(v))
	return v
}

func (h *SimHub) Add(tag int, a int, b int) int {
	h.w.call(h, "Add", tag, fmt.Sprintf("%d,%d", a, b))
	return a + b
}

func (h *SimHub) Sum(tag int, l []int) int {
	h.w.call(h, "Sum", tag, canon(l))
	s := 0
	for _, x := range l {
		s += x
	}
	return s
}

// Wide has many arguments.
func (h *SimHub) Wide(tag int, a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16 int) []int {
	l := []int{a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16}
	h.w.call(h, "Wide", tag, canon(l))
	return l
}

func (h *SimHub) Rec(tag int, r Record) Record {
	h.w.call(h, "Rec", tag, canon(r))
	r.Num++
	return r
}

func (h *SimHub) Two(tag int, s string) (int, string) {
	h.w.call(h, "Two", tag, s)
	return tag, s + "!"
}

func (h *SimHub) Void(tag int) {
	h.w.call(h, "Void", tag, "")
}

func (h *SimHub) Wait(tag int, millis int) int {
	h.w.call(h, "Wait", tag, "")
	time.Sleep(ms(millis))
	return tag * 3
}

func (h *SimHub) Blob(tag int, b []byte) int {
	h.w.call(h, "Blob", tag, fmt.Sprint(len(b)))
	return len(b)
}

func (h *SimHub) Big(tag int, n int) string {
	h.w.call(h, "Big", tag, fmt.Sprint(n))
	if h.w.tame && n > 5000 {
		n = 5000
	}
	return bigString(tag, n)
}

func bigString(tag, n int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte('a' + (i*7+tag)%26)
	}
	return string(b)
}

func (h *SimHub) Panic(tag int) int {
	h.w.call(h, "Panic", tag, "")
	panic(fmt.Sprintf("boom-%d", tag))
}

func (h *SimHub) Once(tag int, millis int) <-chan int {
	h.w.call(h, "Once", tag, "")
	ch := make(chan int, 1)
	go func() {
		time.Sleep(ms(millis))
		ch <- tag * 5
		close(ch)
	}()
	return ch
}

func (h *SimHub) Closed(tag int) <-chan int {
	h.w.call(h, "Closed", tag, "")
	ch := make(chan int)
	close(ch)
	return ch
}

// Count streams n numbers tag*1000+i, one every gap microseconds.
func (h *SimHub) Count(tag int, n int, gap int) <-chan int {
	h.w.call(h, "Count", tag, fmt.Sprintf("%d,%d", n, gap))
	if h.w.tame && n > 60 {
		n = 60
	}
	ch := make(chan int)
	go func() {
		defer close(ch)
		for i := 0; i < n; i++ {
			if gap > 0 {
				time.Sleep(time.Duration(gap) * time.Microsecond)
			}
			select {
			case ch <- tag*1000 + i:
				h.w.e.log("produced %d", tag*1000+i)
				h.w.mu.Lock()
				h.w.produced[tag]++
				h.w.mu.Unlock()
			case <-time.After(10 * time.Minute):
				return
			}
		}
	}()
	return ch
}

// Upload collects a client stream.
func (h *SimHub) Upload(tag int, ch <-chan int) []int {
	h.w.call(h, "Upload", tag, "")
	l := []int{}
	for x := range ch {
		l = append(l, x)
		h.w.call(h, "UploadItem", tag, fmt.Sprint(x))
	}
	h.w.call(h, "UploadEnd", tag, fmt.Sprint(l))
	return l
}

// UploadSlow takes its time for every item, and also before the first one if
// millis is negative.
func (h *SimHub) UploadSlow(tag int, millis int, ch <-chan int) []int {
	h.w.call(h, "UploadSlow", tag, "")
	l := []int{}
	if millis < 0 { // it takes its time before
		millis = -millis
		time.Sleep(ms(millis))
	}
	for x := range ch {
		l = append(l, x)
		h.w.call(h, "UploadItem", tag, fmt.Sprint(x))
		time.Sleep(ms(millis))
	}
	h.w.call(h, "UploadEnd", tag, fmt.Sprint(l))
	return l
}

// Upload2 collects two client streams.
func (h *SimHub) Upload2(a <-chan int, tag int, b <-chan string) []string {
	h.w.call(h, "Upload2", tag, "")
	var wg sync.WaitGroup
	var la []int
	var lb []string
	wg.Add(2)
	go func() {
		defer wg.Done()
		for x := range a {
			la = append(la, x)
			h.w.call(h, "UploadItem", tag, fmt.Sprint(x))
		}
	}()
	go func() {
		defer wg.Done()
		for x := range b {
			lb = append(lb, x)
			h.w.call(h, "UploadItemB", tag, x)
		}
	}()
	wg.Wait()
	h.w.call(h, "UploadEnd", tag, fmt.Sprint(la, lb))
	return []string{fmt.Sprint(la), fmt.Sprint(lb)}
}

func (h *SimHub) Join(tag int, g string) {
	h.w.call(h, "Join", tag, g)
	done := h.w.span("join", h.ConnectionID(), g, tag)
	h.Groups().AddToGroup(g, h.ConnectionID())
	done()
}

func (h *SimHub) Leave(tag int, g string) {
	h.w.call(h, "Leave", tag, g)
	done := h.w.span("leave", h.ConnectionID(), g, tag)
	h.Groups().RemoveFromGroup(g, h.ConnectionID())
	done()
}

func (h *SimHub) JoinOther(tag int, g string, id string) {
	h.w.call(h, "JoinOther", tag, g+" "+id)
	done := h.w.span("join", id, g, tag)
	h.Groups().AddToGroup(g, id)
	done()
}

func (h *SimHub) LeaveOther(tag int, g string, id string) {
	h.w.call(h, "LeaveOther", tag, g+" "+id)
	done := h.w.span("leave", id, g, tag)
	h.Groups().RemoveFromGroup(g, id)
	done()
}

func (h *SimHub) ToAll(tag int) {
	h.w.call(h, "ToAll", tag, "")
	done := h.w.span("all", "", "", tag)
	h.Clients().All().Send("OnMsg", tag, "all")
	done()
}

func (h *SimHub) ToCaller(tag int) {
	h.w.call(h, "ToCaller", tag, "")
	done := h.w.span("client", h.ConnectionID(), "", tag)
	h.Clients().Caller().Send("OnMsg", tag, "caller")
	done()
}

func (h *SimHub) ToClient(tag int, id string) {
	h.w.call(h, "ToClient", tag, id)
	done := h.w.span("client", id, "", tag)
	h.Clients().Client(id).Send("OnMsg", tag, "client")
	done()
}

func (h *SimHub) ToGroup(tag int, g string) {
	h.w.call(h, "ToGroup", tag, g)
	done := h.w.span("group", "", g, tag)
	h.Clients().Group(g).Send("OnMsg", tag, "group")
	done()
}

func (h *SimHub) WhoAmI(tag int) string {
	h.w.call(h, "WhoAmI", tag, "")
	return h.ConnectionID()
}

func (h *SimHub) SetItem(tag int, k string, v string) {
	h.w.call(h, "SetItem", tag, k+"="+v)
	h.Items().Store(k, v)
}

func (h *SimHub) GetItem(tag int, k string) string {
	h.w.call(h, "GetItem", tag, k)
	v, ok := h.Items().Load(k)
	if !ok {
		return "<none>"
	}
	return v.(string)
}

// Inc counts in the hub instance: per-connection hubs keep the count.
func (h *SimHub) Inc(tag int) int {
	h.w.call(h, "Inc", tag, "")
	h.mu.Lock()
	defer h.mu.Unlock()
	h.n++
	return h.n
}

func (h *SimHub) Instance(tag int) int {
	h.w.call(h, "Instance", tag, "")
	return h.inst
}

func (h *SimHub) AbortMe(tag int) {
	h.w.call(h, "AbortMe", tag, "")
	h.Abort()
}

func (h *SimHub) CloseMe(tag int, msg string, allow bool) {
	h.w.call(h, "CloseMe", tag, msg)
	_ = h.Close(msg, allow)
}
