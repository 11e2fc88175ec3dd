package main

import (
	"context"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"math"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/philippseith/signalr"
)

func init() {
	register(&Scenario{Prop: "C08", Name: "hostile-client", Weight: 3, Gen: genHostile, Run: runHostileClient,
		Real: []string{"server", "client (bystander)", "netConnection", "hub protocols"}, Stub: []string{"TCP stream", "attacker (scripted client)"}})
	register(&Scenario{Prop: "C08", Name: "hostile-server", Weight: 2, Gen: genHostile, Run: runHostileServer,
		Real: []string{"client", "server (bystander)", "netConnection", "hub protocols"}, Stub: []string{"TCP stream", "attacker (scripted server)"}})
	register(&Scenario{Prop: "C08", Name: "flooded-uploads", Weight: 1, Gen: genFlood, Run: runFlood,
		Real: []string{"server", "client (bystander)", "netConnection", "hub protocols"}, Stub: []string{"TCP stream", "attacker (scripted client)"}})
	register(&Scenario{Prop: "C08", Name: "guessed-ids", Weight: 1, Gen: genGuess, Run: runGuess,
		Real: []string{"client", "message loop", "invocation and stream bookkeeping", "hub protocols"}, Stub: []string{"TCP stream", "server (scripted)"}})
	register(&Scenario{Prop: "C08", Name: "stream-limit", Weight: 1, Gen: genStreamLimit, Run: runStreamLimit,
		Real: []string{"server", "netConnection", "hub protocols"}, Stub: []string{"TCP stream", "client (scripted)"}})
}

// ---- generation of hostile frames ----

type hostile struct {
	r     *Rand
	ids   []string // ids the other side used
	proto string
	mild  bool            // well-formed messages with odd contents only
	open  map[string]bool // ids for which items and completions are expected
}

// known picks an id for which a completion (or an item) is expected.
func (h *hostile) known() string {
	l := sortedKeys(h.open)
	if len(l) == 0 || h.r.p(2) {
		return ""
	}
	return l[h.r.n(len(l))]
}

// raw is inserted into JSON as it is.
type raw string

var hubTargets = []string{"Add", "Echo", "Sum", "Rec", "Two", "Void", "Blob", "Big", "Panic", "PanicUpload", "Once", "Closed", "Count", "Upload", "UploadSlow", "Upload2",
	"Mix", "Renamed", "Nothing", "Join", "Leave", "JoinOther", "LeaveOther", "ToAll", "ToCaller", "ToClient", "ToGroup", "WhoAmI", "SetItem", "GetItem", "Inc",
	"Initialize", "OnConnected", "OnDisconnected", "Init", "Server", "Clients", "Groups", "Items", "ConnectionID", "Context", "Logger", "OnMsg", "Two", "Upload", "Count",
	"nope", "", "add", "\x00", "Add\x1e", "AbortMe", "CloseMe", "Close", "Abort"}

func (h *hostile) id() any {
	r := h.r
	switch r.n(12) {
	case 0:
		return nil
	case 1:
		return ""
	case 2:
		return r.in(-1, 5)
	case 3:
		return []any{"1"}
	case 4:
		return true
	case 5, 6, 7:
		if len(h.ids) > 0 {
			return h.ids[r.n(len(h.ids))]
		}
		fallthrough
	default:
		return fmt.Sprint("h", r.n(6))
	}
}

func (h *hostile) value(depth int) any {
	r := h.r
	switch r.n(16) {
	case 0:
		return nil
	case 1:
		return map[string]any{}
	case 2:
		return []any{}
	case 3:
		return r.pick(0, 1, -1, 127, 255, 256, 1<<31, -1<<31, 1<<53, math.MaxInt64, math.MinInt64)
	case 4:
		return raw(r.picks("1e999", "-0", "1.5", "1e5", "NaN", "0x10", "01", "-", "1e-400", "123456789012345678901234567890"))
	case 5:
		return strings.Repeat(r.picks("x", "\u20ac", "\x1e", "\\", "\"", "\x00"), r.pick(0, 1, 31, 32, 255, 256, 700))
	case 6:
		if depth > 0 {
			l := []any{}
			for i, n := 0, r.n(5); i < n; i++ {
				l = append(l, h.value(depth-1))
			}
			return l
		}
		return "deep"
	case 7:
		if depth > 0 {
			m := map[string]any{}
			for i, n := 0, r.n(4); i < n; i++ {
				m[r.picks("name", "num", "list", "attr", "inner", "Name", "x", "")] = h.value(depth - 1)
			}
			return m
		}
		return 3.25
	case 8: // nested deeply
		n := r.pick(10, 200, 3000)
		if h.proto == "json" {
			return raw(strings.Repeat("[", n) + strings.Repeat("]", n))
		}
		return raw(strings.Repeat("\x91", n) + "\xc0")
	case 9:
		if h.proto == "messagepack" {
			return raw(r.picks("\xdd\xff\xff\xff\xff", "\xdf\xff\xff\xff\xff", "\xdb\xff\xff\xff\xff", "\xc6\xff\xff\xff\xff", "\xc1", "\xd4\x00\x00", "\xc9\xff\xff\xff\xff\x01",
				"\xdd\x00\x0f\xff\xff", "\xdf\x00\x0f\xff\xff", "\xd6\xff\x00\x00\x00\x00", "\xcb\x7f\xf8\x00\x00\x00\x00\x00\x01", "\xcf\xff\xff\xff\xff\xff\xff\xff\xff", "\x81\x90\xc0", "\xdc\x00\x02\x01"))
		}
		return raw(r.picks("{", "[1,", "tru", "\"\\u12", "\"\\ud800\"", "\"\xff\xfe\"", "{\"a\":1,\"a\":2}", "nul", "/**/1"))
	default:
		return r.in(1, 60)
	}
}

func (h *hostile) args() any {
	r := h.r
	switch r.n(8) {
	case 0:
		return h.value(2)
	case 1:
		return nil
	default:
		l := []any{}
		if r.p(90) {
			l = append(l, 900+r.n(50))
		}
		for i, n := 0, r.n(4); i < n; i++ {
			l = append(l, h.value(2))
		}
		return l
	}
}

func (h *hostile) streams() any {
	r := h.r
	switch r.n(6) {
	case 0:
		return h.value(1)
	case 1:
		return []any{}
	default:
		l := []any{}
		for i, n := 0, r.in(1, 3); i < n; i++ {
			if r.p(80) {
				l = append(l, fmt.Sprint("s", r.n(4)))
			} else {
				l = append(l, h.id())
			}
		}
		return l
	}
}

func (h *hostile) streamID() any {
	if h.r.p(60) {
		return fmt.Sprint("s", h.r.n(4))
	}
	return h.id()
}

// frame makes one frame.
func (h *hostile) frame() []byte {
	r := h.r
	var b []byte
	if h.proto == "json" {
		b = h.jsonFrame()
	} else {
		b = h.mpFrame()
	}
	if !h.mild && r.p(15) { // damage
		for i, n := 0, r.in(1, 3); i < n && len(b) > 0; i++ {
			k := r.n(len(b))
			switch r.n(5) {
			case 0:
				b[k] ^= 1 << r.n(8)
			case 1:
				b = append(b[:k:k], b[k+1:]...)
			case 2:
				b = append(b[:k:k], append([]byte{byte(r.n(256))}, b[k:]...)...)
			case 3:
				b = b[:k]
			case 4:
				b[k] = byte(r.pick(0, 0x1e, 0xff, 0x80, '"', '{'))
			}
		}
	}
	return b
}

// mildMsg is a well-formed message that is unlikely to end the connection at
// once, but that a decent peer would not send.
func (h *hostile) mildMsg() Msg {
	r := h.r
	str := func(v any) string {
		if s, ok := v.(string); ok {
			return s
		}
		return fmt.Sprint("h", r.n(6))
	}
	val := func() any {
		for {
			v := h.value(2)
			if b := hostileJSON(v); json.Valid([]byte(b)) && !strings.Contains(b, "e999") {
				var x any
				_ = json.Unmarshal([]byte(b), &x)
				return x
			}
		}
	}
	m := Msg{Type: r.pick(1, 1, 1, 1, 1, 1, 2, 2, 3, 4, 4, 4, 5, 5, 6)}
	k := h.known()
	if (m.Type == 2 || m.Type == 3) && k == "" && r.p(97) {
		m.Type = 1
	}
	switch m.Type {
	case 1, 4:
		m.ID = str(h.id())
		m.HasID = m.ID != ""
		m.Target = hubTargets[r.n(len(hubTargets)-4)]
		if r.p(85) {
			m.Args = append(m.Args, 900+r.n(50))
		}
		for i, n := 0, r.n(4); i < n; i++ {
			m.Args = append(m.Args, val())
		}
		if r.p(25) {
			m.Target = r.picks("Upload", "UploadSlow", "Upload2", "PanicUpload", "Add")
			m.Args = m.Args[:min(len(m.Args), r.n(3))]
			for i, n := 0, r.in(1, 3); i < n; i++ {
				m.StreamIDs = append(m.StreamIDs, fmt.Sprint("s", r.n(4)))
			}
			if len(m.Args) == 1 && (len(m.StreamIDs) == 1) == (m.Target == "Upload" || m.Target == "PanicUpload") {
				for _, id := range m.StreamIDs {
					h.open[id] = true
				}
			}
		}
		if m.Type == 4 && r.p(60) {
			m.Target = r.picks("Count", "Once", "Closed", "Add", "Void", "Two", "Panic")
			m.Args = []any{900 + r.n(50), r.n(50), r.n(50)}[:r.in(1, 3)]
		}
	case 2:
		m.ID, m.HasID, m.Item = k, true, r.n(100)
		if k == "" {
			m.ID = str(h.streamID())
		}
		if r.p(8) {
			m.Item = val()
		}
	case 3:
		m.ID, m.HasID = k, true
		if k == "" {
			m.ID = str(h.streamID())
		}
		if r.p(90) {
			delete(h.open, k)
		}
		switch r.n(12) {
		case 0:
			m.Err = "boom"
		case 1, 2, 3, 4:
			m.HasResult, m.Result = true, val()
		}
	case 5:
		m.ID, m.HasID = str(h.streamID()), true
	}
	return m
}

func (h *hostile) jsonFrame() []byte {
	r := h.r
	switch k := r.n(14); {
	case h.mild:
	case k == 0:
		return []byte(r.picks("\x1e", "\x1e\x1e\x1e", "{}\x1e", "[]\x1e", "null\x1e", "1\x1e", "\"x\"\x1e", "{\"type\":6}", " \x1e", "{\"type\":1}\x1e", "\ufeff{\"type\":6}\x1e", "{\"type\":6}{\"type\":6}\x1e", "{\"type\":6,\"type\":1}\x1e", "{\"TYPE\":6}\x1e"))
	case k == 1:
		b := make([]byte, r.pick(1, 5, 40, 500))
		for i := range b {
			b[i] = byte(r.n(256))
		}
		return append(b, 0x1e)
	}
	type kv struct {
		k string
		v any
	}
	var f []kv
	t := r.pick(1, 1, 1, 1, 2, 2, 3, 3, 4, 4, 5, 6, 7, 0, 8, 9)
	if h.mild {
		return append(encodeJSON(h.mildMsg(), r.n(8)), 0x1e)
	}
	switch r.n(20) {
	case 0:
		f = append(f, kv{"type", h.value(0)})
	case 1:
	default:
		f = append(f, kv{"type", t})
	}
	if r.p(15) {
		f = append(f, kv{"headers", h.value(1)})
	}
	switch t {
	case 1, 4:
		if r.p(85) {
			f = append(f, kv{"invocationId", h.id()})
		}
		if r.p(95) {
			f = append(f, kv{"target", any(hubTargets[r.n(len(hubTargets))])})
		} else {
			f = append(f, kv{"target", h.value(1)})
		}
		if r.p(95) {
			f = append(f, kv{"arguments", h.args()})
		}
		if r.p(40) {
			f = append(f, kv{"streamIds", h.streams()})
		}
	case 2:
		if r.p(95) {
			f = append(f, kv{"invocationId", h.streamID()})
		}
		if r.p(95) {
			f = append(f, kv{"item", h.value(2)})
		}
	case 3:
		if r.p(95) {
			f = append(f, kv{"invocationId", h.streamID()})
		}
		if r.p(40) {
			f = append(f, kv{"result", h.value(2)})
		}
		if r.p(30) {
			f = append(f, kv{"error", r.picks("", "boom", "x")})
		} else if r.p(10) {
			f = append(f, kv{"error", h.value(1)})
		}
	case 5:
		if r.p(95) {
			f = append(f, kv{"invocationId", h.streamID()})
		}
	case 7:
		if r.p(70) {
			return []byte("{\"type\":6}\x1e")
		}
		f = append(f, kv{"error", h.value(1)}, kv{"allowReconnect", r.p(50)})
	}
	if r.p(10) {
		f = append(f, kv{r.picks("x", "type", "invocationId", "Target"), h.value(1)})
	}
	if r.p(20) {
		for i := len(f) - 1; i > 0; i-- {
			k := r.n(i + 1)
			f[i], f[k] = f[k], f[i]
		}
	}
	var sb strings.Builder
	sb.WriteByte('{')
	for i, e := range f {
		if i > 0 {
			sb.WriteByte(',')
		}
		fmt.Fprintf(&sb, "%q:", e.k)
		sb.WriteString(hostileJSON(e.v))
	}
	sb.WriteString("}\x1e")
	return []byte(sb.String())
}

func hostileJSON(v any) string {
	switch x := v.(type) {
	case raw:
		return string(x)
	case []any:
		var l []string
		for _, e := range x {
			l = append(l, hostileJSON(e))
		}
		return "[" + strings.Join(l, ",") + "]"
	case map[string]any:
		var l []string
		for _, k := range sortedKeys(x) {
			b, _ := json.Marshal(k)
			l = append(l, string(b)+":"+hostileJSON(x[k]))
		}
		return "{" + strings.Join(l, ",") + "}"
	}
	b, _ := json.Marshal(v)
	return string(b)
}

func (h *hostile) mpFrame() []byte {
	r := h.r
	if h.mild {
		return encode("messagepack", h.mildMsg(), r.n(8))
	}
	switch r.n(16) {
	case 0: // lengths
		return []byte(r.picks("\x00", "\x00\x00\x00", "\xff\xff\xff\xff\x0f", "\xff\xff\xff\xff\xff\xff\xff\xff\xff\x01", "\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x01",
			"\x80\x80\x80\x00", "\x80\x01", "\x01\x90", "\x01\xc0", "\x02\x91\x06", "\x82\x00\x91\x06", "\x03\x92\x06\xc0"))
	case 1:
		b := make([]byte, r.pick(1, 5, 40, 500))
		for i := range b {
			b[i] = byte(r.n(256))
		}
		return b
	}
	t := r.pick(1, 1, 1, 1, 2, 2, 3, 3, 4, 4, 5, 6, 7, 0, 8, 9)
	var f []any
	if r.p(95) {
		f = append(f, t)
	} else {
		f = append(f, h.value(1))
	}
	hdr := func() {
		if r.p(90) {
			f = append(f, map[string]any{})
		} else {
			f = append(f, h.value(1))
		}
	}
	switch t {
	case 1, 4:
		hdr()
		f = append(f, h.id())
		if r.p(95) {
			f = append(f, any(hubTargets[r.n(len(hubTargets))]))
		} else {
			f = append(f, h.value(1))
		}
		f = append(f, h.args())
		if r.p(50) {
			f = append(f, h.streams())
		}
	case 2:
		hdr()
		f = append(f, h.streamID(), h.value(2))
	case 3:
		hdr()
		f = append(f, h.streamID())
		k := r.in(1, 3)
		if r.p(10) {
			f = append(f, h.value(1))
		} else {
			f = append(f, k)
		}
		if k == 1 && r.p(90) {
			f = append(f, "boom")
		} else if k == 3 || r.p(10) {
			f = append(f, h.value(2))
		}
	case 5:
		hdr()
		f = append(f, h.streamID())
	case 7:
		if r.p(70) {
			f = []any{6}
		} else {
			f = append(f, h.value(1), r.p(50))
		}
	}
	if r.p(8) {
		f = append(f, h.value(1))
	}
	if r.p(5) && len(f) > 1 {
		f = f[:len(f)-1]
	}
	w := &mpw{style: r.n(8)}
	lies := &liar{at: -1}
	if r.p(8) {
		lies = &liar{at: r.n(5), hdr: r.picks("\xff\xff\xff\xff", "\x7f\xff\xff\xff", "\x0f\xff\xff\xff", "\x00\x00\x00\x00", "\x00\x00\x00\x7f")}
	}
	hostileMP(w, f, r.p(5), lies)
	b := w.Bytes()
	var l [10]byte
	n := uint64(len(b))
	if r.p(4) {
		n = uint64(int(n) + r.pick(-1, 1, 5, 1<<20))
	}
	k := binary.PutUvarint(l[:], n)
	return append(append([]byte{}, l[:k]...), b...)
}

// liar lets one of the arrays and maps of a frame announce another length.
type liar struct {
	at  int
	hdr string
}

func (l *liar) now() bool {
	l.at--
	return l.at == -1
}

func hostileMP(w *mpw, v any, lie bool, lies *liar) {
	switch x := v.(type) {
	case raw:
		w.WriteString(string(x))
	case []any:
		n := len(x)
		if lie {
			n++
		}
		if lies.now() {
			w.WriteString("\xdd" + lies.hdr)
		} else {
			w.arr(n)
		}
		for _, e := range x {
			hostileMP(w, e, false, lies)
		}
	case map[string]any:
		if lies.now() {
			w.WriteString("\xdf" + lies.hdr)
		} else {
			w.Write([]byte{0xde, byte(len(x) >> 8), byte(len(x))})
		}
		for _, k := range sortedKeys(x) {
			w.str(k)
			hostileMP(w, x[k], false, lies)
		}
	default:
		w.val(v)
	}
}

func genHostile(r *Rand) *Plan {
	p := &Plan{Cfg: map[string]int{}}
	p.schedule(r)
	p.network(r)
	p.Cfg["mp"] = r.b(50)
	p.Cfg["detail"] = r.b(30)
	p.Cfg["percon"] = r.b(20)
	p.Cfg["streams"] = r.pick(1, 2, 100)
	p.Cfg["limit"] = r.pick(0, 0, 0, 200, 1000)
	p.Cfg["chto"] = r.pick(50, 1000, 5000) // ms
	p.Cfg["noread"] = r.b(15)
	p.Cfg["shake"] = r.pick(0, 0, 0, 0, 0, 1)
	p.Cfg["how"] = r.n(4)
	p.Cfg["mild"] = r.b(60)
	span := r.pick(1, 200, 5000, 100000)
	for i, n := 0, r.in(1, 40); i < n; i++ {
		p.Ops = append(p.Ops, Op{K: "frame", T: int64(r.n(span)), Z: r.n(1 << 30), X: r.pick(0, 0, 0, 1, 2, 3)})
	}
	return p
}

// attack sends the planned frames. It stops when the connection is gone.
func (w *World) attack(peer *rawPeer, ids func() []string) {
	e, p := w.e, w.e.plan
	base := e.us()
	n := 0
	open := map[string]bool{}
	seen := map[string]bool{}
	for _, op := range p.Ops {
		e.sleepUntilUs(base + op.T%200)
		h := &hostile{r: newRand(uint64(op.Z)), proto: peer.proto, ids: ids(), mild: p.b("mild"), open: open}
		for _, id := range h.ids {
			if !seen[id] {
				seen[id] = true
				open[id] = true
			}
		}
		f := h.frame()
		e.log("hostile -> %q", trunc(string(f), 200))
		n++
		_ = peer.conn.SetWriteDeadline(time.Now().Add(2 * time.Second))
		switch op.X {
		case 1: // in two pieces
			k := h.r.n(len(f) + 1)
			_ = peer.write(f[:k])
			time.Sleep(time.Duration(h.r.n(3000)) * time.Microsecond)
			f = f[k:]
		case 2: // a valid message follows in the same write
			f = append(f, encode(peer.proto, Msg{Type: mPing}, 0)...)
		}
		if err := peer.write(f); err != nil {
			break
		}
		if op.X == 3 {
			time.Sleep(time.Duration(h.r.n(20)) * time.Millisecond)
		}
	}
	e.count("hostile-frames", n)
	e.fault("hostile-peer")
}

// bystander uses a healthy connection until stop is closed.
func (w *World) bystander(cl signalr.Client, stop <-chan struct{}) {
	e := w.e
	for i := 0; ; i++ {
		select {
		case <-stop:
			return
		default:
		}
		tag := 500000 + i
		select {
		case r, ok := <-cl.Invoke("Add", tag, i, 7):
			if !ok || r.Error != nil || canon(r.Value) != canon(i+7) {
				e.fail("bystander-result", "call %d of the client next to the attacker got %v %v %v", i, r.Value, r.Error, ok)
				return
			}
		case <-time.After(time.Minute):
			e.fail("bystander-hang", "call %d of the client next to the attacker got no result", i)
			return
		}
		if i%7 == 3 {
			n := 0
			for r := range cl.PullStream("Count", tag+100000, 4, 100) {
				if r.Error != nil || canon(r.Value) != canon((tag+100000)*1000+n) {
					e.fail("bystander-stream", "the stream of the client next to the attacker got %v %v as item %d", r.Value, r.Error, n)
					return
				}
				n++
			}
			if n != 4 {
				e.fail("bystander-stream", "the stream of the client next to the attacker ended after %d items", n)
				return
			}
		}
		e.count("bystander-calls", 1)
		time.Sleep(time.Duration(1+i) * 3 * time.Millisecond)
	}
}

func (w *World) hostileOpts() []func(signalr.Party) error {
	p := w.e.plan
	o := []func(signalr.Party) error{signalr.EnableDetailedErrors(p.b("detail")), signalr.MaxConcurrentStreams(uint(p.c("streams"))), signalr.ChanReceiveTimeout(ms(p.c("chto")))}
	return o
}

func runHostileClient(e *Env) {
	w := newWorld(e)
	p := e.plan
	w.tame = true
	proto := w.proto
	opts := w.hostileOpts()
	if l := p.c("limit"); l > 0 {
		opts = append(opts, signalr.MaximumReceiveMessageSize(uint(l)))
	}
	srv := w.server(w.ctx, 0, opts...)
	// the bystander
	ga, gb := newStream(e, netCfg{Buf: 1 << 18, DelayU: 1}, "good", "srv")
	w.serve(srv, gb)
	w.proto = "json"
	good := w.client(w.ctx, ga, signalr.WithReceiver(&Receiver{w: w}))
	good.Start()
	if err := w.waitConnected(good, time.Minute); err != nil {
		e.fail("connect", "client did not connect: %v", err)
		return
	}
	stop := make(chan struct{})
	var wg sync.WaitGroup
	wg.Add(1)
	go func() { defer wg.Done(); w.bystander(good, stop) }()
	// the attacker
	a, b := newStream(e, w.cfg, "evil", "srv")
	sc := w.serve(srv, b)
	peer := newRawPeer(e, a, proto, "evil")
	peer.strict = false
	if p.b("noread") {
		e.fault("peer-does-not-read")
	} else {
		peer.start(true)
	}
	if p.b("shake") {
		// frames instead of a handshake
		e.fault("no-handshake")
	} else {
		_ = peer.write(handshakeRequest(proto))
		if !p.b("noread") {
			_ = peer.waitHandshake(20 * time.Second)
		}
	}
	w.attack(peer, func() []string { return nil })
	time.Sleep(300 * time.Millisecond)
	// served or ended
	if !p.b("noread") && !p.b("shake") {
		alive := false
		select {
		case <-sc.done:
		default:
			alive = true
		}
		if alive {
			// the attacker may have left an unfinished frame, so an answer can not be expected
			_ = peer.write(encode(proto, Msg{Type: mInvoke, ID: "probe", HasID: true, Target: "Void", Args: []any{400}}, 0))
			waitCond(time.Second, func() bool { return len(peer.completions("probe")) > 0 || peer.closed() })
			if len(peer.completions("probe")) > 0 {
				e.count("attacker-still-served", 1)
			}
		}
	}
	switch p.c("how") {
	case 0:
		_ = a.Close()
	case 1:
		a.Reset()
	case 2:
		a.CloseWrite()
	case 3: // nothing more comes
	}
	if !waitOr(sc.done, 120*time.Second) {
		e.fail("hostile-serve-hang", "Serve did not return although nothing arrives from the attacker")
	}
	time.Sleep(100 * time.Millisecond)
	close(stop)
	wg.Wait()
	if s := good.State(); s != signalr.ClientConnected {
		e.fail("bystander-state", "the client next to the attacker is not connected anymore: %v", good.Err())
	}
	// new clients are still served
	n := w.connect(srv, 9, "json")
	if n != nil {
		if c := n.call("Add", time.Minute, 3, 4, 5); canon(c.Result) != "9" {
			e.fail("bystander-new", "a new client got %v", c)
		}
	}
}

func runHostileServer(e *Env) {
	w := newWorld(e)
	p := e.plan
	w.tame = true
	proto := w.proto
	// a healthy pair in the same process
	w.proto = "json"
	srv := w.server(w.ctx, 0)
	ga, gb := newStream(e, netCfg{Buf: 1 << 18, DelayU: 1}, "good", "srv")
	w.serve(srv, gb)
	good := w.client(w.ctx, ga)
	good.Start()
	if err := w.waitConnected(good, time.Minute); err != nil {
		e.fail("connect", "client did not connect: %v", err)
		return
	}
	stop := make(chan struct{})
	var wg sync.WaitGroup
	wg.Add(1)
	go func() { defer wg.Done(); w.bystander(good, stop) }()
	// the victim
	w.proto = proto
	opts := append(w.hostileOpts(), signalr.WithReceiver(&Receiver{w: w}))
	if l := p.c("limit"); l > 0 {
		opts = append(opts, signalr.MaximumReceiveMessageSize(uint(l)))
	}
	a, b := newStream(e, w.cfg, "victim", "evil")
	cctx, ccancel := context.WithCancel(w.ctx)
	defer ccancel()
	cl := w.client(cctx, a, opts...)
	peer := newRawPeer(e, b, proto, "evil")
	peer.strict = false
	var mu sync.Mutex
	var ids []string
	peer.onMsg = func(m Msg) {
		mu.Lock()
		defer mu.Unlock()
		if m.ID != "" {
			ids = append(ids, m.ID)
		}
		ids = append(ids, m.StreamIDs...)
	}
	hs := make(chan error, 1)
	go func() {
		_, err := readHandshakeRequest(b)
		if err == nil {
			if p.b("shake") {
				e.fault("no-handshake")
			} else {
				_, err = b.Write([]byte("{}\x1e"))
			}
		}
		hs <- err
	}()
	cl.Start()
	<-hs
	if !p.b("noread") {
		peer.start(false)
	} else {
		e.fault("peer-does-not-read")
	}
	if !p.b("shake") {
		if err := w.waitConnected(cl, time.Minute); err != nil {
			e.fail("connect", "client did not connect: %v", err)
			return
		}
	}
	// operations that are pending while the attack runs
	var open int32
	pend := func(f func()) {
		wg.Add(1)
		atomic.AddInt32(&open, 1)
		go func() {
			defer wg.Done()
			f()
			atomic.AddInt32(&open, -1)
		}()
	}
	up := make(chan int)
	upDone := make(chan struct{})
	pend(func() {
		for i := 0; i < 50; i++ {
			select {
			case up <- i:
			case <-upDone:
				return
			}
			time.Sleep(time.Millisecond)
		}
		close(up)
	})
	pend(func() { <-cl.Invoke("Add", 1, 2, 3) })
	pend(func() { <-cl.Invoke("Echo", 2, "x") })
	pend(func() { <-cl.Send("Void", 3) })
	pend(func() {
		for range cl.PullStream("Count", 4, 5, 5) {
		}
	})
	pend(func() {
		for range cl.PullStream("Count", 5, 5, 5) {
		}
	})
	pend(func() {
		<-cl.PushStreams("Upload", 6, up)
		close(upDone)
	})
	time.Sleep(time.Millisecond)
	w.attack(peer, func() []string {
		mu.Lock()
		defer mu.Unlock()
		return append([]string(nil), ids...)
	})
	time.Sleep(100 * time.Millisecond)
	switch p.c("how") {
	case 0:
		_ = b.Close()
	case 1:
		b.Reset()
	case 2:
		b.CloseWrite()
	case 3: // nothing more comes
	}
	if !waitCond(120*time.Second, func() bool { return cl.State() == signalr.ClientClosed }) {
		e.fail("hostile-client-state", "the client is still in state %v although the attacker is gone", cl.State())
	}
	if !waitCond(30*time.Second, func() bool { return atomic.LoadInt32(&open) == 0 }) {
		e.fail("hostile-pending", "%d operations of the attacked client are still pending", atomic.LoadInt32(&open))
		close(stop)
		return
	}
	close(stop)
	wg.Wait()
	if s := good.State(); s != signalr.ClientConnected {
		e.fail("bystander-state", "the client next to the attacked one is not connected anymore: %v", good.Err())
	}
}

// ---- the limit of concurrent streams ----

func genStreamLimit(r *Rand) *Plan {
	p := &Plan{Cfg: map[string]int{}}
	p.schedule(r)
	p.network(r)
	p.Cfg["mp"] = r.b(50)
	p.Cfg["style"] = r.n(16)
	p.Cfg["streams"] = r.in(1, 5)
	n := r.in(1, 14)
	span := r.pick(1, 1000, 50000)
	for i := 0; i < n; i++ {
		p.Ops = append(p.Ops, Op{K: r.picks("start", "start", "start", "same", "two", "end", "item"), T: int64(r.n(span)), X: r.n(100)})
	}
	return p
}

func runStreamLimit(e *Env) {
	w := newWorld(e)
	p := e.plan
	limit := p.c("streams")
	srv := w.server(w.ctx, 0, signalr.MaxConcurrentStreams(uint(limit)), signalr.TimeoutInterval(300*time.Second))
	peer, sc, _ := w.rawClient(srv, "cli", w.proto)
	if err := peer.handshake(20 * time.Second); err != nil {
		e.fail("connect", "handshake: %v", err)
		return
	}
	type up struct {
		tag  int
		ids  []string
		open []bool // the client has not ended it
		ok   bool
	}
	var ups []*up
	openCount := func() (n int) {
		for _, u := range ups {
			if u.ok {
				for _, o := range u.open {
					if o {
						n++
					}
				}
			}
		}
		return
	}
	ended := map[int]bool{}
	base := e.us()
	nextID := 0
	for i, op := range p.Ops {
		e.sleepUntilUs(base + op.T%1000)
		tag := i + 1
		switch op.K {
		case "start", "same", "two":
			u := &up{tag: tag}
			inUse := false
			n := 1
			if op.K == "two" {
				n = 2
			}
			for k := 0; k < n; k++ {
				id := ""
				if op.K == "same" {
					for _, o := range ups {
						if o.ok && o.open[0] {
							id = o.ids[0]
							inUse = true
							break
						}
					}
				}
				if id == "" {
					nextID++
					id = fmt.Sprint("u", nextID)
				}
				u.ids = append(u.ids, id)
				u.open = append(u.open, true)
			}
			before := openCount()
			method := "Upload"
			if n == 2 {
				method = "Upload2"
			}
			m := Msg{Type: mInvoke, ID: fmt.Sprint("i", tag), HasID: true, Target: method, Args: []any{tag}, StreamIDs: u.ids}
			if peer.send(m) != nil {
				break
			}
			waitCond(5*time.Second, func() bool {
				return len(peer.completions(m.ID)) > 0 || len(w.callsOf("", tag)) > 0 || peer.closed()
			})
			time.Sleep(5 * time.Millisecond)
			ran := len(w.callsOf("", tag)) > 0
			compl := peer.completions(m.ID)
			switch {
			case inUse:
				// two open uploads can not share an id: nothing says which one gets the items
				if ran || len(compl) == 0 || compl[0].Err == "" {
					e.fail("stream-id-in-use", "upload %d uses the stream id %s of a running upload, but was not refused: ran %v, %v", tag, u.ids[0], ran, compl)
				}
			case before+n > limit:
				if ran || len(compl) == 0 || compl[0].Err == "" {
					e.fail("stream-limit-exceeded", "upload %d with %d streams was started although %d of %d streams were open: ran %v, %v", tag, n, before, limit, ran, compl)
				}
				if n == 2 && before < limit {
					// the first stream may stay occupied: nothing says it does not
					limit--
				}
			default:
				if !ran {
					e.fail("stream-limit-refused", "upload %d with %d streams did not start although only %d of %d streams were open: %v", tag, n, before, limit, compl)
				}
				u.ok = true
			}
			ups = append(ups, u)
		case "end", "item":
			var cand []*up
			for _, u := range ups {
				if u.ok && !ended[u.tag] {
					cand = append(cand, u)
				}
			}
			if len(cand) == 0 {
				continue
			}
			u := cand[op.X%len(cand)]
			if op.K == "item" {
				_ = peer.send(Msg{Type: mItem, ID: u.ids[0], HasID: true, Item: op.X})
				continue
			}
			for k, id := range u.ids {
				_ = peer.send(Msg{Type: mCompl, ID: id, HasID: true})
				u.open[k] = false
			}
			ended[u.tag] = true
			if !peer.waitMsgs(1, 10*time.Second, func(m Msg) bool { return m.Type == mCompl && m.ID == fmt.Sprint("i", u.tag) }) {
				e.fail("stream-limit-lost", "upload %d was ended, but got no completion", u.tag)
			}
		}
	}
	e.count("uploads", len(ups))
	select {
	case <-sc.done:
		e.fail("connection-lost", "the connection ended: %v", sc.err)
	default:
	}
}

// ---- uploads that are faster than their hub methods ----

func genFlood(r *Rand) *Plan {
	p := &Plan{Cfg: map[string]int{}}
	p.schedule(r)
	p.network(r)
	p.Cfg["mp"] = r.b(50)
	p.Cfg["percon"] = 0
	p.Cfg["cap"] = r.in(1, 3)
	p.Cfg["chto"] = r.pick(5, 20, 100, 1000) // ms
	p.Cfg["how"] = r.n(4)
	unit := 1000 * r.pick(p.Cfg["chto"]/2, p.Cfg["chto"], p.Cfg["chto"]*3)
	n := r.in(1, 3)
	for i := 0; i < n; i++ {
		ms := r.pick(0, 1, p.Cfg["chto"]-1, p.Cfg["chto"]+1, p.Cfg["chto"]*3, 30000)
		if r.p(50) {
			ms = -ms
		}
		p.Ops = append(p.Ops, Op{K: "start", A: i, X: ms})
	}
	for i, m := 0, r.in(1, 25); i < m; i++ {
		op := Op{K: r.picks("item", "item", "item", "item", "item", "item", "end", "fail", "cancel", "result", "again"), A: r.n(n), X: r.n(1000)}
		if r.p(40) {
			op.T = int64(r.n(unit + 1)) // a pause before
		}
		p.Ops = append(p.Ops, op)
	}
	return p
}

// runFlood sends items of uploads to hub methods which are slow, or do not
// receive them at all, and ends the uploads at any time.
func runFlood(e *Env) {
	w := newWorld(e)
	p := e.plan
	w.tame = true
	proto := w.proto
	srv := w.server(w.ctx, 0, signalr.StreamBufferCapacity(uint(p.c("cap"))), signalr.ChanReceiveTimeout(ms(p.c("chto"))))
	ga, gb := newStream(e, netCfg{Buf: 1 << 18, DelayU: 1}, "good", "srv")
	w.serve(srv, gb)
	w.proto = "json"
	good := w.client(w.ctx, ga, signalr.WithReceiver(&Receiver{w: w}))
	good.Start()
	if err := w.waitConnected(good, time.Minute); err != nil {
		e.fail("connect", "client did not connect: %v", err)
		return
	}
	stop := make(chan struct{})
	var wg sync.WaitGroup
	wg.Add(1)
	go func() { defer wg.Done(); w.bystander(good, stop) }()
	a, b := newStream(e, w.cfg, "evil", "srv")
	sc := w.serve(srv, b)
	peer := newRawPeer(e, a, proto, "evil")
	peer.start(true)
	if err := peer.handshake(20 * time.Second); err != nil {
		e.fail("connect", "handshake: %v", err)
		return
	}
	for i, op := range p.Ops {
		time.Sleep(time.Duration(op.T) * time.Microsecond)
		id := fmt.Sprint("s", op.A)
		m := Msg{Type: mItem, ID: id, HasID: true, Item: op.X}
		switch op.K {
		case "start":
			m = Msg{Type: mInvoke, ID: fmt.Sprint("i", i), HasID: true, Target: "UploadSlow", Args: []any{100 + i, op.X}, StreamIDs: []string{id}}
		case "end":
			m = Msg{Type: mCompl, ID: id, HasID: true}
		case "fail":
			m = Msg{Type: mCompl, ID: id, HasID: true, Err: "failed"}
		case "result":
			m = Msg{Type: mCompl, ID: id, HasID: true, HasResult: true, Result: op.X}
		case "cancel":
			m = Msg{Type: mCancel, ID: r2(op.X, id, "i0"), HasID: true}
		case "again":
			m = Msg{Type: mInvoke, ID: fmt.Sprint("i", i), HasID: true, Target: "UploadSlow", Args: []any{100 + i, op.X % 50}, StreamIDs: []string{id}}
		}
		_ = peer.conn.SetWriteDeadline(time.Now().Add(2 * time.Second))
		if peer.send(m) != nil {
			break
		}
	}
	e.fault("peer-floods-uploads")
	time.Sleep(ms(3 * p.c("chto")))
	if !peer.closed() {
		_ = peer.conn.SetWriteDeadline(time.Time{})
		_ = peer.send(Msg{Type: mInvoke, ID: "probe", HasID: true, Target: "Void", Args: []any{400}})
		// every item that nobody receives takes its time
		if !waitCond(time.Duration(len(p.Ops)+2)*ms(p.c("chto"))+10*time.Second, func() bool { return len(peer.completions("probe")) > 0 || peer.closed() }) {
			e.fail("hostile-not-served", "the connection with the uploads is neither served nor ended")
		}
	}
	switch p.c("how") {
	case 0:
		_ = a.Close()
	case 1:
		a.Reset()
	case 2:
		a.CloseWrite()
	}
	if !waitOr(sc.done, 120*time.Second) {
		e.fail("hostile-serve-hang", "Serve did not return although nothing arrives from the attacker")
	}
	time.Sleep(100 * time.Millisecond)
	close(stop)
	wg.Wait()
	if s := good.State(); s != signalr.ClientConnected {
		e.fail("bystander-state", "the client next to the attacker is not connected anymore: %v", good.Err())
	}
}

func r2(n int, a, b string) string {
	if n%2 == 0 {
		return a
	}
	return b
}

// ---- completions of invocations that are not sent ----

func genGuess(r *Rand) *Plan {
	p := &Plan{Cfg: map[string]int{}}
	p.schedule(r)
	p.network(r)
	p.Cfg["n_buf"] = 0
	p.Cfg["mp"] = r.b(40)
	p.Cfg["style"] = r.n(16)
	p.Cfg["s_sitemax"] = min(p.Cfg["s_sitemax"], 5000)
	for n := r.in(1, 12); n > 0; n-- {
		// A: when the peer answers it, before or after the call
		p.Ops = append(p.Ops, Op{K: r.picks("invoke", "invoke", "send", "pull", "push"), X: r.n(8), Y: r.pick(0, 0, 1), A: r.n(3) * r.n(200), Z: r.n(3) * r.n(200)})
	}
	return p
}

// runGuess: The client fails to send invocations, and the other side guesses
// their ids and completes them at the same time.
func runGuess(e *Env) {
	w := newWorld(e)
	p := e.plan
	a, b := newStream(e, w.cfg, "cli", "srv")
	cl := w.client(w.ctx, a, signalr.WithReceiver(&Receiver{w: w}), signalr.MaxConcurrentStreams(20))
	peer := newRawPeer(e, b, w.proto, "evil")
	peer.style = p.c("style")
	peer.strict = false
	cl.Start()
	if _, err := readHandshakeRequest(b); err != nil {
		e.fail("connect", "handshake: %v", err)
		return
	}
	peer.start(false)
	_ = peer.write([]byte("{}\x1e"))
	if err := w.waitConnected(cl, time.Minute); err != nil {
		e.fail("connect", "client did not connect: %v", err)
		return
	}
	type res struct {
		v   any
		err error
	}
	bad := func() {}       // can not be sent
	var pending []chan res // answered before they were sent
	id := 0
	for i, op := range p.Ops {
		id++
		gid := fmt.Sprint(id)
		if cl.State() != signalr.ClientConnected {
			break
		}
		out := make(chan res, 1)
		go func() {
			time.Sleep(time.Duration(op.A) * time.Microsecond)
			arg := any(bad)
			if op.Y == 1 {
				arg = i // this one is sent
			}
			switch op.K {
			case "invoke":
				r := <-cl.Invoke("Foo", arg)
				out <- res{r.Value, r.Error}
			case "send":
				out <- res{nil, <-cl.Send("Foo", arg)}
			case "pull":
				var l res
				for r := range cl.PullStream("Foo", arg) {
					l = res{r.Value, r.Error}
				}
				out <- l
			case "push":
				ch := make(chan int)
				close(ch)
				r := <-cl.PushStreams("Foo", arg, ch)
				out <- res{r.Value, r.Error}
			}
		}()
		time.Sleep(time.Duration(op.Z) * time.Microsecond)
		m := Msg{Type: mCompl, ID: gid}
		switch op.X {
		case 0:
			m.Err = "guessed"
		case 1, 2:
			m.HasResult, m.Result = true, "guessed"
		case 3:
			m = Msg{Type: mItem, ID: gid, Item: "guessed"}
		case 4:
			_ = peer.send(m)
		case 6:
			m = Msg{Type: mCancel, ID: gid}
		case 7:
			m = Msg{Type: mCancel, ID: fmt.Sprint(id + 1)}
		}
		_ = peer.send(m)
		if op.X == 3 {
			_ = peer.send(Msg{Type: mCompl, ID: gid})
		}
		select {
		case r := <-out:
			if op.K != "send" && op.Y == 0 && r.err == nil && r.v != nil && canon(r.v) != canon("guessed") {
				e.fail("hostile-result", "a call that can not be sent got %v", r.v)
			}
			e.count("guesses", 1)
			if r.err == nil {
				e.count("guessed-right", 1)
			}
		case <-time.After(time.Minute):
			if op.Y == 0 { // not sent, so there can be no answer to wait for
				e.fail("hostile-pending", "a call that can not be sent is pending")
				return
			}
			if op.K != "send" {
				pending = append(pending, out)
			}
		}
		if op.K == "push" {
			id++
		}
	}
	_ = b.Close()
	if !waitCond(60*time.Second, func() bool { return cl.State() == signalr.ClientClosed }) {
		e.fail("hostile-client-state", "the client is still in state %v although the attacker is gone", cl.State())
	}
	for _, out := range pending {
		select {
		case <-out:
		case <-time.After(time.Minute):
			e.fail("hostile-pending", "a call is pending although the connection has ended")
		}
	}
}
