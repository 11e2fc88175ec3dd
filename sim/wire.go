package main

import (
	"bytes"
	"encoding/base64"
	"encoding/binary"
	"encoding/json"
	"errors"
	"fmt"
	"math"
	"sort"
	"strconv"
	"strings"
	"unicode/utf16"
	"unicode/utf8"
)

// Msg is a SignalR hub message as the scripted peers see it. This codec is
// written from the protocol specification and shares nothing with the code
// under test.
type Msg struct {
	Type      int
	ID        string
	HasID     bool
	Target    string
	Args      []any
	StreamIDs []string
	Item      any
	Result    any
	HasResult bool
	Err       string
	Allow     bool
}

const (
	mInvoke = 1
	mItem   = 2
	mCompl  = 3
	mStream = 4
	mCancel = 5
	mPing   = 6
	mClose  = 7
)

func (m Msg) String() string {
	switch m.Type {
	case mInvoke, mStream:
		return fmt.Sprintf("{%d id=%q %s %s ch=%v}", m.Type, m.ID, m.Target, canonList(m.Args), m.StreamIDs)
	case mItem:
		return fmt.Sprintf("{item id=%q %s}", m.ID, canon(m.Item))
	case mCompl:
		return fmt.Sprintf("{completion id=%q result=%v %s err=%q}", m.ID, m.HasResult, canon(m.Result), trunc(m.Err, 80))
	case mCancel:
		return fmt.Sprintf("{cancel id=%q}", m.ID)
	case mPing:
		return "{ping}"
	case mClose:
		return fmt.Sprintf("{close err=%q allow=%v}", m.Err, m.Allow)
	}
	return fmt.Sprintf("{type %d}", m.Type)
}

// canon renders a value so that the same value compares equal whichever
// encoding carried it.
func canon(v any) string {
	var sb strings.Builder
	canonTo(&sb, v)
	return sb.String()
}

func canonList(l []any) string {
	s := make([]string, len(l))
	for i, v := range l {
		s[i] = canon(v)
	}
	return "(" + strings.Join(s, ",") + ")"
}

func canonTo(sb *strings.Builder, v any) {
	switch x := v.(type) {
	case nil:
		sb.WriteString("null")
	case bool:
		fmt.Fprintf(sb, "%v", x)
	case string:
		b, _ := json.Marshal(x)
		sb.Write(b)
	case []byte:
		b, _ := json.Marshal(base64.StdEncoding.EncodeToString(x))
		sb.Write(b)
	case int, int8, int16, int32, int64, uint8, uint16, uint32, uint64:
		fmt.Fprint(sb, x)
	case json.Number:
		if strings.ContainsAny(string(x), ".eE") || x == "-0" {
			f, _ := x.Float64()
			canonNum(sb, f)
		} else {
			sb.WriteString(string(x))
		}
	case float32:
		canonNum(sb, float64(x))
	case float64:
		canonNum(sb, x)
	case []int:
		sb.WriteByte('[')
		for i, e := range x {
			if i > 0 {
				sb.WriteByte(',')
			}
			canonTo(sb, e)
		}
		sb.WriteByte(']')
	case []any:
		sb.WriteByte('[')
		for i, e := range x {
			if i > 0 {
				sb.WriteByte(',')
			}
			canonTo(sb, e)
		}
		sb.WriteByte(']')
	case map[string]any:
		sb.WriteByte('{')
		for i, k := range sortedKeys(x) {
			if i > 0 {
				sb.WriteByte(',')
			}
			b, _ := json.Marshal(k)
			sb.Write(b)
			sb.WriteByte(':')
			canonTo(sb, x[k])
		}
		sb.WriteByte('}')
	case map[any]any:
		m := map[string]any{}
		for k, v := range x {
			m[fmt.Sprint(k)] = v
		}
		canonTo(sb, m)
	default:
		b, err := json.Marshal(x)
		if err != nil {
			fmt.Fprintf(sb, "?%T", x)
			return
		}
		var y any
		_ = unmarshalExact(b, &y)
		canonTo(sb, y)
	}
}

func canonNum(sb *strings.Builder, f float64) {
	if f == 0 {
		f = 0 // not -0
	}
	if f == math.Trunc(f) && math.Abs(f) < 1e21 {
		// as JSON has it
		sb.WriteString(strconv.FormatFloat(f, 'f', -1, 64))
	} else {
		fmt.Fprintf(sb, "%v", f)
	}
}

// unmarshalExact does not round numbers.
func unmarshalExact(b []byte, dst any) error {
	d := json.NewDecoder(bytes.NewReader(b))
	d.UseNumber()
	return d.Decode(dst)
}

// ---- encoding ----

// encode renders m in the given protocol. style varies what the protocol
// leaves open: field order, spaces, extra fields, headers, integer widths.
func encode(proto string, m Msg, style int) []byte {
	if proto == "json" {
		return append(encodeJSON(m, style), 0x1e)
	}
	b := encodeMP(m, style)
	var l [10]byte
	n := binary.PutUvarint(l[:], uint64(len(b)))
	return append(append([]byte{}, l[:n]...), b...)
}

func encodeJSON(m Msg, style int) []byte {
	type kv struct {
		k string
		v any
	}
	var f []kv
	f = append(f, kv{"type", m.Type})
	if m.HasID || m.ID != "" {
		f = append(f, kv{"invocationId", m.ID})
	}
	switch m.Type {
	case mInvoke, mStream:
		a := m.Args
		if a == nil {
			a = []any{}
		}
		f = append(f, kv{"target", m.Target}, kv{"arguments", a})
		if m.StreamIDs != nil {
			f = append(f, kv{"streamIds", m.StreamIDs})
		}
	case mItem:
		f = append(f, kv{"item", m.Item})
	case mCompl:
		if m.Err != "" {
			f = append(f, kv{"error", m.Err})
		} else if m.HasResult {
			f = append(f, kv{"result", m.Result})
		}
	case mClose:
		if m.Err != "" {
			f = append(f, kv{"error", m.Err})
		}
		if m.Allow {
			f = append(f, kv{"allowReconnect", m.Allow})
		}
	}
	if style&1 != 0 { // reverse the fields
		for i, j := 0, len(f)-1; i < j; i, j = i+1, j-1 {
			f[i], f[j] = f[j], f[i]
		}
	}
	if style&2 != 0 && m.Type != mPing {
		f = append(f, kv{"headers", map[string]any{"x": "y"}})
	}
	sep, col := ",", ":"
	if style&4 != 0 {
		sep, col = " , ", " : "
	}
	var sb bytes.Buffer
	sb.WriteByte('{')
	for i, x := range f {
		if i > 0 {
			sb.WriteString(sep)
		}
		k, _ := json.Marshal(x.k)
		v, err := json.Marshal(x.v)
		if err != nil {
			panic("HARNESS: " + err.Error())
		}
		if style&8 != 0 {
			v = escapeJSON(v)
		}
		sb.Write(k)
		sb.WriteString(col)
		sb.Write(v)
	}
	sb.WriteByte('}')
	return sb.Bytes()
}

// escapeJSON writes every letter of the strings in a JSON text as an escape
// sequence.
func escapeJSON(v []byte) []byte {
	var out bytes.Buffer
	in := false
	for i := 0; i < len(v); {
		c, n := utf8.DecodeRune(v[i:])
		switch {
		case !in || c == utf8.RuneError:
			in = in != (c == '"')
			out.Write(v[i : i+n])
		case c == '"':
			in = false
			out.WriteByte('"')
		case c == '\\':
			n = 2
			if v[i+1] == 'u' {
				n = 6
			}
			out.Write(v[i : i+n])
		case c > 0xffff:
			a, b := utf16.EncodeRune(c)
			fmt.Fprintf(&out, "\\u%04x\\u%04X", a, b)
		case c == '/':
			out.WriteString("\\/")
		default:
			fmt.Fprintf(&out, "\\u%04x", c)
		}
		i += n
	}
	return out.Bytes()
}

type mpw struct {
	bytes.Buffer
	style int
}

func (w *mpw) arr(n int) {
	if w.style&8 != 0 {
		w.Write([]byte{0xdd, 0, 0, byte(n >> 8), byte(n)})
	} else if n < 16 && w.style&4 == 0 {
		w.WriteByte(0x90 | byte(n))
	} else {
		w.Write([]byte{0xdc, byte(n >> 8), byte(n)})
	}
}
func (w *mpw) str(s string) {
	n := len(s)
	switch {
	case w.style&8 != 0:
		w.Write([]byte{0xdb, byte(n >> 24), byte(n >> 16), byte(n >> 8), byte(n)})
	case n < 32 && w.style&4 == 0:
		w.WriteByte(0xa0 | byte(n))
	case n < 256:
		w.Write([]byte{0xd9, byte(n)})
	case n < 65536:
		w.Write([]byte{0xda, byte(n >> 8), byte(n)})
	default:
		w.Write([]byte{0xdb, byte(n >> 24), byte(n >> 16), byte(n >> 8), byte(n)})
	}
	w.WriteString(s)
}
func (w *mpw) int(i int64) {
	switch {
	case w.style&8 != 0: // the widest formats
		w.WriteByte(0xd3)
		var b [8]byte
		binary.BigEndian.PutUint64(b[:], uint64(i))
		w.Write(b[:])
	case i >= 0 && i < 1<<32 && w.style&4 != 0: // unsigned formats, not the shortest
		switch {
		case i < 256:
			w.Write([]byte{0xcc, byte(i)})
		case i < 65536:
			w.Write([]byte{0xcd, byte(i >> 8), byte(i)})
		default:
			w.Write([]byte{0xce, byte(i >> 24), byte(i >> 16), byte(i >> 8), byte(i)})
		}
	case i >= 0 && i < 128:
		w.WriteByte(byte(i))
	case i < 0 && i >= -32:
		w.WriteByte(byte(i))
	case i >= -32768 && i < 32768:
		w.Write([]byte{0xd1, byte(i >> 8), byte(i)})
	case i >= math.MinInt32 && i <= math.MaxInt32:
		w.Write([]byte{0xd2, byte(i >> 24), byte(i >> 16), byte(i >> 8), byte(i)})
	default:
		w.WriteByte(0xd3)
		var b [8]byte
		binary.BigEndian.PutUint64(b[:], uint64(i))
		w.Write(b[:])
	}
}
func (w *mpw) val(v any) {
	switch x := v.(type) {
	case nil:
		w.WriteByte(0xc0)
	case bool:
		if x {
			w.WriteByte(0xc3)
		} else {
			w.WriteByte(0xc2)
		}
	case int:
		w.int(int64(x))
	case float64:
		w.WriteByte(0xcb)
		var b [8]byte
		binary.BigEndian.PutUint64(b[:], math.Float64bits(x))
		w.Write(b[:])
	case string:
		w.str(x)
	case []byte:
		n := len(x)
		if w.style&8 != 0 {
			w.Write([]byte{0xc6, byte(n >> 24), byte(n >> 16), byte(n >> 8), byte(n)})
		} else if n < 256 && w.style&4 == 0 {
			w.Write([]byte{0xc4, byte(n)})
		} else {
			w.Write([]byte{0xc5, byte(n >> 8), byte(n)})
		}
		w.Write(x)
	case []int:
		w.arr(len(x))
		for _, e := range x {
			w.val(e)
		}
	case []any:
		w.arr(len(x))
		for _, e := range x {
			w.val(e)
		}
	case map[string]any:
		switch {
		case w.style&8 != 0:
			w.Write([]byte{0xdf, 0, 0, byte(len(x) >> 8), byte(len(x))})
		case w.style&4 != 0 || len(x) > 15:
			w.Write([]byte{0xde, byte(len(x) >> 8), byte(len(x))})
		default:
			w.WriteByte(0x80 | byte(len(x)))
		}
		for _, k := range sortedKeys(x) {
			w.str(k)
			w.val(x[k])
		}
	case map[any]any:
		w.WriteByte(0x80 | byte(len(x)))
		keys := map[string]any{}
		for k := range x {
			keys[fmt.Sprint(k)] = k
		}
		for _, k := range sortedKeys(keys) {
			w.val(keys[k])
			w.val(x[keys[k]])
		}
	case int64:
		w.val(int(x))
	case Record:
		var l, a, in any
		if x.List != nil {
			ll := []any{}
			for _, e := range x.List {
				ll = append(ll, e)
			}
			l = ll
		}
		if x.Attr != nil {
			m := map[string]any{}
			for k, e := range x.Attr {
				m[k] = e
			}
			a = m
		}
		if x.Inner != nil {
			in = map[string]any{"f": x.Inner.F, "b": x.Inner.B}
		}
		w.val(map[string]any{"name": x.Name, "num": x.Num, "list": l, "attr": a, "inner": in})
	default:
		panic(fmt.Sprintf("HARNESS: cannot encode %T", v))
	}
}
func (w *mpw) hdr() {
	if w.style&2 != 0 {
		w.WriteByte(0x81)
		w.str("x")
		w.str("y")
	} else {
		w.WriteByte(0x80)
	}
}

func encodeMP(m Msg, style int) []byte {
	w := &mpw{style: style}
	switch m.Type {
	case mInvoke, mStream:
		n := 6
		if style&1 != 0 && len(m.StreamIDs) == 0 {
			n = 5
		}
		w.arr(n)
		w.int(int64(m.Type))
		w.hdr()
		if m.ID == "" && !m.HasID {
			w.WriteByte(0xc0)
		} else {
			w.str(m.ID)
		}
		w.str(m.Target)
		w.arr(len(m.Args))
		for _, a := range m.Args {
			w.val(a)
		}
		if n == 6 {
			w.arr(len(m.StreamIDs))
			for _, s := range m.StreamIDs {
				w.str(s)
			}
		}
	case mItem:
		w.arr(4)
		w.int(2)
		w.hdr()
		w.str(m.ID)
		w.val(m.Item)
	case mCompl:
		n, k := 4, 2
		if m.Err != "" {
			n, k = 5, 1
		} else if m.HasResult {
			n, k = 5, 3
		}
		w.arr(n)
		w.int(3)
		w.hdr()
		w.str(m.ID)
		w.int(int64(k))
		switch k {
		case 1:
			w.str(m.Err)
		case 3:
			w.val(m.Result)
		}
	case mCancel:
		w.arr(3)
		w.int(5)
		w.hdr()
		w.str(m.ID)
	case mPing:
		w.arr(1)
		w.int(6)
	case mClose:
		n := 3
		if style&1 != 0 && !m.Allow {
			n = 2
		}
		w.arr(n)
		w.int(7)
		if m.Err == "" && style&2 != 0 {
			w.WriteByte(0xc0)
		} else {
			w.str(m.Err)
		}
		if n == 3 {
			w.val(m.Allow)
		}
	default:
		w.arr(2)
		w.int(int64(m.Type))
		w.hdr()
	}
	return w.Bytes()
}

// ---- decoding ----

// splitFrame takes one frame off b. ok is false if b holds no whole frame.
func splitFrame(proto string, b []byte) (frame, rest []byte, ok bool, err error) {
	if proto == "json" {
		i := bytes.IndexByte(b, 0x1e)
		if i < 0 {
			return nil, b, false, nil
		}
		return b[:i], b[i+1:], true, nil
	}
	n, l := binary.Uvarint(b)
	if l == 0 {
		if len(b) > 5 {
			return nil, b, false, errors.New("length prefix too long")
		}
		return nil, b, false, nil
	}
	if l < 0 || l > 5 || n > 1<<31 {
		return nil, b, false, errors.New("bad length prefix")
	}
	if uint64(len(b)-l) < n {
		return nil, b, false, nil
	}
	return b[l : l+int(n)], b[l+int(n):], true, nil
}

func decode(proto string, f []byte) (Msg, error) {
	if proto == "json" {
		return decodeJSON(f)
	}
	return decodeMP(f)
}

func decodeJSON(f []byte) (m Msg, err error) {
	var o map[string]json.RawMessage
	if err = json.Unmarshal(f, &o); err != nil {
		return m, err
	}
	get := func(k string, dst any, need bool) {
		if err != nil {
			return
		}
		r, ok := o[k]
		if !ok {
			if need {
				err = fmt.Errorf("message lacks %q: %s", k, f)
			}
			return
		}
		if e := unmarshalExact(r, dst); e != nil {
			err = fmt.Errorf("%q: %v", k, e)
		}
	}
	get("type", &m.Type, true)
	_, m.HasID = o["invocationId"]
	switch m.Type {
	case mInvoke, mStream:
		get("invocationId", &m.ID, m.Type == mStream)
		get("target", &m.Target, true)
		get("arguments", &m.Args, true)
		if err == nil && m.Args == nil {
			err = fmt.Errorf("arguments is null: %s", f)
		}
		get("streamIds", &m.StreamIDs, false)
	case mItem:
		get("invocationId", &m.ID, true)
		get("item", &m.Item, true)
	case mCompl:
		get("invocationId", &m.ID, true)
		get("result", &m.Result, false)
		_, m.HasResult = o["result"]
		get("error", &m.Err, false)
		if err == nil && m.HasResult && m.Err != "" {
			err = fmt.Errorf("completion with both result and error: %s", f)
		}
	case mCancel:
		get("invocationId", &m.ID, true)
	case mPing:
	case mClose:
		get("error", &m.Err, false)
		get("allowReconnect", &m.Allow, false)
	default:
		if err == nil {
			err = fmt.Errorf("unknown message type: %s", f)
		}
	}
	return m, err
}

type mpr struct {
	b   []byte
	err error
}

func (r *mpr) fail(s string) {
	if r.err == nil {
		r.err = errors.New("msgpack: " + s)
	}
}
func (r *mpr) take(n int) []byte {
	if r.err != nil {
		return make([]byte, 0)
	}
	if n < 0 || len(r.b) < n {
		r.fail("truncated")
		return nil
	}
	x := r.b[:n]
	r.b = r.b[n:]
	return x
}
func (r *mpr) u(n int) uint64 {
	var v uint64
	for _, c := range r.take(n) {
		v = v<<8 | uint64(c)
	}
	return v
}
func (r *mpr) val() any {
	t := r.take(1)
	if len(t) != 1 {
		return nil
	}
	c := t[0]
	switch {
	case c < 0x80:
		return int64(c)
	case c < 0x90:
		return r.mp(int(c & 15))
	case c < 0xa0:
		return r.ar(int(c & 15))
	case c < 0xc0:
		return string(r.take(int(c & 31)))
	case c >= 0xe0:
		return int64(int8(c))
	}
	switch c {
	case 0xc0:
		return nil
	case 0xc2:
		return false
	case 0xc3:
		return true
	case 0xc4:
		return append([]byte{}, r.take(int(r.u(1)))...)
	case 0xc5:
		return append([]byte{}, r.take(int(r.u(2)))...)
	case 0xc6:
		return append([]byte{}, r.take(int(r.u(4)))...)
	case 0xca:
		return float64(math.Float32frombits(uint32(r.u(4))))
	case 0xcb:
		return math.Float64frombits(r.u(8))
	case 0xcc:
		return int64(r.u(1))
	case 0xcd:
		return int64(r.u(2))
	case 0xce:
		return int64(r.u(4))
	case 0xcf:
		return r.u(8)
	case 0xd0:
		return int64(int8(r.u(1)))
	case 0xd1:
		return int64(int16(r.u(2)))
	case 0xd2:
		return int64(int32(r.u(4)))
	case 0xd3:
		return int64(r.u(8))
	case 0xd9:
		return string(r.take(int(r.u(1))))
	case 0xda:
		return string(r.take(int(r.u(2))))
	case 0xdb:
		return string(r.take(int(r.u(4))))
	case 0xdc:
		return r.ar(int(r.u(2)))
	case 0xdd:
		return r.ar(int(r.u(4)))
	case 0xde:
		return r.mp(int(r.u(2)))
	case 0xdf:
		return r.mp(int(r.u(4)))
	}
	r.fail(fmt.Sprintf("unexpected byte %#x", c))
	return nil
}
func (r *mpr) ar(n int) any {
	if n > len(r.b) {
		r.fail("array too long")
		return nil
	}
	a := make([]any, 0, n)
	for i := 0; i < n && r.err == nil; i++ {
		a = append(a, r.val())
	}
	return a
}
func (r *mpr) mp(n int) any {
	m := map[string]any{}
	for i := 0; i < n && r.err == nil; i++ {
		k := r.val()
		m[fmt.Sprint(k)] = r.val()
	}
	return m
}

func decodeMP(f []byte) (m Msg, err error) {
	r := &mpr{b: f}
	v := r.val()
	if r.err != nil {
		return m, r.err
	}
	if len(r.b) != 0 {
		return m, fmt.Errorf("msgpack: %d stray bytes after the message", len(r.b))
	}
	a, ok := v.([]any)
	if !ok || len(a) == 0 {
		return m, fmt.Errorf("msgpack: message is not an array")
	}
	ti, ok := a[0].(int64)
	if !ok {
		return m, fmt.Errorf("msgpack: message type is not an integer")
	}
	m.Type = int(ti)
	str := func(i int) string {
		if i >= len(a) {
			err = fmt.Errorf("msgpack: message of type %d has only %d elements", m.Type, len(a))
			return ""
		}
		s, ok := a[i].(string)
		if !ok {
			err = fmt.Errorf("msgpack: element %d of message type %d is not a string", i, m.Type)
		}
		return s
	}
	if m.Type != mPing && m.Type != mClose {
		if len(a) < 2 {
			return m, fmt.Errorf("msgpack: short message")
		}
		if _, ok := a[1].(map[string]any); !ok {
			return m, fmt.Errorf("msgpack: headers missing in message type %d", m.Type)
		}
	}
	switch m.Type {
	case mInvoke, mStream:
		if len(a) != 5 && len(a) != 6 {
			return m, fmt.Errorf("msgpack: invocation with %d elements", len(a))
		}
		if a[2] != nil {
			m.ID = str(2)
			m.HasID = true
		}
		m.Target = str(3)
		m.Args, ok = a[4].([]any)
		if !ok {
			return m, fmt.Errorf("msgpack: arguments is not an array")
		}
		if len(a) == 6 {
			ids, ok := a[5].([]any)
			if !ok {
				return m, fmt.Errorf("msgpack: streamIds is not an array")
			}
			for _, x := range ids {
				s, ok := x.(string)
				if !ok {
					return m, fmt.Errorf("msgpack: stream id is not a string")
				}
				m.StreamIDs = append(m.StreamIDs, s)
			}
		}
	case mItem:
		if len(a) != 4 {
			return m, fmt.Errorf("msgpack: stream item with %d elements", len(a))
		}
		m.ID, m.HasID = str(2), true
		m.Item = a[3]
	case mCompl:
		if len(a) < 4 {
			return m, fmt.Errorf("msgpack: completion with %d elements", len(a))
		}
		m.ID, m.HasID = str(2), true
		k, _ := a[3].(int64)
		switch k {
		case 1:
			m.Err = str(4)
			if len(a) != 5 {
				err = fmt.Errorf("msgpack: completion with %d elements", len(a))
			}
		case 2:
			if len(a) != 4 {
				err = fmt.Errorf("msgpack: void completion with %d elements", len(a))
			}
		case 3:
			if len(a) != 5 {
				return m, fmt.Errorf("msgpack: completion with %d elements", len(a))
			}
			m.Result, m.HasResult = a[4], true
		default:
			err = fmt.Errorf("msgpack: completion result kind %v", a[3])
		}
	case mCancel:
		m.ID, m.HasID = str(2), true
	case mPing:
		if len(a) != 1 {
			err = fmt.Errorf("msgpack: ping with %d elements", len(a))
		}
	case mClose:
		if len(a) != 2 && len(a) != 3 {
			return m, fmt.Errorf("msgpack: close with %d elements", len(a))
		}
		if a[1] != nil {
			m.Err = str(1)
		}
		if len(a) == 3 {
			m.Allow, ok = a[2].(bool)
			if !ok {
				err = fmt.Errorf("msgpack: allowReconnect is not a boolean")
			}
		}
	default:
		err = fmt.Errorf("unknown message type %d", m.Type)
	}
	return m, err
}

var _ = sort.Strings
