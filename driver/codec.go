package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"os"
	"reflect"
	"runtime"
	"runtime/debug"
	"strconv"
	"unsafe"

	"github.com/greymass/go-eosio/pkg/abi"
	"github.com/greymass/go-eosio/pkg/chain"
)

var hangSeconds = 30

func init() {
	if s := os.Getenv("DRIVER_HANG"); s != "" {
		hangSeconds, _ = strconv.Atoi(s)
	}
}

type session struct {
	w      W
	rd     *Rd
	encs   map[string]*abi.Encoder
	decs   map[string]*abi.Decoder
	vars   map[int]reflect.Value // pointers to the session's variables
	x      ext
	syncs  map[string]func()
	starts []int             // where each encoding on the session's writer began
	pool   map[string][]byte // shared input buffers (nil: every call has its own)
	gate   func()            // called at every read and write
	live   map[reflect.Type]reflect.Value
}

// a variable holding a.V; with a.Mod the one that the last such call used, changed in place
func (s *session) value(a Args) reflect.Value {
	p := reflect.New(a.T.build())
	setVal(p.Elem(), a.T, a.V)
	if !a.Mod {
		return p
	}
	if s.live == nil {
		s.live = map[reflect.Type]reflect.Value{}
	}
	q, ok := s.live[p.Type()]
	if !ok {
		s.live[p.Type()] = p
		return p
	}
	morph(q.Elem(), p.Elem())
	return q
}

// change everything that v holds and leads to, in place
func spoil(v reflect.Value, d int) {
	if d > 2*tooDeep {
		return
	}
	switch v.Kind() {
	case reflect.Ptr:
		if !v.IsNil() {
			spoil(v.Elem(), d+1)
		}
	case reflect.Interface:
		if x, ok := v.Interface().(map[string]interface{}); ok {
			spoilTree(x, d+1)
		} else if x, ok := v.Interface().([]interface{}); ok {
			spoilTree(x, d+1)
		} else if !v.IsNil() && v.Elem().Kind() == reflect.Ptr {
			spoil(v.Elem(), d+1)
		}
	case reflect.Slice, reflect.Array:
		for i := 0; i < v.Len(); i++ {
			spoil(v.Index(i), d+1)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			spoil(v.Field(i), d+1)
		}
	case reflect.Map:
		for _, k := range v.MapKeys() {
			if e := v.MapIndex(k); e.Kind() == reflect.Slice || e.Kind() == reflect.Ptr || e.Kind() == reflect.Map {
				spoil(e, d+1)
			}
			v.SetMapIndex(k, reflect.Value{})
		}
	case reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uint:
		if v.CanSet() {
			v.SetUint(^v.Uint())
		}
	case reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64, reflect.Int:
		if v.CanSet() {
			v.SetInt(^v.Int())
		}
	case reflect.Bool:
		if v.CanSet() {
			v.SetBool(!v.Bool())
		}
	case reflect.String:
		if v.CanSet() {
			v.SetString(v.String() + "!")
		}
	case reflect.Float32, reflect.Float64:
		if v.CanSet() {
			v.SetFloat(-1)
		}
	}
}

// byte slices behind an interface value are changed in place, too
func spoilTree(x interface{}, d int) {
	if d > 2*tooDeep {
		return
	}
	switch y := x.(type) {
	case map[string]interface{}:
		for k, e := range y {
			spoilTree(e, d+1)
			delete(y, k)
		}
	case []interface{}:
		for i, e := range y {
			spoilTree(e, d+1)
			y[i] = "!"
		}
	default:
		if v := reflect.ValueOf(x); v.IsValid() && (v.Kind() == reflect.Ptr || v.Kind() == reflect.Slice || v.Kind() == reflect.Struct) {
			spoil(v, d+1)
		}
	}
}

// make dst equal to src, keeping the pointers, lists and maps it has
func morph(dst, src reflect.Value) {
	switch dst.Kind() {
	case reflect.Ptr:
		if !dst.IsNil() && !src.IsNil() {
			morph(dst.Elem(), src.Elem())
			return
		}
	case reflect.Slice:
		if !dst.IsNil() && !src.IsNil() && dst.Cap() >= src.Len() {
			dst.SetLen(src.Len())
			for i := 0; i < src.Len(); i++ {
				morph(dst.Index(i), src.Index(i))
			}
			return
		}
	case reflect.Map:
		if !dst.IsNil() && !src.IsNil() {
			for _, k := range dst.MapKeys() {
				dst.SetMapIndex(k, reflect.Value{})
			}
			for _, k := range src.MapKeys() {
				dst.SetMapIndex(k, src.MapIndex(k))
			}
			return
		}
	case reflect.Array:
		for i := 0; i < dst.Len(); i++ {
			morph(dst.Index(i), src.Index(i))
		}
		return
	case reflect.Struct:
		for i := 0; i < dst.NumField(); i++ {
			if dst.Type().Field(i).PkgPath != "" {
				dst.Set(src)
				return
			}
		}
		for i := 0; i < dst.NumField(); i++ {
			morph(dst.Field(i), src.Field(i))
		}
		return
	}
	dst.Set(src)
}

func newSession() *session {
	setZone("")
	return &session{rd: &Rd{en: "eof"}, encs: map[string]*abi.Encoder{}, decs: map[string]*abi.Decoder{}, vars: map[int]reflect.Value{}}
}

func decline(*abi.Encoder, interface{}) (bool, error)  { return false, nil }
func declineD(*abi.Decoder, interface{}) (bool, error) { return false, nil }

// a custom function that writes uint16 and chain.Name big-endian
func custEnc(e *abi.Encoder, v interface{}) (bool, error) {
	switch x := v.(type) {
	case uint16:
		return true, e.WriteBytes([]byte{byte(x >> 8), byte(x)})
	case chain.Name:
		var b [8]byte
		for i := range b {
			b[i] = byte(x >> (56 - 8*uint(i)))
		}
		return true, e.WriteBytes(b[:])
	}
	return false, nil
}

func custDec(d *abi.Decoder, v interface{}) (bool, error) {
	switch p := v.(type) {
	case *uint16:
		_, b, err := d.ReadBytes(2)
		if err == nil {
			*p = uint16(b[0])<<8 | uint16(b[1])
		}
		return true, err
	case *chain.Name:
		_, b, err := d.ReadBytes(8)
		if err == nil {
			var x uint64
			for _, c := range b {
				x = x<<8 | uint64(c)
			}
			*p = chain.Name(x)
		}
		return true, err
	}
	return false, nil
}

func mkEnc(path string, w io.Writer) *abi.Encoder {
	switch path {
	case "plain":
		return abi.NewEncoder(w, decline)
	case "decl":
		return chain.NewCustomEncoder(w, decline)
	case "cust":
		return chain.NewCustomEncoder(w, custEnc)
	case "custplain":
		return abi.NewEncoder(w, custEnc)
	}
	return chain.NewEncoder(w)
}

func mkDec(path string, r io.Reader) *abi.Decoder {
	switch path {
	case "plain":
		return abi.NewDecoder(r, declineD)
	case "decl":
		return chain.NewCustomDecoder(r, declineD)
	case "cust":
		return chain.NewCustomDecoder(r, custDec)
	case "custplain":
		return abi.NewDecoder(r, custDec)
	}
	return chain.NewDecoder(r)
}

// the session's encoder of a kind, and what moves its output to the session's writer
func (s *session) encoder(a Args) (*abi.Encoder, func()) {
	if a.Wk != "" && (a.Lim >= 0 || s.gate != nil) {
		a.Wk = "full"
	}
	k := a.Path + " " + a.Wk
	if s.encs[k] == nil {
		if s.syncs == nil {
			s.syncs = map[string]func(){}
		}
		w, sync := s.w.dst(a.Wk)
		s.encs[k], s.syncs[k] = mkEnc(a.Path, w), sync
	}
	return s.encs[k], s.syncs[k]
}

func (s *session) decoder(path string) *abi.Decoder {
	if s.decs[path] == nil {
		s.decs[path] = mkDec(path, s.rd.src())
	}
	return s.decs[path]
}

// encode the variable rv (addressable) the way the event asks for
func encodeBy(e *abi.Encoder, rv reflect.Value, t TN, by string) error {
	switch by {
	case "ptr":
		return e.Encode(rv.Addr().Interface())
	case "value":
		return e.EncodeValue(rv)
	case "marsh":
		if m, ok := rv.Addr().Interface().(abi.Marshaler); ok {
			return m.MarshalABI(e)
		}
	case "method":
		if ok, err := writeMethod(e, rv, t); ok {
			return err
		}
	}
	return e.Encode(rv.Interface())
}

func writeMethod(e *abi.Encoder, rv reflect.Value, t TN) (bool, error) {
	if t.T == "rawb" {
		if t.N == 1 {
			return true, e.WriteByte(rv.Bytes()[0])
		}
		return true, e.WriteBytes(rv.Bytes())
	}
	switch x := rv.Interface().(type) {
	case bool:
		return true, e.WriteBool(x)
	case string:
		return true, e.WriteString(x)
	case uint8:
		return true, e.WriteUint8(x)
	case uint16:
		return true, e.WriteUint16(x)
	case uint32:
		return true, e.WriteUint32(x)
	case uint64:
		return true, e.WriteUint64(x)
	case int8:
		return true, e.WriteInt8(x)
	case int16:
		return true, e.WriteInt16(x)
	case int32:
		return true, e.WriteInt32(x)
	case int64:
		return true, e.WriteInt64(x)
	case float32:
		return true, e.WriteFloat32(x)
	case float64:
		return true, e.WriteFloat64(x)
	case int:
		return true, e.WriteVarint(x)
	case uint:
		return true, e.WriteVaruint(x)
	}
	return false, nil
}

func readMethod(d *abi.Decoder, p interface{}, t TN) (ok bool, err error) {
	ok = true
	if t.T == "rawb" {
		var b []byte
		var n int
		if t.N == 1 {
			b = make([]byte, 1)
			b[0], err = d.ReadByte()
			n = 1
		} else {
			n, b, err = d.ReadBytes(t.N)
		}
		if err == nil {
			if n != len(b) {
				err = errCount
			}
			*p.(*[]byte) = b
		}
		return
	}
	switch p := p.(type) {
	case *bool:
		*p, err = d.ReadBool()
	case *string:
		*p, err = d.ReadString()
	case *uint8:
		*p, err = d.ReadUint8()
	case *uint16:
		*p, err = d.ReadUint16()
	case *uint32:
		*p, err = d.ReadUint32()
	case *uint64:
		*p, err = d.ReadUint64()
	case *int8:
		*p, err = d.ReadInt8()
	case *int16:
		*p, err = d.ReadInt16()
	case *int32:
		*p, err = d.ReadInt32()
	case *int64:
		*p, err = d.ReadInt64()
	case *float32:
		*p, err = d.ReadFloat32()
	case *float64:
		*p, err = d.ReadFloat64()
	case *int:
		*p, err = d.ReadVarint()
	case *uint:
		*p, err = d.ReadVaruint()
	default:
		ok = false
	}
	return
}

var errCount = errors.New("ReadBytes: count and data differ")

func decodeBy(d *abi.Decoder, p reflect.Value, by string, t TN) error {
	switch by {
	case "value":
		return d.DecodeValue(p.Elem())
	case "variant":
		return d.DecodeVariant(p.Interface())
	case "marsh":
		if u, ok := p.Interface().(abi.Unmarshaler); ok {
			return u.UnmarshalABI(d)
		}
	case "method":
		if ok, err := readMethod(d, p.Interface(), t); ok {
			return err
		}
	}
	return d.Decode(p.Interface())
}

func outOf(err error) string {
	if err != nil {
		return "err"
	}
	return "ok"
}

func (r *Rd) errKind(err error) string {
	switch {
	case err == nil:
		return ""
	case errors.Is(err, injected(r.err)):
		return "injected"
	case errors.Is(err, io.EOF), errors.Is(err, io.ErrUnexpectedEOF):
		return "eof"
	}
	return "other"
}

// an input buffer with recognisable bytes behind it
func (s *session) input(x []int) []byte {
	if b, ok := s.pool[string(toBytes(x))]; ok {
		return b
	}
	return withTail(toBytes(x))
}

func parseArgs(ev raw) Args {
	var a Args
	b, _ := json.Marshal(ev)
	if err := json.Unmarshal(b, &a); err != nil {
		fmt.Fprintln(os.Stderr, "driver: bad event:", err, string(b))
		os.Exit(2)
	}
	return a
}

func (s *session) exec(ev raw) Obs {
	if string(ev["op"]) == `"par"` {
		return s.par(ev)
	}
	roomsKept()
	a := parseArgs(ev)
	o := s.run(a)
	if readers[a.Op] && !roomsKept() {
		o["out"] = "spoiled"
	}
	return o
}

func (s *session) run(a Args) (o Obs) {
	defer func() {
		if r := recover(); r != nil {
			if str, ok := r.(string); ok && len(str) > 7 && str[:7] == "driver:" {
				fmt.Fprintln(os.Stderr, str)
				os.Exit(2)
			}
			o = Obs{"out": "panic", "msg": fmt.Sprint(r) + "\n" + string(debug.Stack())}
		}
	}()
	switch a.Op {
	case "enc":
		return s.enc(a)
	case "encs":
		return s.encSlot(a)
	case "faults":
		return s.faults(a)
	case "open":
		return s.open(a)
	case "dec":
		return s.dec(a)
	case "cuts":
		return s.cuts(a)
	case "bulk":
		d := bytes.Repeat(toBytes(a.D), a.N)
		d = append(d, toBytes(a.A)...)
		r := &Rd{d: d, en: "eof", ch: a.Ch, kind: a.Rk, err: a.Er}
		a.Meas = true
		o := s.doDec(mkDec(a.Path, r.src()), r, reflect.New(a.T.build()), a)
		delete(o, "v")
		return o
	case "rep":
		return s.rep(a)
	case "huge":
		return s.huge(a)
	case "ahuge":
		return s.ahuge(a)
	case "custerr":
		return s.custerr(a)
	case "odd":
		return Obs{"out": outOf(oddCall(a.Form, a.N, a.Path))}
	case "poke":
		p := reflect.New(a.T.build())
		setVal(p.Elem(), a.T, a.V)
		s.vars[a.Sl] = p
		return Obs{"out": "ok"}
	case "spoil":
		if p, ok := s.vars[a.Sl]; ok {
			spoil(p.Elem(), 0)
		}
		return Obs{"out": "ok"}
	case "look":
		p, ok := s.vars[a.Sl]
		if !ok {
			return Obs{"out": "ok", "v": Nil}
		}
		return Obs{"out": "ok", "v": getVal(p.Elem(), a.T)}
	}
	return s.execExt(a)
}

func (s *session) doEnc(e *abi.Encoder, sync func(), w *W, rv reflect.Value, a Args, lim int) Obs {
	start := len(w.buf)
	w.arm(lim, a.Short, a.Once, a.Er)
	err := encodeBy(e, rv, a.T, a.By)
	sync()
	o := Obs{"out": outOf(err), "b": BS(append([]byte{}, w.buf[start:]...)), "em": errors.Is(err, injected(a.Er)), "after": w.after, "lim": lim}
	w.arm(-1, false, false, 0)
	return o
}

func (s *session) enc(a Args) Obs {
	rv := s.value(a).Elem()
	s.starts = append(s.starts, len(s.w.buf))
	e, sync := s.encoder(a)
	o := s.doEnc(e, sync, &s.w, rv, a, a.Lim)
	o["va"] = getVal(rv, a.T)
	return o
}

func (s *session) encSlot(a Args) Obs {
	p, ok := s.vars[a.Sl]
	if !ok {
		p = reflect.New(a.T.build())
	}
	s.starts = append(s.starts, len(s.w.buf))
	a.Lim = -1
	e, sync := s.encoder(a)
	return s.doEnc(e, sync, &s.w, p.Elem(), a, -1)
}

func (s *session) faults(a Args) Obs {
	rv := s.value(a).Elem()
	one := func(lim int) Obs {
		w := &W{gate: s.gate}
		if a.Wk != "" {
			a.Wk = "full"
		}
		d, sync := w.dst(a.Wk)
		return s.doEnc(mkEnc(a.Path, d), sync, w, rv, a, lim)
	}
	full := one(-1)
	n := len(full["b"].(BS))
	rs := []Obs{full}
	for _, k := range points(n, a.Max) {
		rs = append(rs, one(k))
	}
	return Obs{"out": "ok", "rs": rs}
}

// at most max cut points in 0..n-1, always including both ends
func points(n, max int) []int {
	var r []int
	if max <= 0 || n <= max {
		for i := 0; i < n; i++ {
			r = append(r, i)
		}
		return r
	}
	last := -1
	for j := 0; j < max; j++ {
		k := j * (n - 1) / (max - 1)
		if k != last {
			r = append(r, k)
		}
		last = k
	}
	return r
}

func (s *session) open(a Args) Obs {
	var d []byte
	o := Obs{"out": "ok", "exact": false, "from": 0, "to": 0}
	if a.Src == "wire" {
		from, to := a.From, a.To
		if k := len(s.starts) - a.Last; a.Last > 0 && k >= 0 { // the last encodings
			from = s.starts[k] + 1
		}
		if from < 1 {
			from = 1
		}
		if to == 0 || to > len(s.w.buf) {
			to = len(s.w.buf)
		}
		if a.Cut > 0 { // keep a.Cut permille
			to = from - 1 + (to-from+1)*a.Cut/1000
		}
		d = append(d, s.w.buf[from-1:to]...)
		if len(a.Fl) == 0 && len(a.D) == 0 {
			o["exact"], o["from"], o["to"] = true, from, to
		}
		for _, f := range a.Fl {
			if len(d) > 0 {
				d[f[0]%len(d)] ^= byte(f[1])
			}
		}
		d = append(d, toBytes(a.D)...)
	} else {
		d = s.input(a.D)[:len(a.D)]
	}
	s.rd = &Rd{d: d, en: a.En, ch: a.Ch, with: a.With, gate: s.gate, kind: a.Rk, err: a.Er, shared: s.pool != nil}
	s.decs = map[string]*abi.Decoder{}
	o["d"] = BS(d)
	return o
}

func (s *session) doDec(d *abi.Decoder, r *Rd, p reflect.Value, a Args) Obs {
	start := r.used()
	var m0, m1 runtime.MemStats
	if a.Meas {
		runtime.ReadMemStats(&m0)
	}
	n0 := d.BytesRead()
	err := decodeBy(d, p, a.By, a.T)
	al := uint64(0)
	if a.Meas {
		runtime.ReadMemStats(&m1)
		al = (m1.TotalAlloc - m0.TotalAlloc) / 1024
		if al > 1<<30 {
			al = 1 << 30
		}
	}
	o := Obs{"out": outOf(err), "v": Nil, "used": r.used() - start, "br": d.BytesRead() - n0, "ek": r.errKind(err), "al": al}
	if err == nil && a.Op != "bulk" {
		o["v"] = r.look(func() VN { return getVal(p.Elem(), a.T) })
	}
	if !r.intact() {
		o["out"] = "changed"
	}
	return o
}

func (s *session) dec(a Args) Obs {
	p, ok := s.vars[a.Sl]
	if rt := a.T.build(); a.Sl == 0 || !ok || p.Type().Elem() != rt {
		p = reflect.New(rt)
		if a.Sl != 0 {
			s.vars[a.Sl] = p
		}
	}
	return s.doDec(s.decoder(a.Path), s.rd, p, a)
}

// decode prefixes of the session's output (or of literal data) from fresh readers
func (s *session) cuts(a Args) Obs {
	d := s.w.buf
	if a.Src == "lit" {
		d = toBytes(a.D)
	}
	d = append([]byte{}, d...)
	var rs []Obs
	for _, k := range append(points(len(d), a.Max), len(d)) {
		r := &Rd{d: d[:k:k], en: a.En, ch: a.Ch, with: a.With, gate: s.gate, kind: a.Rk, err: a.Er}
		if a.Once {
			r.d, r.flaw = d, k+1
		}
		p := reflect.New(a.T.build())
		o := s.doDec(mkDec(a.Path, r.src()), r, p, a)
		o["k"] = k
		rs = append(rs, o)
	}
	return Obs{"out": "ok", "d": BS(d), "rs": rs}
}

// many rounds with one encoder and one decoder: encode, decode the encoding
// without its last byte, decode all of it
func (s *session) rep(a Args) Obs {
	w, r := &W{lim: -1}, &Rd{}
	e, d := mkEnc(a.Path, w), mkDec(a.Path, r)
	rv := reflect.New(a.T.build())
	setVal(rv.Elem(), a.T, a.V)
	o := Obs{"out": "ok", "b": BS(nil), "v": Nil, "bad": 0, "same": 0}
	var first []byte
	var val VN
	bad, same := 0, 0
	for i := 0; i < a.N; i++ {
		w.buf = nil
		if err := encodeBy(e, rv.Elem(), a.T, a.By); err != nil {
			o["out"] = "err"
			return o
		}
		if len(w.buf) > 0 {
			r.d, r.pos = w.buf[:len(w.buf)-1], 0
			if decodeBy(d, reflect.New(a.T.build()), "ptr", a.T) != nil {
				bad++
			}
		}
		r.d, r.pos = w.buf, 0
		p := reflect.New(a.T.build())
		if err := decodeBy(d, p, "ptr", a.T); err != nil {
			o["out"] = "err"
			return o
		}
		if i == 0 {
			first, val = w.buf, getVal(p.Elem(), a.T)
		}
		if bytes.Equal(first, w.buf) && (i > 50 && i < a.N-5 || reflect.DeepEqual(val, getVal(p.Elem(), a.T))) && r.pos == len(w.buf) {
			same++
		}
	}
	o["b"], o["v"], o["bad"], o["same"] = BS(first), val, bad, same
	return o
}

type oddChan struct{ V chan int }
type oddIface struct{ V interface{} }
type oddVar struct {
	V uint8 `eosio:"variant"`
}
type oddVar2 struct {
	V struct {
		A *uint8
		B uint8
	} `eosio:"variant"`
}

// Go values that have no encoding
func oddCall(form string, n int, path string) error {
	u := uint8(3)
	enc := []interface{}{nil, make(chan int), func() {}, complex64(1), complex128(2), uintptr(3), oddChan{}, &oddChan{}, oddIface{}, oddVar{3},
		[]chan int{nil}, map[chan int]uint8{make(chan int): 1}, map[string]func(){"a": nil}, [1]interface{}{nil}, (*oddChan)(nil), []interface{}{nil},
		oddVar2{}, (*uint8)(nil), (*string)(nil), (**uint8)(nil), struct{ A *uint8 }{}, [2]chan int{}, unsafe.Pointer(&u)}
	dec := []interface{}{nil, uint8(3), "a", []byte{1}, oddChan{}, map[string]uint8{}, []uint16{1, 2}, new(chan int), new(func()), new(complex64), new(interface{}),
		&oddChan{}, &oddIface{}, &oddVar{}, new([]chan int), new(map[chan int]uint8), new(map[string]func()), new([2]chan int), (*oddChan)(nil), (*[]uint16)(nil),
		chain.Name(1), chain.Asset{}, new(uintptr), new(unsafe.Pointer), new([]interface{})}
	if form == "enc" {
		return mkEnc(path, &W{lim: -1}).Encode(enc[n%len(enc)])
	}
	d := make([]byte, 64)
	for i := range d {
		d[i] = 1
	}
	return mkDec(path, &Rd{d: d}).Decode(dec[n%len(dec)])
}

// encode, or decode the encoding, with a custom function whose n-th call fails
func (s *session) custerr(a Args) Obs {
	calls, after := 0, 0
	fail := func() (bool, error) {
		calls++
		if calls == a.N {
			return a.Once, injected(a.Er)
		}
		if calls > a.N {
			after++
		}
		return false, nil
	}
	rv := reflect.New(a.T.build())
	setVal(rv.Elem(), a.T, a.V)
	w := &W{lim: -1}
	efn := func(*abi.Encoder, interface{}) (bool, error) { return fail() }
	dfn := func(*abi.Decoder, interface{}) (bool, error) { return fail() }
	var err error
	if a.Form == "enc" {
		e := chain.NewCustomEncoder(w, efn)
		if a.Path == "plain" {
			e = abi.NewEncoder(w, efn)
		}
		err = encodeBy(e, rv.Elem(), a.T, a.By)
	} else {
		if err = mkEnc("plain", w).Encode(rv.Interface()); err != nil {
			return Obs{"out": "ok", "hit": false, "em": false, "after": 0}
		}
		r := &Rd{d: w.buf}
		d := chain.NewCustomDecoder(r, dfn)
		if a.Path == "plain" {
			d = abi.NewDecoder(r, dfn)
		}
		err = decodeBy(d, reflect.New(a.T.build()), a.By, a.T)
	}
	return Obs{"out": outOf(err), "hit": calls >= a.N, "em": errors.Is(err, injected(a.Er)), "after": after}
}
