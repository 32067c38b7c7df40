package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"math/big"
	"reflect"
	"runtime"
	"sort"
	"time"

	"github.com/greymass/go-eosio/pkg/abi"
	"github.com/greymass/go-eosio/pkg/chain"
)

type dynState struct {
	abi  *chain.Abi
	objs map[int]interface{}
	tree interface{} // what was encoded last
}

// a value that contains itself stays as it was built
func holdsSelf(v VN) bool {
	for _, e := range v.E {
		if e.K == "self" || holdsSelf(e) {
			return true
		}
	}
	return false
}

// src in the maps and lists of dst, as far as they fit
func morphTree(dst, src interface{}) interface{} {
	switch x := src.(type) {
	case map[string]interface{}:
		if d, ok := dst.(map[string]interface{}); ok && d != nil && x != nil {
			old := map[string]interface{}{}
			for k, v := range d {
				old[k] = v
				delete(d, k)
			}
			for k, v := range x {
				d[k] = morphTree(old[k], v)
			}
			return d
		}
	case []interface{}:
		if d, ok := dst.([]interface{}); ok && d != nil && x != nil && cap(d) >= len(x) {
			d = d[:len(x)]
			for i := range x {
				d[i] = morphTree(d[i], x[i])
			}
			return d
		}
	}
	return src
}

var kindOf = map[reflect.Type]string{}

func init() {
	for k, t := range leaf {
		if k != "rawb" && k != "u16x" && k != "namex" {
			kindOf[t] = k
		}
	}
}

type odd struct{ A int }

// Go values that no schema type describes; a dynamic node [k "go", b <<i>>]
var oddValues = []interface{}{
	(*chain.Asset)(nil), (*string)(nil), (*uint64)(nil), []string{"a"}, map[string]string{"a": "b"}, map[interface{}]interface{}{"a": 1},
	odd{1}, &odd{1}, (*odd)(nil), func() {}, make(chan int), []int{1, 2}, [2]byte{1, 2}, complex(1, 2), uintptr(1),
	json.Number("12"), (*map[string]interface{})(nil), (*[]interface{})(nil), [2]interface{}{"a", 1}, errors.New("x"), json.RawMessage("1"),
	(*chain.Name)(nil), (*chain.PublicKey)(nil), (*interface{})(nil), []map[string]interface{}{{}}, [][]interface{}{{}},
	addr(uint8(5)), addr(uint64(5)), addr("a"), addr(true), addr(chain.Name(5)), addr(chain.Asset{}), addr(chain.Bytes{1}), addr(map[string]interface{}{"f": uint8(1)}),
	addr([]interface{}{"uint8", uint8(1)}), addr(interface{}(uint8(1))), addr(chain.PublicKey{Data: make([]byte, 33)}), addr(chain.Checksum256{}), addr(chain.Uint128{}),
	oddMap{"f": uint8(1)}, oddList{"uint8", uint8(1)}, oddString("a"), oddBool(true), oddByte(1), oddWord(1), oddBytes{1},
	big.NewInt(5), *big.NewInt(5), time.Unix(5, 0), [20]byte{}, [32]byte{}, [64]byte{}, [16]byte{}, [33]byte{}, []chain.Name{1}, []uint16{1}, []uint64{}, []bool{true}, []chain.Bytes{{1}},
	map[string]uint8{"f": 1}, map[string]chain.Name{}, struct{ F uint8 }{1}, []struct{}{}, [0]interface{}{}, [1]interface{}{uint8(1)}, []rune("a"),
}

type (
	oddMap    map[string]interface{}
	oddList   []interface{}
	oddString string
	oddBool   bool
	oddByte   uint8
	oddWord   uint64
	oddBytes  []byte
)

// a pointer to a copy of x
func addr(x interface{}) interface{} {
	p := reflect.New(reflect.TypeOf(x))
	p.Elem().Set(reflect.ValueOf(x))
	return p.Interface()
}

// [k "self"] is the outermost map itself
// ni: what has nothing in it is nil
func toGo(v VN, ni bool) interface{} { return toGoIn(v, nil, ni) }

func toGoIn(v VN, root map[string]interface{}, ni bool) interface{} {
	switch v.K {
	case "self":
		return root
	case "nil":
		return nil
	case "map":
		if ni && len(v.E) == 0 {
			return map[string]interface{}(nil)
		}
		m := make(map[string]interface{})
		if root == nil {
			root = m
		}
		for _, f := range v.E {
			m[string(toBytes(f.B))] = toGoIn(f.E[0], root, ni)
		}
		return m
	case "slice":
		if ni && len(v.E) == 0 {
			return []interface{}(nil)
		}
		s := make([]interface{}, 0, len(v.E))
		for _, e := range v.E {
			s = append(s, toGoIn(e, root, ni))
		}
		return s
	case "go":
		return oddValues[v.B[0]%len(oddValues)]
	}
	rv := reflect.New(TN{T: v.K}.build()).Elem()
	n := 0
	if ni {
		n = 1
	}
	setVal(rv, TN{T: v.K, N: n}, v.E[0])
	return rv.Interface()
}

// nesting beyond what the specification compares (and JSON readers take)
const tooDeep = 50

func fromGo(x interface{}, orig *VN) VN { return fromGoD(x, orig, 0) }

func fromGoD(x interface{}, orig *VN, d int) VN {
	if d > tooDeep {
		return VN{K: "deep"}
	}
	if orig != nil && orig.K == "self" {
		return *orig
	}
	switch y := x.(type) {
	case nil:
		return Nil
	case map[string]interface{}:
		names := []string{}
		for k := range y {
			names = append(names, k)
		}
		sort.Strings(names)
		r := VN{K: "map"}
		for i, k := range names {
			var o *VN
			if orig != nil && orig.K == "map" && i < len(orig.E) {
				o = &orig.E[i].E[0]
			}
			r.E = append(r.E, VN{K: "f", B: ints([]byte(k)), E: []VN{fromGoD(y[k], o, d+1)}})
		}
		return r
	case []interface{}:
		r := VN{K: "slice"}
		for i, e := range y {
			var o *VN
			if orig != nil && orig.K == "slice" && i < len(orig.E) {
				o = &orig.E[i]
			}
			r.E = append(r.E, fromGoD(e, o, d+1))
		}
		return r
	}
	if orig != nil && orig.K == "go" {
		return *orig
	}
	k, ok := kindOf[reflect.TypeOf(x)]
	if !ok {
		return VN{K: fmt.Sprintf("unknown %T", x)}
	}
	rv := reflect.New(reflect.TypeOf(x)).Elem()
	rv.Set(reflect.ValueOf(x))
	return VN{K: k, E: []VN{getVal(rv, TN{T: k})}}
}

func getAbi(a *chain.Abi) VN { return getVal(reflect.ValueOf(a).Elem(), TN{T: "abi"}) }

func (s *session) setAbi(a Args) Obs {
	var def chain.Abi
	setVal(reflect.ValueOf(&def).Elem(), TN{T: "abi"}, a.V)
	var err error
	switch a.Form {
	case "bin":
		var b bytes.Buffer
		if err = chain.NewEncoder(&b).Encode(&def); err == nil {
			var d2 chain.Abi
			err = chain.NewDecoder(&b).Decode(&d2)
			def = d2
		}
	case "plain":
		var b bytes.Buffer
		if err = abi.NewEncoder(&b, decline).Encode(def); err == nil {
			var d2 chain.Abi
			err = abi.NewDecoder(&b, declineD).Decode(&d2)
			def = d2
		}
	case "json":
		var b []byte
		if b, err = json.Marshal(def); err == nil {
			var d2 chain.Abi
			err = json.Unmarshal(b, &d2)
			def = d2
		}
	}
	if a.Mod { // the definition in use is changed in place
		overwrite(reflect.ValueOf(s.x.abi).Elem(), reflect.ValueOf(&def).Elem())
	} else {
		s.x.abi = &def
	}
	return Obs{"out": outOf(err), "v": getAbi(s.x.abi)}
}

// make dst equal to src, keeping the memory of lists that have the same length
func overwrite(dst, src reflect.Value) {
	switch dst.Kind() {
	case reflect.Struct:
		for i := 0; i < dst.NumField(); i++ {
			overwrite(dst.Field(i), src.Field(i))
		}
	case reflect.Slice:
		if dst.Len() != src.Len() || dst.Len() == 0 {
			dst.Set(src)
			return
		}
		for i := 0; i < dst.Len(); i++ {
			overwrite(dst.Index(i), src.Index(i))
		}
	default:
		dst.Set(src)
	}
}

func nameOf(v VN) chain.Name { return chain.Name(mag(v.B).Uint64()) }
func str(b []int) string     { return string(toBytes(b)) }

func (s *session) doADec(r *Rd, a Args) (Obs, interface{}) {
	src := r.src()
	start := r.used()
	var m0, m1 runtime.MemStats
	if a.Meas {
		runtime.ReadMemStats(&m0)
	}
	var x interface{}
	var err error
	if a.By == "action" {
		x, err = s.x.abi.DecodeAction(src, nameOf(a.V0))
	} else {
		x, err = s.x.abi.Decode(src, str(a.Nm))
	}
	al := uint64(0)
	if a.Meas {
		runtime.ReadMemStats(&m1)
		al = (m1.TotalAlloc - m0.TotalAlloc) / 1024
		if al > 1<<30 {
			al = 1 << 30
		}
	}
	o := Obs{"out": outOf(err), "v": Nil, "used": r.used() - start, "ek": r.errKind(err), "al": al}
	if err == nil {
		o["v"] = r.look(func() VN { return fromGo(x, nil) })
	}
	if !r.intact() {
		o["out"] = "changed"
	}
	return o, x
}

func (s *session) doAEnc(w *W, x interface{}, a Args, lim int) Obs {
	start := len(w.buf)
	w.arm(lim, a.Short, a.Once, a.Er)
	if a.Wk != "" && (lim >= 0 || s.gate != nil) {
		a.Wk = "full"
	}
	dst, sync := w.dst(a.Wk)
	var err error
	if a.By == "action" {
		err = s.x.abi.EncodeAction(dst, nameOf(a.V0), x)
	} else {
		err = s.x.abi.Encode(dst, str(a.Nm), x)
	}
	sync()
	o := Obs{"out": outOf(err), "b": BS(append([]byte{}, w.buf[start:]...)), "em": errors.Is(err, injected(a.Er)), "after": w.after, "lim": lim}
	w.arm(-1, false, false, 0)
	return o
}

func (s *session) execDyn(a Args) Obs {
	if s.x.objs == nil {
		s.x.objs = map[int]interface{}{}
	}
	if s.x.abi == nil {
		s.x.abi = &chain.Abi{}
	}
	switch a.Op {
	case "abi":
		return s.setAbi(a)
	case "adec":
		o, x := s.doADec(s.rd, a)
		if a.Sl > 0 {
			s.x.objs[a.Sl] = x
		}
		return o
	case "aenc":
		x := toGo(a.V, a.Ni)
		if a.Mod && !holdsSelf(a.V) {
			x = morphTree(s.x.tree, x)
			s.x.tree = x
		}
		s.starts = append(s.starts, len(s.w.buf))
		o := s.doAEnc(&s.w, x, a, a.Lim)
		o["va"] = fromGo(x, &a.V)
		return o
	case "areenc":
		s.starts = append(s.starts, len(s.w.buf))
		return s.doAEnc(&s.w, s.x.objs[a.Sl], a, -1)
	case "aspoil":
		spoilTree(s.x.objs[a.Sl], 0)
		return Obs{"out": "ok"}
	case "alook":
		return Obs{"out": "ok", "v": fromGo(s.x.objs[a.Sl], nil)}
	case "afaults":
		x := toGo(a.V, a.Ni)
		w := &W{gate: s.gate}
		full := s.doAEnc(w, x, a, -1)
		rs := []Obs{full}
		for _, k := range points(len(full["b"].(BS)), a.Max) {
			rs = append(rs, s.doAEnc(&W{gate: s.gate}, x, a, k))
		}
		return Obs{"out": "ok", "rs": rs}
	case "acuts":
		d := s.w.buf
		if a.Src == "lit" {
			d = toBytes(a.D)
		}
		d = append([]byte{}, d...)
		var rs []Obs
		for _, k := range append(points(len(d), a.Max), len(d)) {
			r := &Rd{d: d[:k:k], en: a.En, ch: a.Ch, with: a.With, gate: s.gate, kind: a.Rk, err: a.Er}
			if a.Once {
				r.d, r.flaw = d, k+1
			}
			o, _ := s.doADec(r, a)
			o["k"] = k
			rs = append(rs, o)
		}
		return Obs{"out": "ok", "d": BS(d), "rs": rs}
	case "actdec":
		d := toBytes(a.D)
		act := chain.NewAction(chain.N("a"), nameOf(a.V0), nil, d)
		x, err := act.Decode(s.x.abi)
		o := Obs{"out": outOf(err), "v": Nil}
		if err == nil {
			o["v"] = fromGo(map[string]interface{}(x), nil)
		}
		o["in"] = BS(d)
		return o
	case "actinto":
		d := toBytes(a.D)
		act := chain.NewAction(chain.N("a"), chain.N("b"), nil, d)
		p := reflect.New(a.T.build())
		err := act.DecodeInto(p.Interface())
		o := Obs{"out": outOf(err), "v": Nil}
		if err == nil {
			o["v"] = getVal(p.Elem(), a.T)
		}
		o["in"] = BS(append([]byte{}, d...))
		if err == nil { // the decoded value must not share the action's data
			for i := range d {
				d[i] ^= 0xff
			}
			o["v"] = getVal(p.Elem(), a.T)
		}
		return o
	case "alookup":
		o := Obs{"out": "ok", "v": Nil}
		d := s.x.abi
		get := func(p interface{}, k string) {
			rv := reflect.ValueOf(p)
			if !rv.IsNil() {
				o["v"] = getVal(rv.Elem(), TN{T: k})
			}
		}
		switch a.Form {
		case "table":
			get(d.GetTable(nameOf(a.V0)), "abitable")
		case "action":
			get(d.GetAction(nameOf(a.V0)), "abiaction")
		case "struct":
			get(d.GetStruct(str(a.Nm)), "abistruct")
		case "type":
			get(d.GetType(str(a.Nm)), "abitype")
		case "variant":
			get(d.GetVariant(str(a.Nm)), "abivariant")
		}
		return o
	}
	return nil
}
