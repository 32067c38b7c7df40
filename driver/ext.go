package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"os"
	"reflect"
	"strings"

	"github.com/greymass/go-eosio/pkg/chain"
)

type ext struct {
	textState
	hashState
	dynState
}

func (s *session) execExt(a Args) Obs {
	if o := s.execText(a); o != nil {
		return o
	}
	if o := s.execHash(a); o != nil {
		return o
	}
	if o := s.execDyn(a); o != nil {
		return o
	}
	if o := s.execJson(a); o != nil {
		return o
	}
	fmt.Fprintln(os.Stderr, "driver: unknown op", a.Op)
	os.Exit(2)
	return nil
}

// a value holding n copies of one element (or byte), encoded and decoded again
func (s *session) huge(a Args) Obs {
	one := byte(0)
	if len(a.V.B) > 0 {
		one = byte(a.V.B[0])
	}
	et := a.T
	if a.Form == "gen" { // a generated struct whose only field is the list
		et = a.T.E[0].E[0]
	}
	t := et.build()
	lenKind := a.Form == "len"
	if !lenKind {
		t = reflect.SliceOf(t)
	}
	rv := reflect.New(t).Elem()
	eb := []byte{one}
	switch {
	case lenKind && t.Kind() == reflect.String:
		rv.SetString(strings.Repeat(string([]byte{one}), a.N))
	case lenKind:
		rv.Set(reflect.ValueOf(bytes.Repeat([]byte{one}, a.N)).Convert(t))
	default:
		el := reflect.New(et.build()).Elem()
		setVal(el, et, a.V)
		var b bytes.Buffer
		if err := encodeBy(mkEnc(a.Path, &b), el, et, "val"); err != nil {
			return Obs{"out": "err"}
		}
		eb = append([]byte{}, b.Bytes()...)
		sv := reflect.MakeSlice(t, a.N, a.N)
		for i := 0; i < a.N; i++ {
			sv.Index(i).Set(el)
		}
		rv.Set(sv)
	}
	tail := 0
	x := rv.Interface()
	switch a.Form {
	case "gen":
		g := reflect.New(a.T.build()).Elem()
		g.Field(0).Set(rv)
		x = g.Interface()
	case "auth":
		x, tail = chain.Action{Account: 1, Name: 2, Authorization: x.([]chain.PermissionLevel), Data: chain.Bytes{9}}, 2
	case "cfa":
		x, tail = chain.Transaction{ContextFreeActions: x.([]chain.Action), Actions: []chain.Action{}, Extensions: []chain.TransactionExtension{}}, 2
	case "acts":
		x, tail = chain.Transaction{ContextFreeActions: []chain.Action{}, Actions: x.([]chain.Action), Extensions: []chain.TransactionExtension{}}, 1
	case "exts":
		x = chain.Transaction{ContextFreeActions: []chain.Action{}, Actions: []chain.Action{}, Extensions: x.([]chain.TransactionExtension)}
	}
	var w bytes.Buffer
	if err := mkEnc(a.Path, &w).Encode(x); err != nil {
		return Obs{"out": "err"}
	}
	o := hugeObs(w.Bytes(), eb, a.N, tail)
	p := reflect.New(reflect.TypeOf(x))
	r := bytes.NewReader(w.Bytes())
	err := mkDec(a.Path, r).Decode(p.Interface())
	o["dec"], o["same"], o["left"] = outOf(err), reflect.DeepEqual(p.Elem().Interface(), x), r.Len()
	q := reflect.New(reflect.TypeOf(x))
	o["cut"] = outOf(mkDec(a.Path, bytes.NewReader(w.Bytes()[:w.Len()-1])).Decode(q.Interface()))
	s.points(a, w.Bytes(), o, func(w io.Writer) error { return mkEnc(a.Path, w).Encode(x) }, func(r io.Reader) (error, bool) {
		q := reflect.New(reflect.TypeOf(x))
		err := mkDec(a.Path, r).Decode(q.Interface())
		return err, reflect.DeepEqual(q.Elem().Interface(), x)
	})
	return o
}

// writers failing and readers ending at each of the given points of the bytes of a value, and the whole in chunks
func (s *session) points(a Args, full []byte, o Obs, enc func(io.Writer) error, dec func(io.Reader) (error, bool)) {
	ws, rs := []Obs{}, []Obs{}
	for _, k := range a.Lims {
		if k < 0 {
			k += len(full)
		}
		if k < 0 || k >= len(full) {
			continue
		}
		w := &W{}
		w.arm(k, a.Short, a.Once, a.Er)
		var d io.Writer = w
		if a.Wk != "" {
			d = wFull{w}
		}
		err := enc(d)
		ws = append(ws, Obs{"k": k, "out": outOf(err), "em": errors.Is(err, injected(a.Er)), "after": w.after, "n": len(w.buf), "pre": bytes.HasPrefix(full, w.buf)})
		r := &Rd{d: append([]byte{}, full[:k]...), en: a.En, ch: a.Ch, with: a.With, kind: a.Rk, err: a.Er}
		err, _ = dec(r.src())
		rs = append(rs, Obs{"k": k, "out": outOf(err), "ek": r.errKind(err)})
	}
	r := &Rd{d: append([]byte{}, full...), en: a.En, ch: a.Ch, with: a.With, kind: a.Rk, err: a.Er}
	err, same := dec(r.src())
	o["ws"], o["rs"], o["all"] = ws, rs, Obs{"out": outOf(err), "same": same, "left": len(full) - r.used()}
}

func hugeObs(w, eb []byte, n, tail int) Obs {
	h := len(w) - n*len(eb) - tail
	o := Obs{"out": "ok", "eb": BS(eb), "h": BS{}, "tl": BS{}, "rest": false}
	if h >= 0 && h < 64 {
		o["h"], o["tl"] = BS(append([]byte{}, w[:h]...)), BS(append([]byte{}, w[len(w)-tail:]...))
		o["rest"] = bytes.Equal(w[h:len(w)-tail], bytes.Repeat(eb, n))
	}
	return o
}

// the same through a definition: a list of n equal values of a built-in type
func (s *session) ahuge(a Args) Obs {
	v := toGo(a.V, a.Ni)
	in := make([]interface{}, a.N)
	for i := range in {
		in[i] = v
	}
	def := &chain.Abi{}
	var b, w bytes.Buffer
	if err := def.Encode(&b, str(a.Nm), v); err != nil {
		return Obs{"out": "err"}
	}
	if err := def.Encode(&w, str(a.Nm)+"[]", in); err != nil {
		return Obs{"out": "err"}
	}
	eb := append([]byte{}, b.Bytes()...)
	o := hugeObs(w.Bytes(), eb, a.N, 0)
	r := bytes.NewReader(w.Bytes())
	out, err := def.Decode(r, str(a.Nm)+"[]")
	one, err1 := def.Decode(bytes.NewReader(eb), str(a.Nm))
	list, isList := out.([]interface{})
	same := err1 == nil && isList && len(list) == a.N
	for i := 0; same && i < a.N; i++ {
		same = reflect.DeepEqual(list[i], one)
	}
	o["dec"], o["same"], o["left"] = outOf(err), same, r.Len()
	_, err = def.Decode(bytes.NewReader(w.Bytes()[:w.Len()-1]), str(a.Nm)+"[]")
	o["cut"] = outOf(err)
	s.points(a, w.Bytes(), o, func(w io.Writer) error { return def.Encode(w, str(a.Nm)+"[]", in) }, func(r io.Reader) (error, bool) {
		q, err := def.Decode(r, str(a.Nm)+"[]")
		return err, reflect.DeepEqual(q, out)
	})
	return o
}
