package main

import (
	"encoding"
	"encoding/binary"
	"encoding/json"
	"errors"
	"fmt"
	"math"
	"math/big"
	"reflect"
	"time"
	_ "time/tzdata"

	"github.com/greymass/go-eosio/pkg/chain"
)

type textState struct{}

var errNotString = errors.New("JSON form is not a string")

// the text of the variable behind p
func printBy(p reflect.Value, form string) (string, error) {
	switch form {
	case "str":
		if x, ok := p.Interface().(fmt.Stringer); ok {
			return x.String(), nil
		}
		switch x := p.Interface().(type) {
		case *chain.Bytes:
			return x.Hex(), nil
		case *chain.Blob:
			return x.Base64(), nil
		}
	case "ctor": // built by its constructor first
		switch x := p.Interface().(type) {
		case *chain.Asset:
			p = reflect.ValueOf(chain.NewAsset(x.Value, x.Symbol))
		case *chain.PublicKey:
			p = reflect.ValueOf(chain.NewPublicKey(x.Type, x.Data))
		case *chain.Signature:
			p = reflect.ValueOf(chain.NewSignature(x.Type, x.Data))
		}
		return printBy(p, "str")
	case "json", "jsonp":
		v := p.Interface()
		if form == "json" {
			v = p.Elem().Interface()
		}
		b, err := json.Marshal(v)
		if err != nil {
			return "", err
		}
		var s string
		if json.Unmarshal(b, &s) != nil {
			return "", errNotString
		}
		return s, nil
	case "textv":
		if m, ok := p.Elem().Interface().(encoding.TextMarshaler); ok {
			var err error
			b := fresh(func() (b []byte) {
				b, err = m.MarshalText()
				return
			})
			return string(b), err
		}
	}
	var err error
	b := fresh(func() (b []byte) {
		b, err = p.Interface().(encoding.TextMarshaler).MarshalText()
		return
	})
	return string(b), err
}

func deref(p interface{}, err error) (interface{}, error) {
	rv := reflect.ValueOf(p)
	if err != nil || rv.Kind() != reflect.Ptr {
		return p, err
	}
	return rv.Elem().Interface(), nil
}

// constructors from strings
var fromString = map[string]func(string) (interface{}, error){
	"name":   func(s string) (interface{}, error) { return chain.NewName(s), nil },
	"symbol": func(s string) (interface{}, error) { return chain.NewSymbolFromString(s) },
	"asset": func(s string) (interface{}, error) {
		p, err := chain.NewAssetFromString(s)
		return deref(p, err)
	},
	"uint128": func(s string) (interface{}, error) { return chain.NewUint128FromString(s) },
	"int128":  func(s string) (interface{}, error) { return chain.NewInt128FromString(s) },
	"tp":      func(s string) (interface{}, error) { return chain.NewTimePointFromString(s) },
	"tps":     func(s string) (interface{}, error) { return chain.NewTimePointSecFromString(s) },
	"bts":     func(s string) (interface{}, error) { return chain.NewBlockTimestampFromString(s) },
	"pubkey": func(s string) (interface{}, error) {
		p, err := chain.NewPublicKeyFromString(s)
		return deref(p, err)
	},
	"sig": func(s string) (interface{}, error) {
		p, err := chain.NewSignatureString(s)
		return deref(p, err)
	},
}

// a buffer holding d with recognisable bytes behind it
func withTail(d []byte) []byte {
	buf := make([]byte, len(d)+24)
	copy(buf, d)
	for i := len(d); i < len(buf); i++ {
		buf[i] = 0xa5
	}
	return buf
}

// d as it is now, or something else if the bytes behind it changed
func tailKept(buf []byte, n int) BS {
	for _, c := range buf[n:] {
		if c != 0xa5 {
			return BS(append([]byte{}, buf...))
		}
	}
	return BS(append([]byte{}, buf[:n]...))
}

var curZone = "?"

func setZone(name string) {
	if name == curZone {
		return
	}
	curZone = name
	switch name {
	case "", "UTC":
		time.Local = time.UTC
	case "plus":
		time.Local = time.FixedZone("plus", 14*3600)
	case "minus":
		time.Local = time.FixedZone("minus", -12*3600-1800)
	default:
		l, err := time.LoadLocation(name)
		if err != nil {
			panic("driver: no zone " + name)
		}
		time.Local = l
	}
}

func (s *session) execText(a Args) (ret Obs) {
	switch a.Op {
	case "tz":
		setZone(a.Form)
		return Obs{"out": "ok"}
	case "print":
		p := s.value(a)
		str, err := printBy(p, a.Form)
		return Obs{"out": outOf(err), "s": BS(str), "va": getVal(p.Elem(), a.T)}
	case "parse":
		text := toBytes(a.S)
		buf := s.input(a.S)
		p := reflect.New(a.T.build())
		setVal(p.Elem(), a.T, a.V)
		var err error
		switch f := fromString[a.T.T]; {
		case a.Form == "new" && f != nil:
			var x interface{}
			if x, err = f(string(text)); err == nil { // its owner changes it, and the text is parsed again
				q := reflect.New(reflect.TypeOf(x))
				q.Elem().Set(reflect.ValueOf(x))
				spoil(q, 0)
				x, err = f(string(text))
			}
			if err == nil {
				p.Elem().Set(reflect.ValueOf(x))
			}
		case a.Form == "must" && (a.T.T == "asset" || a.T.T == "name"): // panics if the text is refused
			func() {
				defer func() {
					if r := recover(); r != nil {
						err = fmt.Errorf("%v", r)
					}
				}()
				if a.T.T == "asset" {
					p.Elem().Set(reflect.ValueOf(*chain.A(string(text))))
				} else {
					p.Elem().Set(reflect.ValueOf(chain.N(string(text))))
				}
			}()
		case a.Form == "json":
			doc, _ := json.Marshal(string(text))
			err = json.Unmarshal(doc, p.Interface())
		default:
			err = p.Interface().(encoding.TextUnmarshaler).UnmarshalText(buf[:len(text)])
		}
		v := getVal(p.Elem(), a.T)
		in := tailKept(buf, len(text))
		// the value must not live in the text's buffer
		for i := range buf {
			if s.pool == nil {
				buf[i] ^= 0xff
			}
		}
		if w := getVal(p.Elem(), a.T); !reflect.DeepEqual(v, w) {
			in = nil
		}
		return Obs{"out": outOf(err), "v": v, "in": in}
	case "jprint":
		p := s.value(a)
		var b []byte
		var err error
		switch a.Form {
		case "ptr":
			b, err = json.Marshal(p.Interface())
		case "method":
			b = fresh(func() (b []byte) {
				b, err = p.Interface().(json.Marshaler).MarshalJSON()
				return
			})
		default:
			b, err = json.Marshal(p.Elem().Interface())
		}
		return Obs{"out": outOf(err), "s": BS(b)}
	case "jparse":
		text := toBytes(a.S)
		buf := s.input(a.S)
		p := reflect.New(a.T.build())
		setVal(p.Elem(), a.T, a.V)
		var err error
		if a.Form == "method" {
			err = p.Interface().(json.Unmarshaler).UnmarshalJSON(buf[:len(text)])
		} else {
			err = json.Unmarshal(buf[:len(text)], p.Interface())
		}
		return Obs{"out": outOf(err), "v": getVal(p.Elem(), a.T), "in": tailKept(buf, len(text))}
	case "mksym":
		v, err := chain.NewSymbol(uint8(a.N), string(toBytes(a.S)))
		return Obs{"out": outOf(err), "v": numOf(new(big.Int).SetUint64(uint64(v)))}
	case "symparts":
		v := chain.Symbol(mag(a.V.B).Uint64())
		return Obs{"out": "ok", "dec": v.Decimals(), "code": numOf(new(big.Int).SetUint64(uint64(v.Code()))),
			"prec": numOf(big.NewInt(int64(v.Precision()))), "name": BS(v.Name())}
	case "float":
		p := s.value(a)
		f := p.Interface().(*chain.Asset).FloatValue()
		return Obs{"out": "ok", "f": numOf(new(big.Int).SetUint64(math.Float64bits(f))), "va": getVal(p.Elem(), a.T)}
	case "wide":
		x := signed(a.V)
		o := Obs{"out": "ok"}
		p := reflect.New(a.T.build())
		if a.Form == "over" { // no such number: the constructor panics
			defer func() {
				if recover() != nil {
					ret = Obs{"out": "err"}
				}
			}()
		}
		if a.T.T == "int128" {
			i := chain.NewInt128(x)
			p.Elem().Set(reflect.ValueOf(i))
			i.BigInt().SetInt64(77)
			o["big"] = numOf(i.BigInt())
			o["le"] = BS(fresh(func() []byte { return i.Bytes(binary.LittleEndian) }))
			o["be"] = BS(fresh(func() []byte { return i.Bytes(binary.BigEndian) }))
		} else {
			i := chain.NewUint128(x)
			p.Elem().Set(reflect.ValueOf(i))
			i.BigInt().SetInt64(77)
			o["big"] = numOf(i.BigInt())
			o["le"] = BS(fresh(func() []byte { return i.Bytes(binary.LittleEndian) }))
			o["be"] = BS(fresh(func() []byte { return i.Bytes(binary.BigEndian) }))
		}
		if x.Cmp(signed(a.V)) != 0 {
			o["big"] = Nil // the argument was changed
		}
		o["v"] = getVal(p.Elem(), a.T)
		return o
	case "time":
		p := reflect.New(a.T.build())
		setVal(p.Elem(), a.T, a.V)
		var tm time.Time
		switch x := p.Elem().Interface().(type) {
		case chain.TimePoint:
			tm = x.Time()
			p.Elem().SetInt(int64(chain.NewTimePoint(tm.In(zone(a.Form)))))
		case chain.TimePointSec:
			tm = x.Time()
			p.Elem().SetUint(uint64(chain.NewTimePointSec(tm.In(zone(a.Form)))))
		case chain.BlockTimestamp:
			tm = x.Time()
			p.Elem().SetUint(uint64(chain.NewBlockTimestamp(tm.In(zone(a.Form)))))
		}
		us := new(big.Int).Mul(big.NewInt(tm.Unix()), big.NewInt(1000000))
		us.Add(us, big.NewInt(int64(tm.Nanosecond()/1000)))
		return Obs{"out": "ok", "us": numOf(us), "v": getVal(p.Elem(), a.T)}
	case "legacy":
		p := reflect.New(a.T.build())
		setVal(p.Elem(), a.T, a.V)
		return Obs{"out": "ok", "s": BS(p.Interface().(*chain.PublicKey).LegacyString(string(toBytes(a.S))))}
	}
	return nil
}

func zone(name string) *time.Location {
	if name == "plus" {
		return time.FixedZone("plus", 14*3600)
	}
	return time.Local
}
