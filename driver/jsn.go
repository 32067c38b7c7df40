package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/big"
	"math/rand"
	"reflect"
	"sort"
	"strings"
)

// JSON documents as trees, see spec/JForm.tla
func jsonTree(b []byte) (VN, error) {
	d := json.NewDecoder(bytes.NewReader(b))
	d.UseNumber()
	t, err := jsonNode(d)
	if err == nil && d.More() {
		err = fmt.Errorf("trailing data")
	}
	return t, err
}

func jsonNode(d *json.Decoder) (VN, error) {
	tok, err := d.Token()
	if err != nil {
		return Nil, err
	}
	switch x := tok.(type) {
	case json.Delim:
		if x == '{' {
			r := VN{K: "jo"}
			for d.More() {
				k, err := d.Token()
				if err != nil {
					return Nil, err
				}
				v, err := jsonNode(d)
				if err != nil {
					return Nil, err
				}
				r.E = append(r.E, VN{K: "f", B: ints([]byte(k.(string))), E: []VN{v}})
			}
			_, err = d.Token()
			sort.SliceStable(r.E, func(i, j int) bool { return str(r.E[i].B) < str(r.E[j].B) })
			return r, err
		}
		r := VN{K: "ja"}
		for d.More() {
			v, err := jsonNode(d)
			if err != nil {
				return Nil, err
			}
			r.E = append(r.E, v)
		}
		_, err = d.Token()
		return r, err
	case string:
		return VN{K: "js", B: ints([]byte(x))}, nil
	case bool:
		n := 0
		if x {
			n = 1
		}
		return VN{K: "jb", B: []int{n}}, nil
	case nil:
		return VN{K: "jnull"}, nil
	case json.Number:
		n, ok := new(big.Int).SetString(string(x), 10)
		if !ok {
			return VN{K: "jf", B: ints([]byte(x))}, nil
		}
		return VN{K: "jn", E: []VN{numOf(n)}}, nil
	}
	return Nil, fmt.Errorf("token %T", tok)
}

// render a tree with members in random order, random whitespace and escapes
func render(t VN, r *rand.Rand) string {
	ws := func() string {
		if r.Intn(3) > 0 {
			return ""
		}
		return []string{" ", "\n", "\t", "\r\n", "   "}[r.Intn(5)]
	}
	str := func(b []int) string {
		var s strings.Builder
		s.WriteByte('"')
		for _, c := range string(toBytes(b)) {
			switch {
			case c == '"' || c == '\\':
				s.WriteByte('\\')
				s.WriteRune(c)
			case c < 32 || (r.Intn(8) == 0 && c > 127 && c < 0x10000):
				fmt.Fprintf(&s, "\\u%04x", c)
			default:
				s.WriteRune(c)
			}
		}
		s.WriteByte('"')
		return s.String()
	}
	switch t.K {
	case "jo":
		ix := r.Perm(len(t.E))
		p := []string{}
		for _, i := range ix {
			p = append(p, ws()+str(t.E[i].B)+ws()+":"+ws()+render(t.E[i].E[0], r)+ws())
		}
		return "{" + ws() + strings.Join(p, ",") + "}"
	case "ja":
		p := []string{}
		for _, e := range t.E {
			p = append(p, ws()+render(e, r)+ws())
		}
		return "[" + ws() + strings.Join(p, ",") + "]"
	case "js":
		return str(t.B)
	case "jb":
		return []string{"false", "true"}[t.B[0]]
	case "jn":
		return signed(t.E[0]).String()
	case "jf":
		return string(toBytes(t.B))
	}
	return "null"
}

func member(t VN) VN {
	if len(t.E) != 1 {
		return VN{K: "missing"}
	}
	if t.K == "jo" {
		return t.E[0].E[0]
	}
	return t.E[0]
}

func (s *session) execJson(a Args) Obs {
	switch a.Op {
	case "json":
		rt := a.T.build()
		p := s.value(a)
		fld := reflect.New(reflect.StructOf([]reflect.StructField{{Name: "X", Type: rt, Tag: `json:"x"`}}))
		fld.Elem().Field(0).Set(p.Elem())
		pfld := reflect.New(reflect.StructOf([]reflect.StructField{{Name: "X", Type: p.Type(), Tag: `json:"x"`}}))
		pfld.Elem().Field(0).Set(p)
		el := reflect.MakeSlice(reflect.SliceOf(rt), 0, 1)
		el = reflect.Append(el, p.Elem())
		mp := reflect.MakeMap(reflect.MapOf(reflect.TypeOf(""), rt))
		mp.SetMapIndex(reflect.ValueOf("x"), p.Elem())
		ways := []interface{}{p.Elem().Interface(), p.Interface(), fld.Elem().Interface(), fld.Interface(), pfld.Elem().Interface(), el.Interface(), mp.Interface(),
			map[string]interface{}{"x": p.Elem().Interface()}, []interface{}{p.Interface()}}
		if rt.Kind() == reflect.Uint8 { // a []uint8 is a byte string
			ways[5] = ways[6]
		}
		o := Obs{"out": "ok"}
		var js []VN
		for i, w := range ways {
			b, err := json.Marshal(w)
			if err != nil {
				return Obs{"out": "err", "msg": err.Error(), "js": js, "back": []Obs{}, "va": Nil}
			}
			t, err := jsonTree(b)
			if err != nil {
				return Obs{"out": "err", "msg": err.Error(), "js": js, "back": []Obs{}, "va": Nil}
			}
			if i >= 2 {
				t = member(t)
			}
			js = append(js, t)
		}
		o["js"] = js
		r := rand.New(rand.NewSource(int64(a.N)))
		back := []Obs{}
		for i := 0; i < 3; i++ {
			q := reflect.New(rt)
			doc := render(js[0], r)
			in := []byte(doc)
			var err error
			var got VN
			switch i {
			case 0, 1:
				err = json.Unmarshal(in, q.Interface())
				for k := range in {
					in[k] = 'x'
				}
				got = getVal(q.Elem(), a.T)
			case 2:
				f := reflect.New(fld.Type().Elem())
				err = json.NewDecoder(strings.NewReader(`{"x":` + doc + `}`)).Decode(f.Interface())
				got = getVal(f.Elem().Field(0), a.T)
			}
			back = append(back, Obs{"out": outOf(err), "v": got})
		}
		o["back"] = back
		o["va"] = getVal(p.Elem(), a.T)
		return o
	case "ajson":
		b, err := json.Marshal(s.x.objs[a.Sl])
		o := Obs{"out": outOf(err), "j": Nil}
		if err == nil {
			o["j"], err = jsonTree(b)
			if err != nil {
				o["out"] = "err"
			}
		}
		return o
	}
	return nil
}
