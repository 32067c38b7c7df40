// Conversion between the specification's type/value nodes and Go values.
package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/big"
	"reflect"
	"sort"
	"strconv"
	"sync"
	"unsafe"

	"github.com/greymass/go-eosio/pkg/abi"
	"github.com/greymass/go-eosio/pkg/chain"
)

type TN struct {
	T string `json:"t"`
	N int    `json:"n"`
	E []TN   `json:"e"`
	G string `json:"g"`
	// for structs: which generated type stands for it (0: none)
	Gen int `json:"gen"`
}

// struct types with generated methods, see lib/gen_codegen.py
var genTypes = map[int]reflect.Type{}

type VN struct {
	K string
	B []int
	E []VN
}

func (v VN) MarshalJSON() ([]byte, error) {
	var b bytes.Buffer
	v.write(&b)
	return b.Bytes(), nil
}

func (v *VN) write(b *bytes.Buffer) {
	b.WriteString(`{"k":`)
	k, _ := json.Marshal(v.K)
	b.Write(k)
	b.WriteString(`,"b":`)
	writeInts(b, v.B)
	b.WriteString(`,"e":[`)
	for i := range v.E {
		if i > 0 {
			b.WriteByte(',')
		}
		v.E[i].write(b)
	}
	b.WriteString(`]}`)
}

func (v *VN) UnmarshalJSON(b []byte) error {
	var x struct {
		K string `json:"k"`
		B []int  `json:"b"`
		E []VN   `json:"e"`
	}
	if err := json.Unmarshal(b, &x); err != nil {
		return err
	}
	v.K, v.B, v.E = x.K, x.B, x.E
	return nil
}

func writeInts(b *bytes.Buffer, x []int) {
	b.WriteByte('[')
	for i, n := range x {
		if i > 0 {
			b.WriteByte(',')
		}
		b.WriteString(strconv.Itoa(n))
	}
	b.WriteByte(']')
}

// byte strings are logged as arrays of numbers
type BS []byte

func (s BS) MarshalJSON() ([]byte, error) {
	var b bytes.Buffer
	writeInts(&b, ints(s))
	return b.Bytes(), nil
}

func ints(s []byte) []int {
	r := make([]int, len(s))
	for i, c := range s {
		r[i] = int(c)
	}
	return r
}

func toBytes(x []int) []byte {
	r := make([]byte, len(x))
	for i, c := range x {
		r[i] = byte(c)
	}
	return r
}

var Nil = VN{K: "nil"}

// types the driver itself contributes

type NU64 uint64
type NU32 uint32
type NI64 int64
type NI32 int32

// a user type with its own encoding: three little-endian bytes
type U24 uint32

func (u U24) MarshalABI(e *abi.Encoder) error {
	return e.WriteBytes([]byte{byte(u), byte(u >> 8), byte(u >> 16)})
}

func (u *U24) UnmarshalABI(d *abi.Decoder) error {
	_, b, err := d.ReadBytes(3)
	if err == nil {
		*u = U24(b[0]) | U24(b[1])<<8 | U24(b[2])<<16
	}
	return err
}

// recursive types
type List struct {
	V    uint8
	Next *List `eosio:"optional"`
}
type Tree struct {
	V    uint16
	Kids []Tree
}
type RVar struct {
	C RVarAlt `eosio:"variant"`
}
type RVarAlt struct {
	Leaf *uint8
	One  *RVar
	Many *[]RVar
}
type RMap struct {
	M map[uint8]RMap
}

// an embedded struct, named slices, arrays and maps
type Emb struct {
	A uint8
	B string
}
type U16s []uint16
type U32x2 [2]uint32
type StrMap map[string]uint8
type U24s []U24
type Nest struct {
	Emb
	C U16s
	D U32x2
	M StrMap
	O *Emb `eosio:"optional"`
	P []*Emb
	U U24
	S []U24s
}

// two types of the same name and number of fields
func twinA() reflect.Type {
	type Twin struct {
		A uint8
		B *uint16 `eosio:"optional"`
		C string
	}
	return reflect.TypeOf(Twin{})
}

func twinB() reflect.Type {
	type Twin struct {
		A *uint16 `eosio:"optional"`
		B uint8
		C []uint8
	}
	return reflect.TypeOf(Twin{})
}

var leaf = map[string]reflect.Type{
	"twina": twinA(), "twinb": twinB(),
	"list": reflect.TypeOf(List{}), "tree": reflect.TypeOf(Tree{}), "rvar": reflect.TypeOf(RVar{}), "rmap": reflect.TypeOf(RMap{}),
	"emb": reflect.TypeOf(Emb{}), "nest": reflect.TypeOf(Nest{}), "rawb": reflect.TypeOf([]byte{}),
	"bool": reflect.TypeOf(false), "str": reflect.TypeOf(""), "bytes": reflect.TypeOf([]byte{}),
	"u8": reflect.TypeOf(uint8(0)), "u16": reflect.TypeOf(uint16(0)), "u32": reflect.TypeOf(uint32(0)), "u64": reflect.TypeOf(uint64(0)),
	"i8": reflect.TypeOf(int8(0)), "i16": reflect.TypeOf(int16(0)), "i32": reflect.TypeOf(int32(0)), "i64": reflect.TypeOf(int64(0)),
	"f32": reflect.TypeOf(float32(0)), "f64": reflect.TypeOf(float64(0)),
	"vu": reflect.TypeOf(uint(0)), "vi": reflect.TypeOf(int(0)),
	"nu64": reflect.TypeOf(NU64(0)), "nu32": reflect.TypeOf(NU32(0)), "ni64": reflect.TypeOf(NI64(0)), "ni32": reflect.TypeOf(NI32(0)),
	"u24": reflect.TypeOf(U24(0)), "u16x": reflect.TypeOf(uint16(0)), "namex": reflect.TypeOf(chain.Name(0)),
	"name": reflect.TypeOf(chain.Name(0)), "symbol": reflect.TypeOf(chain.Symbol(0)), "symcode": reflect.TypeOf(chain.SymbolCode(0)),
	"asset": reflect.TypeOf(chain.Asset{}), "extasset": reflect.TypeOf(chain.ExtendedAsset{}),
	"uint64": reflect.TypeOf(chain.Uint64(0)), "uint128": reflect.TypeOf(chain.Uint128{}), "int128": reflect.TypeOf(chain.Int128{}),
	"float128": reflect.TypeOf(chain.Float128{}), "blocknum": reflect.TypeOf(chain.BlockNum(0)),
	"tp": reflect.TypeOf(chain.TimePoint(0)), "tps": reflect.TypeOf(chain.TimePointSec(0)), "bts": reflect.TypeOf(chain.BlockTimestamp(0)),
	"c160": reflect.TypeOf(chain.Checksum160{}), "c256": reflect.TypeOf(chain.Checksum256{}), "c512": reflect.TypeOf(chain.Checksum512{}),
	"cbytes": reflect.TypeOf(chain.Bytes{}), "blob": reflect.TypeOf(chain.Blob{}),
	"perm": reflect.TypeOf(chain.PermissionLevel{}), "action": reflect.TypeOf(chain.Action{}),
	"txhdr": reflect.TypeOf(chain.TransactionHeader{}), "txext": reflect.TypeOf(chain.TransactionExtension{}), "tx": reflect.TypeOf(chain.Transaction{}),
	"pubkey": reflect.TypeOf(chain.PublicKey{}), "sig": reflect.TypeOf(chain.Signature{}),
	"abi": reflect.TypeOf(chain.Abi{}), "abitype": reflect.TypeOf(chain.AbiType{}), "abifield": reflect.TypeOf(chain.AbiField{}),
	"abiclause": reflect.TypeOf(chain.AbiClause{}), "abistruct": reflect.TypeOf(chain.AbiStruct{}), "abiaction": reflect.TypeOf(chain.AbiAction{}),
	"abitable": reflect.TypeOf(chain.AbiTable{}), "abiext": reflect.TypeOf(chain.AbiExtension{}), "abierr": reflect.TypeOf(chain.AbiErrorMessage{}),
	"abivariant": reflect.TypeOf(chain.AbiVariant{}),
}

func ty(t string) TN        { return TN{T: t} }
func slc(t TN) TN           { return TN{T: "slice", E: []TN{t}} }
func tag(t TN, g string) TN { t.G = g; return t }
func ptrTo(t TN) TN         { return TN{T: "ptr", E: []TN{t}} }
func structOf(f ...TN) []TN { return f }

// chain objects that are plain field sequences, in wire order = Go field order
var chainFields = map[string][]TN{
	"list":  structOf(ty("u8"), tag(ptrTo(ty("list")), "optional")),
	"tree":  structOf(ty("u16"), slc(ty("tree"))),
	"rvar":  structOf(tag(TN{T: "struct", E: structOf(ptrTo(ty("u8")), ptrTo(ty("rvar")), ptrTo(slc(ty("rvar"))))}, "variant")),
	"rmap":  structOf(TN{T: "map", E: structOf(ty("u8"), ty("rmap"))}),
	"emb":   structOf(ty("u8"), ty("str")),
	"twina": structOf(ty("u8"), tag(ptrTo(ty("u16")), "optional"), ty("str")),
	"twinb": structOf(tag(ptrTo(ty("u16")), "optional"), ty("u8"), ty("bytes")),
	"nest": structOf(ty("emb"), slc(ty("u16")), TN{T: "array", N: 2, E: structOf(ty("u32"))}, TN{T: "map", E: structOf(ty("str"), ty("u8"))},
		tag(ptrTo(ty("emb")), "optional"), slc(ptrTo(ty("emb"))), ty("u24"), slc(slc(ty("u24")))),
	"perm":       structOf(ty("name"), ty("name")),
	"action":     structOf(ty("name"), ty("name"), slc(ty("perm")), ty("cbytes")),
	"txhdr":      structOf(ty("tps"), ty("u16"), ty("u32"), ty("vu"), ty("u8"), ty("vu")),
	"txext":      structOf(ty("u16"), ty("cbytes")),
	"tx":         structOf(ty("txhdr"), slc(ty("action")), slc(ty("action")), slc(ty("txext"))),
	"asset":      structOf(ty("i64"), ty("symbol")),
	"extasset":   structOf(ty("asset"), ty("name")),
	"abitype":    structOf(ty("str"), ty("str")),
	"abifield":   structOf(ty("str"), ty("str")),
	"abiclause":  structOf(ty("str"), ty("str")),
	"abistruct":  structOf(ty("str"), ty("str"), slc(ty("abifield"))),
	"abiaction":  structOf(ty("name"), ty("str"), ty("str")),
	"abitable":   structOf(ty("name"), ty("str"), slc(ty("str")), slc(ty("str")), ty("str")),
	"abiext":     structOf(ty("u16"), ty("cbytes")),
	"abierr":     structOf(ty("uint64"), ty("str")),
	"abivariant": structOf(ty("str"), slc(ty("str"))),
	"abi": structOf(ty("str"), slc(ty("abitype")), slc(ty("abistruct")), slc(ty("abiaction")), slc(ty("abitable")),
		slc(ty("abiclause")), slc(ty("abierr")), slc(ptrTo(ty("abiext"))), tag(slc(ty("abivariant")), "extension")),
}

// the Go fields holding them
var chainNames = map[string][]string{
	"list":       {"V", "Next"},
	"tree":       {"V", "Kids"},
	"rvar":       {"C"},
	"rmap":       {"M"},
	"emb":        {"A", "B"},
	"twina":      {"A", "B", "C"},
	"twinb":      {"A", "B", "C"},
	"nest":       {"Emb", "C", "D", "M", "O", "P", "U", "S"},
	"perm":       {"Actor", "Permission"},
	"action":     {"Account", "Name", "Authorization", "Data"},
	"txhdr":      {"Expiration", "RefBlockNum", "RefBlockPrefix", "MaxNetUsageWords", "MaxCpuUsageMs", "DelaySec"},
	"txext":      {"Type", "Data"},
	"tx":         {"TransactionHeader", "ContextFreeActions", "Actions", "Extensions"},
	"asset":      {"Value", "Symbol"},
	"extasset":   {"Quantity", "Contract"},
	"abitype":    {"NewTypeName", "Type"},
	"abifield":   {"Name", "Type"},
	"abiclause":  {"Id", "Body"},
	"abistruct":  {"Name", "Base", "Fields"},
	"abiaction":  {"Name", "Type", "RicardianContract"},
	"abitable":   {"Name", "IndexType", "KeyNames", "KeyTypes", "Type"},
	"abiext":     {"Type", "Data"},
	"abierr":     {"Code", "Message"},
	"abivariant": {"Name", "Types"},
	"abi":        {"Version", "Types", "Structs", "Actions", "Tables", "RicardianClauses", "ErrorMessages", "Extensions", "Variants"},
	"uint128":    {"Lo", "Hi"}, "int128": {"Lo", "Hi"}, "float128": {"Data"},
	"pubkey": {"Type", "Data"}, "sig": {"Type", "Data"},
}

var fieldIndex = map[string][]int{}

func init() {
	for k, ns := range chainNames {
		for _, n := range ns {
			f, ok := leaf[k].FieldByName(n)
			if !ok || len(f.Index) != 1 {
				panic("driver: " + k + " has no field " + n)
			}
			fieldIndex[k] = append(fieldIndex[k], f.Index[0])
		}
	}
}

func fieldOf(rv reflect.Value, t string, i int) reflect.Value { return rv.Field(fieldIndex[t][i]) }

func (t TN) build() reflect.Type {
	switch t.T {
	case "ptr":
		return reflect.PtrTo(t.E[0].build())
	case "any":
		return reflect.TypeOf((*interface{})(nil)).Elem()
	case "slice":
		return reflect.SliceOf(t.E[0].build())
	case "array":
		return reflect.ArrayOf(t.N, t.E[0].build())
	case "map":
		return reflect.MapOf(t.E[0].build(), t.E[1].build())
	case "struct":
		if t.Gen > 0 {
			rt, ok := genTypes[t.Gen]
			if !ok {
				panic("driver: no such generated type")
			}
			return rt
		}
		fs := make([]reflect.StructField, len(t.E))
		for i, f := range t.E {
			fs[i] = reflect.StructField{Name: "F" + strconv.Itoa(i), Type: f.build()}
			tg := ""
			if f.G != "" {
				tg = `eosio:"` + f.G + `"`
			}
			fs[i].Tag = reflect.StructTag(tg + ` json:"f` + strconv.Itoa(i) + `"`)
		}
		return reflect.StructOf(fs)
	}
	rt, ok := leaf[t.T]
	if !ok {
		panic("driver: unknown type " + t.T)
	}
	return rt
}

func mag(b []int) *big.Int { return new(big.Int).SetBytes(toBytes(b)) }

func numOf(x *big.Int) VN {
	k := "n"
	if x.Sign() < 0 {
		k = "m"
	}
	return VN{K: k, B: ints(new(big.Int).Abs(x).Bytes())}
}

func signed(v VN) *big.Int {
	x := mag(v.B)
	if v.K == "m" {
		x.Neg(x)
	}
	return x
}

var two64 = new(big.Int).Lsh(big.NewInt(1), 64)
var two128 = new(big.Int).Lsh(big.NewInt(1), 128)

// Byte strings handed to the code have room behind them that belongs to someone else.
var rooms struct {
	sync.Mutex
	l [][]byte
}

func roomy(b []byte) []byte {
	c := make([]byte, len(b)+20)
	copy(c, b)
	for i := len(b); i < len(c); i++ {
		c[i] = 0xa5
	}
	rooms.Lock()
	rooms.l = append(rooms.l, c[len(b):])
	rooms.Unlock()
	return c[:len(b)]
}

// whether that room is still untouched; forgets about it
func roomsKept() bool {
	rooms.Lock()
	defer rooms.Unlock()
	kept := true
	for _, l := range rooms.l {
		for _, c := range l {
			kept = kept && c == 0xa5
		}
	}
	rooms.l = nil
	return kept
}

// events that only read the values they are given
var readers = map[string]bool{"enc": true, "faults": true, "aenc": true, "afaults": true, "print": true, "legacy": true}

// rv must be settable
func setVal(rv reflect.Value, t TN, v VN) {
	if v.K == "nil" {
		rv.Set(reflect.Zero(rv.Type()))
		return
	}
	if t.T == "ptr" {
		rv.Set(reflect.New(rv.Type().Elem()))
		setVal(rv.Elem(), tag(t.E[0], t.G), v)
		return
	}
	if t.G == "variant" && t.T == "struct" {
		rv.Set(reflect.Zero(rv.Type()))
		for i, ix := range v.B {
			setVal(rv.Field(ix), t.E[ix], v.E[i])
		}
		return
	}
	if fs, ok := chainFields[t.T]; ok {
		for i, f := range fs {
			if f.T != "array" && f.T != "struct" {
				f.N = t.N
			}
			setVal(fieldOf(rv, t.T, i), f, v.E[i])
		}
		return
	}
	// nothing in it: nil, if the type node asks for that
	if t.N == 1 && len(v.B) == 0 && len(v.E) == 0 {
		switch t.T {
		case "bytes", "cbytes", "blob", "slice", "map":
			rv.Set(reflect.Zero(rv.Type()))
			return
		}
	}
	switch t.T {
	case "any":
		x := reflect.New(t.E[0].build()).Elem()
		setVal(x, t.E[0], v)
		rv.Set(x)
	case "bool":
		rv.SetBool(len(v.B) > 0)
	case "str":
		rv.SetString(string(toBytes(v.B)))
	case "bytes", "cbytes", "blob", "rawb":
		rv.SetBytes(roomy(toBytes(v.B)))
	case "c160", "c256", "c512":
		reflect.Copy(rv, reflect.ValueOf(toBytes(v.B)))
	case "float128":
		reflect.Copy(fieldOf(rv, t.T, 0), reflect.ValueOf(toBytes(v.B)))
	case "f32":
		*(*uint32)(unsafe.Pointer(rv.UnsafeAddr())) = uint32(mag(v.B).Uint64())
	case "f64":
		*(*uint64)(unsafe.Pointer(rv.UnsafeAddr())) = mag(v.B).Uint64()
	case "uint128", "int128":
		x := signed(v)
		if x.Sign() < 0 {
			x.Add(x, two128)
		}
		lo := new(big.Int).Mod(x, two64)
		hi := new(big.Int).Rsh(x, 64)
		fieldOf(rv, t.T, 0).SetUint(lo.Uint64())
		fieldOf(rv, t.T, 1).SetUint(hi.Uint64())
	case "pubkey", "sig":
		fieldOf(rv, t.T, 0).SetUint(uint64(v.B[0]))
		fieldOf(rv, t.T, 1).SetBytes(roomy(toBytes(v.B[1:])))
	case "slice":
		rv.Set(reflect.MakeSlice(rv.Type(), len(v.E), len(v.E)))
		for i := range v.E {
			setVal(rv.Index(i), t.E[0], v.E[i])
		}
	case "array":
		for i := range v.E {
			setVal(rv.Index(i), t.E[0], v.E[i])
		}
	case "map":
		rv.Set(reflect.MakeMap(rv.Type()))
		for _, p := range v.E {
			k := reflect.New(rv.Type().Key()).Elem()
			setVal(k, t.E[0], p.E[0])
			x := reflect.New(rv.Type().Elem()).Elem()
			setVal(x, t.E[1], p.E[1])
			rv.SetMapIndex(k, x)
		}
	case "struct":
		for i, f := range t.E {
			setVal(rv.Field(i), f, v.E[i])
		}
	default:
		switch rv.Kind() {
		case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
			rv.SetInt(signed(v).Int64())
		default:
			rv.SetUint(mag(v.B).Uint64())
		}
	}
}

func addressable(rv reflect.Value) reflect.Value {
	if rv.CanAddr() {
		return rv
	}
	c := reflect.New(rv.Type()).Elem()
	c.Set(rv)
	return c
}

func getVal(rv reflect.Value, t TN) VN {
	if t.T == "any" {
		if rv.IsNil() {
			return Nil
		}
		x := reflect.New(t.E[0].build()).Elem()
		if rv.Elem().Type() != x.Type() {
			return VN{K: "other"}
		}
		x.Set(rv.Elem())
		return getVal(x, t.E[0])
	}
	if t.T == "ptr" {
		if rv.IsNil() {
			return Nil
		}
		return getVal(rv.Elem(), tag(t.E[0], t.G))
	}
	if t.G == "variant" && t.T == "struct" {
		r := VN{K: "v"}
		for i := range t.E {
			if !rv.Field(i).IsNil() {
				r.B = append(r.B, i)
				r.E = append(r.E, getVal(rv.Field(i), t.E[i]))
			}
		}
		return r
	}
	if fs, ok := chainFields[t.T]; ok {
		r := VN{K: "q"}
		for i, f := range fs {
			r.E = append(r.E, getVal(fieldOf(rv, t.T, i), f))
		}
		return r
	}
	switch t.T {
	case "bool":
		if rv.Bool() {
			return VN{K: "n", B: []int{1}}
		}
		return VN{K: "n"}
	case "str":
		return VN{K: "s", B: ints([]byte(rv.String()))}
	case "bytes", "cbytes", "blob", "rawb":
		return VN{K: "s", B: ints(rv.Bytes())}
	case "c160", "c256", "c512":
		b := make([]byte, rv.Len())
		reflect.Copy(reflect.ValueOf(b), rv)
		return VN{K: "s", B: ints(b)}
	case "float128":
		b := make([]byte, 16)
		reflect.Copy(reflect.ValueOf(b), fieldOf(rv, t.T, 0))
		return VN{K: "s", B: ints(b)}
	case "f32":
		rv = addressable(rv)
		return numOf(new(big.Int).SetUint64(uint64(*(*uint32)(unsafe.Pointer(rv.UnsafeAddr())))))
	case "f64":
		rv = addressable(rv)
		return numOf(new(big.Int).SetUint64(*(*uint64)(unsafe.Pointer(rv.UnsafeAddr()))))
	case "uint128", "int128":
		x := new(big.Int).SetUint64(fieldOf(rv, t.T, 1).Uint())
		x.Lsh(x, 64)
		x.Add(x, new(big.Int).SetUint64(fieldOf(rv, t.T, 0).Uint()))
		if t.T == "int128" && fieldOf(rv, t.T, 1).Uint()>>63 == 1 {
			x.Sub(x, two128)
		}
		return numOf(x)
	case "pubkey", "sig":
		return VN{K: "key", B: append([]int{int(fieldOf(rv, t.T, 0).Uint())}, ints(fieldOf(rv, t.T, 1).Bytes())...)}
	case "slice", "array":
		r := VN{K: "q"}
		for i := 0; i < rv.Len(); i++ {
			r.E = append(r.E, getVal(rv.Index(i), t.E[0]))
		}
		return r
	case "map":
		r := VN{K: "q"}
		it := rv.MapRange()
		for it.Next() {
			r.E = append(r.E, VN{K: "q", E: []VN{getVal(it.Key(), t.E[0]), getVal(it.Value(), t.E[1])}})
		}
		sort.Slice(r.E, func(i, j int) bool { return fmt.Sprint(r.E[i].E[0]) < fmt.Sprint(r.E[j].E[0]) })
		return r
	case "struct":
		r := VN{K: "q"}
		for i, f := range t.E {
			r.E = append(r.E, getVal(rv.Field(i), f))
		}
		return r
	}
	switch rv.Kind() {
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return numOf(big.NewInt(rv.Int()))
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return numOf(new(big.Int).SetUint64(rv.Uint()))
	}
	panic(fmt.Sprintf("driver: cannot read %v as %s", rv.Type(), t.T))
}
