package main

import (
	"encoding/json"
	"errors"
	"fmt"
	"math"
	"math/big"
	"net"
	"net/netip"
	"reflect"
	"strconv"
	"strings"
	"time"
)

// Types with methods, in every combination of receiver and kind that selects a
// different codec. Suffix: VM/PM = MarshalJSON on value/pointer, VT/PT =
// MarshalText, the same for UJ/UT = UnmarshalJSON/UnmarshalText on the pointer.

type StructVM struct{ N int }
type StructPM struct{ N int }
type StructVT struct{ N int }
type StructPT struct{ N int }
type StructVMVT struct{ N int }
type StructPMVT struct{ N int }
type StructVMPT struct{ N int }
type StructPMPT struct{ N int }

func mj(k string, n int) ([]byte, error) {
	if n == 13 {
		return nil, errBoom
	}
	return []byte(fmt.Sprintf(` {"%s" : [%d, "<x>", null]} `, k, n)), nil
}
func mt(k string, n int) ([]byte, error) {
	if n == 13 {
		return nil, errBoom
	}
	return []byte(k + "<" + strconv.Itoa(n) + ">\""), nil
}

var errBoom = errors.New("boom")

func (v StructVM) MarshalJSON() ([]byte, error)   { return mj("svm", v.N) }
func (v *StructPM) MarshalJSON() ([]byte, error)  { return mj("spm", v.N) }
func (v StructVT) MarshalText() ([]byte, error)   { return mt("svt", v.N) }
func (v *StructPT) MarshalText() ([]byte, error)  { return mt("spt", v.N) }
func (v StructVMVT) MarshalJSON() ([]byte, error) { return mj("a", v.N) }
func (v StructVMVT) MarshalText() ([]byte, error) { return mt("a", v.N) }
func (v *StructPMVT) MarshalJSON() ([]byte, error) {
	return mj("b", v.N)
}
func (v StructPMVT) MarshalText() ([]byte, error)  { return mt("b", v.N) }
func (v StructVMPT) MarshalJSON() ([]byte, error)  { return mj("c", v.N) }
func (v *StructVMPT) MarshalText() ([]byte, error) { return mt("c", v.N) }
func (v *StructPMPT) MarshalJSON() ([]byte, error) { return mj("d", v.N) }
func (v *StructPMPT) MarshalText() ([]byte, error) { return mt("d", v.N) }

type IntVM int
type IntPM int
type IntVT int
type IntPT int

func (v IntVM) MarshalJSON() ([]byte, error)  { return mj("ivm", int(v)) }
func (v *IntPM) MarshalJSON() ([]byte, error) { return mj("ipm", int(*v)) }
func (v IntVT) MarshalText() ([]byte, error)  { return mt("ivt", int(v)) }
func (v *IntPT) MarshalText() ([]byte, error) { return mt("ipt", int(*v)) }

type StrVM string
type StrPM string
type StrVT string
type StrPT string

func (v StrVM) MarshalJSON() ([]byte, error)  { return json.Marshal("vm:" + string(v)) }
func (v *StrPM) MarshalJSON() ([]byte, error) { return json.Marshal("pm:" + string(*v)) }
func (v StrVT) MarshalText() ([]byte, error)  { return []byte("vt:" + string(v)), nil }
func (v *StrPT) MarshalText() ([]byte, error) { return []byte("pt:" + string(*v)), nil }

type SliceVM []int
type SlicePM []int
type SliceVT []int
type SlicePT []int

func (v SliceVM) MarshalJSON() ([]byte, error)  { return mj("slvm", len(v)) }
func (v *SlicePM) MarshalJSON() ([]byte, error) { return mj("slpm", len(*v)) }
func (v SliceVT) MarshalText() ([]byte, error)  { return mt("slvt", len(v)) }
func (v *SlicePT) MarshalText() ([]byte, error) { return mt("slpt", len(*v)) }

type MapVM map[string]int
type MapPM map[string]int
type MapVT map[string]int
type MapPT map[string]int

func (v MapVM) MarshalJSON() ([]byte, error)  { return mj("mvm", len(v)) }
func (v *MapPM) MarshalJSON() ([]byte, error) { return mj("mpm", len(*v)) }
func (v MapVT) MarshalText() ([]byte, error)  { return mt("mvt", len(v)) }
func (v *MapPT) MarshalText() ([]byte, error) { return mt("mpt", len(*v)) }

type FuncVM func() int
type ChanVT chan int

func (v FuncVM) MarshalJSON() ([]byte, error) { return mj("fvm", v()) }
func (v ChanVT) MarshalText() ([]byte, error) { return mt("cvt", cap(v)) }

type PtrShape struct{ P *int }   // interface data word is the pointer itself
type PtrShapeVM struct{ P *int } // same, with methods
type PtrShapePM struct{ P *int }
type PtrShapeVT struct{ P *int }
type ArrPtrVM [1]*int
type PtrZero struct {
	Z struct{}
	P *int
}

func (v PtrShapeVM) MarshalJSON() ([]byte, error) {
	if v.P == nil {
		return []byte("null"), nil
	}
	return mj("psvm", *v.P)
}
func (v *PtrShapePM) MarshalJSON() ([]byte, error) {
	if v.P == nil {
		return []byte("[]"), nil
	}
	return mj("pspm", *v.P)
}
func (v PtrShapeVT) MarshalText() ([]byte, error) {
	if v.P == nil {
		return nil, nil
	}
	return mt("psvt", *v.P)
}
func (v ArrPtrVM) MarshalJSON() ([]byte, error) {
	if v[0] == nil {
		return []byte("0"), nil
	}
	return mj("apvm", *v[0])
}

type ByteVM uint8
type BytePM uint8
type ByteVT uint8
type BytePT uint8
type ByteNo uint8

func (v ByteVM) MarshalJSON() ([]byte, error)  { return mj("bvm", int(v)) }
func (v *BytePM) MarshalJSON() ([]byte, error) { return mj("bpm", int(*v)) }
func (v ByteVT) MarshalText() ([]byte, error)  { return mt("bvt", int(v)) }
func (v *BytePT) MarshalText() ([]byte, error) { return mt("bpt", int(*v)) }

type BoolVT bool
type FloatVM float64

func (v BoolVT) MarshalText() ([]byte, error)  { return []byte(fmt.Sprint(bool(v))), nil }
func (v FloatVM) MarshalJSON() ([]byte, error) { return []byte("1e0"), nil }

// Named types without methods.
type NStr string
type NInt int8
type NBool bool
type NFloat float32
type NBytes []byte
type NRaw json.RawMessage
type NTime time.Time
type NDur time.Duration
type NMap map[string]any
type NMapRaw map[string]json.RawMessage
type NMapRawN map[string]NRaw
type NKeyMap map[NStr]any
type NSlice []any
type NAny any
type NNumber json.Number
type NPtr *int

// Interfaces.
type IfaceM interface{ MarshalJSON() ([]byte, error) }
type IfaceT interface{ MarshalText() ([]byte, error) }
type IfaceS interface{ Foo() int }
type FooInt int
type FooPtr struct{ N int }

func (v FooInt) Foo() int  { return int(v) }
func (v *FooPtr) Foo() int { return v.N }

// Map keys.
type KeyVT struct{ A, B int }
type KeyPT struct{ A int } // MarshalText on the pointer only: unusable
type KeyIntT int           // text methods win over the integer
type KeyStrT string        // the string wins when encoding
type KeyIntM int           // JSON methods play no role
type KeyU8 uint8
type KeyErr int
type KeyF float64 // may not equal itself
type KeyArrF [1]float64
type KeyStF struct {
	F float64
	N int
}

func keyFText(f float64) []byte { return []byte(fmt.Sprintf("f%x", math.Float64bits(f))) }
func keyFSet(f *float64, b []byte) error {
	u, err := strconv.ParseUint(strings.TrimPrefix(string(b), "f"), 16, 64)
	*f = math.Float64frombits(u)
	return err
}
func (k KeyF) MarshalText() ([]byte, error)     { return keyFText(float64(k)), nil }
func (k *KeyF) UnmarshalText(b []byte) error    { return keyFSet((*float64)(k), b) }
func (k KeyArrF) MarshalText() ([]byte, error)  { return keyFText(k[0]), nil }
func (k *KeyArrF) UnmarshalText(b []byte) error { return keyFSet(&k[0], b) }
func (k KeyStF) MarshalText() ([]byte, error) {
	return append(keyFText(k.F), fmt.Sprintf(":%d", k.N)...), nil
}

func (k KeyVT) MarshalText() ([]byte, error) { return []byte(fmt.Sprintf("%d/%d<", k.A, k.B)), nil }
func (k *KeyVT) UnmarshalText(b []byte) error {
	_, err := fmt.Sscanf(string(b), "%d/%d", &k.A, &k.B)
	return err
}
func (k *KeyPT) MarshalText() ([]byte, error)  { return []byte("x"), nil }
func (k KeyIntT) MarshalText() ([]byte, error) { return []byte("k" + strconv.Itoa(int(k))), nil }
func (k *KeyIntT) UnmarshalText(b []byte) error {
	n, err := strconv.Atoi(strings.TrimPrefix(string(b), "k"))
	*k = KeyIntT(n)
	return err
}
func (k KeyStrT) MarshalText() ([]byte, error) { return []byte("text:" + string(k)), nil }
func (k *KeyStrT) UnmarshalText(b []byte) error {
	*k = KeyStrT("ut:" + string(b))
	return nil
}
func (k KeyIntM) MarshalJSON() ([]byte, error)  { return []byte(`"json"`), nil }
func (k *KeyIntM) UnmarshalJSON(b []byte) error { *k = 99; return nil }
func (k KeyErr) MarshalText() ([]byte, error) {
	if k == 2 {
		return nil, errBoom
	}
	return []byte(strconv.Itoa(int(k))), nil
}

// Arbitrary marshaler results.
type RawOut struct{ S string }
type TextOut struct{ S string }
type TextOutStr string

func (r RawOut) MarshalJSON() ([]byte, error)      { return []byte(r.S), nil }
func (r TextOut) MarshalText() ([]byte, error)     { return []byte(r.S), nil }
func (r TextOutStr) MarshalText() ([]byte, error)  { return []byte(r), nil }
func (r *TextOutStr) UnmarshalText(b []byte) error { *r = TextOutStr(b); return nil }

// Promoted methods.
type EmbVM struct {
	StructVM
	X int
}
type EmbPtrVM struct {
	*StructVM
	X int
}
type EmbPM struct {
	StructPM
	X int
}
type EmbVT struct {
	StructVT
	X int
}
type EmbTime struct{ time.Time }
type EmbIface struct {
	IfaceM
	X int
}
type EmbAny struct {
	IfaceS
	X int
}
type EmbNamed struct {
	NStr
	NInt `json:",omitempty"`
	NMap
	*NFloat
}

// Recursive types.
type Node struct {
	V    int              `json:"v"`
	Next *Node            `json:"next,omitempty"`
	Kids []Node           `json:"kids,omitempty"`
	M    map[string]*Node `json:"m,omitempty"`
	I    any              `json:"i,omitempty"`
}
type MutA struct {
	B  *MutB
	Bs []MutB `json:",omitempty"`
	N  int
}
type MutB struct {
	A  *MutA
	As map[string]MutA `json:",omitempty"`
	S  StructPM
}
type RSlice []RSlice
type RMap map[string]RMap
type RPtr *RPtr
type RArr struct{ A [2]*RArr }
type RecAddr struct {
	P StructPM
	L []RecAddr
	M map[string]RecAddr
	R *RecAddr
}
type RecEmb struct {
	N string
	*RecEmbIn
}
type RecEmbIn struct {
	Q   int
	Sub *RecEmb
}

// Embedded pointers and omitted fields in every position.
type EmbIn struct {
	I1 int
	I2 string `json:"i2,omitempty"`
}
type EmbIn2 struct{ J1 *int }
type EmbP1 struct {
	*EmbIn
	Z int
}
type EmbP2 struct {
	A int
	*EmbIn
}
type EmbP3 struct {
	A int
	*EmbIn
	Z int
	*EmbIn2
}
type EmbP4 struct {
	*EmbIn
	*EmbIn2
}
type embLow struct{ L1, l2 int }
type EmbLow struct {
	embLow
	X int
}
type EmbDeep struct{ EmbP2 }
type EmbDeepP struct{ *EmbDeep }

type Big struct {
	A int                        `json:"a"`
	B string                     `json:"b,omitempty"`
	C []float64                  `json:"c"`
	D map[string]any             `json:"d"`
	E *Big                       `json:"e,omitempty"`
	F bool                       `json:"-"`
	G time.Time                  `json:"g"`
	H []byte                     `json:"h"`
	I json.Number                `json:"i,omitempty"`
	J json.RawMessage            `json:"j,omitempty"`
	K time.Duration              `json:"k,string"`
	L StructVT                   `json:"l"`
	M [2]bool                    `json:"m"`
	N map[int]string             `json:"n,omitempty"`
	O any                        `json:"o"`
	P uint64                     `json:"p,string,omitempty"`
	Q string                     `json:"q,string"`
	R map[string]json.RawMessage `json:"r,omitempty"`
	s int
	T *float32 `json:"<t>"`
}

type Stringed struct {
	A int      `json:",string"`
	B string   `json:",string"`
	C bool     `json:",string"`
	D float64  `json:"d,string"`
	E *int     `json:",string"`
	F *string  `json:",string,omitempty"`
	G uint8    `json:",string,omitempty"`
	H IntVT    `json:",string"`
	I []int    `json:",string"`
	J any      `json:",string"`
	K StructVM `json:",string"`
	L **int    `json:",string"`
	N NStr     `json:",string"`
	O float32  `json:",string"`
}

type Omits struct {
	A int            `json:",omitempty"`
	B string         `json:",omitempty"`
	C []int          `json:",omitempty"`
	D map[string]int `json:",omitempty"`
	E *int           `json:",omitempty"`
	F any            `json:",omitempty"`
	G [0]int         `json:",omitempty"`
	H [1]int         `json:",omitempty"`
	I struct{}       `json:",omitempty"`
	J float64        `json:",omitempty"`
	K bool           `json:",omitempty"`
	L time.Time      `json:",omitempty"`
	M IfaceS         `json:",omitempty"`
	N StructVM       `json:",omitempty"`
	O MapVM          `json:",omitempty"`
	P uint16         `json:",omitempty"`
	Q NBytes         `json:",omitempty"`
}

type HTMLNames struct {
	A int `json:"<a>"`
	B int `json:"b&c"`
	C int `json:"é"`
	D int `json:"世界"`
	E int `json:"$%-/"`
	F int `json:"a;b"`
	G int `json:"x y"`
}

type Unsupp struct {
	A int
	C chan int
}
type UnsuppOmit struct {
	A int
	C chan int       `json:",omitempty"`
	F func()         `json:",omitempty"`
	M map[bool]int   `json:",omitempty"`
	X map[any]string `json:"-"`
}

func p[T any](v T) *T { return &v }

// leafT is a type with some values of it.
type leafT struct {
	name string
	t    reflect.Type
	vals []reflect.Value
}

func L[T any](vs ...T) leafT {
	t := reflect.TypeOf((*T)(nil)).Elem()
	l := leafT{name: t.String(), t: t}
	for i := range vs {
		l.vals = append(l.vals, reflect.ValueOf(&vs[i]).Elem())
	}
	return l
}

func mustTime(s string) time.Time {
	t, err := time.Parse(time.RFC3339Nano, s)
	if err != nil {
		panic(err)
	}
	return t
}

// leaves: the atoms of the type universe, simplest first.
func leaves() []leafT {
	one, two, thirteen := 1, 2, 13
	pone := &one
	nfl := NFloat(2.5)
	l := []leafT{
		L(false, true),
		L(0, 1, -7, math.MaxInt/2+1, math.MaxInt),
		L("", "a", "<é>\u2028\"\\\n", "\xff\x00", "plain ascii text &c"),
		L[any](nil, 1, "x", []any{nil, "<"}, map[string]any{"b": 1.5, "a": []byte("hi")}, pone, StructPM{3}, &StructPM{4}),
		L(0.0, 1.5, -1e21, 1e-7, 123456789.0, math_nan, math_inf),
		L[float32](0, 3.4e38, 1e-6, 0.1, 16777216),
		L[int8](0, -128, 127), L[int16](-32768), L[int32](1<<31 - 1), L[int64](-1<<63, 1<<63-1),
		L[uint](0, math.MaxUint), L[uint8](255, 0), L[uint16](65535), L[uint32](1<<32 - 1), L[uint64](1<<64-1, 10), L[uintptr](7),
		L[[]byte](nil, []byte{}, []byte("a"), []byte("\xff\xfe<"), []byte("abcd"), []byte(rep("0123456789", 20))),
		L[NBytes](nil, NBytes("x")), L[NRaw](nil, NRaw(`[1]`)),
		L[json.RawMessage](nil, json.RawMessage(`1`), json.RawMessage(" {\"b\" : [ 1, \"<\u2028>\", {}, [ ] ] , \"a\":null} "), json.RawMessage(`{`), json.RawMessage(``), json.RawMessage(`1 2`), json.RawMessage(`"\u2028"`)),
		L[json.Number]("", "0", "-1.50e+9", "12345678901234567890123", "x", "1x", "01", "1."),
		L(time.Time{}, mustTime("2021-02-03T04:05:06.789Z"), mustTime("1999-12-31T23:59:59+05:30"), time.Date(10000, 1, 1, 0, 0, 0, 0, time.UTC), time.Date(-1, 1, 1, 0, 0, 0, 0, time.UTC), time.Date(2020, 1, 1, 0, 0, 0, 1, time.FixedZone("x", 3661))),
		L(time.Duration(0), time.Second, -time.Nanosecond, time.Duration(math.MaxInt64), 400*24*time.Hour+1),
		L(struct{}{}),
		L[NStr]("n<"), L[NInt](-3), L[NBool](true), L[NFloat](1.25), L[NDur](5), L[NTime](NTime(mustTime("2021-02-03T04:05:06Z"))), L[NNumber]("1", ""),
		L[NMap](nil, NMap{"x": 1, "a": NMap{}}), L[NMapRaw](nil, NMapRaw{"x": json.RawMessage("[ 1]"), "a": json.RawMessage(`{"z":1,"y":2}`)}), L[NMapRawN](NMapRawN{"x": NRaw("[1]")}), L[NKeyMap](nil, NKeyMap{"b": 1, "a": nil}), L[NSlice](nil, NSlice{1, NSlice{}}), L[NPtr](nil, NPtr(pone)),
		L[map[string]any](nil, map[string]any{}, map[string]any{"a": nil}, map[string]any{"b<": 1, "a": map[string]any{"z": 1, "y": "s"}, "": []any{}}, mapN(12)),
		L[map[string]json.RawMessage](nil, map[string]json.RawMessage{}, map[string]json.RawMessage{"b": json.RawMessage(`{"k":[ ]}`), "a": nil, "c": json.RawMessage(`"<"`)}, map[string]json.RawMessage{"b": json.RawMessage(`1`), "a": json.RawMessage(`{`)}),
		L[map[string]string](nil, map[string]string{"k": "v", "<": "\xff"}), L[[]any](nil, []any{}, []any{1, "a", nil, true, 1.5, []any{}, map[string]any{}}),
		L[[]string](nil, []string{"a", ""}), L[[]int]([]int{}, []int{1, 2}), L[[2]int]([2]int{1, 2}), L([0]string{}),

		L(StructVM{}, StructVM{1}, StructVM{13}), L(StructPM{}, StructPM{1}, StructPM{13}), L(StructVT{}, StructVT{1}, StructVT{13}), L(StructPT{}, StructPT{1}, StructPT{13}),
		L(StructVMVT{1}), L(StructPMVT{1}), L(StructVMPT{1}), L(StructPMPT{1}),
		L(IntVM(0), IntVM(1)), L(IntPM(0), IntPM(1), IntPM(13)), L(IntVT(0), IntVT(1)), L(IntPT(0), IntPT(1)),
		L(StrVM(""), StrVM("q")), L(StrPM(""), StrPM("q")), L(StrVT(""), StrVT("q<")), L(StrPT(""), StrPT("q")),
		L(SliceVM(nil), SliceVM{1}), L(SlicePM(nil), SlicePM{1}), L(SliceVT(nil), SliceVT{1}), L(SlicePT(nil), SlicePT{1}),
		L(MapVM(nil), MapVM{"a": 1}), L(MapPM(nil), MapPM{"a": 1}), L(MapVT(nil), MapVT{"a": 1}), L(MapPT(nil), MapPT{"a": 1}),
		L(FuncVM(func() int { return 1 })), L(ChanVT(nil), make(ChanVT, 2)),
		L(PtrShape{}, PtrShape{&two}), L(PtrShapeVM{}, PtrShapeVM{&two}), L(PtrShapePM{}, PtrShapePM{&two}), L(PtrShapeVT{}, PtrShapeVT{&two}), L(ArrPtrVM{}, ArrPtrVM{&two}), L(PtrZero{}, PtrZero{P: &two}), L([1]*int{&two}, [1]*int{}), L([1]map[string]int{{"a": 1}}), L(struct{ M map[string]int }{map[string]int{"a": 1}}),
		L(ByteVM(1)), L(BytePM(1)), L(ByteVT(1)), L(BytePT(1)), L(ByteNo(1)),
		L[[]ByteVM](nil, []ByteVM{1, 2}), L[[]BytePM](nil, []BytePM{1, 2}), L[[]ByteVT]([]ByteVT{1, 2}), L[[]BytePT]([]BytePT{1, 2}), L[[]ByteNo](nil, []ByteNo{1, 2}), L([2]ByteNo{1, 2}), L([3]byte{1, 2, 3}), L([2]BytePM{1, 2}),
		L(BoolVT(true)), L(FloatVM(2)),
		L[IfaceM](nil, StructVM{1}, &StructPM{2}, (*StructPM)(nil), (*StructVM)(nil)), L[IfaceT](nil, StructVT{1}, &StructPT{2}), L[IfaceS](nil, FooInt(3), &FooPtr{4}), L[NAny](nil, 1, "s"),
		L[map[KeyF]int](map[KeyF]int{KeyF(math.NaN()): 1}, map[KeyF]int{KeyF(math.NaN()): 1, KeyF(math.Float64frombits(0x7ff8000000000007)): 2, 3: 4}),
		L[map[KeyArrF]*int](map[KeyArrF]*int{{math.NaN()}: new(int), {1}: nil}),
		L[map[KeyStF]string](map[KeyStF]string{{math.NaN(), 1}: "a", {math.NaN(), 2}: "b", {1, 2}: "c"}),
		L[map[KeyF]struct{ A []int }](map[KeyF]struct{ A []int }{KeyF(math.NaN()): {[]int{1}}}),
		L[map[IfaceT]int](map[IfaceT]int{KeyF(math.NaN()): 1, KeyVT{1, 2}: 2, KeyStrT("x"): 3, KeyIntT(4): 5, &KeyVT{3, 4}: 6}),
		L[map[IfaceT]any](map[IfaceT]any{}, map[IfaceT]any{KeyStrT("a"): 1, (*KeyVT)(nil): nil}),
		L[map[KeyVT]int](nil, map[KeyVT]int{{1, 2}: 1, {0, 9}: 2, {10, 0}: 3}), L[map[KeyPT]int](nil, map[KeyPT]int{{1}: 1}, map[KeyPT]int{}), L[map[KeyIntT]string](map[KeyIntT]string{2: "a", 10: "b"}), L[map[KeyStrT]int](map[KeyStrT]int{"b": 1, "a": 2}), L[map[KeyIntM]int](map[KeyIntM]int{2: 1, 10: 3}), L[map[KeyU8]int](map[KeyU8]int{200: 1, 3: 2}), L[map[KeyErr]int](map[KeyErr]int{1: 1}, map[KeyErr]int{2: 1}),
		L[map[int]any](nil, map[int]any{-1: 1, 10: "x", 9: nil}), L[map[uint64]bool](map[uint64]bool{1<<64 - 1: true, 0: false}), L[map[NStr]int](map[NStr]int{"z": 1, "a<": 2}), L[map[*StructVT]int](nil, map[*StructVT]int{{1}: 1}), L[map[PtrShapeVT]int](map[PtrShapeVT]int{{&two}: 1}), L[map[ChanVT]int](map[ChanVT]int{make(ChanVT, 1): 1}), L[map[IfaceT]int](map[IfaceT]int{StructVT{1}: 1, &StructPT{2}: 2}),
		L(RawOut{`1`}, RawOut{` {"a" : "<" } `}, RawOut{`{`}, RawOut{``}, RawOut{`1,2`}, RawOut{`"` + "\u2028" + `"`}, RawOut{`nul`}), L(TextOut{""}, TextOut{"a<\xff\u2029"}), L(TextOutStr("z")),
		L(EmbVM{StructVM{1}, 2}), L(EmbPtrVM{&StructVM{1}, 2}, EmbPtrVM{&StructVM{thirteen}, 2}), L(EmbPM{StructPM{1}, 2}), L(EmbVT{StructVT{1}, 2}), L(EmbTime{mustTime("2021-02-03T04:05:06Z")}), L(EmbIface{StructVM{1}, 2}), L(EmbAny{nil, 2}, EmbAny{FooInt(1), 2}), L(EmbNamed{}, EmbNamed{"s", 1, NMap{"a": 1}, &nfl}),
		L(Node{}, Node{V: 1, Next: &Node{V: 2}, Kids: []Node{{V: 3}, {}}, M: map[string]*Node{"x": nil, "a": {V: 4}}, I: Node{V: 5}}),
		L(MutA{}, MutA{B: &MutB{A: &MutA{N: 1}, As: map[string]MutA{"k": {}}}, Bs: []MutB{{}}}), L(MutB{}, MutB{S: StructPM{4}, As: map[string]MutA{"k": {Bs: []MutB{{}}}}}),
		L(RSlice(nil), RSlice{nil, RSlice{}, RSlice{nil}}), L(RMap{"a": RMap{}, "b": nil}), L(RPtr(nil)), L(RArr{}, RArr{[2]*RArr{{}, nil}}), L(RecAddr{L: []RecAddr{{}}, M: map[string]RecAddr{"a": {}}, R: &RecAddr{}}), L(RecEmb{}, RecEmb{"a", &RecEmbIn{1, &RecEmb{N: "x"}}}),
		L(EmbP1{}, EmbP1{&EmbIn{1, "x"}, 2}), L(EmbP2{}, EmbP2{2, &EmbIn{1, ""}}), L(EmbP3{}, EmbP3{1, &EmbIn{}, 2, nil}, EmbP3{1, nil, 2, &EmbIn2{}}, EmbP3{1, nil, 2, &EmbIn2{&two}}), L(EmbP4{}, EmbP4{nil, &EmbIn2{}}, EmbP4{&EmbIn{}, nil}), L(EmbLow{embLow{1, 2}, 3}), L(EmbDeep{}, EmbDeep{EmbP2{1, &EmbIn{}}}), L(EmbDeepP{}, EmbDeepP{&EmbDeep{}}),
		L(Big{}, Big{A: 1, B: "x", C: []float64{1, 2.5}, D: map[string]any{"z": 1, "y": []any{}}, E: &Big{}, G: mustTime("2021-02-03T04:05:06Z"), H: []byte("hello"), I: "1.0", J: json.RawMessage(`{"b":1,"a":[]}`), K: 9, L: StructVT{2}, N: map[int]string{2: "b", 10: "a"}, O: &one, P: 7, Q: "q\"<", R: map[string]json.RawMessage{"x": json.RawMessage(" 1 ")}, T: p(float32(1.5))}),
		L(Stringed{}, Stringed{A: -5, B: "x\"<\n", C: true, D: 1.5, E: pone, F: p("f"), G: 3, I: []int{1}, J: "s", L: &pone, N: "n", O: 2.5}),
		L(Omits{}, Omits{1, "b", []int{}, map[string]int{}, pone, 0, [0]int{}, [1]int{}, struct{}{}, 1, true, time.Time{}, FooInt(0), StructVM{}, MapVM{}, 1, NBytes{}}, Omits{C: []int{0}, D: map[string]int{"a": 0}, F: (*int)(nil), M: (*FooPtr)(nil), O: MapVM{"a": 1}, Q: NBytes("q")}),
		L(HTMLNames{1, 2, 3, 4, 5, 6, 7}),
		L[chan int](nil), L[func()](nil), L(complex(1, 2)), L(Unsupp{}), L(UnsuppOmit{}), L[map[bool]int](nil, map[bool]int{true: 1}),
		L(net.ParseIP("1.2.3.4"), net.IP(nil)), L(*big.NewInt(0).Exp(big.NewInt(10), big.NewInt(30), nil)), L(netip.MustParseAddr("::1")), L(big.NewInt(5), nil),
		L(p(mustTime("2021-02-03T04:05:06Z")), nil), L(p(json.Number("5")), nil), L(p(json.RawMessage(`[ 1 ]`)), nil, p(json.RawMessage(nil))), L(p(time.Minute), nil), L(p(StructPM{5}), nil), L(p(StructVM{5}), nil), L(p(IntPT(5)), nil), L(p(MapPM{"a": 1}), nil, p(MapPM(nil))), L(p(MapVM{"a": 1}), p(MapVM(nil))),
	}
	return append(l, stdLeaves()...)
}

func mapN(n int) map[string]any {
	m := map[string]any{}
	for i := 0; i < n; i++ {
		m["k"+strconv.Itoa((i*7)%n)] = i
	}
	return m
}
