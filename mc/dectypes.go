package main

import (
	"encoding/json"
	"errors"
	"fmt"
	"reflect"
	"strings"
	"time"
)

// Destination types with user methods. Each records what it was given.

type UJStruct struct {
	N   int
	Got string
}
type UJInt int
type UJStr string
type UJSlice []string
type UJMap map[string]string
type UJErr struct{ N int } // fails on texts that contain a 3
type UJVal struct{ P *string }
type UJBad struct{ N int } // does not accept null
type UTStruct struct {
	N   int
	Got string
}
type UTInt int
type UTStr string
type UTSlice []string
type UTErr struct{ S string } // fails on texts that contain a 3
type UTVal map[string]string
type UJUT struct{ J, T string }
type UJPtrField struct {
	A *UJStruct
	B **UTStruct
	C UJInt
	D []UTStr
	E map[UTKey]UJStr
	F UJVal
	G any
}
type UTKey struct{ K string }
type UTKeyPtr struct{ K string }
type UTKeyInt int
type UTKeyErr string
type EmbUJ struct {
	UJStruct
	X int
}
type EmbUJP struct {
	*UTStruct
	X int
}
type lowEmb struct{ A, B int }
type LowP struct {
	*lowEmb
	C int
}
type LowV struct {
	lowEmb
	C int
}
type CaseFields struct {
	Name  int
	NAME  int
	NaMe  int `json:"other"`
	Lower int `json:"lower"`
	Kelv  int `json:"\u212a"`
	S     int `json:"ſ"`
	K     int `json:"k"`
	Q     int `json:"straße"`
	Dash  int `json:"-,"`
}
type IntoIface struct {
	E IfaceS
	M json.Marshaler
	F fmt.Stringer
	A any
}
type Deep3 struct {
	P ***int
	Q **string
	R *[]*map[string]*[2]*bool
	S []**Deep3
}
type BytesT struct {
	A []byte
	B NBytes
	C [4]byte
	D []ByteNo
	E []UJByte
	F []UTByte
	G *[]byte
}
type UJByte uint8
type UTByte uint8
type Times struct {
	T time.Time
	P *time.Time
	N NTime
	M map[string]time.Time
}

func (u *UJStruct) UnmarshalJSON(b []byte) error {
	u.Got += "<" + string(b) + ">"
	u.N++
	return nil
}
func (u *UJInt) UnmarshalJSON(b []byte) error   { *u = UJInt(len(b)); return nil }
func (u *UJStr) UnmarshalJSON(b []byte) error   { *u += UJStr("<" + string(b) + ">"); return nil }
func (u *UJSlice) UnmarshalJSON(b []byte) error { *u = append(*u, string(b)); return nil }
func (u *UJMap) UnmarshalJSON(b []byte) error {
	if *u == nil {
		*u = UJMap{}
	}
	(*u)[string(b)] = "x"
	return nil
}
func (u *UJErr) UnmarshalJSON(b []byte) error {
	if strings.Contains(string(b), "3") {
		return errBoom
	}
	u.N = len(b)
	return nil
}
func (u UJVal) UnmarshalJSON(b []byte) error {
	if u.P != nil {
		*u.P += string(b)
		return nil
	}
	return errors.New("UJVal without pointer")
}
func (u *UJBad) UnmarshalJSON(b []byte) error {
	if string(b) == "null" {
		return errBoom
	}
	return json.Unmarshal(b, &u.N)
}
func (u *UTStruct) UnmarshalText(b []byte) error {
	if u == nil {
		return errBoom
	}
	u.Got += "<" + string(b) + ">"
	u.N++
	return nil
}
func (u *UTInt) UnmarshalText(b []byte) error   { *u = UTInt(len(b)); return nil }
func (u *UTStr) UnmarshalText(b []byte) error   { *u += UTStr("<" + string(b) + ">"); return nil }
func (u *UTSlice) UnmarshalText(b []byte) error { *u = append(*u, string(b)); return nil }
func (u *UTErr) UnmarshalText(b []byte) error {
	if strings.Contains(string(b), "3") {
		return errBoom
	}
	u.S = string(b)
	return nil
}
func (u UTVal) UnmarshalText(b []byte) error {
	if u != nil {
		u[string(b)] = "t"
		return nil
	}
	return errors.New("UTVal nil")
}
func (u *UJUT) UnmarshalJSON(b []byte) error     { u.J = string(b); return nil }
func (u *UJUT) UnmarshalText(b []byte) error     { u.T = string(b); return nil }
func (k *UTKey) UnmarshalText(b []byte) error    { k.K = "k:" + string(b); return nil }
func (k *UTKeyPtr) UnmarshalText(b []byte) error { k.K = "p:" + string(b); return nil }
func (k *UTKeyInt) UnmarshalText(b []byte) error { *k = UTKeyInt(len(b)); return nil }
func (k *UTKeyErr) UnmarshalText(b []byte) error {
	if len(b) == 1 {
		return errBoom
	}
	*k = UTKeyErr(b)
	return nil
}
func (u *UJByte) UnmarshalJSON(b []byte) error { *u = UJByte(len(b)); return nil }
func (u *UTByte) UnmarshalText(b []byte) error { *u = UTByte(len(b)); return nil }

// decLeaves are destination types beyond those of leaves(). Their values only
// serve to make documents.
func decLeaves() []leafT {
	s := "x"
	two := 2
	pt, ps, b := p(p(p(2))), p(p("s")), true
	return []leafT{
		L(UJStruct{}, UJStruct{1, "g"}), L(UJInt(3)), L(UJStr("a"), UJStr("")), L(UJSlice(nil), UJSlice{"a"}), L(UJMap(nil), UJMap{"a": "b"}), L(UJErr{1}, UJErr{3}), L(UJVal{}, UJVal{&s}), L(UJBad{1}),
		L(UTStruct{}, UTStruct{1, "g"}), L(UTInt(3)), L(UTStr("a"), UTStr("\n<")), L(UTSlice(nil), UTSlice{"a"}), L(UTErr{"a"}, UTErr{"3"}), L(UTVal(nil), UTVal{"a": "b"}), L(UJUT{}),
		L(UJPtrField{}, UJPtrField{A: &UJStruct{}, B: p(&UTStruct{}), D: []UTStr{"a"}, E: map[UTKey]UJStr{}, F: UJVal{&s}, G: 1}),
		L(map[UTKeyInt]int{1: 2}), L(map[UTKeyErr]string{"ab": "v", "c": "w"}), L(map[UTKeyInt]UJStr{1: "x"}),
		L(EmbUJ{UJStruct{}, 2}), L(EmbUJP{&UTStruct{}, 2}, EmbUJP{}), L(LowP{nil, 1}, LowP{&lowEmb{1, 2}, 3}), L(LowV{lowEmb{1, 2}, 3}),
		L(CaseFields{1, 2, 3, 4, 5, 6, 7, 8, 9}), L(IntoIface{}, IntoIface{FooInt(1), StructVM{1}, time.Second, 1}),
		L(Deep3{}, Deep3{pt, ps, &[]*map[string]*[2]*bool{{"a": {&b, nil}}}, []**Deep3{p(&Deep3{}), nil}}),
		L(BytesT{}, BytesT{[]byte("abc"), NBytes("d"), [4]byte{1, 2}, []ByteNo{1, 2}, []UJByte{1}, []UTByte{2}, p([]byte("e"))}), L([]UJByte{1, 2}), L([]UTByte{1, 2}), L([2]UJByte{1, 2}),
		L(Times{}, Times{mustTime("2021-02-03T04:05:06Z"), p(mustTime("2021-02-03T04:05:06.5+01:00")), NTime{}, map[string]time.Time{"a": mustTime("2021-02-03T04:05:06Z")}}),
		L(map[int8]int8{-128: 1, 127: 2}), L(map[uint16]string{65535: "a"}), L(map[uintptr]int{3: 4}), L(map[NInt]NStr{1: "a"}), L([3]any{1, "a", &two}), L([2][2]int8{{1, 2}, {3, 4}}), L(map[string]*int{"a": &two, "b": nil}), L(map[string]map[string]int{"a": {"b": 1}}), L(map[string]struct{ A, B int }{"a": {1, 2}}), L(map[string][]int{"a": {1}}), L([]map[string]any{{"a": 1}, nil}), L([]struct {
			A int
			B *int
			C []int
		}{{1, &two, []int{1}}, {}}),
		L(struct {
			A int8  `json:"a,string"`
			B uint8 `json:"b,string,omitempty"`
			C *bool `json:"c,string"`
			D UJStr `json:"d,string"`
			E UTStr `json:"e,string"`
			F any   `json:"f,string"`
			G json.Number
			H json.Number `json:"h,string"`
			I []string    `json:"i,string"`
			J float32     `json:"j,string"`
			K time.Time   `json:"k,string"`
		}{A: 1, C: &b, G: "1", H: "2"}),
	}
}

// hasUserMethods reports whether decoding into t may call user methods.
func hasUserMethods(t reflect.Type, seen map[reflect.Type]bool) bool {
	if seen[t] {
		return false
	}
	seen[t] = true
	switch t {
	case timeT, rawT, numberT, durT:
		return false
	}
	pt := reflect.PointerTo(t)
	if pt.Implements(unmarshT) || pt.Implements(untextT) || t.Implements(unmarshT) || t.Implements(untextT) {
		return true
	}
	switch t.Kind() {
	case reflect.Pointer, reflect.Slice, reflect.Array:
		return hasUserMethods(t.Elem(), seen)
	case reflect.Map:
		return hasUserMethods(t.Key(), seen) || hasUserMethods(t.Elem(), seen)
	case reflect.Struct:
		for i := 0; i < t.NumField(); i++ {
			if hasUserMethods(t.Field(i).Type, seen) {
				return true
			}
		}
	}
	return false
}

// mentions reports whether the type contains one for which is holds.
func mentions(t reflect.Type, is func(reflect.Type) bool) bool {
	seen := map[reflect.Type]bool{}
	var rec func(t reflect.Type) bool
	rec = func(t reflect.Type) bool {
		if seen[t] {
			return false
		}
		seen[t] = true
		if is(t) {
			return true
		}
		switch t.Kind() {
		case reflect.Pointer, reflect.Slice, reflect.Array:
			return rec(t.Elem())
		case reflect.Map:
			return rec(t.Key()) || rec(t.Elem())
		case reflect.Struct:
			for i := 0; i < t.NumField(); i++ {
				if rec(t.Field(i).Type) {
					return true
				}
			}
		}
		return false
	}
	return rec(t)
}
