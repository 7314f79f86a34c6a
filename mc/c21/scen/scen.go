// Package scen holds the concurrent scenarios of check C21. It is compiled
// both against the package itself and against the instrumented copy.
package scen

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math"
	"strings"
	"time"

	jc "github.com/neilotoole/jsoncolor"
)

// Yield is called inside user-supplied methods: a scheduling point.
var Yield = func() {}

// Thread makes some calls; what it returns is called when all threads are
// done and renders the results, so that results overwritten later show.
type Thread func() func() string

// Scenario is a set of threads over shared read-only inputs.
type Scenario struct {
	Name    string
	Threads []Thread
}

func errString(err error) string {
	if err == nil {
		return "ok"
	}
	return fmt.Sprintf("%T %v", err, err)
}

func marshal(v any) Thread {
	return func() func() string {
		b, err := jc.Marshal(v)
		return func() string { return string(b) + " | " + errString(err) }
	}
}

func marshalIndent(v any) Thread {
	return func() func() string {
		b, err := jc.MarshalIndent(v, "", " ")
		return func() string { return string(b) + " | " + errString(err) }
	}
}

func unmarshal[T any](text string) Thread {
	in := []byte(text)
	return func() func() string {
		var v T
		err := jc.Unmarshal(in, &v)
		return func() string {
			b, err2 := json.Marshal(v)
			return string(b) + " | " + errString(err) + " | " + errString(err2)
		}
	}
}

type writer struct {
	b      []byte
	pieces [][]byte
	fail   error
}

func (w *writer) Write(p []byte) (int, error) {
	Yield()
	w.b = append(w.b, p...)
	Yield()
	return len(p), w.fail
}

func encode(conf func(*jc.Encoder), vs ...any) Thread {
	return func() func() string {
		w := &writer{}
		enc := jc.NewEncoder(w)
		if conf != nil {
			conf(enc)
		}
		var errs []string
		for _, v := range vs {
			errs = append(errs, errString(enc.Encode(v)))
		}
		return func() string { return string(w.b) + " | " + strings.Join(errs, ", ") }
	}
}

type reader struct {
	s string
	k int
}

func (r *reader) Read(p []byte) (int, error) {
	Yield()
	if r.s == "" {
		return 0, io.EOF
	}
	n := copy(p[:min(len(p), r.k)], r.s)
	r.s = r.s[n:]
	Yield()
	return n, nil
}

func decode[T any](text string, step int, conf func(*jc.Decoder)) Thread {
	return func() func() string {
		dec := jc.NewDecoder(&reader{text, step})
		if conf != nil {
			conf(dec)
		}
		var vs []T
		var errs []string
		for i := 0; i < 10; i++ {
			var v T
			err := dec.Decode(&v)
			vs = append(vs, v)
			errs = append(errs, errString(err))
			if err != nil {
				break
			}
		}
		return func() string {
			b, err := json.Marshal(vs)
			return string(b) + " | " + strings.Join(errs, ", ") + " | " + errString(err)
		}
	}
}

func tokens(text string) Thread {
	in := []byte(text)
	return func() func() string {
		t := jc.NewTokenizer(in)
		var vals []jc.RawValue
		var desc []string
		for t.Next() {
			vals = append(vals, t.Value)
			desc = append(desc, fmt.Sprint(t.Delim, t.Depth, t.Index, t.IsKey))
		}
		err := t.Err
		return func() string { return fmt.Sprintf("%q %v %s", vals, desc, errString(err)) }
	}
}

func appendTo(v any, flags jc.AppendFlags, clrs *jc.Colors, indent bool) Thread {
	return func() func() string {
		var ind *jc.Indenter
		if indent {
			ind = jc.NewIndenter(">", "\t")
		}
		b, err := jc.Append([]byte("prefix"), v, flags, clrs, ind)
		return func() string { return string(b) + " | " + errString(err) }
	}
}

func parse(text string, flags jc.ParseFlags) Thread {
	in := []byte(text)
	return func() func() string {
		var v any
		rest, err := jc.Parse(in, &v, flags)
		return func() string {
			b, err2 := json.Marshal(v)
			return fmt.Sprintf("%s | %q | %s %s", b, rest, errString(err), errString(err2))
		}
	}
}

func seq(ts ...Thread) Thread {
	return func() func() string {
		var fs []func() string
		for _, t := range ts {
			fs = append(fs, t())
		}
		return func() string {
			var out []string
			for _, f := range fs {
				out = append(out, f())
			}
			return strings.Join(out, " ;; ")
		}
	}
}

// ---- types ----

type Inner struct {
	X int `json:"x"`
	Y []string
}

type Plain struct {
	A int
	B string `json:"b,omitempty"`
	C *Inner `json:"c"`
	Inner
	D map[string]int
}

type Small struct {
	N int    `json:"n"`
	S string `json:"s"`
}

type Other struct {
	P bool
	Q *Small
}

type Rec struct {
	V    int
	Next *Rec  `json:"next,omitempty"`
	Kids []Rec `json:"kids,omitempty"`
}

type MutA struct {
	Name string
	B    *MutB `json:",omitempty"`
}

type MutB struct {
	A  *MutA `json:",omitempty"`
	As []MutA
}

type RecMap map[string]RecMap

type RecSlice []RecSlice

type Leaf struct {
	F   float64
	F32 float32
	I   int64
	U   uint64
	T   time.Time
	D   time.Duration
	Bs  []byte
	St  string
	R   json.RawMessage
	Nu  json.Number
}

type Wide struct {
	Alpha, Beta, Gamma, Delta int
	Epsilon                   string
}

type Quoted struct {
	I int     `json:"i,string"`
	B bool    `json:",string"`
	F float64 `json:"f,string"`
	S string  `json:"s,string"`
}

// MJ calls the package from within its own methods.
type MJ struct{ V any }

func (m MJ) MarshalJSON() ([]byte, error) {
	Yield()
	b, err := jc.Marshal(m.V)
	Yield()
	return b, err
}

func (m *MJ) UnmarshalJSON(b []byte) error {
	Yield()
	err := jc.Unmarshal(b, &m.V)
	Yield()
	return err
}

type MT struct{ S string }

func (m MT) MarshalText() ([]byte, error) {
	Yield()
	if m.S == "bad" {
		return nil, errors.New("bad text")
	}
	return []byte("<" + m.S + ">"), nil
}

func (m *MT) UnmarshalText(b []byte) error {
	Yield()
	m.S = string(b)
	return nil
}

type HasMJ struct {
	A MJ
	B *MJ
	C MT
	D map[MT]int
}

type Arr [2]Small

type Iface interface{ M() }

type Gen[T any] struct{ V T }

func indent(enc *jc.Encoder) { enc.SetIndent("", "  ") }

// Scenarios returns the scenarios with fresh inputs.
func Scenarios() []Scenario {
	clrs := jc.DefaultColors()
	clrs2 := &jc.Colors{Key: jc.Color("K"), Punc: jc.Color("P"), String: jc.Color("S"), Number: jc.Color("N")}
	plain := &Plain{A: 1, B: "b<", C: &Inner{2, []string{"y", "\u2028"}}, Inner: Inner{3, nil}, D: map[string]int{"z": 1, "a": 2}}
	small := &Small{7, "seven"}
	small2 := Small{8, "eight"}
	other := Other{true, small}
	rec := &Rec{1, &Rec{2, nil, []Rec{{V: 3}}}, nil}
	muta := &MutA{"a", &MutB{As: []MutA{{Name: "in"}}}}
	mutb := &MutB{A: &MutA{Name: "x"}}
	recmap := RecMap{"a": {"b": nil}}
	recslice := RecSlice{{}, {nil}}
	leaf := &Leaf{1.5e300, 0.1, math.MinInt64, math.MaxUint64, time.Unix(1e9, 5).UTC(), time.Hour, []byte{1, 2, 255}, "é\x00\xff", json.RawMessage(`{"r":1}`), "12e3"}
	leaf2 := &Leaf{-1e-7, 3e20, 42, 7, time.Unix(2e9, 0).UTC(), -5, []byte("abcdefgh"), "plain", json.RawMessage(`[ ]`), "-0"}
	m1 := map[string]any{"k": 1, "j": []any{true, nil, 2.5}, "m": map[string]any{"x": "y", "w": "v"}}
	m2 := map[string]any{"c": "C", "a": "A", "b": map[string]any{"z": 0, "y": 1}}
	mraw := map[string]jc.RawMessage{"r": []byte(`{"q": 1}`), "a": []byte(`[1, 2]`)}
	mint := map[int]string{3: "c", 1: "a"}
	bad := map[string]any{"a": 1, "b": make(chan int), "c": 2}
	badf := []any{1, math.NaN()}
	badraw := map[string]jc.RawMessage{"a": []byte(`{"x"`), "b": []byte("1")}
	wide := `{"alpha":1,"BETA":2,"gamma":3,"dELTA":4,"epsilon":"five","zeta":6}`
	wide2 := `{"DELTA":9,"Alpha":8,"epsILON":"x"}`
	inner := Inner{5, []string{"p"}}
	mj := HasMJ{MJ{small}, &MJ{m2}, MT{"t"}, map[MT]int{{"k"}: 1}}
	mj2 := HasMJ{A: MJ{1}, C: MT{"u"}}
	quoted := Quoted{1, true, 2.5, "q\""}
	arr := Arr{{1, "a"}, {2, "b"}}
	long := strings.Repeat("long string ", 350)
	huge := strings.Repeat("0123456789", 420)

	return []Scenario{
		{Name: "same new struct, Marshal", Threads: []Thread{marshal(small2), marshal(small2)}},
		{Name: "same struct by pointer and value", Threads: []Thread{marshal(small), marshal(small2)}},
		{Name: "different new structs sharing a field type", Threads: []Thread{marshal(other), marshal(small2)}},
		{Name: "struct with embedded struct, map, slice", Threads: []Thread{marshal(plain), marshal(plain)}},
		{Name: "Marshal and Unmarshal of a new type", Threads: []Thread{marshal(small2), unmarshal[Small](`{"n":3,"S":"x"}`)}},
		{Name: "Unmarshal of a new type", Threads: []Thread{unmarshal[Small](`{"n":3,"s":"x"}`), unmarshal[Small](`{"N":4,"s":"yy"}`)}},
		{Name: "case-insensitive members", Threads: []Thread{unmarshal[Wide](wide), unmarshal[Wide](wide2)}},
		{Name: "unknown members disallowed", Threads: []Thread{
			decode[Wide](`{"ALPHA":1} {"nope":2}`, 100, func(d *jc.Decoder) { d.DisallowUnknownFields() }),
			unmarshal[Wide](`{"Beta":1,"nope":2,"beta":3}`)}},
		{Name: "recursive type", Threads: []Thread{marshal(rec), marshal(rec)}},
		{Name: "recursive type, decoding", Threads: []Thread{unmarshal[Rec](`{"V":1,"next":{"v":2},"kids":[{"V":3}]}`), marshal(Rec{V: 9, Kids: []Rec{{V: 1}}})}},
		{Name: "mutually recursive types", Threads: []Thread{marshal(muta), marshal(mutb)}},
		{Name: "mutually recursive types, decoding", Threads: []Thread{unmarshal[MutA](`{"Name":"n","B":{"As":[{"Name":"m"}]}}`), unmarshal[MutB](`{"A":{"Name":"n"},"As":[]}`)}},
		{Name: "recursive map", Threads: []Thread{marshal(recmap), unmarshal[RecMap](`{"a":{"b":{}}}`)}},
		{Name: "recursive slice", Threads: []Thread{marshal(recslice), unmarshal[RecSlice](`[[],[[]]]`)}},
		{Name: "shared map, sorted", Threads: []Thread{marshal(m1), marshal(m1)}},
		{Name: "different maps, sorted", Threads: []Thread{marshal(m1), marshal(m2)}},
		{Name: "maps of other types", Threads: []Thread{marshal(mraw), marshal(mint)}},
		{Name: "shared raw map", Threads: []Thread{marshal(mraw), seq(marshal(mraw), marshal(m2))}},
		{Name: "shared Colors", Threads: []Thread{
			encode(func(e *jc.Encoder) { e.SetColors(clrs); indent(e) }, m1, small),
			encode(func(e *jc.Encoder) { e.SetColors(clrs) }, leaf2, m2)}},
		{Name: "shared Colors, same value", Threads: []Thread{
			encode(func(e *jc.Encoder) { e.SetColors(clrs) }, m2),
			encode(func(e *jc.Encoder) { e.SetColors(clrs) }, m2)}},
		{Name: "different Colors", Threads: []Thread{
			encode(func(e *jc.Encoder) { e.SetColors(clrs) }, small),
			encode(func(e *jc.Encoder) { e.SetColors(clrs2); indent(e) }, small)}},
		{Name: "Colors and none", Threads: []Thread{encode(func(e *jc.Encoder) { e.SetColors(clrs2) }, m2), marshal(m2)}},
		{Name: "different indentation", Threads: []Thread{
			encode(indent, m2), encode(func(e *jc.Encoder) { e.SetIndent(">", "\t") }, m2)}},
		{Name: "same indentation", Threads: []Thread{encode(indent, m1, small), encode(indent, m2, m2)}},
		{Name: "MarshalIndent", Threads: []Thread{marshalIndent(m2), marshalIndent(m1)}},
		{Name: "unsorted maps", Threads: []Thread{
			encode(func(e *jc.Encoder) { e.SetSortMapKeys(false); indent(e) }, map[string]any{"a": map[string]any{"b": 1}}),
			encode(func(e *jc.Encoder) { e.SetSortMapKeys(false); indent(e) }, map[string]any{"c": map[string]any{"d": 2}})}},
		{Name: "failing and succeeding values", Threads: []Thread{seq(marshal(bad), marshal(m1)), seq(marshal(m2), marshal(badf))}},
		{Name: "failing encodes reusing an encoder", Threads: []Thread{encode(indent, bad, m2), encode(nil, badf, small2, badraw)}},
		{Name: "failing raw values", Threads: []Thread{seq(marshal(badraw), marshal(mraw)), marshal(mraw)}},
		{Name: "failing writer", Threads: []Thread{func() func() string {
			w := &writer{fail: errors.New("disk full")}
			enc := jc.NewEncoder(w)
			e1 := enc.Encode(m2)
			e2 := enc.Encode(small)
			return func() string { return string(w.b) + errString(e1) + errString(e2) }
		}, encode(nil, m2, small)}},
		{Name: "results kept across calls", Threads: []Thread{seq(marshal("first"), marshal(small2), marshal([]int{1, 2, 3})), seq(marshal("second one"), marshal(12345), marshal(small2))}},
		{Name: "results longer than pooled buffers", Threads: []Thread{seq(marshal(long), marshal("x")), seq(marshal(huge), marshal("yy"))}},
		{Name: "scalars with scratch space", Threads: []Thread{marshal(leaf), marshal(leaf2)}},
		{Name: "floats", Threads: []Thread{marshal([]float64{1.25, 1e30, -1e-9}), marshal([]float32{3.5, 1e25})}},
		{Name: "integers", Threads: []Thread{marshal([]int{-123456, 78}), marshal([]uint8{1})}},
		{Name: "strings with escapes", Threads: []Thread{marshal("a\u2028\x01\"<"), marshal("bb\xff\\>é")}},
		{Name: "byte strings", Threads: []Thread{marshal([]byte("hello, world")), marshal([]byte{0, 1, 2})}},
		{Name: "times", Threads: []Thread{marshal([]any{time.Unix(1, 0).UTC(), time.Minute}), marshal([]any{time.Unix(1e9, 123456789).UTC(), time.Nanosecond})}},
		{Name: "quoted members", Threads: []Thread{marshal(quoted), unmarshal[Quoted](`{"i":"5","B":"true","f":"1e3","s":"\"z\""}`)}},
		{Name: "arrays", Threads: []Thread{marshal(arr), unmarshal[Arr](`[{"n":1},{"s":"z"}]`)}},
		{Name: "user methods", Threads: []Thread{marshal(&mj), marshal(mj2)}},
		{Name: "user methods calling back", Threads: []Thread{marshal(MJ{m2}), marshal(MJ{small2})}},
		{Name: "user unmarshal methods", Threads: []Thread{unmarshal[HasMJ](`{"A":{"x":1},"C":"t","D":{"k":2}}`), unmarshal[MJ](`[1,"two"]`)}},
		{Name: "text methods failing", Threads: []Thread{marshal([]MT{{"bad"}}), marshal([]MT{{"good"}})}},
		{Name: "into interfaces", Threads: []Thread{unmarshal[any](`{"a":[1,"x\n",{"b":null}],"c":1e2}`), unmarshal[any](`["y\u00e9",-5,true]`)}},
		{Name: "into maps and slices", Threads: []Thread{unmarshal[map[string]int](`{"a":1,"b":2}`), unmarshal[map[string][]int](`{"a":[1],"b":[2,3]}`)}},
		{Name: "failing decodes", Threads: []Thread{unmarshal[Small](`{"n":"x","s":"y"}`), unmarshal[Small](`{"n":1,`)}},
		{Name: "numbers into json.Number", Threads: []Thread{parse(`[1,{"a":2.50}] tail`, jc.UseNumber), parse(`{"b":3e4}`, jc.UseNumber)}},
		{Name: "zero copy", Threads: []Thread{parse(`["abc","d\"e"]`, jc.ZeroCopy), parse(`["abc","d\"e"]`, 0)}},
		{Name: "decoders", Threads: []Thread{decode[any](`{"a":1} [2,3] "x"`, 3, nil), decode[any](`"longer string value" 17 {"b":[]}`, 5, nil)}},
		{Name: "decoders of structs", Threads: []Thread{decode[Small](`{"n":1} {"s":"é"}`, 4, nil), decode[Small](`{"s":"zz"} {"n":x}`, 100, nil)}},
		{Name: "decoders with numbers", Threads: []Thread{decode[any](`1.50 {"a":2}`, 100, func(d *jc.Decoder) { d.UseNumber() }), decode[any](`[7.0]`, 100, nil)}},
		{Name: "encoder and decoder", Threads: []Thread{encode(nil, small2, m2), decode[Small](`{"n":1}{"n":2}`, 100, nil)}},
		{Name: "tokenizers", Threads: []Thread{tokens(`{"a":[1,"x\n"],"b":{}}`), tokens(`[true,{"k":null}]`)}},
		{Name: "Append with shared Colors", Threads: []Thread{appendTo(m2, jc.SortMapKeys, clrs, true), appendTo(small, jc.EscapeHTML|jc.SortMapKeys, clrs, true)}},
		{Name: "Append with Append flags", Threads: []Thread{appendTo("<a>", 0, nil, false), appendTo("<b>", jc.EscapeHTML, nil, false)}},
		{Name: "Valid, Compact, Indent", Threads: []Thread{func() func() string {
			ok := jc.Valid([]byte(`{"a":[1,2.5e3,"\u00e9"]}`))
			var buf bytes.Buffer
			err := jc.Compact(&buf, []byte(`{ "a" : [ 1 ] }`))
			return func() string { return fmt.Sprint(ok, buf.String(), errString(err)) }
		}, func() func() string {
			ok := jc.Valid([]byte(`[tru]`))
			var buf bytes.Buffer
			jc.HTMLEscape(&buf, []byte(`"<&"`))
			err := jc.Indent(&buf, []byte(`[1,{"a":2}]`), "", " ")
			return func() string { return fmt.Sprint(ok, buf.String(), errString(err)) }
		}}},
		{Name: "default colors", Threads: []Thread{func() func() string {
			c := jc.DefaultColors()
			c.Key = jc.Color("mine")
			b, err := jc.Append(nil, small, 0, c, nil)
			return func() string { return string(b) + errString(err) }
		}, func() func() string {
			c := jc.DefaultColors()
			c.Number = jc.Color("other")
			b, err := jc.Append(nil, small, 0, c, nil)
			return func() string { return string(b) + errString(err) }
		}}},
		{Name: "generic types", Threads: []Thread{marshal(Gen[int]{1}), marshal(Gen[string]{"s"})}},
		{Name: "unsupported types", Threads: []Thread{marshal(Gen[chan int]{}), marshal(Gen[func()]{})}},
		{Name: "anonymous and pointer types", Threads: []Thread{marshal(struct{ A, B int }{1, 2}), marshal(&struct{ A *int }{})}},
		{Name: "three marshals", Threads: []Thread{marshal("one"), marshal([]int{2, 2}), marshal(true)}},
		{Name: "three new types", Threads: []Thread{marshal(small2), marshal(Gen[Small]{small2}), unmarshal[Small](`{"n":1}`)}},
		{Name: "three maps", Threads: []Thread{marshal(map[string]any{"b": 1, "a": 2}), marshal(map[string]any{"d": 1, "c": 2}), marshal(map[string]any{"f": "x"})}},
		{Name: "slices of structs", Threads: []Thread{marshal([]Inner{inner}), unmarshal[[]Inner](`[{"x":1,"Y":["a"]}]`)}},
	}
}
