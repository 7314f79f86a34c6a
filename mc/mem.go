package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"reflect"
	"runtime"
	"runtime/debug"
	"strings"
	"syscall"
	"time"
	"unsafe"

	jc "github.com/neilotoole/jsoncolor"
)

// C30: memory. Texts, values and destinations are put where a stray access
// faults or leaves a trace, and the garbage collector runs at every point where
// user code does, in a process whose collector overwrites what it frees.

func init() {
	register(&check{
		id:     "C30",
		rule:   "every text of an alphabet in read-only pages, ending where an inaccessible page starts and starting where one ends, through every function that reads text; every pointer-free type as value and as destination at both edges; canaries around every destination of the type universe and outside of slices' capacity; garbage collection and stack growth in every user method under every type constructor, and before decoded values are looked at, with freed memory overwritten (GODEBUG=clobberfree=1); oracle: no fault, canaries intact, results as from ordinary memory and as encoding/json's",
		assume: []string{"an access outside of the tested object is seen if it leaves the page (reads) or hits the canaries (writes)"},
		env:    "GODEBUG=clobberfree=1",
		run:    runC30})
}

const pageSize = 4096

// region is memory between inaccessible pages.
type region struct{ mid []byte }

func newRegion(pages int) *region {
	m, err := syscall.Mmap(-1, 0, (pages+2)*pageSize, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_ANON|syscall.MAP_PRIVATE)
	if err != nil {
		panic(err)
	}
	if syscall.Mprotect(m[:pageSize], syscall.PROT_NONE) != nil || syscall.Mprotect(m[(pages+1)*pageSize:], syscall.PROT_NONE) != nil {
		panic("mprotect")
	}
	return &region{m[pageSize : (pages+1)*pageSize]}
}

func (r *region) protect(on bool) {
	p := syscall.PROT_READ
	if !on {
		p |= syscall.PROT_WRITE
	}
	if err := syscall.Mprotect(r.mid, p); err != nil {
		panic(err)
	}
}

var fillers = []string{`"`, "9", "\xff", "]", "\\", " "}

// put places text at an edge of the region, read-only.
func (r *region) put(text string, end bool, filler byte) []byte {
	r.protect(false)
	n := len(text)
	b := r.mid[:n:n]
	around := r.mid[n:min(n+64, len(r.mid))]
	if end {
		b = r.mid[len(r.mid)-n:]
		around = r.mid[max(0, len(r.mid)-n-64) : len(r.mid)-n]
	}
	copy(b, text)
	for i := range around {
		around[i] = filler
	}
	r.protect(true)
	return b
}

type memRet struct{ b []byte }

func (m memRet) MarshalJSON() ([]byte, error) { return m.b, nil }

type memTxt struct{ b []byte }

func (m memTxt) MarshalText() ([]byte, error) { return m.b, nil }

type memS struct {
	A    string
	Name int `json:"a"`
	B    []string
	X    *memS           `json:"k"`
	R    json.RawMessage `json:"b"`
	S    int             `json:"s,string"`
}

// memDests makes destinations of text.
var memDests = []func() any{
	func() any { return new(any) },
	func() any { return new(memS) },
	func() any { return new([]string) },
	func() any { return new([2]int8) },
	func() any { return new(map[string]string) },
	func() any { return new(map[int]any) },
	func() any { return new(json.RawMessage) },
	func() any { return new(json.Number) },
	func() any { return new(time.Time) },
	func() any { return new(time.Duration) },
	func() any { return new(bool) },
	func() any { return new(int64) },
	func() any { return new(uint8) },
	func() any { return new(float32) },
	func() any { return new(string) },
	func() any { return new([]byte) },
	func() any { return new(*int) },
	func() any { return new(map[string]json.RawMessage) },
	func() any { return new(UTStr) },
}

// reads runs everything that reads the bytes b and describes what came out.
func memReads(b []byte, dests []func() any, f func(what string, out any, err error)) {
	f("Valid", jc.Valid(b), nil)
	for i, d := range dests {
		for _, fl := range []jc.ParseFlags{0, jc.ZeroCopy | jc.UseNumber, jc.DontMatchCaseInsensitiveStructFields | jc.DisallowUnknownFields} {
			if fl > jc.UseNumber|jc.ZeroCopy && i != 1 {
				continue
			}
			x := d()
			rest, err := jc.Parse(b, x, fl)
			f(fmt.Sprintf("Parse(%T, %d)", x, fl), []any{x, len(rest)}, err)
		}
	}
	x := dests[0]()
	err := jc.Unmarshal(b, x)
	f("Unmarshal", x, err)
	tok := jc.NewTokenizer(b)
	n := 0
	for tok.Next() {
		if n++; tok.Value.String() {
			n = n*31 + len(tok.Value.Unquote())
			n += len(tok.Value.AppendUnquote(make([]byte, 3, 8)))
		}
	}
	f("Tokenizer", n, tok.Err)
}

func memEncodes(b []byte, f func(what string, out any, err error)) {
	s := unsafe.String(unsafe.SliceData(b), len(b))
	full := fullPalette().colors()
	for _, k := range []encConf{{html: true}, {colors: full, indent: " "}, {html: true, trust: true, prefix: " "}, {unsorted: true, html: true, colors: full}} {
		for _, x := range []any{json.RawMessage(b), []any{memRet{b}}, map[string]json.RawMessage{"a": json.RawMessage(b)}, s, map[string]any{s: s}, map[string]int{s: 1}, json.Number(s), b, memTxt{b}, &struct {
			S string      `json:",string"`
			N json.Number `json:",string,omitempty"`
			B []byte
		}{s, json.Number(s), b}} {
			out, err, pan := k.append(nil, x)
			if pan != nil {
				panic(pan)
			}
			f(fmt.Sprintf("Append(%T, %v)", x, k), string(out), err)
		}
	}
}

type memOut struct {
	what string
	out  any
	err  error
}

func (c *C) memText(r *region, text string, dests []func() any, enc bool) {
	run := func(b []byte, f func(what string, out any, err error)) {
		memReads(b, dests, f)
		if enc {
			memEncodes(b, f)
		}
	}
	var want []memOut
	run([]byte(text), func(w string, o any, e error) { want = append(want, memOut{w, o, e}) })
	for at := 0; at < 2; at++ {
		b := r.put(text, at == 1, fillers[len(text)%len(fillers)][0])
		i := 0
		last := "Valid"
		pan := catch(func() {
			run(b, func(w string, o any, e error) {
				c.Trans(1)
				m := want[i]
				i++
				last = "what follows " + w
				if w != m.what || (e == nil) != (m.err == nil) || !reflect.DeepEqual(o, m.out) {
					c.Fail("differs "+w, "%s of %q at the %s of readable memory: %v %v, elsewhere %v %v", w, clip(text, 300), []string{"start", "end"}[at], o, e, m.out, m.err)
				} else {
					c.Valid(1)
				}
			})
		})
		c.State(1)
		if pan != nil {
			c.Fail("fault "+last, "%q, read-only at the %s of readable memory, %s: %v", clip(text, 300), []string{"start", "end"}[at], last, pan)
		}
	}
}

func hasPointers(t reflect.Type) bool {
	switch t.Kind() {
	case reflect.Bool, reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64, reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr, reflect.Float32, reflect.Float64:
		return false
	case reflect.Array:
		return t.Len() > 0 && hasPointers(t.Elem())
	case reflect.Struct:
		for i := 0; i < t.NumField(); i++ {
			if hasPointers(t.Field(i).Type) {
				return true
			}
		}
		return false
	}
	return true
}

// memEdges puts the values of a pointer-free type at the edges.
func (c *C) memEdges(r *region, l leafT) {
	t := l.t
	size := int(t.Size())
	if size == 0 || size > len(r.mid) {
		return
	}
	off := len(r.mid) - size
	off -= off % t.Align()
	for _, at := range []int{0, off} {
		place := func(v reflect.Value) reflect.Value {
			for i := range r.mid {
				r.mid[i] = 0xa5
			}
			d := reflect.NewAt(t, unsafe.Pointer(&r.mid[at]))
			d.Elem().SetZero()
			if v.IsValid() {
				d.Elem().Set(v)
			}
			return d
		}
		intact := func() bool {
			for i, x := range r.mid {
				if (i < at || i >= at+size) && x != 0xa5 {
					return false
				}
			}
			return true
		}
		for i, v := range l.vals {
			want, werr, wpan := stdEncode(v.Interface(), true)
			for _, k := range []encConf{{html: true}, {indent: " ", colors: fullPalette().colors()}} {
				ref, rerr, _ := k.append(nil, ptrTo(v).Interface())
				d := place(v)
				var out []byte
				var err error
				r.protect(true)
				pan := catch(func() { out, err, _ = k.append(nil, d.Interface()) })
				r.protect(false)
				c.State(1)
				c.Trans(1)
				if pan != nil || !intact() {
					c.Fail("encode "+typeKey(l, i), "encoding %s at byte %d of %d of the readable memory: fault %v or neighbours changed", show(v.Interface()), at, len(r.mid), pan)
					continue
				}
				if !bytes.Equal(out, ref) || (err == nil) != (rerr == nil) {
					c.Fail("encode "+typeKey(l, i), "encoding %s at byte %d: %q %v, elsewhere %q %v", show(v.Interface()), at, out, err, ref, rerr)
					continue
				}
				c.Valid(1)
			}
			if werr != nil || wpan != nil || !decodable(l) {
				continue
			}
			variantsOf(fewAlts, string(want), true, func(text string) {
				e := reflect.New(t)
				var jerr, herr error
				if catch(func() { herr = jc.Unmarshal([]byte(text), e.Interface()) }) != nil {
					return
				}
				d := place(reflect.Value{})
				pan := catch(func() { jerr = jc.Unmarshal([]byte(text), d.Interface()) })
				c.State(1)
				c.Trans(1)
				if pan != nil || !intact() {
					c.Fail("decode "+l.name, "decoding %q into %v at byte %d of %d of the writable memory: fault %v or neighbours changed", clip(text, 300), t, at, len(r.mid), pan)
					return
				}
				if (jerr == nil) != (herr == nil) || !reflect.DeepEqual(d.Elem().Interface(), e.Elem().Interface()) && !sameBits(d.Elem(), e.Elem()) {
					c.Fail("decode "+l.name, "decoding %q into %v at byte %d: %v %v, elsewhere %v %v", clip(text, 300), t, at, d.Elem(), jerr, e.Elem(), herr)
					return
				}
				c.Valid(1)
			})
		}
	}
}

// sameBits compares pointer-free values as memory (NaN).
func sameBits(a, b reflect.Value) bool {
	n := int(a.Type().Size())
	x := unsafe.Slice((*byte)(a.Addr().UnsafePointer()), n)
	y := unsafe.Slice((*byte)(b.Addr().UnsafePointer()), n)
	return bytes.Equal(x, y)
}

const canary = 0x5aa55aa55aa55aa5

// memCanaries decodes into the middle of larger objects.
func (c *C) memCanaries(l leafT, nd, max int, bad bool) {
	if !decodable(l) {
		return
	}
	u64 := reflect.TypeOf([2]uint64{})
	var st, sliceT reflect.Type
	if catch(func() {
		st = reflect.StructOf([]reflect.StructField{{Name: "Pre", Type: u64}, {Name: "V", Type: l.t}, {Name: "Post", Type: u64}})
		sliceT = reflect.SliceOf(st)
	}) != nil {
		return
	}
	_ = sliceT
	elem := l.t
	if l.t.Kind() == reflect.Slice {
		elem = l.t.Elem()
	}
	one := func(text string) {
		s := reflect.New(st).Elem()
		for _, i := range []int{0, 2} {
			s.Field(i).Set(reflect.ValueOf([2]uint64{canary, canary}))
		}
		c.State(1)
		c.Trans(1)
		pan := catch(func() { jc.Unmarshal([]byte(text), s.Field(1).Addr().Interface()) })
		if pan != nil {
			return // judged by C12
		}
		for _, i := range []int{0, 2} {
			if s.Field(i).Interface() != [2]uint64{canary, canary} {
				c.Fail("canary "+l.name, "decoding %q into %v overwrites what is next to it: %x, %x", clip(text, 300), l.t, s.Field(0), s.Field(2))
				return
			}
		}
		if l.t.Kind() == reflect.Slice && elem.Size() > 0 {
			// a slice in the middle of its array
			for capac := 1; capac <= 3; capac++ {
				back := reflect.MakeSlice(reflect.SliceOf(elem), 6, 6)
				raw := unsafe.Slice((*byte)(back.UnsafePointer()), int(elem.Size())*6)
				if !hasPointers(elem) {
					for i := range raw {
						raw[i] = 0x5a
					}
				}
				before := append([]byte{}, raw...)
				d := reflect.New(l.t)
				d.Elem().Set(back.Slice3(2, 2, 2+capac).Convert(l.t))
				if catch(func() { jc.Unmarshal([]byte(text), d.Interface()) }) != nil {
					return
				}
				lo, hi := 2*int(elem.Size()), (2+capac)*int(elem.Size())
				if !bytes.Equal(raw[:lo], before[:lo]) || !bytes.Equal(raw[hi:], before[hi:]) {
					c.Fail("capacity "+l.name, "decoding %q into a %v of capacity %d overwrites elements outside of it", clip(text, 300), l.t, capac)
					return
				}
				runtime.KeepAlive(back)
			}
		}
		c.Valid(1)
	}
	for _, d := range append(docsOf(l, nd, max), `null`, `[]`, `{}`) {
		variantsOf(fewAlts, d, bad, one)
	}
	if l.t.Kind() == reflect.Slice || l.t.Kind() == reflect.Array {
		for n := 0; n < 24; n++ {
			for _, e := range []string{`null`, `1`, `"a"`, `{"a":1}`, `[1,2,3]`, `true`} {
				one("[" + strings.TrimSuffix(rep(e+",", n), ",") + "]")
			}
		}
	}
}

// ---------------------------------------------------------------------------
// User methods that collect garbage, and move the stack.

var memSink [][]byte

// memAt is the call of a user method, counted by memCalls, that collects
// garbage, or does what memFault says.
var memAt, memCalls int
var memFault func() error

func memDisturb() error {
	if memFault == nil {
		memGrow(40)
	}
	if memCalls++; memCalls == memAt {
		if memFault != nil {
			return memFault()
		}
		memCollect()
	}
	return nil
}

func memArm(at int) { memAt, memCalls = at, 0 }

func memCollect() {
	runtime.GC()
	memSink = nil
	for i := 0; i < 40; i++ {
		b := make([]byte, 16<<uint(i%7))
		for j := range b {
			b[j] = 0xee
		}
		memSink = append(memSink, b)
	}
}

//go:noinline
func memGrow(n int) int {
	var a [2048]byte
	a[n] = byte(n)
	if n > 0 {
		return memGrow(n-1) + int(a[n])
	}
	return int(a[0])
}

// fresh returns s in memory of its own, so that a use after free shows.
func memFresh(s string) string { return string(append([]byte{}, s...)) }

type GcJ struct{ S *string }
type GcJP struct {
	S string
	N *int
}
type GcT struct{ S *string }
type GcK string
type GcKS struct{ S string }
type GcStr string
type GcMap map[string]*int
type GcSl []*string

func (g GcJ) MarshalJSON() ([]byte, error) {
	if err := memDisturb(); err != nil {
		return nil, err
	}
	if g.S == nil {
		return []byte(`{}`), nil
	}
	return json.Marshal(*g.S)
}
func (g *GcJ) UnmarshalJSON(b []byte) error {
	if err := memDisturb(); err != nil {
		return err
	}
	s := string(b)
	g.S = &s
	return nil
}
func (g *GcJP) MarshalJSON() ([]byte, error) {
	if err := memDisturb(); err != nil {
		return nil, err
	}
	n := -1
	if g.N != nil {
		n = *g.N
	}
	return json.Marshal(map[string]any{"s": g.S, "n": n})
}
func (g *GcJP) UnmarshalJSON(b []byte) error {
	g.N = new(int)
	if err := memDisturb(); err != nil {
		return err
	}
	*g.N = len(b)
	g.S = string(b)
	return nil
}
func (g GcT) MarshalText() ([]byte, error) {
	if err := memDisturb(); err != nil {
		return nil, err
	}
	if g.S == nil {
		return []byte("nil"), nil
	}
	return []byte(*g.S), nil
}
func (g *GcT) UnmarshalText(b []byte) error {
	if err := memDisturb(); err != nil {
		return err
	}
	s := "t" + string(b)
	g.S = &s
	return nil
}
func (g GcKS) MarshalText() ([]byte, error) {
	if err := memDisturb(); err != nil {
		return nil, err
	}
	return []byte("k" + g.S), nil
}
func (g *GcKS) UnmarshalText(b []byte) error {
	if err := memDisturb(); err != nil {
		return err
	}
	g.S = string(b)
	return nil
}
func (g GcK) MarshalText() ([]byte, error) {
	if err := memDisturb(); err != nil {
		return nil, err
	}
	return []byte("K" + string(g)), nil
}
func (g *GcK) UnmarshalText(b []byte) error {
	if err := memDisturb(); err != nil {
		return err
	}
	*g = GcK(b)
	return nil
}
func (g *GcStr) UnmarshalJSON(b []byte) error {
	if err := memDisturb(); err != nil {
		return err
	}
	*g += GcStr(b)
	return nil
}
func (g GcMap) MarshalJSON() ([]byte, error) {
	if err := memDisturb(); err != nil {
		return nil, err
	}
	return json.Marshal(map[string]*int(g))
}
func (g GcSl) MarshalText() ([]byte, error) {
	if err := memDisturb(); err != nil {
		return nil, err
	}
	return []byte(fmt.Sprint(len(g))), nil
}
func (g *GcSl) UnmarshalText(b []byte) error {
	if err := memDisturb(); err != nil {
		return err
	}
	s := string(b)
	*g = append(*g, &s)
	return nil
}

type gcAround struct {
	A string
	J GcJ
	B *string
	K *GcJP
	C []byte
	T map[GcKS]GcT
	D map[string]any
	M GcMap
	E []string
	S GcSl
	F json.RawMessage
	U GcStr
	Z any
}

func gcLeaves() []leafT {
	n := 7
	str := func(s string) *string { s = memFresh(s); return &s }
	return []leafT{
		L(GcJ{}, GcJ{str("text of a marshaler")}), L(GcJP{}, GcJP{memFresh("abc"), &n}), L(GcT{}, GcT{str("some<text>")}),
		L(map[GcKS]string{{"b"}: "x", {"a"}: "y"}), L(map[GcK]GcJ{"q": {}, "p": {str("v")}}), L(GcStr("start")), L(GcMap{"a": &n}), L(GcSl{str("1")}),
		L(map[string]any{"a": GcJ{str("in any")}, "b": []any{&GcJP{"p", &n}, GcT{str("x")}}, "c": memFresh("c")}),
		L(gcAround{}, gcAround{"a", GcJ{str("j")}, str("b"), &GcJP{"k", &n}, []byte("cccc"), map[GcKS]GcT{{"1"}: {str("2")}}, map[string]any{"z": GcT{str("zz")}, "y": memFresh("y")}, GcMap{"m": &n}, []string{"e", memFresh("ee")}, GcSl{str("s")}, json.RawMessage(`{"raw":[1]}`), "u", GcJ{str("any")}}),
	}
}

// gcType collects garbage in each of the first points calls of user methods.
func (c *C) gcType(l leafT, nd, points int, variants bool) {
	for i, v := range l.vals {
		x := v.Interface()
		want, werr, wpan := stdEncode(x, true)
		for _, k := range []encConf{{html: true}, {indent: " ", html: true}, {html: true, unsorted: true}} {
			if k.unsorted && !strings.Contains(l.name, "map") {
				continue
			}
			for at, calls := 1, 1; at <= calls && at <= points; at++ {
				memArm(at)
				out, err, pan := k.append(nil, x)
				calls = memCalls
				memArm(0)
				c.State(1)
				c.Trans(1)
				if pan != nil || wpan != nil {
					if !bothPanic(pan, wpan) {
						c.Fail("panic "+typeKey(l, i), "%v of %s with garbage collection in user methods: panic %v, encoding/json %v", k, show(x), pan, wpan)
					}
					continue
				}
				if (err == nil) != (werr == nil) {
					c.Fail("error "+typeKey(l, i), "%v of %s: %v, encoding/json %v", k, show(x), err, werr)
					continue
				}
				if err != nil {
					continue
				}
				if k.unsorted {
					g, _, ok := ordDoc([]byte(canonDoc(out)), true)
					w, _, _ := ordDoc([]byte(canonDoc(want)), true)
					if !ok || g != w {
						c.Fail("output "+typeKey(l, i), "%v of %s: %q, encoding/json %q", k, show(x), out, want)
						continue
					}
				} else if w := indented([]byte(canonDoc(want)), k.prefix, k.indent); canonDoc(out) != canonDoc(want) || k.indent != "" && len(w) == 0 {
					c.Fail("output "+typeKey(l, i), "%v of %s with garbage collection in user methods: %q, encoding/json %q", k, show(x), out, want)
					continue
				}
				c.Valid(1)
			}
		}
	}
	if !decodable(l) {
		return
	}
	for _, d := range append(docsOf(l, nd, 400), `null`) {
		one := func(text string) {
			b := reflect.New(l.t)
			var se error
			sp := catch(func() { se = json.Unmarshal([]byte(text), b.Interface()) })
			for at, calls := 1, 1; at <= calls && at <= points; at++ {
				a := reflect.New(l.t)
				var je error
				memArm(at)
				jp := catch(func() { je = jc.Unmarshal([]byte(text), a.Interface()) })
				calls = memCalls
				memArm(0)
				c.State(1)
				c.Trans(1)
				if sp != nil || je != nil && se != nil {
					return
				}
				if jp != nil || (je == nil) != (se == nil) {
					if !mentions(l.t, isDur) && !mentions(l.t, quotedOdd) {
						c.Fail("decode "+l.name, "Unmarshal(%q) into %v with garbage collection in user methods: %v %v, encoding/json %v", clip(text, 300), l.t, je, jp, se)
					}
					return
				}
				if !decSame(a.Elem(), b.Elem()) {
					c.Fail("decoded "+l.name, "Unmarshal(%q) into %v with garbage collection in user methods:\n got  %s\n want %s", clip(text, 300), l.t, dump(a), dump(b))
					return
				}
				c.Valid(1)
			}
		}
		one(d)
		if variants {
			variantsOf(fewAlts[:6], d, false, one)
		}
	}
}

// gcDecoded decodes, collects garbage, and only then looks.
func (c *C) gcDecoded(l leafT, nd, max int) {
	if !decodable(l) {
		return
	}
	type kept struct {
		text string
		got  reflect.Value
		want string
		how  string
	}
	var ks []kept
	var enc [][]byte
	var encWant []string
	for _, d := range append(docsOf(l, nd, max), `null`) {
		variantsOf(fewAlts, d, false, func(text string) {
			b := reflect.New(l.t)
			var se error
			if catch(func() { se = json.Unmarshal([]byte(text), b.Interface()) }) != nil || se != nil {
				return
			}
			for _, how := range []string{"Unmarshal", "Parse with ZeroCopy", "Decoder"} {
				a := reflect.New(l.t)
				var je error
				pan := catch(func() {
					switch how {
					case "Unmarshal":
						je = jc.Unmarshal([]byte(text), a.Interface())
					case "Parse with ZeroCopy":
						_, je = jc.Parse([]byte(text), a.Interface(), jc.ZeroCopy)
					case "Decoder":
						je = jc.NewDecoder(strings.NewReader(text)).Decode(a.Interface())
					}
				})
				if pan != nil || je != nil {
					continue // judged by C12
				}
				if !decSame(a.Elem(), b.Elem()) {
					continue // judged by C12
				}
				ks = append(ks, kept{text, a, dump(a), how})
				c.State(1)
				c.Trans(1)
			}
		})
	}
	for _, v := range l.vals {
		if out, err, pan := (encConf{html: true}).append(nil, v.Interface()); err == nil && pan == nil {
			enc, encWant = append(enc, out), append(encWant, memFresh(string(out)))
		}
		catch(func() {
			if out, err := jc.Marshal(v.Interface()); err == nil {
				enc, encWant = append(enc, out), append(encWant, memFresh(string(out)))
			}
		})
	}
	memCollect()
	for _, k := range ks {
		if g := dump(k.got); g != k.want {
			c.Fail("lost "+l.name, "%s of %q into %v, after a garbage collection:\n got  %s\n want %s", k.how, clip(k.text, 300), l.t, g, k.want)
			return
		}
		c.Valid(1)
	}
	for i := range enc {
		if string(enc[i]) != encWant[i] {
			c.Fail("lost output "+l.name, "the output of a value of %v after a garbage collection: %q, before %q", l.t, enc[i], encWant[i])
			return
		}
		c.Valid(1)
	}
}

func runC30(c *C) {
	debug.SetPanicOnFault(true)
	runtime.GOMAXPROCS(2)
	debug.SetGCPercent(400)
	r := newRegion(2)
	all := memDests
	few := []func() any{memDests[0], memDests[1], memDests[6]}
	text := func(s string) { c.memText(r, s, all, true) }
	textFew := func(s string) { c.memText(r, s, few, false) }
	chars := []string{`"`, `\`, "u", "0", "9", "a", "é", "\xe2", "\x80", "-", ".", "e", "n", "t", "[", "\x1f", "\x7f"}
	c.batches("tokens", tokAlphabet, 0, c.Pick(3, 4), 1, same, text)
	c.batches("characters", chars, 0, c.Pick(3, 3), 1, same, text)
	c.batches("tokens, some readers", tokAlphabet, c.Pick(4, 4), c.Pick(4, 5), 2, same, textFew)
	c.batches("characters, some readers", chars, 4, c.Pick(4, 5), 2, same, textFew)
	hexs := []string{"0", "d", "8", "g", `"`, `\`, "u"}
	c.batches("escapes at the edge", hexs, 0, c.Pick(5, 6), 1, func(s string) string { return `"\u` + s }, textFew)
	c.batches("second escapes at the edge", hexs, 0, c.Pick(4, 5), 1, func(s string) string { return `"\ud83d` + s }, textFew)
	// every length and alignment
	c.Case(func() string { return "strings, keys and numbers of every length" }, func() {})
	for n := 0; n <= c.Pick(72, 200); n++ {
		c.Case(func() string { return fmt.Sprintf("literals of %d bytes, whole and cut", n) }, func() {
			for _, sp := range []string{"", "a", `\n`, "é", `\u00e9`, "\x01", "\xff", `\`, "\u2028", "<"} {
				for _, s := range []string{`"` + rep("a", n) + sp, `"` + rep("a", n) + sp + `"`, `"` + sp + rep("a", n) + `"`, `{"` + rep("a", n) + sp + `":1`, `{"` + rep("A", n) + sp + `":1}`, `["` + rep("é", n/2) + sp + `"]`} {
					text(s)
				}
			}
			for _, s := range []string{rep("1", n), "-" + rep("9", n), "0." + rep("0", n), "1e" + rep("0", n), rep(" ", n), rep(" ", n) + "1" + rep("\n", n), rep("[", n), rep("[", n) + rep("]", n), rep(`{"":`, n) + "1" + rep("}", n), "[" + rep("1,", n) + "2]", rep("a", n), rep("é", n), rep("\xff", n), rep("<", n)} {
				text(s)
			}
		})
	}
	for i, d := range append(append(append([]string{}, valAlts...), badAlts...), `{"A":"x","a":1,"B":["1","2"],"k":{"A":null},"b":{"r":[1]},"s":"12","zz":[{}]}`, `["2021-02-03T04:05:06Z","1h2m",-12.5e+3,true,false,null]`) {
		c.Case(func() string { return fmt.Sprintf("document %d %q and its prefixes", i, d) }, func() {
			variantsOf(fewAlts, d, true, text)
			for j := range d {
				text(d[j:])
			}
		})
	}
	for i, d := range []string{`{"A":"x","a":1,"B":["1","2"],"k":{"A":null},"b":{"r":[1]},"s":"12","zz":[{}]}`} {
		for cut := 0; cut < len(d); cut += 8 {
			c.Case(func() string { return fmt.Sprintf("document %d, all bytes replaced from %d", i, cut) }, func() {
				for j := cut; j < cut+8 && j < len(d); j++ {
					for _, a := range chars {
						textFew(d[:j] + a + d[j+1:])
						textFew(d[:j] + a)
					}
				}
			})
		}
	}
	c.Bound("texts at both edges of readable memory, read-only")
	// values and destinations at the edges
	r2 := newRegion(1)
	free := leafT{}
	_ = free
	var lv []leafT
	for _, l := range allDecLeaves() {
		if !hasPointers(l.t) && l.t.Size() > 0 {
			lv = append(lv, l)
		}
	}
	lv = append(lv, L([3]int8{1, 2, 3}), L([5]uint16{1, 2}), L([7]bool{true}), L([3]float32{1}), L(struct {
		A int8
		B int16 `json:",omitempty"`
	}{1, 2}), L(struct {
		A bool   `json:",omitempty"`
		B uint8  `json:",omitempty"`
		C uint32 `json:",omitempty"`
		D int8   `json:",omitempty"`
	}{D: 0}, struct {
		A bool   `json:",omitempty"`
		B uint8  `json:",omitempty"`
		C uint32 `json:",omitempty"`
		D int8   `json:",omitempty"`
	}{true, 1, 2, 3}), L(struct {
		A float32 `json:",omitempty,string"`
		B uint16  `json:",omitempty,string"`
	}{}, struct {
		A float32 `json:",omitempty,string"`
		B uint16  `json:",omitempty,string"`
	}{1, 2}), L(struct{ D time.Duration }{1}))
	c.universeOf(lv, 2, nil, func(d int) int { return c.Pick(6, 12) }, func(l leafT) {
		if !hasPointers(l.t) {
			c.Count("pointer_free_types", 1)
			c.memEdges(r2, l)
		}
	})
	c.universeOf(allDecLeaves(), 1, nil, func(d int) int { return 6 }, func(l leafT) { c.memCanaries(l, c.Pick(2, 6), 400, c.thorough) })
	if c.thorough {
		c.universeOf(allDecLeaves(), 2, decPairs(), func(d int) int { return 3 }, func(l leafT) { c.memCanaries(l, 1, 300, false) })
	}
	// garbage collection
	c.universeOf(gcLeaves(), 1, nil, func(d int) int { return 3 }, func(l leafT) { c.gcType(l, 2, c.Pick(3, 10), c.thorough) })
	if c.thorough {
		c.universeOf(gcLeaves(), 2, nil, func(d int) int { return 2 }, func(l leafT) { c.gcType(l, 1, 2, false) })
	}
	c.universeOf(allDecLeaves(), 1, nil, func(d int) int { return 6 }, func(l leafT) { c.gcDecoded(l, c.Pick(2, 4), 400) })
	if c.thorough {
		c.universeOf(allDecLeaves(), 2, decPairs(), func(d int) int { return 3 }, func(l leafT) { c.gcDecoded(l, 1, 200) })
		c.scales(c.scaleLim(), func(l leafT) { c.gcDecoded(l, 1, 1<<16) })
	}
}
