package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math"
	"reflect"
	"sort"
	"strings"
	"time"

	jc "github.com/neilotoole/jsoncolor"
)

func init() {
	register(&check{id: "C22", rule: "struct types made of all selections and orders of up to three fields out of a list of field declarations (tags, options, unexported and embedded fields, conflicting names), and generated types with all pairs of unexported, pointer and recursive embeddings; every zero/non-zero assignment of their fields is encoded and every key spelling of their members decoded, in lock-step with encoding/json", run: runC22})
}

// fill sets v to a value that is nowhere empty.
func fill(v reflect.Value, n *int, d int) {
	*n++
	switch v.Kind() {
	case reflect.Bool:
		v.SetBool(true)
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		v.SetInt(int64(*n))
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		v.SetUint(uint64(*n))
	case reflect.Float32, reflect.Float64:
		v.SetFloat(float64(*n) + 0.5)
	case reflect.String:
		v.SetString(fmt.Sprintf("s%d", *n))
	case reflect.Pointer:
		if d < 3 {
			p := reflect.New(v.Type().Elem())
			fill(p.Elem(), n, d+1)
			v.Set(p)
		}
	case reflect.Interface:
		if v.NumMethod() == 0 {
			v.Set(reflect.ValueOf(*n))
		}
	case reflect.Slice:
		v.Set(reflect.MakeSlice(v.Type(), 1, 1))
		fill(v.Index(0), n, d+1)
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			fill(v.Index(i), n, d+1)
		}
	case reflect.Map:
		v.Set(reflect.MakeMap(v.Type()))
		k, e := reflect.New(v.Type().Key()).Elem(), reflect.New(v.Type().Elem()).Elem()
		fill(k, n, d+1)
		fill(e, n, d+1)
		v.SetMapIndex(k, e)
	case reflect.Struct:
		if v.Type() == timeT {
			v.Set(reflect.ValueOf(time.Unix(int64(*n), 0).UTC()))
			return
		}
		for i := 0; i < v.NumField(); i++ {
			fill(settable(v.Field(i)), n, d+1)
		}
	}
}

// settable gives write access to unexported fields too.
func settable(v reflect.Value) reflect.Value {
	if v.CanSet() {
		return v
	}
	return reflect.NewAt(v.Type(), v.Addr().UnsafePointer()).Elem()
}

func c22(c *C, t reflect.Type, few bool) {
	key := t.String()
	nf := t.NumField()
	// encoding: every assignment of zero and non-zero values to the fields
	last := 1<<min(nf, 4) - 1
	for m := 0; m <= last; m++ {
		if nf > 3 && m != 0 && m != last {
			continue
		}
		pv := reflect.New(t)
		n := 0
		for i := 0; i < nf; i++ {
			if m == last || nf <= 3 && m>>i&1 == 1 {
				fill(settable(pv.Elem().Field(i)), &n, 0)
			}
		}
		for k, x := range []any{pv.Elem().Interface(), pv.Interface()} {
			if k == 1 && m != last {
				continue
			}
			c.State(1)
			c.Trans(1)
			var out []byte
			var err error
			pan := catch(func() { out, err = jc.Marshal(x) })
			want, serr, _ := stdEncode(x, true)
			if pan != nil || (err != nil) != (serr != nil) || err == nil && !bytes.Equal(out, want) && string(out) != canonical(want) {
				c.Fail(fmt.Sprintf("encode %s %d", key, m), "encoding %v %#v:\n got  %s %v %v\n want %s %v", t, pv.Elem().Interface(), out, err, pan, want, serr)
				return
			}
			c.Valid(1)
		}
	}
	// decoding: every spelling of every name
	names := map[string]bool{}
	var walk func(t reflect.Type, d int)
	walk = func(t reflect.Type, d int) {
		if t.Kind() == reflect.Pointer {
			t = t.Elem()
		}
		if t.Kind() != reflect.Struct || d > 3 || t == timeT {
			return
		}
		for i := 0; i < t.NumField(); i++ {
			f := t.Field(i)
			names[f.Name] = true
			tag := f.Tag.Get("json")
			names[strings.Split(tag, ",")[0]] = true
			if tag != "" {
				names[tag] = true
			}
			if f.Anonymous {
				walk(f.Type, d+1)
			}
		}
	}
	walk(t, 0)
	names["zz"] = true
	var keys []string
	seen := map[string]bool{}
	for s := range names {
		for _, k := range []string{s, strings.ToUpper(s), strings.ToLower(s)} {
			if !seen[k] {
				seen[k] = true
				keys = append(keys, k)
			}
		}
	}
	sort.Strings(keys)
	try := func(text string) {
		c.State(1)
		c.Trans(1)
		a, b := reflect.New(t), reflect.New(t)
		je, se, jp, sp := unmarshal2(text, a.Interface(), b.Interface())
		if sp != nil {
			return
		}
		if jp != nil || (je != nil) != (se != nil) || je == nil && !decSame(a.Elem(), b.Elem()) {
			c.Fail("decode "+key+" "+text, "decoding %s into %v:\n got  %s %v %v\n want %s %v", text, t, dump(a), je, jp, dump(b), se)
			return
		}
		if je == nil {
			c.Valid(1)
		}
	}
	vals := []string{`5`, `"5"`, `{"A":7,"a":8,"X":9,"B":6}`, `null`, `[1]`}
	for _, k := range keys {
		q := string(mustJSON(k))
		for i, v := range vals {
			if few && i > 2 {
				break
			}
			try(`{` + q + `:` + v + `}`)
		}
	}
	if few && len(keys) > 8 {
		keys = keys[:8]
	}
	for _, k := range keys {
		for _, l := range keys {
			if k == l || few && !strings.EqualFold(k, l) {
				continue
			}
			try(`{` + string(mustJSON(k)) + `:1,` + string(mustJSON(l)) + `:2}`)
			if !few {
				try(`{` + string(mustJSON(k)) + `:"1",` + string(mustJSON(l)) + `:null}`)
			}
		}
	}
}

// runC22empty: what omitempty takes for empty, over the values of every kind.
func runC22empty(c *C) {
	var domains [][]reflect.Value
	for _, k := range []any{int8(0), uint8(0), int16(0), uint16(0), int(0), int32(0), int64(0), uint(0), uint32(0), uint64(0), uintptr(0), NInt(0), float32(0), float64(0), NInt8(0), NUint16(0), NFloat(0)} {
		t := reflect.TypeOf(k)
		var d []reflect.Value
		add := func(f func(v reflect.Value)) {
			v := reflect.New(t).Elem()
			f(v)
			d = append(d, v)
		}
		switch bits := t.Bits(); t.Kind() {
		case reflect.Float32, reflect.Float64:
			for i := -1; i < bits; i++ {
				for j := i; j < bits; j++ {
					var u uint64
					if i >= 0 {
						u = 1<<i | 1<<j
					}
					f := math.Float64frombits(u)
					if bits == 32 {
						f = float64(math.Float32frombits(uint32(u)))
					}
					if !math.IsNaN(f) && !math.IsInf(f, 0) {
						add(func(v reflect.Value) { v.SetFloat(f) })
					}
				}
			}
		case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
			if bits <= 16 {
				for i := -1 << (bits - 1); i < 1<<(bits-1); i++ {
					add(func(v reflect.Value) { v.SetInt(int64(i)) })
				}
				break
			}
			for i := -1; i < bits; i++ {
				for j := i; j < bits; j++ {
					var u int64
					if i >= 0 {
						u = 1<<i | 1<<j
					}
					add(func(v reflect.Value) { v.SetInt(u) })
					add(func(v reflect.Value) { v.SetInt(-u) })
				}
			}
		default:
			if bits <= 16 {
				for i := 0; i < 1<<bits; i++ {
					add(func(v reflect.Value) { v.SetUint(uint64(i)) })
				}
				break
			}
			for i := -1; i < bits; i++ {
				for j := i; j < bits; j++ {
					var u uint64
					if i >= 0 {
						u = 1<<i | 1<<j
					}
					add(func(v reflect.Value) { v.SetUint(u) })
				}
			}
		}
		domains = append(domains, d)
	}
	of := func(xs ...any) {
		var d []reflect.Value
		for _, x := range xs {
			v := reflect.New(reflect.TypeOf(xs[0])).Elem()
			v.Set(reflect.ValueOf(x))
			d = append(d, v)
		}
		domains = append(domains, d)
	}
	of("", "\x00", " ", "0", "null", "false", rep("x", 256), rep("x", 65536))
	of(NStr(""), NStr("\x00"), NStr("a"))
	of(json.Number(""), json.Number("0"), json.Number("-0"))
	of(false, true)
	of([]int(nil), []int{}, make([]int, 0, 9), []int{0}, make([]int, 256), make([]int, 65536))
	of([]byte(nil), []byte{}, make([]byte, 0, 9), []byte{0}, make([]byte, 256), make([]byte, 65536))
	of([]string(nil), []string{}, []string{""})
	of([]any(nil), []any{}, []any{nil})
	of(json.RawMessage(nil), json.RawMessage{}, json.RawMessage("0"), json.RawMessage("null"))
	of(map[string]int(nil), map[string]int{}, map[string]int{"": 0}, mapOfN(256, func(i int) string { return fmt.Sprint(i) }, func(int) int { return 0 }))
	of(map[string]any(nil), map[string]any{}, map[string]any{"": nil})
	of(map[string]json.RawMessage(nil), map[string]json.RawMessage{}, map[string]json.RawMessage{"a": nil})
	of(map[int]int(nil), map[int]int{}, map[int]int{0: 0}, mapOfN(256, func(i int) int { return i }, func(int) int { return 0 }))
	of([0]int{})
	of([1]int{})
	of([256]byte{})
	of([0]*int{})
	of([1]*int{})
	of(struct{}{})
	of(struct{ A *int }{})
	of((*int)(nil), new(int))
	of((**int)(nil), new(*int))
	of((*struct{})(nil), &struct{}{})
	of((*string)(nil), new(string))
	of((*[]int)(nil), new([]int))
	of((*any)(nil), new(any))
	of((*map[string]int)(nil), new(map[string]int))
	of(time.Time{}, time.Unix(0, 0).UTC())
	of((*time.Time)(nil), &time.Time{})
	of(time.Duration(0), time.Duration(256), time.Duration(1<<32))
	{
		var d []reflect.Value
		for _, x := range []any{nil, 0, "", false, (*int)(nil), []int(nil), map[string]int(nil), new(int), struct{}{}, []int{}, 0.0} {
			v := reflect.New(anyT).Elem()
			if x != nil {
				v.Set(reflect.ValueOf(x))
			}
			d = append(d, v)
		}
		domains = append(domains, d)
	}
	for _, d := range domains {
		t := d[0].Type()
		c.Case(func() string { return fmt.Sprintf("omitempty of %d values of %v", len(d), t) }, func() {
			var shapes []reflect.Type
			I := reflect.TypeOf(0)
			for _, fs := range [][]reflect.StructField{
				{sf("F", t, ",omitempty")},
				{sf("A", I, ""), sf("F", t, "f,omitempty"), sf("Z", I, "")},
				{sf("F", t, "f,omitempty,string"), sf("G", t, ",omitempty")},
				{sf("A", I, ",omitempty"), sf("F", t, ",omitempty"), sf("G", t, ",string")},
			} {
				shapes = append(shapes, reflect.StructOf(fs))
			}
			for si, st := range shapes {
				for _, v := range d {
					s := reflect.New(st).Elem()
					s.FieldByName("F").Set(v)
					if si == 2 {
						s.FieldByName("G").Set(v)
					}
					c.State(1)
					c.Trans(1)
					x := s.Interface()
					if si == 1 {
						x = s.Addr().Interface()
					}
					var out []byte
					var err error
					pan := catch(func() { out, err = jc.Marshal(x) })
					want, serr, _ := stdEncode(x, true)
					if t == durT { // spelled in another way; what is left out is the same
						if err != nil || serr != nil || bytes.Count(out, []byte(`":`)) != bytes.Count(want, []byte(`":`)) {
							c.Fail(fmt.Sprintf("empty %v", t), "encoding %v %v: %s %v, want the members of %s", st, v, out, err, want)
						}
						continue
					}
					if pan != nil || (err != nil) != (serr != nil) || err == nil && !sameDoc(out, want) {
						c.Fail(fmt.Sprintf("empty %v", t), "encoding %v %v:\n got  %s %v %v\n want %s %v", st, clip(fmt.Sprint(v), 100), clip(string(out), 300), err, pan, clip(string(want), 300), serr)
						return
					}
					c.Valid(1)
				}
			}
		})
	}
	c.Bound("omitempty: %d domains: all values of 8 and 16 bits, all values of at most two bits for wider numbers, empty and nearly empty values of every other kind", len(domains))
}

type NInt8 int8
type NUint16 uint16

// runC22tags: all tags put together from a name and options, on one and on two fields.
func runC22tags(c *C) {
	parts := []string{"", "-", "a", "A", "omitempty", "string", "omitempty ", "-a", "a b", "<", "\u00e9", "X"}
	n := c.Pick(3, 4)
	for k := 1; k <= n; k++ {
		seqs(len(parts), min(k, 2), func(ix []int) {
			head := append([]int{}, ix...)
			c.Case(func() string { return fmt.Sprintf("tags of %d parts starting with parts %v", k, head) }, func() {
				seqs(len(parts), k-len(head), func(jx []int) {
					var ps []string
					for _, i := range append(append([]int{}, head...), jx...) {
						ps = append(ps, parts[i])
					}
					tag := strings.Join(ps, ",")
					for ti, t := range []reflect.Type{reflect.TypeOf(0), reflect.TypeOf(""), reflect.TypeOf([]int{})} {
						if ti > 0 && k > 2 {
							break
						}
						c22(c, reflect.StructOf([]reflect.StructField{sf("A", t, tag)}), true)
						c22(c, reflect.StructOf([]reflect.StructField{sf("A", t, tag), sf("X", reflect.TypeOf(0), "")}), true)
						if k < 3 {
							c22(c, reflect.StructOf([]reflect.StructField{sf("X", reflect.TypeOf(0), "A"), sf("A", reflect.PointerTo(t), tag), sf("Y", t, tag)}), true)
						}
					}
				})
			})
		})
	}
	c.Bound("all tags of up to %d of %d parts on one, two and three fields", n, len(parts))
}

// canonical replaces the standard library's short escapes by the long ones.
func canonical(b []byte) string {
	return strings.NewReplacer(`\\`, `\\`, `\b`, `\u0008`, `\f`, `\u000c`).Replace(string(b))
}

type fspec struct {
	name string
	t    reflect.Type
	tag  string
	anon bool
	pkg  string
}

type XE1 struct{ A, X int }
type XE2 struct {
	A int `json:"a"`
	B int
}
type XE3 struct {
	XE1
	Z int
}
type XE4 struct {
	*XE1
	B int `json:"A"`
}
type XE5 struct {
	XE1
	XE2
}
type XE6 struct {
	A int `json:"A"`
	*XE3
}
type XI int
type XM map[string]int
type XIf interface{}

func fieldSpecs() []fspec {
	I, S := reflect.TypeOf(0), reflect.TypeOf("")
	var fs []fspec
	add := func(name string, t reflect.Type, tags ...string) {
		for _, tag := range tags {
			fs = append(fs, fspec{name: name, t: t, tag: tag})
		}
	}
	emb := func(x any, tags ...string) {
		t := reflect.TypeOf(x)
		name := t.Name()
		if t.Kind() == reflect.Pointer {
			name = t.Elem().Name()
		}
		for _, tag := range tags {
			fs = append(fs, fspec{name: name, t: t, tag: tag, anon: true})
		}
	}
	add("A", I, ``, `json:"a"`, `json:"B"`, `json:"-"`, `json:"-,"`, `json:",omitempty"`, `json:",string"`, `json:"b,string,omitempty"`)
	add("B", I, ``, `json:"A"`, `json:"a,omitempty"`)
	add("C", S, ``, `json:"A"`, `json:",string"`, `json:"a,omitempty,string"`)
	emb(XE1{}, ``, `json:"e"`, `json:"A"`)
	emb(&XE1{}, ``, `json:",omitempty"`, `json:"a,omitempty"`)
	emb(XE2{}, ``, `json:"-"`)
	emb(&XE2{}, ``)
	emb(XE3{}, ``)
	emb(&XE3{}, ``)
	emb(XE4{}, ``)
	emb(XE5{}, ``)
	emb(&XE6{}, ``)
	emb(XI(0), ``, `json:"a"`)
	emb(XM{}, `json:",omitempty"`)
	fs = append(fs, fspec{name: "a", t: I, pkg: "main"}, fspec{name: "b", t: I, tag: `json:"A"`, pkg: "main"})
	return fs
}

// oddFields are declarations that only matter by themselves or next to a plain field.
func oddFields() []fspec {
	var fs []fspec
	I := reflect.TypeOf(0)
	for _, tag := range []string{`json:"x y"`, `json:"a\"b"`, `json:"é"`, `json:"a\\b"`, `json:"<a>&"`, `json:"\u2028"`, `json:"a,omitEmpty"`, ` json:"a"`, `json:a`, `json:"a" xml:"b"`, `xml:"a" json:"b"`, `xml:"a"`, `json:""`, `json:",,"`, `json:"a,inline"`, `json:"a,omitempty,omitempty"`, `json:"a"b`, `json:","`, `json:"'"`, `json:"a;b"`, `json:"$%-/:"`, `json:"名前"`, `json:"a\tb"`, `json:"a\nb,omitempty"`, `json:"a, omitempty"`, `json:"a,omitempty "`, `json:"a.b"`, `json:"1"`, `json:"-x"`, `json:"--"`, `json:"- "`, `json:" "`, `json:"\\"`, "json:\"`\"", `json:"a,string,"`, `json:"!#$%&()*+-./:;<=>?@[]^_{|}~ "`, `json:"K"`, `json:"ſ"`, `json:"İ"`, `json:"ı"`, `json:"ß"`, `json:"ς"`, `json:"\u212a"`} {
		fs = append(fs, fspec{name: "F", t: I, tag: tag})
	}
	for _, x := range []any{false, int8(0), uint64(0), 1.5, float32(1), "", []int(nil), [0]int{}, [2]int{}, map[string]int(nil), (*int)(nil), (**int)(nil), struct{}{}, struct{ A int }{}, time.Time{}, &time.Time{}, time.Duration(0), json.Number(""), json.RawMessage(nil), []byte(nil), NInt(0), NStr(""), [1]*int{}, []*int(nil), map[int]string(nil), XIf(nil), XE1{}, &XE4{}} {
		t := reflect.TypeOf(x)
		if t == nil {
			t = reflect.TypeOf((*XIf)(nil)).Elem()
		}
		for _, tag := range []string{``, `json:",omitempty"`, `json:",string"`, `json:"f,omitempty,string"`} {
			if t == durT && tag == `` {
				continue
			}
			fs = append(fs, fspec{name: "F", t: t, tag: tag})
		}
	}
	for _, n := range []string{"Ab", "AB", "Äb", "Kb", "Sb", "A_b", "A1", "Dž", "日X"} {
		if n == "日X" {
			n = "X日"
		}
		fs = append(fs, fspec{name: n, t: I}, fspec{name: n, t: I, tag: `json:"ab"`})
	}
	return fs
}

// Types that promote fields whose names differ in case only.
type (
	XF1 struct{ Aa int }
	XF2 struct{ AA int }
	XF3 struct {
		XF1
		AA int
	}
	XF4 struct {
		aA int
		AA int `json:"aA"`
		Ab int `json:"aa,omitempty"`
	}
	XF5 struct{ *XF3 }
)

func foldFields() []fspec {
	I := reflect.TypeOf(0)
	fs := []fspec{{name: "Aa", t: I}, {name: "AA", t: I}, {name: "B", t: I, tag: `json:"aa"`}, {name: "C", t: I, tag: `json:"aA"`}, {name: "D", t: I, tag: `json:"AA,omitempty"`}}
	for _, x := range []any{XF1{}, &XF2{}, XF3{}, &XF4{}, XF5{}} {
		t := reflect.TypeOf(x)
		n := t
		if n.Kind() == reflect.Pointer {
			n = n.Elem()
		}
		fs = append(fs, fspec{name: n.Name(), t: t, anon: true})
	}
	return fs
}

// structLeaves are struct types of odd field declarations, their fields filled
// or zero, by themselves and embedded.
func structLeaves() (ls []leafT) {
	add := func(t reflect.Type) {
		if t == nil {
			return
		}
		l := leafT{name: clip(t.String(), 200), t: t, vals: []reflect.Value{reflect.New(t).Elem()}}
		v := reflect.New(t).Elem()
		n := 0
		for i := 0; i < t.NumField(); i++ {
			fill(settable(v.Field(i)), &n, 0)
		}
		l.vals = append(l.vals, v)
		ls = append(ls, l)
	}
	odd := oddFields()
	for i := range odd {
		t := structOf(odd[i : i+1])
		if t == nil {
			continue
		}
		add(t)
		add(structOf([]fspec{{name: "Emb", t: t, anon: true}, {name: "Z", t: reflect.TypeOf("")}}))
		add(structOf([]fspec{{name: "Z", t: reflect.TypeOf(""), tag: `json:",omitempty"`}, {name: "Emb", t: reflect.PointerTo(t), anon: true}}))
		add(structOf([]fspec{{name: "L", t: reflect.SliceOf(t)}, odd[(i+1)%len(odd)]}))
	}
	for _, x := range embedTypes() {
		add(reflect.TypeOf(x))
	}
	return
}

func structOf(fs []fspec) (t reflect.Type) {
	seen := map[string]bool{}
	var sfs []reflect.StructField
	for _, f := range fs {
		if seen[f.name] {
			return nil
		}
		seen[f.name] = true
		sfs = append(sfs, reflect.StructField{Name: f.name, Type: f.t, Tag: reflect.StructTag(f.tag), Anonymous: f.anon, PkgPath: f.pkg})
	}
	if catch(func() { t = reflect.StructOf(sfs) }) != nil {
		return nil
	}
	return t
}

func runC22(c *C) {
	et := embedTypes()
	for i := 0; i < len(et); i += 10 {
		c.Case(func() string { return fmt.Sprintf("generated types from %T", et[i]) }, func() {
			for j := i; j < i+10 && j < len(et); j++ {
				c22(c, reflect.TypeOf(et[j]), false)
				c.Count("types", 1)
			}
		})
	}
	fs := fieldSpecs()
	run := func(sel []fspec, few bool) {
		if t := structOf(sel); t != nil {
			c.Count("types", 1)
			c22(c, t, few)
		} else {
			c.Count("selections_without_a_type", 1)
		}
	}
	odd := oddFields()
	for i := range odd {
		c.Case(func() string { return fmt.Sprintf("field %s %v %s", odd[i].name, odd[i].t, odd[i].tag) }, func() {
			run([]fspec{odd[i]}, false)
			for _, f := range fs {
				run([]fspec{odd[i], f}, true)
				run([]fspec{f, odd[i]}, true)
			}
			for _, f := range odd {
				run([]fspec{odd[i], f}, true)
			}
			t := structOf([]fspec{odd[i]})
			if t != nil {
				for _, w := range []fspec{{name: "Emb", t: t, anon: true}, {name: "P", t: reflect.PointerTo(t)}, {name: "L", t: reflect.SliceOf(t)}, {name: "M", t: reflect.MapOf(reflect.TypeOf(""), t), tag: `json:",omitempty"`}} {
					run([]fspec{w}, true)
				}
			}
		})
	}
	for n := 1; n <= c.Pick(3, 4); n++ {
		seqs(len(fs), min(n, 2), func(ix []int) {
			a := append([]int{}, ix...)
			c.Case(func() string { return fmt.Sprintf("structs of %d fields starting with fields %v", n, a) }, func() {
				sel := make([]fspec, n)
				for i, x := range a {
					sel[i] = fs[x]
				}
				seqs(len(fs), n-len(a), func(jx []int) {
					for i, x := range jx {
						sel[len(a)+i] = fs[x]
					}
					run(sel, n > 3 || n == 3 && !c.thorough && a[0]%2 == 1)
				})
			})
		})
	}
	ff := foldFields()
	for n := 2; n <= c.Pick(3, 4); n++ {
		seqs(len(ff), 1, func(ix []int) {
			a := ix[0]
			c.Case(func() string { return fmt.Sprintf("%d fields that differ in case, starting with %d", n, a) }, func() {
				seqs(len(ff), n-1, func(jx []int) {
					sel := []fspec{ff[a]}
					for _, x := range jx {
						sel = append(sel, ff[x])
					}
					run(sel, true)
				})
			})
		})
	}
	c.Bound("all selections of 2 to %d of %d fields, some of them promoted, with names that differ in case only", c.Pick(3, 4), len(ff))
	runC22empty(c)
	runC22tags(c)
	c.scales(scaleLimit{s: 70, e: 24, m: 12, f: c.Pick(130, 300), d: 24}, func(l leafT) {
		if l.t.Kind() == reflect.Struct {
			c22(c, l.t, true)
		}
	})
	c.Bound("all selections of up to %d of %d field declarations, %d odd declarations alone and in pairs, %d generated types", c.Pick(3, 4), len(fs), len(odd), len(et))
}
