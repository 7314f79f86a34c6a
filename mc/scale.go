package main

import (
	"encoding/json"
	"fmt"
	"reflect"
	"strings"
	"time"

	jc "github.com/neilotoole/jsoncolor"
)

// ---------------------------------------------------------------------------
// Scale: every shape at every rung of a ladder of sizes. The rungs lie densely
// at the small end and on both sides of powers of two and of the steps in which
// the package's buffers, slices and scratch areas grow.

// ladder returns the rungs up to max.
func ladder(dense, max int) (o []int) {
	seen := map[int]bool{}
	add := func(n int) {
		if n >= 0 && n <= max && !seen[n] {
			seen[n] = true
			o = append(o, n)
		}
	}
	for n := 0; n <= dense; n++ {
		add(n)
	}
	for p := 8; p <= max+1; p *= 2 {
		add(p - 1)
		add(p)
		add(p + 1)
	}
	for p := 10; p <= max+1 && p <= 700; p *= 2 {
		add(p - 1)
		add(p)
		add(p + 1)
	}
	for p := 100; p <= max+1; p *= 10 {
		add(p - 1)
		add(p)
		add(p + 1)
	}
	return
}

type sshape struct {
	name string
	kind byte // 's' bytes, 'e' elements, 'm' members, 'f' fields, 'd' depth
	mk   func(n int) any
}

type scaleL []scaleL
type scaleM map[string]scaleM
type scaleN struct {
	V    int     `json:"v"`
	Next *scaleN `json:"next,omitempty"`
}
type scaleI struct {
	A any `json:"a"`
	B int
}
type scaleT struct{ s string }

func (t scaleT) MarshalText() ([]byte, error)  { return []byte(t.s), nil }
func (t *scaleT) UnmarshalText(b []byte) error { t.s = string(b); return nil }

type scaleJ struct{ s string }

func (t scaleJ) MarshalJSON() ([]byte, error)  { return []byte(t.s), nil }
func (t *scaleJ) UnmarshalJSON(b []byte) error { t.s = string(b); return nil }

func joinN(n int, f func(i int) string) string {
	var sb strings.Builder
	for i := 0; i < n; i++ {
		if i > 0 {
			sb.WriteByte(',')
		}
		sb.WriteString(f(i))
	}
	return sb.String()
}

func sliceN[T any](n int, f func(i int) T) []T {
	s := make([]T, n)
	for i := range s {
		s[i] = f(i)
	}
	return s
}

func mapOfN[K comparable, T any](n int, k func(i int) K, f func(i int) T) map[K]T {
	m := make(map[K]T, n)
	for i := 0; i < n; i++ {
		m[k(i)] = f(i)
	}
	return m
}

func padTo(special string, at int) func(n int) string {
	return func(n int) string {
		m := n - len(special)
		if m < 0 {
			return special
		}
		p := []int{0, m / 2, m}[at]
		return rep("a", p) + special + rep("b", m-p)
	}
}

// scaleStrings are the ways a string of n bytes can look.
func scaleStrings() (o []struct {
	name string
	mk   func(n int) string
}) {
	add := func(name string, mk func(n int) string) {
		o = append(o, struct {
			name string
			mk   func(n int) string
		}{name, mk})
	}
	add("plain", func(n int) string { return rep("a", n) })
	for _, sp := range []string{`"`, `\`, "<", "\x01", "é", "\u2028", "\xff", "\U0001F600", "\x7f", "\t"} {
		for at := 0; at < 3; at++ {
			add(fmt.Sprintf("%q at %s", sp, []string{"start", "middle", "end"}[at]), padTo(sp, at))
		}
		if sp != "\x7f" && sp != "\t" {
			add(fmt.Sprintf("all %q", sp), func(n int) string { return rep(sp, n/len(sp)) })
		}
	}
	return
}

// rawLit is the JSON literal of s with everything that may stay raw left raw.
func rawLit(s string) string {
	b, _, _ := stdEncode(s, false)
	return strings.NewReplacer("\\u2028", "\u2028", "\\u2029", "\u2029", "\\ufffd", "\xff").Replace(string(b))
}

func scaleShapes() (o []sshape) {
	add := func(kind byte, name string, mk func(n int) any) { o = append(o, sshape{name, kind, mk}) }
	// bytes
	for _, s := range scaleStrings() {
		mk := s.mk
		add('s', "string "+s.name, func(n int) any { return mk(n) })
		if !strings.Contains(s.name, "middle") {
			add('s', "key "+s.name, func(n int) any { return map[string]int{mk(n): 1} })
		}
		if strings.Contains(s.name, "end") || s.name == "plain" {
			add('s', "text "+s.name, func(n int) any { return []scaleT{{mk(n)}} })
			add('s', "any key and value "+s.name, func(n int) any { return map[string]any{mk(n): []any{mk(n), nil}, "": 0} })
			add('s', "quoted "+s.name, func(n int) any {
				return struct {
					A string `json:",string"`
				}{mk(n)}
			})
			lit := func(n int) string { return rawLit(mk(n)) }
			add('s', "Raw "+s.name, func(n int) any { return []json.RawMessage{json.RawMessage(lit(n))} })
			add('s', "Raw key "+s.name, func(n int) any { return json.RawMessage("{" + lit(n) + ":1}") })
			add('s', "map of Raw "+s.name, func(n int) any {
				return map[string]json.RawMessage{mk(n): json.RawMessage(lit(n)), "z": json.RawMessage("1")}
			})
			add('s', "Raw Marshaler "+s.name, func(n int) any { return []any{scaleJ{lit(n)}} })
		}
	}
	add('s', "Bytes", func(n int) any { return [][]byte{[]byte(rep("\x00\xff7", n/3+1)[:n])} })
	add('s', "Bytes field", func(n int) any {
		return struct {
			A int
			B []byte `json:"b,omitempty"`
			C string
		}{1, []byte(rep("abc", n/3+1)[:n]), "c"}
	})
	add('s', "Number", func(n int) any {
		return []json.Number{json.Number("-1" + rep("0", n)), json.Number("1." + rep("5", n+1)), "7"}
	})
	add('s', "Raw spaces", func(n int) any {
		w := rep(" \n", n/2+1)[:n]
		return map[string]any{"r": json.RawMessage(w + "{" + w + `"a"` + w + ":" + w + "[" + w + "1" + w + "," + w + "2" + w + "]" + w + "}" + w)}
	})
	add('s', "Raw number", func(n int) any { return json.RawMessage("[" + rep("9", n+1) + "e1]") })
	// elements
	add('e', "[]int", func(n int) any { return sliceN(n, func(i int) int { return i * i }) })
	add('e', "[]int64 field", func(n int) any {
		return struct {
			A []int64 `json:",omitempty"`
			Z bool
		}{sliceN(n, func(i int) int64 { return int64(i) << 50 }), true}
	})
	add('e', "[]string", func(n int) any { return sliceN(n, func(i int) string { return rep("x<", i%5) }) })
	add('e', "[]any", func(n int) any {
		return sliceN(n, func(i int) any { return []any{nil, true, 1.5, "s", []any{}, map[string]any{"k": 1.0}}[i%6] })
	})
	add('e', "[]struct", func(n int) any { return sliceN(n, func(i int) scaleI { return scaleI{nil, i} }) })
	add('e', "[]*struct", func(n int) any { return sliceN(n, func(i int) *scaleN { return &scaleN{V: i} }) })
	add('e', "[]bool", func(n int) any { return sliceN(n, func(i int) bool { return i%3 == 0 }) })
	add('e', "[]float64", func(n int) any { return sliceN(n, func(i int) float64 { return float64(i) / 3 }) })
	add('e', "[][]int", func(n int) any { return sliceN(n, func(i int) []int { return make([]int, i%12) }) })
	add('e', "[]map", func(n int) any {
		return sliceN(n, func(i int) map[string]int { return map[string]int{"b": i, "a": 1} })
	})
	add('e', "[]Raw", func(n int) any {
		return sliceN(n, func(i int) json.RawMessage { return json.RawMessage([]string{"1", "[]", `{"a":{}}`, `"s"`}[i%4]) })
	})
	add('e', "[]text", func(n int) any { return sliceN(n, func(i int) scaleT { return scaleT{rep("t", i%4)} }) })
	add('e', "[]Raw Marshaler", func(n int) any { return sliceN(n, func(i int) scaleJ { return scaleJ{[]string{"1", "[ 2 ]"}[i%2]} }) })
	add('e', "Raw array", func(n int) any {
		return json.RawMessage("[" + joinN(n, func(i int) string { return []string{"1", " {} ", "[\n]", `"s"`, "false"}[i%5] }) + "]")
	})
	// members
	sk := func(i int) string { return fmt.Sprintf("k%d", i*7919%100003) }
	lk := func(i int) string { return fmt.Sprintf("%s<%d", rep("long", 5), i*7919%100003) }
	add('m', "map[string]int", func(n int) any { return mapOfN(n, sk, func(i int) int { return i }) })
	add('m', "map[string]any", func(n int) any {
		return mapOfN(n, lk, func(i int) any { return []any{nil, true, 1.5, "s", []any{}, map[string]any{"k": 1.0, "j": nil}}[i%6] })
	})
	add('m', "map[string]string", func(n int) any { return mapOfN(n, sk, func(i int) string { return rep("v", i%9) }) })
	add('m', "map of Raw", func(n int) any {
		return mapOfN(n, sk, func(i int) json.RawMessage { return json.RawMessage([]string{"1", "[1,2]", `{"a":{}}`, `"s"`}[i%4]) })
	})
	add('m', "map[int]int", func(n int) any { return mapOfN(n, func(i int) int { return i - n/2 }, func(i int) int { return i }) })
	add('m', "map[uint8]bool", func(n int) any {
		return mapOfN(n, func(i int) uint8 { return uint8(i) }, func(i int) bool { return i%2 == 0 })
	})
	add('m', "map[text]int", func(n int) any {
		return mapOfN(n, func(i int) TextOut { return TextOut{sk(i)} }, func(i int) int { return i })
	})
	add('m', "map of maps", func(n int) any {
		return mapOfN(n, sk, func(i int) map[string]int { return mapOfN(i%4, lk, func(i int) int { return i }) })
	})
	add('m', "map of structs", func(n int) any { return mapOfN(n, sk, func(i int) scaleI { return scaleI{nil, i} }) })
	add('m', "Raw object", func(n int) any {
		return json.RawMessage("{" + joinN(n, func(i int) string { return fmt.Sprintf(`"%s":%d`, sk(i), i) }) + "}")
	})
	// fields
	fields := func(n int, opt string, set func(v reflect.Value, i int)) any {
		kinds := []reflect.Type{reflect.TypeOf(0), reflect.TypeOf(""), reflect.TypeOf(new(int)), reflect.TypeOf([]int{}), reflect.TypeOf(false)}
		var fs []reflect.StructField
		for i := 0; i < n; i++ {
			tag := opt
			if opt == "mixed" {
				tag = []string{"", fmt.Sprintf("n<%d", i), ",omitempty", "-", fmt.Sprintf("m%d,omitempty", i)}[i*3%5]
			}
			fs = append(fs, sf(fmt.Sprintf("F%d", i), kinds[i%len(kinds)], tag))
		}
		v := reflect.New(reflect.StructOf(fs)).Elem()
		for i := 0; i < n; i++ {
			set(v.Field(i), i)
		}
		return v.Interface()
	}
	full := func(v reflect.Value, i int) { k := i; fill(v, &k, 2) }
	add('f', "fields", func(n int) any { return fields(n, "", full) })
	add('f', "empty fields", func(n int) any { return fields(n, ",omitempty", func(reflect.Value, int) {}) })
	add('f', "omitted but the last", func(n int) any {
		return fields(n, ",omitempty", func(v reflect.Value, i int) {
			if i == n-1 {
				full(v, i)
			}
		})
	})
	add('f', "mixed fields", func(n int) any {
		return fields(n, "mixed", func(v reflect.Value, i int) {
			if i%3 != 0 {
				full(v, i)
			}
		})
	})
	add('f', "array", func(n int) any {
		v := reflect.New(reflect.ArrayOf(n, reflect.TypeOf(0))).Elem()
		for i := 0; i < n; i++ {
			v.Index(i).SetInt(int64(i))
		}
		return v.Interface()
	})
	add('f', "byte array", func(n int) any { return reflect.New(reflect.ArrayOf(n, reflect.TypeOf(uint8(0)))).Elem().Interface() })
	// depth
	nest := func(n int, f func(in any) any) any {
		var x any = 1
		for i := 0; i < n; i++ {
			x = f(x)
		}
		return x
	}
	add('d', "nested []any", func(n int) any { return nest(n, func(in any) any { return []any{in} }) })
	add('d', "nested [1,any,2]", func(n int) any { return nest(n, func(in any) any { return []any{1, in, "2"} }) })
	add('d', "nested map", func(n int) any { return nest(n, func(in any) any { return map[string]any{"k": in} }) })
	add('d', "nested map of two", func(n int) any {
		return nest(n, func(in any) any { return map[string]any{"z": 1, "k": in, "a": []int{}} })
	})
	add('d', "nested struct", func(n int) any { return nest(n, func(in any) any { return scaleI{in, 1} }) })
	add('d', "nested *any", func(n int) any { return nest(n, func(in any) any { return &in }) })
	add('d', "nested map[int]any", func(n int) any { return nest(n, func(in any) any { return map[int]any{2: in, 1: nil} }) })
	add('d', "list", func(n int) any {
		var p *scaleN
		for i := 0; i < n; i++ {
			p = &scaleN{i, p}
		}
		return p
	})
	add('d', "scaleL", func(n int) any {
		l := scaleL{}
		for i := 0; i < n; i++ {
			l = scaleL{nil, l, {}}
		}
		return l
	})
	add('d', "scaleM", func(n int) any {
		l := scaleM{}
		for i := 0; i < n; i++ {
			l = scaleM{"b": l, "a": nil}
		}
		return l
	})
	add('d', "nested Raw", func(n int) any {
		return json.RawMessage(rep(`[{"a":`, n/2) + rep("[", n%2) + rep("]", n%2) + "1"[:1-n%2] + rep("}]", n/2))
	})
	add('d', "nested Raw in map", func(n int) any {
		return map[string]json.RawMessage{"r": json.RawMessage(rep(`{"b":1,"a":[`, n) + rep("]}", n)), "s": json.RawMessage("[]")}
	})
	add('d', "nested mixed with Raw", func(n int) any {
		i := 0
		return nest(n, func(in any) any {
			i++
			switch i % 5 {
			case 0:
				return []any{in}
			case 1:
				return map[string]any{"k": in}
			case 2:
				return scaleI{in, i}
			case 3:
				return map[string]json.RawMessage{"r": mustJSON(in)}
			}
			return [1]any{in}
		})
	})
	return
}

// scaleLimit bounds the rungs of each kind of shape.
type scaleLimit struct{ s, e, m, f, d int }

var scaleQuick = scaleLimit{s: 70000, e: 1100, m: 300, f: 70, d: 140}
var scaleDeep = scaleLimit{s: 140000, e: 20000, m: 5000, f: 270, d: 1100}

func (c *C) scaleLim() scaleLimit {
	if c.thorough {
		return scaleDeep
	}
	return scaleQuick
}

// scales calls f with every shape at every rung.
func (c *C) scales(lim scaleLimit, f func(l leafT)) {
	shapes := scaleShapes()
	total := 0
	for _, sh := range shapes {
		var ns []int
		switch sh.kind {
		case 's':
			d := 20
			if c.thorough {
				d = 140
			}
			ns = ladder(d, lim.s)
		case 'e':
			ns = ladder(24, lim.e)
		case 'm':
			ns = ladder(12, lim.m)
			if sh.name == "map[uint8]bool" && lim.m > 256 {
				ns = ladder(12, 256)
			}
		case 'f':
			ns = ladder(24, lim.f)
		case 'd':
			ns = ladder(36, lim.d)
		}
		total += len(ns)
		for _, n := range ns {
			c.Case(func() string { return fmt.Sprintf("scale: %s, size %d", sh.name, n) }, func() {
				x := sh.mk(n)
				if x == nil {
					return
				}
				t := reflect.TypeOf(x)
				v := reflect.New(t).Elem()
				v.Set(reflect.ValueOf(x))
				f(leafT{name: fmt.Sprintf("scale %s %d", sh.name, n), t: t, vals: []reflect.Value{v}})
				c.Count("scaled_values", 1)
			})
		}
	}
	c.Bound("%d shapes of strings, sequences, maps, structs and nestings at every rung of ladders of sizes: %d bytes, %d elements, %d members, %d fields, depth %d at most (%d values)", len(shapes), lim.s, lim.e, lim.m, lim.f, lim.d, total)
}

// giants calls f with large values: past 16-bit counts and past a mebibyte.
func (c *C) giants(f func(l leafT)) {
	ns := []int{65535, 65537, 1<<17 + 1}
	bs := []int{1<<20 + 1, 3 << 20}
	if c.thorough {
		ns = append(ns, 65536, 1<<18+1, 1<<20+1)
		bs = append(bs, 1<<20-1, 1<<21+1, 1<<23+7, 1<<24+1)
	}
	num := func(i int) int { return i * 7 % 10007 }
	key := func(i int) string { return fmt.Sprintf("k%d", i) }
	one := func(name string, n int, mk func() any) {
		c.Case(func() string { return fmt.Sprintf("giant: %s, size %d", name, n) }, func() {
			x := mk()
			t := reflect.TypeOf(x)
			v := reflect.New(t).Elem()
			v.Set(reflect.ValueOf(x))
			f(leafT{name: fmt.Sprintf("giant %s %d", name, n), t: t, vals: []reflect.Value{v}})
			c.Count("giant_values", 1)
		})
	}
	for _, n := range ns {
		one("[]int", n, func() any { return sliceN(n, num) })
		one("[]any", n, func() any {
			return sliceN(n, func(i int) any { return []any{num(i), "s", nil, true, 1.5, []any{}, map[string]any{}}[i%7] })
		})
		one("[]string", n, func() any { return sliceN(n, key) })
		one("map[string]int", n, func() any { return mapOfN(n, key, num) })
		one("map[string]any", n, func() any { return mapOfN(n, key, func(i int) any { return num(i) }) })
	}
	for _, n := range []int{1025, 4097, 20000} {
		one("map[string]any", n, func() any {
			return mapOfN(n, key, func(i int) any { return []any{num(i), "s", nil, true, 1.5}[i%5] })
		})
		one("map[string]raw", n, func() any {
			return mapOfN(n, key, func(i int) json.RawMessage { return json.RawMessage(fmt.Sprint(i)) })
		})
		one("map[string]jc.raw", n, func() any {
			return mapOfN(n, key, func(i int) jc.RawMessage { return jc.RawMessage(fmt.Sprint(i)) })
		})
		one("map[string]string", n, func() any { return mapOfN(n, key, key) })
		one("map[string]bool", n, func() any { return mapOfN(n, key, func(i int) bool { return i%2 == 0 }) })
		one("map[int]int", n, func() any { return mapOfN(n, func(i int) int { return i - n/2 }, num) })
		one("map[uint64]*int", n, func() any {
			return mapOfN(n, func(i int) uint64 { return uint64(i) << 40 }, func(i int) *int { j := num(i); return &j })
		})
		one("map[float-like text]struct", n, func() any {
			return mapOfN(n, func(i int) time.Duration { return time.Duration(i) }, func(i int) struct{ A, B int } { return struct{ A, B int }{i, 1} })
		})
		one("[]struct", n, func() any {
			return sliceN(n, func(i int) struct {
				A string
				B *int
			} {
				return struct {
					A string
					B *int
				}{key(i), nil}
			})
		})
	}
	for _, n := range bs {
		one("string", n, func() any { return rep("0123456789abcdef", n/16) + rep("x", n%16) })
		one("string with escapes", n, func() any { return rep("abcdefg\n\u00e9<\"\u2028", n/14) })
		one("[]byte", n, func() any { return []byte(rep("0123456789", n/10)) })
		one("raw", n, func() any { return json.RawMessage("[" + rep(` {"a" : "<b>"} ,`, n/16) + "1]") })
		one("member", n, func() any { return struct{ A, B string }{rep("y", n), "z"} })
	}
	c.Bound("sequences and maps of %v elements, strings and raw messages of %v bytes", ns, bs)
}

// scaleTexts calls f with doc and with texts made from it by defects placed at
// rungs of its length; every variant is short of the quadratic.
func scaleTexts(doc string, f func(text string)) {
	f(doc)
	n := len(doc)
	seen := map[int]bool{}
	for _, p := range []int{0, 1, 2, n / 3, n / 2, n - 9, n - 8, n - 7, n - 2, n - 1, 63, 64, 511, 512, 4095, 4096} {
		if p < 0 || p >= n || seen[p] {
			continue
		}
		seen[p] = true
		f(doc[:p])
		for _, b := range []string{"\x00", `"`, `\`, ",", "]", "}", ":", "0", "\xff"} {
			f(doc[:p] + b + doc[p+1:])
		}
		f(doc[:p] + doc[p+1:])
		f(doc[:p] + " " + doc[p:])
	}
	f(doc + ",")
	f(doc + "]")
	f(" " + doc + "\n")
}
