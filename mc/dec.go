package main

import (
	"encoding/json"
	"errors"
	"fmt"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"time"

	jc "github.com/neilotoole/jsoncolor"
)

// ---------------------------------------------------------------------------
// Documents for a type

type span struct{ s, e int }

// nodes lists the spans of the values and of the keys of a valid text.
func nodes(doc string) (vals, keys []span, objEnds []int) {
	ts, err := tokenize([]byte(doc))
	if err != nil {
		return
	}
	var open []int
	for _, t := range ts {
		switch t.k {
		case '{', '[':
			open = append(open, t.s)
		case '}', ']':
			vals = append(vals, span{open[len(open)-1], t.e})
			open = open[:len(open)-1]
			if t.k == '}' {
				objEnds = append(objEnds, t.s)
			}
		case 'K':
			keys = append(keys, span{t.s, t.e})
		case '"', '0', 't', 'n':
			vals = append(vals, span{t.s, t.e})
		}
	}
	return
}

var valAlts = []string{`null`, `true`, `false`, `0`, `-1`, `1.5`, `1e2`, `300`, `"x"`, `""`, `"3"`, `"null"`, `"true"`, `"1h"`, `"YWJj"`, `"YWI="`, `"\u0041\n\ud83d"`, "\"\xff\"",
	`[]`, `[1]`, `[1,"a",null]`, `[[],{}]`, `[null,null,null,null]`, `{}`, `{"a":1}`, `{"A":null,"v":{"v":2}}`, `{"1":"x","k2":3,"B":[3]}`, `{"a":{"a":{"a":[{}]}}}`, `"2021-02-03T04:05:06Z"`, `18446744073709551616`, `-129`, `"-7"`, `"\"q\""`, `1e400`}
var badAlts = []string{``, `tru`, `"\x"`, `01`, `[1,]`, `{"a"}`, `{"a":}`, `{1:2}`, `-`, "\"\n\"", `1 2`, `"a`, `[`, `nulll`}

func keyAlts(k string) []string {
	var s string
	json.Unmarshal([]byte(k), &s)
	q := func(s string) string { return string(mustJSON(s)) }
	esc := `"`
	for _, r := range s {
		esc += fmt.Sprintf(`\u%04X`, r&0xffff)
	}
	return []string{q(strings.ToUpper(s)), q(strings.ToLower(s)), q(strings.ToTitle(s)), esc + `"`, q(s + "x"), `"zzz"`, `""`, q(strings.ReplaceAll(strings.ReplaceAll(s, "k", "\u212a"), "s", "ſ")), `1`, `null`}
}

// variants calls f with doc and every text made from it by one edit.
func variants(doc string, bad bool, f func(text string)) { variantsOf(valAlts, doc, bad, f) }

var fewAlts = []string{`null`, `true`, `-1`, `300`, `"x"`, `"3"`, `"YWJj"`, `[]`, `[1]`, `[null,null]`, `{}`, `{"A":null,"a":1}`, `{"1":"x","B":[3]}`}

func variantsOf(alts []string, doc string, bad bool, f func(text string)) {
	f(doc)
	vs, ks, ends := nodes(doc)
	for _, v := range vs {
		for _, a := range alts {
			f(doc[:v.s] + a + doc[v.e:])
		}
		if bad {
			for _, a := range badAlts {
				f(doc[:v.s] + a + doc[v.e:])
			}
		}
	}
	for _, k := range ks {
		for _, a := range keyAlts(doc[k.s:k.e]) {
			f(doc[:k.s] + a + doc[k.e:])
		}
	}
	for _, e := range ends { // repeated and additional members at the end
		for i, k := range ks {
			if i > 8 {
				break
			}
			for _, a := range []string{`null`, `{}`, `[]`, `"x"`, `7`} {
				sep := ","
				if doc[e-1] == '{' {
					sep = ""
				}
				f(doc[:e] + sep + doc[k.s:k.e] + ":" + a + doc[e:])
			}
		}
	}
	ts, _ := tokenize([]byte(doc))
	spaced := ""
	for i, t := range ts {
		spaced += []string{" ", "\n\t", "", "\r "}[i%4] + doc[t.s:t.e]
	}
	f(spaced + " \n")
	if bad {
		for i := range doc {
			f(doc[:i])
		}
		f(doc + "x")
		f(doc + ",")
		f(doc + doc)
	}
}

// docsOf are the distinct documents of the type's values, longest first, at most n.
func docsOf(l leafT, n, max int) (ds []string) {
	seen := map[string]bool{}
	for _, v := range l.vals {
		b, err, pan := stdEncode(v.Interface(), false)
		if err != nil || pan != nil || seen[string(b)] || len(b) > max {
			continue
		}
		seen[string(b)] = true
		ds = append(ds, string(b))
	}
	for len(ds) > n {
		// drop the shortest
		m := 0
		for i := range ds {
			if len(ds[i]) < len(ds[m]) {
				m = i
			}
		}
		ds = append(ds[:m], ds[m+1:]...)
	}
	return
}

// decodable excludes types that no decoder can terminate on.
func decodable(l leafT) bool {
	return !strings.Contains(l.name, "RPtr") && !strings.Contains(l.name, "map[time.Time]") && !mentions(l.t, keyBoth)
}

// keyBoth reports a map with keys that have both UnmarshalText and UnmarshalJSON
// (time.Time): encoding/json passes them to UnmarshalJSON, which its
// documentation does not say.
func keyBoth(t reflect.Type) bool {
	if t.Kind() != reflect.Map {
		return false
	}
	pk := reflect.PointerTo(t.Key())
	return pk.Implements(unmarshT) && pk.Implements(untextT)
}

// decPairs keeps the compositions of two constructors whose static type differs
// from that of an interface.
func decPairs() func(leaf int, ws []int) bool {
	var dyn []bool
	for _, w := range wrappers() {
		dyn = append(dyn, w.name == "any" || w.name == "anyslice" || w.name == "anymap" || w.name == "array0")
	}
	return func(_ int, w []int) bool { return len(w) == 2 && !dyn[w[0]] && !dyn[w[1]] }
}

func allDecLeaves() []leafT { return append(leaves(), decLeaves()...) }

func isDur(t reflect.Type) bool { return t == durT }

// hasDurString reports whether the text contains a duration string.
func hasDurString(text string) bool {
	ts, _ := tokenize([]byte(text))
	for _, t := range ts {
		if t.k == '"' {
			var s string
			json.Unmarshal([]byte(text[t.s:t.e]), &s)
			if _, err := time.ParseDuration(s); err == nil {
				return true
			}
		}
	}
	return false
}

// quotedOdd reports a struct with a member that has the string option and is a
// Number or has methods: encoding/json does not check the quoted text of those.
func quotedOdd(t reflect.Type) bool {
	if t.Kind() != reflect.Struct {
		return false
	}
	for _, f := range refFields(t) {
		pt := reflect.PointerTo(f.typ)
		if f.quoted && (f.typ == numberT || pt.Implements(unmarshT) || pt.Implements(untextT)) {
			return true
		}
	}
	return false
}

// hasOddString reports whether the text has a string whose content is not JSON.
func hasOddString(text string) bool {
	ts, _ := tokenize([]byte(text))
	for _, t := range ts {
		if t.k == '"' {
			var s string
			json.Unmarshal([]byte(text[t.s:t.e]), &s)
			if !stdValid(s) || strings.TrimSpace(s) != s {
				return true
			}
		}
	}
	return false
}

func unmarshal2(text string, a, b any) (ja, sb error, jp, sp any) {
	in := []byte(text)
	jp = catch(func() { ja = jc.Unmarshal(in, a) })
	if string(in) != text {
		ja = fmt.Errorf("Unmarshal modified its input %q to %q", text, in)
		jp = "modified input"
	}
	sp = catch(func() { sb = json.Unmarshal([]byte(text), b) })
	return
}

// ---------------------------------------------------------------------------

func init() {
	register(&check{id: "C11", rule: "all texts over token and character alphabets, all one-byte edits of documents and deep nestings, decoded into interface{}, map[string]interface{}, []interface{} and with UseNumber, in lock-step with encoding/json", run: runC11})
	register(&check{id: "C12", rule: "every destination type of the composed universe x all one-edit variants (values, keys, duplicates, truncations, malformed parts) of its documents, in lock-step with encoding/json", run: runC12})
	register(&check{id: "C13", rule: "every destination type x all sequences of documents up to a depth into one destination, in lock-step with encoding/json on a twin; values and pointer identity", run: runC13})
	register(&check{id: "C24", rule: "destination types x all one-edit variants of their documents; the class of the error is decided by encoding/json.Valid and by what encoding/json returns; all kinds of misuse of Unmarshal and of unsupported types in every position of an encoded value", run: runC24})
}

// sameAny compares decoded interface values quickly.
func sameAny(a, b any) bool {
	switch x := a.(type) {
	case nil:
		return b == nil
	case bool:
		y, ok := b.(bool)
		return ok && x == y
	case string:
		y, ok := b.(string)
		return ok && x == y
	case json.Number:
		y, ok := b.(json.Number)
		return ok && x == y
	case []any:
		y, ok := b.([]any)
		if !ok || len(x) != len(y) || (x == nil) != (y == nil) {
			return false
		}
		for i := range x {
			if !sameAny(x[i], y[i]) {
				return false
			}
		}
		return true
	case map[string]any:
		y, ok := b.(map[string]any)
		if !ok || len(x) != len(y) || (x == nil) != (y == nil) {
			return false
		}
		for k, v := range x {
			w, ok := y[k]
			if !ok || !sameAny(v, w) {
				return false
			}
		}
		return true
	}
	return deepSame(reflect.ValueOf(a), reflect.ValueOf(b))
}

func runC11(c *C) {
	any1 := func(text string) {
		c.State(1)
		c.Trans(1)
		var a, b any
		je, se, jp, _ := unmarshal2(text, &a, &b)
		c.Valid(1)
		if jp != nil {
			c.Fail("panic "+clip(text, 100), "Unmarshal(%q): panic %v", clip(text, 300), jp)
			return
		}
		if (je != nil) != (se != nil) {
			c.Fail("error "+clip(text, 100), "Unmarshal(%q) into any: %v, encoding/json: %v", clip(text, 300), je, se)
		} else if je == nil && !sameAny(a, b) {
			c.Fail("value "+clip(text, 100), "Unmarshal(%q) into any: %#v, encoding/json: %#v", clip(text, 300), a, b)
		}
	}
	rest := func(text string) {
		c.Trans(4)
		var m1, m2 map[string]any
		je, se, jp, _ := unmarshal2(text, &m1, &m2)
		if jp != nil || (je != nil) != (se != nil) || je == nil && !sameAny(m1, m2) {
			c.Fail("map "+clip(text, 100), "Unmarshal(%q) into map[string]any: %#v %v %v, encoding/json: %#v %v", clip(text, 300), m1, je, jp, m2, se)
		}
		var s1, s2 []any
		je, se, jp, _ = unmarshal2(text, &s1, &s2)
		if jp != nil || (je != nil) != (se != nil) || je == nil && !sameAny(s1, s2) {
			c.Fail("slice "+clip(text, 100), "Unmarshal(%q) into []any: %#v %v %v, encoding/json: %#v %v", clip(text, 300), s1, je, jp, s2, se)
		}
		if stdValid(text) {
			sd := json.NewDecoder(strings.NewReader(text))
			sd.UseNumber()
			var a, b any
			se = sd.Decode(&b)
			var left []byte
			jp = catch(func() { left, je = jc.Parse([]byte(text), &a, jc.UseNumber) })
			if jp != nil || (je != nil) != (se != nil) || je == nil && (len(left) != 0 || !sameAny(a, b)) {
				c.Fail("UseNumber "+clip(text, 100), "Parse with UseNumber of %q: %#v %q %v %v, encoding/json: %#v %v", clip(text, 300), a, left, je, jp, b, se)
			}
		}
	}
	streams := func(text string) {
		jd, sd := jc.NewDecoder(strings.NewReader(text)), json.NewDecoder(strings.NewReader(text))
		jd.UseNumber()
		sd.UseNumber()
		for i := 0; i < 3; i++ {
			var a, b any
			var je error
			jp := catch(func() { je = jd.Decode(&a) })
			se := sd.Decode(&b)
			if jp != nil || (je != nil) != (se != nil) || je == nil && !sameAny(a, b) {
				c.Fail("UseNumber "+clip(text, 100), "Decode %d with UseNumber of %q: %#v %v %v, encoding/json: %#v %v", i, clip(text, 300), a, je, jp, b, se)
				return
			}
			if je != nil {
				return
			}
		}
	}
	both := func(s string) { any1(s); rest(s) }
	c.batches("tokens", tokAlphabet, 0, c.Pick(5, 6), 1, same, both)
	c.batches("tokens through a Decoder", tokAlphabet, 0, c.Pick(3, 4), 1, same, streams)
	c.batches("numbers through a Decoder", []string{"0", "12", "-", ".", "5", "e", " "}, 0, c.Pick(4, 5), 1, same, streams)
	c.batches("tokens, longer", tokAlphabet[:11], c.Pick(6, 7), c.Pick(6, 7), 2, same, any1)
	keys := []string{`"a":1`, `"a":2`, `"b":null`, `"a":{"a":3}`, `"":[]`, `"\u0061":4`, `"A":5`, `,`, ` `, `"b":{"a":1,"a":2}`}
	c.batches("members", keys, 0, c.Pick(6, 7), 2, func(s string) string { return "{" + s + "}" }, both)
	nums := []string{"0", "1", "9", "-", "+", ".", "e", "E", "00", " ", "e5", "x"}
	c.batches("numbers", nums, 1, c.Pick(6, 7), 1, same, both)
	c.batches("numbers in arrays", nums, 1, c.Pick(4, 5), 1, func(s string) string { return "[" + s + ",1]" }, any1)
	str := []string{"a", `\`, "u", `"`, "n", "0041", "d83d", "de00", "\x00", "\x1f", "\xff", "é", "\u2028", "/", " "}
	c.batches("strings", str, 0, c.Pick(5, 6), 1, func(s string) string { return `"` + s + `"` }, both)
	c.batches("strings in objects", str, 0, c.Pick(3, 4), 1, func(s string) string { return `{"` + s + `":["` + s + `"],"a":0}` }, any1)
	for b := 0; b < 256; b++ {
		c.Case(func() string { return fmt.Sprintf("two-byte texts from %#02x", b) }, func() {
			both(string([]byte{byte(b)}))
			for d := 0; d < 256; d++ {
				any1(string([]byte{byte(b), byte(d)}))
				any1("[" + string([]byte{byte(b), byte(d)}) + "]")
				any1(`"` + string([]byte{byte(b), byte(d)}) + `"`)
				any1("1" + string([]byte{byte(b), byte(d)}))
			}
		})
	}
	docs := []string{`{"a":[1,{"b":null,"a":{}},[]],"a":true,"":-0.50e+10}`, `[1e5,"\u0041\ud83d\ude00",false,null,{"k":{"k":[[]]}}]`, `[-0, -0.0, 1e-400, 123456789012345678901234567890, 0.1e1, "\/\b\f\n\r\t\\\""]`, `  {"x" : "é\u2028` + "\u2028" + `" , "y":[ ] }  `, `true`, `-12.5e-3`, `"abcdefghijklmnop"`}
	for di, d := range docs {
		c.Case(func() string { return fmt.Sprintf("edits of document %d", di) }, func() {
			edits(d, "{}[],:\"\\ \n01e.-+tfnuax\x00\xff\x7f", both)
		})
	}
	for _, n := range []int{1, 2, 7, 8, 9, 100, 999, 9999, 10000, 10001, 10002, 20000} {
		f := both
		if n > 2000 {
			f = any1
		}
		for _, in := range []string{"", "1", "[]", "x"} {
			shapes := []string{rep("[", n) + in + rep("]", n), rep(`{"a":`, n) + in + rep("}", n), rep(`[{"a":`, n/2) + in + rep("}]", n/2)}
			if in == "" {
				shapes[1], shapes[2] = rep("[", n), rep(`{"a":`, n)
			}
			for si, s := range shapes {
				if n > 2000 && si == 2 {
					continue
				}
				c.Case(func() string { return fmt.Sprintf("nesting %d of shape %d around %q", n, si, in) }, func() { f(s) })
			}
		}
	}
	c.scales(c.scaleLim(), func(l leafT) {
		b, err, pan := stdEncode(l.vals[0].Interface(), false)
		if err != nil || pan != nil {
			return
		}
		both(string(b))
		if len(b) < 3000 || c.thorough {
			scaleTexts(string(b), any1)
		}
	})
	c.giants(func(l leafT) {
		if b, err, pan := stdEncode(l.vals[0].Interface(), false); err == nil && pan == nil {
			both(string(b))
		}
	})
	// long arrays, objects and strings (growth of buffers and slices)
	for _, n := range []int{9, 10, 11, 19, 20, 21, 39, 40, 41, 100, 1000, 4095, 4096, 4097, 33000} {
		c.Case(func() string { return fmt.Sprintf("size %d", n) }, func() {
			both("[" + strings.TrimSuffix(rep("1,", n), ",") + "]")
			both("[" + rep(`{"k":"v"},`, n) + "null]")
			both(`"` + rep("x", n) + `"`)
			both(`"` + rep(`\n`, n) + `"`)
			both(`["` + rep("é", n) + `\u00e9"]`)
			o := "{"
			for i := 0; i < n; i++ {
				o += fmt.Sprintf(`"k%d":%d,`, i%(n-3), i)
				if i > 5000 {
					break
				}
			}
			both(o + `"z":0}`)
		})
	}
	c.Bound("texts to the stated numbers of symbols")
}

func runC12(c *C) {
	one := func(key string, t reflect.Type, dur, odd bool, text string) {
		c.State(1)
		c.Trans(1)
		a, b := reflect.New(t), reflect.New(t)
		je, se, jp, sp := unmarshal2(text, a.Interface(), b.Interface())
		if sp != nil {
			return
		}
		if jp != nil {
			c.Fail("panic "+key, "Unmarshal(%q) into %v: panic %v", clip(text, 400), t, jp)
			return
		}
		if (je != nil) != (se != nil) {
			if dur && je == nil && hasDurString(text) {
				c.Count("duration_strings", 1)
				return
			}
			if odd && se == nil && hasOddString(text) {
				c.Count("malformed_quoted_members", 1)
				return
			}
			c.Fail("error "+key+" "+clip(text, 100), "Unmarshal(%q) into %v: %v, encoding/json: %v", clip(text, 400), t, je, se)
			return
		}
		if je != nil {
			c.Count("rejected_by_both", 1)
			return
		}
		c.Valid(1)
		if !decSame(a.Elem(), b.Elem()) {
			c.Fail("value "+key+" "+clip(text, 100), "Unmarshal(%q) into %v:\n got  %s\n want %s", clip(text, 400), t, dump(a), dump(b))
		}
	}
	f := func(nd, max int, bad bool) func(l leafT) {
		return func(l leafT) {
			if !decodable(l) {
				return
			}
			dur, odd := mentions(l.t, isDur), mentions(l.t, quotedOdd)
			for _, d := range append(docsOf(l, nd, max), `null`) {
				variants(d, bad, func(s string) { one(l.name, l.t, dur, odd, s) })
			}
			if bad {
				for _, s := range []string{``, ` `, `{}`, `[]`, `{"":1}`, `[[[]]]`, `"é"`} {
					variants(s, false, func(s string) { one(l.name, l.t, dur, odd, s) })
				}
			}
		}
	}
	c.scales(c.scaleLim(), func(l leafT) {
		b, err, pan := stdEncode(l.vals[0].Interface(), false)
		if err != nil || pan != nil || !decodable(l) {
			return
		}
		one(l.name, l.t, false, mentions(l.t, quotedOdd), string(b))
		one(l.name, rawT, false, false, string(b))
		if len(b) < 3000 || c.thorough {
			scaleTexts(string(b), func(s string) { one(l.name, l.t, false, mentions(l.t, quotedOdd), s) })
		}
	})
	c.giants(func(l leafT) {
		if b, err, pan := stdEncode(l.vals[0].Interface(), false); err == nil && pan == nil {
			one(l.name, l.t, false, false, string(b))
		}
	})
	c.scalarTexts(one)
	c.universeOf(allDecLeaves(), 1, nil, func(d int) int { return 9 }, f(6, 3000, true))
	c.universeOf(allDecLeaves(), 2, decPairs(), func(d int) int { return c.Pick(3, 5) }, f(c.Pick(1, 3), c.Pick(250, 3000), c.thorough))
}

// dump is a readable form of a decoded value, following pointers.
func dump(v reflect.Value) string {
	var sb strings.Builder
	var rec func(v reflect.Value, d int)
	rec = func(v reflect.Value, d int) {
		if d > 12 || sb.Len() > 1500 {
			sb.WriteString("...")
			return
		}
		switch v.Kind() {
		case reflect.Invalid:
			sb.WriteString("nil")
		case reflect.Pointer, reflect.Interface:
			if v.IsNil() {
				sb.WriteString("nil")
				return
			}
			if v.Kind() == reflect.Pointer {
				sb.WriteByte('&')
			} else {
				fmt.Fprintf(&sb, "(%v)", v.Elem().Type())
			}
			rec(v.Elem(), d+1)
		case reflect.Struct:
			sb.WriteByte('{')
			for i := 0; i < v.NumField(); i++ {
				if i > 0 {
					sb.WriteByte(' ')
				}
				sb.WriteString(v.Type().Field(i).Name + ":")
				rec(v.Field(i), d+1)
			}
			sb.WriteByte('}')
		case reflect.Slice, reflect.Array:
			if v.Kind() == reflect.Slice && v.IsNil() {
				sb.WriteString("nil")
				return
			}
			if v.Type().Elem().Kind() == reflect.Uint8 {
				fmt.Fprintf(&sb, "%q", fmt.Sprintf("%s", v))
				return
			}
			sb.WriteByte('[')
			for i := 0; i < v.Len(); i++ {
				if i > 0 {
					sb.WriteByte(' ')
				}
				rec(v.Index(i), d+1)
			}
			sb.WriteByte(']')
		case reflect.Map:
			if v.IsNil() {
				sb.WriteString("nil map")
				return
			}
			sb.WriteString("map[")
			var es []string
			for _, k := range v.MapKeys() {
				at := sb.Len()
				rec(k, d+1)
				sb.WriteByte(':')
				rec(v.MapIndex(k), d+1)
				all := sb.String()
				es = append(es, all[at:])
				sb.Reset()
				sb.WriteString(all[:at])
			}
			sort.Strings(es)
			sb.WriteString(strings.Join(es, " "))
			sb.WriteByte(']')
		default:
			fmt.Fprintf(&sb, "%#v", v)
		}
	}
	rec(v, 0)
	return sb.String()
}

type ptrAt struct {
	path uint64
	p    uintptr
}

// ptrs lists the non-nil pointers and maps reachable from v by path.
func ptrs(v reflect.Value, path uint64, m []ptrAt, d int) []ptrAt {
	if d > 20 || len(m) > 300 {
		return m
	}
	step := func(n uint64) uint64 { return (path ^ n) * 0x9e3779b97f4a7c15 }
	switch v.Kind() {
	case reflect.Pointer:
		if !v.IsNil() && v.Type().Elem().Kind() != reflect.Pointer {
			m = append(m, ptrAt{path, v.Pointer()})
			m = ptrs(v.Elem(), step(1), m, d+1)
		}
	case reflect.Interface:
		if !v.IsNil() {
			m = ptrs(v.Elem(), step(2), m, d+1)
		}
	case reflect.Struct:
		if v.Type() == timeT {
			return m
		}
		for i := 0; i < v.NumField(); i++ {
			m = ptrs(v.Field(i), step(3+uint64(i)), m, d+1)
		}
	case reflect.Slice, reflect.Array:
		if !hasPtr(v.Type().Elem()) {
			return m
		}
		for i := 0; i < v.Len() && i < 10; i++ {
			m = ptrs(v.Index(i), step(1000+uint64(i)), m, d+1)
		}
	case reflect.Map:
		if !v.IsNil() {
			m = append(m, ptrAt{path, v.Pointer()})
			if !hasPtr(v.Type().Elem()) {
				return m
			}
			for it := v.MapRange(); it.Next(); {
				h := uint64(2000)
				for _, b := range []byte(fmt.Sprint(it.Key())) {
					h = h*31 + uint64(b)
				}
				m = ptrs(it.Value(), step(h), m, d+1)
			}
		}
	}
	return m
}

func hasPtr(t reflect.Type) bool {
	switch t.Kind() {
	case reflect.Pointer, reflect.Interface, reflect.Struct, reflect.Slice, reflect.Array, reflect.Map:
		return true
	}
	return false
}

func ptrSet(v reflect.Value) map[uint64]uintptr {
	l := ptrs(v, 7, nil, 0)
	if len(l) == 0 {
		return nil
	}
	m := make(map[uint64]uintptr, len(l))
	for _, x := range l {
		m[x.path] = x.p
	}
	return m
}

// slicesIn lists the slices in a value, as they are now: what is done to their
// elements later shows.
func slicesIn(v reflect.Value, l []reflect.Value, d int) []reflect.Value {
	if d > 7 || len(l) > 60 {
		return l
	}
	switch v.Kind() {
	case reflect.Pointer, reflect.Interface:
		if !v.IsNil() {
			l = slicesIn(v.Elem(), l, d+1)
		}
	case reflect.Struct:
		if v.Type() == timeT {
			break
		}
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).IsExported() || v.Type().Field(i).Anonymous {
				l = slicesIn(v.Field(i), l, d+1)
			}
		}
	case reflect.Array, reflect.Slice:
		if v.Kind() == reflect.Slice && v.Len() > 0 {
			// A copy of the slice's header.
			l = append(l, v.Slice(0, v.Len()))
		}
		if k := v.Type().Elem().Kind(); k == reflect.Pointer || k >= reflect.Array && k != reflect.String {
			for i := 0; i < v.Len() && i < 20; i++ {
				l = slicesIn(v.Index(i), l, d+1)
			}
		}
	}
	return l
}

// clone copies a value deeply, so that the copy shares no memory with it.
func clone(v reflect.Value) reflect.Value {
	o := reflect.New(v.Type()).Elem()
	o.Set(v)
	var rec func(o, v reflect.Value)
	rec = func(o, v reflect.Value) {
		if v.Type() == timeT || !o.CanSet() {
			return
		}
		switch v.Kind() {
		case reflect.Pointer:
			if !v.IsNil() {
				n := reflect.New(v.Type().Elem())
				n.Elem().Set(v.Elem())
				rec(n.Elem(), v.Elem())
				o.Set(n.Convert(v.Type()))
			}
		case reflect.Interface:
			if !v.IsNil() {
				o.Set(clone(v.Elem()))
			}
		case reflect.Struct:
			for i := 0; i < v.NumField(); i++ {
				rec(o.Field(i), v.Field(i))
			}
		case reflect.Slice:
			if !v.IsNil() {
				n := reflect.MakeSlice(v.Type(), v.Len(), v.Cap())
				reflect.Copy(n, v)
				for i := 0; i < v.Len(); i++ {
					rec(n.Index(i), v.Index(i))
				}
				o.Set(n)
			}
		case reflect.Array:
			for i := 0; i < v.Len(); i++ {
				rec(o.Index(i), v.Index(i))
			}
		case reflect.Map:
			if !v.IsNil() {
				n := reflect.MakeMap(v.Type())
				for it := v.MapRange(); it.Next(); {
					n.SetMapIndex(it.Key(), clone(it.Value()))
				}
				o.Set(n)
			}
		}
	}
	rec(o, v)
	return o
}

// holds reports whether an interface somewhere in v holds a value of a type for which is holds.
func holds(v reflect.Value, is func(reflect.Type) bool) bool {
	n := 0
	var rec func(v reflect.Value) bool
	rec = func(v reflect.Value) bool {
		if n++; n > 2000 {
			return false
		}
		switch v.Kind() {
		case reflect.Interface:
			return !v.IsNil() && (mentions(v.Elem().Type(), is) || rec(v.Elem()))
		case reflect.Pointer:
			return !v.IsNil() && rec(v.Elem())
		case reflect.Struct:
			for i := 0; i < v.NumField(); i++ {
				if rec(v.Field(i)) {
					return true
				}
			}
		case reflect.Slice, reflect.Array:
			if k := v.Type().Elem().Kind(); k == reflect.Uint8 || k == reflect.String {
				return false
			}
			for i := 0; i < v.Len(); i++ {
				if rec(v.Index(i)) {
					return true
				}
			}
		case reflect.Map:
			for it := v.MapRange(); it.Next(); {
				if rec(it.Value()) {
					return true
				}
			}
		}
		return false
	}
	return rec(v)
}

func runC13(c *C) {
	// run decodes the texts one after another into twins
	run := func(key string, start reflect.Value, t reflect.Type, dur, odd bool, texts []string) {
		a, b := reflect.New(t), reflect.New(t)
		if start.IsValid() {
			dur, odd = dur || holds(start, isDur), odd || holds(start, quotedOdd)
			a.Elem().Set(clone(start))
			b.Elem().Set(clone(start))
		}
		c.State(1)
		for i, s := range texts {
			pa, pb := ptrSet(a.Elem()), ptrSet(b.Elem())
			var ba, bb []reflect.Value
			if i > 0 || start.IsValid() {
				ba, bb = slicesIn(a.Elem(), nil, 0), slicesIn(b.Elem(), nil, 0)
			}
			je, se, jp, sp := unmarshal2(s, a.Interface(), b.Interface())
			c.Trans(1)
			if sp != nil {
				return
			}
			desc := func() string {
				st := "zero"
				if start.IsValid() {
					st = dump(start)
				}
				return fmt.Sprintf("%v (from %s), texts %q", t, st, texts[:i+1])
			}
			if jp != nil {
				c.Fail("panic "+key, "%s: panic %v", desc(), jp)
				return
			}
			if (je != nil) != (se != nil) {
				if dur && je == nil && hasDurString(s) || odd && se == nil && hasOddString(s) {
					return
				}
				c.Fail("error "+key+clip(fmt.Sprintf("%q", texts[:i+1]), 150), "%s: %v, encoding/json: %v", desc(), je, se)
				return
			}
			if je != nil {
				return
			}
			c.Valid(1)
			if !decSame(a.Elem(), b.Elem()) {
				c.Fail("value "+key+clip(fmt.Sprintf("%q", texts[:i+1]), 150), "%s:\n got  %s\n want %s", desc(), dump(a.Elem()), dump(b.Elem()))
				return
			}
			for j := range ba {
				if j < len(bb) && !decSame(ba[j], bb[j]) {
					// encoding/json must have left it alone
					b2 := reflect.New(t)
					if start.IsValid() {
						b2.Elem().Set(clone(start))
					}
					for _, s := range texts[:i] {
						json.Unmarshal([]byte(s), b2.Interface())
					}
					if was := slicesIn(b2.Elem(), nil, 0); j >= len(was) || !decSame(was[j], bb[j]) {
						continue
					}
					c.Fail("shared "+key+clip(fmt.Sprintf("%q", texts[:i+1]), 150), "%s: the elements of a slice the destination held before are now %s, after encoding/json %s", desc(), dump(ba[j]), dump(bb[j]))
					return
				}
			}
			if pa == nil || pb == nil {
				continue
			}
			na, nb := ptrSet(a.Elem()), ptrSet(b.Elem())
			for p := range na {
				if _, ok := nb[p]; !ok || pa[p] == 0 || pb[p] == 0 {
					continue
				}
				if (pa[p] == na[p]) != (pb[p] == nb[p]) {
					c.Fail("identity "+key+clip(fmt.Sprintf("%q", texts[:i+1]), 150), "%s: a pointer or map is reused: %v, by encoding/json: %v", desc(), pa[p] == na[p], pb[p] == nb[p])
					return
				}
			}
		}
	}
	// sequences of arrays and objects of many sizes into one destination
	szs := []int{0, 1, 2, 3, 9, 10, 11, 12, 19, 20, 21, 39, 40, 41, 80, 81, 160, 161, 320, 321}
	if c.thorough {
		szs = append(szs, 4, 5, 6, 7, 8, 13, 15, 16, 17, 31, 32, 33, 64, 65, 79, 127, 128, 129, 640, 641, 1000, 1280, 1281)
	}
	elems := []struct {
		t    reflect.Type
		e    []string
		keys bool
	}{
		{reflect.TypeOf([]int{}), []string{`1`, `null`}, false},
		{reflect.TypeOf([]string{}), []string{`"a"`, `""`, `null`}, false},
		{reflect.TypeOf([]any{}), []string{`1`, `null`, `[1]`, `{}`}, false},
		{anyT, []string{`1`, `null`}, false},
		{reflect.TypeOf([]*int{}), []string{`1`, `null`}, false},
		{reflect.TypeOf([][]int{}), []string{`[1,2]`, `[]`, `null`}, false},
		{reflect.TypeOf([]scaleI{}), []string{`{"a":1}`, `{"B":2}`, `null`, `{"a":null}`}, false},
		{reflect.TypeOf([]*scaleI{}), []string{`{"a":1}`, `{"B":2}`, `null`}, false},
		{reflect.TypeOf([]map[string]int{}), []string{`{"a":1}`, `{"b":2}`, `null`}, false},
		{reflect.TypeOf([]json.RawMessage{}), []string{`{"a":1}`, `1`}, false},
		{reflect.TypeOf([]uint8{}), []string{`1`, `255`}, false},
		{reflect.TypeOf([]bool{}), []string{`true`, `false`, `null`}, false},
		{reflect.TypeOf([]float64{}), []string{`1.5`, `null`}, false},
		{reflect.TypeOf([]UTStr{}), []string{`"a"`}, false},
		{reflect.TypeOf([12]int{}), []string{`1`, `null`}, false},
		{reflect.TypeOf([]json.Number{}), []string{`1`}, false},
		{reflect.TypeOf(map[string]int{}), []string{`1`, `null`}, true},
		{reflect.TypeOf(map[string]any{}), []string{`1`, `[]`, `null`}, true},
		{reflect.TypeOf(map[string]*int{}), []string{`1`, `null`}, true},
		{reflect.TypeOf(map[string]scaleI{}), []string{`{"a":1}`, `{"B":1}`, `null`}, true},
		{reflect.TypeOf(map[string]json.RawMessage{}), []string{`{"a":1}`, `1`}, true},
		{reflect.TypeOf(map[string]string{}), []string{`"a"`}, true},
		{reflect.TypeOf(struct{ L []int }{}), []string{`1`, `null`}, false},
		{reflect.TypeOf(struct{ L *[]string }{}), []string{`"1"`, `null`}, false},
		{reflect.TypeOf(struct{ L any }{}), []string{`"1"`, `null`}, false},
		{reflect.TypeOf([]byte{}), []string{``}, false},
	}
	for _, el := range elems {
		for _, n := range szs {
			c.Case(func() string { return fmt.Sprintf("sequences of sizes starting with %d into %v", n, el.t) }, func() {
				mk := func(n, e int) string {
					var s string
					switch {
					case el.e[0] == "":
						return `"` + rep("AAEC", n) + `"`
					case el.keys:
						s = "{" + joinN(n, func(i int) string { return fmt.Sprintf(`"k%d":%s`, i, el.e[e%len(el.e)]) }) + "}"
					default:
						s = "[" + joinN(n, func(i int) string { return el.e[e%len(el.e)] }) + "]"
					}
					if el.t.Kind() == reflect.Struct {
						s = `{"L":` + s + `}`
					}
					return s
				}
				var zero reflect.Value
				key := fmt.Sprintf("sizes %v ", el.t)
				null := `null`
				if el.t.Kind() == reflect.Struct {
					null = `{"L":null}`
				}
				for _, m := range szs {
					for e := range el.e {
						run(key, zero, el.t, false, false, []string{mk(n, 0), mk(m, e), null, mk(n, e)})
						run(key, zero, el.t, false, false, []string{mk(n, e), null, mk(m, 0), mk(1, e)})
						run(key, zero, el.t, false, false, []string{mk(n, 0), mk(m, e), mk(n, e)})
						run(key, zero, el.t, false, false, []string{mk(n, 0), mk(0, 0), mk(m, e)})
					}
				}
			})
		}
	}
	c.Bound("%d destination types of sequences and maps x all pairs of %d sizes x every kind of element x null or empty before, between or after", len(elems), len(szs))
	f := func(nd, max, depth, nalt int) func(l leafT) {
		return func(l leafT) {
			if !decodable(l) {
				return
			}
			dur, odd := mentions(l.t, isDur), mentions(l.t, quotedOdd)
			ds := docsOf(l, nd, max)
			texts := append([]string{}, ds...)
			if len(ds) > 0 {
				// one-node variants of the longest document, evenly thinned
				var vs []string
				variants(ds[0], false, func(s string) { vs = append(vs, s) })
				for i := 0; i < nalt && len(vs) > 0; i++ {
					texts = append(texts, vs[i*len(vs)/nalt])
				}
			}
			for _, s := range []string{`null`, `{}`, `[]`, `""`, `1`, `"x"`, `[1]`, `{"a":{"b":1}}`, `[null,{"A":1}]`} {
				texts = append(texts, s)
			}
			var zero reflect.Value
			for d := 2; d <= depth; d++ {
				seqs(len(texts), d, func(ix []int) {
					ss := make([]string, d)
					for i, x := range ix {
						ss[i] = texts[x]
					}
					run(l.name, zero, l.t, dur, odd, ss)
				})
			}
			for _, v := range l.vals {
				if len(ds) == 0 {
					variants(`{"A":1,"a":[1]}`, false, func(s string) { run(l.name, v, l.t, dur, odd, []string{s}) })
				}
				alts := valAlts
				if depth == 2 && !c.thorough {
					alts = fewAlts
				}
				for _, d := range ds {
					variantsOf(alts, d, false, func(s string) { run(l.name, v, l.t, dur, odd, []string{s}) })
				}
			}
		}
	}
	c.universeOf(allDecLeaves(), 1, nil, func(d int) int { return 6 }, f(c.Pick(2, 3), c.Pick(500, 3000), c.Pick(2, 3), c.Pick(8, 24)))
	c.universeOf(allDecLeaves(), 2, decPairs(), func(d int) int { return c.Pick(1, 4) }, f(c.Pick(1, 2), c.Pick(120, 700), 2, c.Pick(2, 12)))
}

// ---------------------------------------------------------------------------
// C24

func runC24(c *C) {
	plainKind := func(t reflect.Type) bool { // of the kinds listed in the property
		return !mentions(t, func(t reflect.Type) bool {
			switch t {
			case timeT, rawT, numberT, durT:
				return true
			}
			switch t.Kind() {
			case reflect.Interface:
				return t.NumMethod() > 0
			case reflect.Chan, reflect.Func, reflect.Complex64, reflect.Complex128, reflect.UnsafePointer:
				return true
			case reflect.Map:
				switch t.Key().Kind() {
				case reflect.String, reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64, reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
				default:
					return true
				}
			case reflect.Struct:
				for _, f := range refFields(t) {
					if f.quoted {
						return true
					}
				}
			}
			return false
		})
	}
	one := func(key string, t reflect.Type, users, plain bool, text string) {
		c.State(1)
		c.Trans(1)
		a := reflect.New(t)
		var err error
		pan := catch(func() { err = jc.Unmarshal([]byte(text), a.Interface()) })
		if pan != nil {
			return // C12
		}
		valid := stdValid(text)
		var syn *jc.SyntaxError
		isSyn := errors.As(err, &syn)
		if !valid {
			if users {
				return
			}
			c.Valid(1)
			if !isSyn {
				c.Fail("syntax "+key, "Unmarshal(%q) into %v: %T %v, want a *SyntaxError", clip(text, 300), t, err, err)
			}
			return
		}
		if err == nil {
			return
		}
		c.Valid(1)
		if isSyn && !users {
			c.Fail("not syntax "+key, "Unmarshal of the valid %q into %v: *SyntaxError %v", clip(text, 300), t, err)
			return
		}
		b := reflect.New(t)
		var se error
		if catch(func() { se = json.Unmarshal([]byte(text), b.Interface()) }) != nil {
			return
		}
		if errors.Is(se, errBoom) && users && !errors.Is(err, errBoom) {
			// decoding stops at the first error, which may be another one
			var ute *jc.UnmarshalTypeError
			var num *strconv.NumError
			if !errors.As(err, &ute) && !errors.As(err, &num) {
				c.Fail("user error "+key, "Unmarshal(%q) into %v: %T %v, encoding/json %T %v", clip(text, 300), t, err, err, se, se)
			}
			return
		}
		var ute *json.UnmarshalTypeError
		if plain && !users && errors.As(se, &ute) {
			var jte *jc.UnmarshalTypeError
			if !errors.As(err, &jte) {
				c.Fail("type "+key, "Unmarshal(%q) into %v: %T %v, want a *UnmarshalTypeError as %v", clip(text, 300), t, err, err, se)
			}
		}
	}
	f := func(nd, max int) func(l leafT) {
		return func(l leafT) {
			if !decodable(l) {
				return
			}
			users := hasUserMethods(l.t, map[reflect.Type]bool{})
			plain := plainKind(l.t)
			for _, d := range append(docsOf(l, nd, max), `{}`) {
				variants(d, true, func(s string) { one(l.name, l.t, users, plain, s) })
			}
			// misuse
			t := l.t
			for _, text := range []string{`null`, `1`, `{}`, `{"a":1}`, `[1]`, `"x"`} {
				for _, dst := range []any{nil, reflect.Zero(t).Interface(), reflect.Zero(reflect.PointerTo(t)).Interface()} {
					dt := reflect.TypeOf(dst)
					if dt != nil && dt.Kind() == reflect.Pointer && !reflect.ValueOf(dst).IsNil() {
						continue
					}
					for _, how := range []string{"Unmarshal", "Decode", "Parse"} {
						var err error
						pan := catch(func() {
							switch how {
							case "Unmarshal":
								err = jc.Unmarshal([]byte(text), dst)
							case "Decode":
								err = jc.NewDecoder(strings.NewReader(text + " ")).Decode(dst)
							case "Parse":
								_, err = jc.Parse([]byte(text), dst, 0)
							}
						})
						c.Trans(1)
						var iu *jc.InvalidUnmarshalError
						if pan != nil || !errors.As(err, &iu) {
							c.Fail("misuse "+how+" "+l.name, "%s(%q) into a %T (nil or not a pointer): %T %v, panic %v", how, text, dst, err, err, pan)
						} else if iu.Type != reflect.TypeOf(dst) {
							c.Fail("misuse type "+how+" "+l.name, "%s(%q) into a %T: error names %v", how, text, dst, iu.Type)
						}
					}
				}
			}
			// encoding
			for i, v := range l.vals {
				for _, k := range []encConf{{html: true}, {indent: " ", unsorted: true, colors: fullPalette().colors()}} {
					_, err, pan := k.encode(v.Interface())
					_, se, sp := stdEncode(v.Interface(), true)
					c.Trans(1)
					if pan != nil || sp != nil || se == nil || err == nil {
						continue
					}
					var st *json.UnsupportedTypeError
					var sv *json.UnsupportedValueError
					var jt *jc.UnsupportedTypeError
					var jv *jc.UnsupportedValueError
					if !k.unsorted { // one error each, whichever comes first
						if errors.As(se, &st) && !errors.As(err, &jt) && !errors.As(err, &jv) {
							c.Fail("encode type "+typeKey(l, i), "encoding %s: %T %v, want *UnsupportedTypeError", show(v.Interface()), err, err)
						}
						if errors.As(se, &sv) && !errors.As(err, &jv) && !errors.As(err, &jt) {
							c.Fail("encode value "+typeKey(l, i), "encoding %s: %T %v, want *UnsupportedValueError", show(v.Interface()), err, err)
						}
					}
					if errors.Is(se, errBoom) && !errors.Is(err, errBoom) {
						c.Fail("encode user "+typeKey(l, i), "encoding %s: %T %v, want %v", show(v.Interface()), err, err, se)
					}
					c.Valid(1)
				}
			}
		}
	}
	c.universeOf(allDecLeaves(), 1, nil, func(d int) int { return 6 }, f(4, 3000))
	c.universeOf(allDecLeaves(), 2, decPairs(), func(d int) int { return c.Pick(3, 4) }, f(c.Pick(1, 2), c.Pick(150, 1000)))
	c.scales(scaleLimit{s: c.Pick(5000, 70000), e: c.Pick(300, 5000), m: c.Pick(130, 1100), f: c.Pick(20, 70), d: c.Pick(140, 1100)}, func(l leafT) {
		b, err, pan := stdEncode(l.vals[0].Interface(), false)
		if err != nil || pan != nil || !decodable(l) {
			return
		}
		users, plain := hasUserMethods(l.t, map[reflect.Type]bool{}), plainKind(l.t)
		if len(b) < 1000 || c.thorough && len(b) < 20000 {
			scaleTexts(string(b), func(s string) { one(l.name, l.t, users, plain, s) })
		}
		for _, t := range []reflect.Type{reflect.TypeOf(0), reflect.TypeOf(""), reflect.TypeOf([]bool{}), reflect.TypeOf(scaleI{}), reflect.TypeOf(map[string]bool{}), reflect.TypeOf([1]scaleN{})} {
			one(l.name+" into "+t.String(), t, false, true, string(b))
			one(l.name+" into "+t.String(), t, false, true, "["+string(b)+"]")
			one(l.name+" into "+t.String(), t, false, true, string(b[:len(b)-1]))
		}
	})
	c.batches("malformed texts", tokAlphabet, 0, c.Pick(4, 5), 1, same, func(s string) {
		for _, t := range []reflect.Type{anyT, reflect.TypeOf(0), reflect.TypeOf(""), reflect.TypeOf([]int{}), reflect.TypeOf(Node{}), reflect.TypeOf(map[string]int{}), reflect.TypeOf([2]bool{}), rawT} {
			one(t.String()+" "+s, t, false, t != rawT, s)
		}
	})
}
