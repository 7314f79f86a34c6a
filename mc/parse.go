package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"reflect"
	"strings"

	jc "github.com/neilotoole/jsoncolor"
)

func init() {
	register(&check{id: "C16", rule: "documents and malformed texts x destination types x zero-copy flag sets: decode from a buffer with spare capacity, compare the buffer, overwrite it, compare the value with one decoded by encoding/json; also values kept from a Decoder while it decodes further, over several ways to cut the stream", run: runC16})
	register(&check{id: "C17", rule: "documents and their one-node and one-key edits x destination types x all flag sets x trailing texts; model: encoding/json.Decoder on the text with its two options, and for exact matching the text with every key renamed that matches no field exactly", run: runC17})
}

// exactKeys renames, in the first value of text, every key of an object meant for
// a struct that equals no field's name.
func exactKeys(text string, t reflect.Type) string {
	ts, err := tokenize([]byte(text))
	if err != nil {
		return text
	}
	var sb strings.Builder
	last := 0
	i := 0
	var value func(t reflect.Type)
	value = func(t reflect.Type) {
		for t != nil {
			pt := reflect.PointerTo(t)
			if t.Implements(unmarshT) || t.Implements(untextT) || pt.Implements(unmarshT) || pt.Implements(untextT) {
				t = nil
				break
			}
			if t.Kind() != reflect.Pointer {
				break
			}
			t = t.Elem()
		}
		k := ts[i].k
		i++
		switch k {
		case '{':
			for ts[i].k != '}' {
				if ts[i].k == ',' {
					i++
					continue
				}
				key := ts[i]
				i += 2
				var et reflect.Type
				if t != nil && t.Kind() == reflect.Map {
					et = t.Elem()
				}
				if t != nil && t.Kind() == reflect.Struct {
					var s string
					json.Unmarshal([]byte(text[key.s:key.e]), &s)
					found := false
					for _, f := range refFields(t) {
						if f.name == s {
							found, et = true, f.typ
						}
					}
					if !found {
						sb.WriteString(text[last:key.s])
						sb.WriteString(`"\u0001 no field"`)
						last = key.e
					}
				}
				value(et)
			}
			i++
		case '[':
			var et reflect.Type
			if t != nil && (t.Kind() == reflect.Slice || t.Kind() == reflect.Array) {
				et = t.Elem()
			}
			for ts[i].k != ']' {
				if ts[i].k == ',' {
					i++
					continue
				}
				value(et)
			}
			i++
		}
	}
	value(t)
	sb.WriteString(text[last:])
	return sb.String()
}

var trailing = []string{"", " ", "\n\t\r ", "x", "1", `{"a":1}`, "\x00", "]", "}", ",", "  \n [", ":", `"`, " null", "\xff", ".5", "e1", "-", "\u00a0"}

// held is used through a pointer in an interface.
type heldI interface{ Held() }
type held struct {
	Name string
	Sub  *held
	V    any
	I    heldI
}

func (*held) Held() {}

func runC17(c *C) {
	const sem = jc.DisallowUnknownFields | jc.UseNumber | jc.DontMatchCaseInsensitiveStructFields
	var lastText, lastExact string
	var lastType reflect.Type
	// reference: the first value of the text
	ref := func(mk func() reflect.Value, rt reflect.Type, v string, flags jc.ParseFlags) (reflect.Value, error, any) {
		if flags&jc.DontMatchCaseInsensitiveStructFields != 0 {
			if v != lastText || rt != lastType {
				lastText, lastType, lastExact = v, rt, exactKeys(v, rt)
			}
			v = lastExact
		}
		d := json.NewDecoder(strings.NewReader(v))
		if flags&jc.DisallowUnknownFields != 0 {
			d.DisallowUnknownFields()
		}
		if flags&jc.UseNumber != 0 {
			d.UseNumber()
		}
		x := mk()
		var err error
		pan := catch(func() { err = d.Decode(x.Interface()) })
		return x, err, pan
	}
	one := func(key string, mk func() reflect.Value, rt reflect.Type, dur, odd bool, text string, flagsets []jc.ParseFlags) {
		if strings.Trim(text, " \t\r\n") == "" {
			for _, f := range flagsets {
				x := mk()
				var err error
				pan := catch(func() { _, err = jc.Parse([]byte(text), x.Interface(), f) })
				if err == nil || pan != nil {
					c.Fail("blank "+key, "Parse(%q) into %v with flags %#x: %v %v, want an error", text, x.Type().Elem(), f, err, pan)
				}
			}
			return
		}
		// the first value's extent does not depend on the flags
		var raw json.RawMessage
		d := json.NewDecoder(strings.NewReader(text))
		rerr := d.Decode(&raw)
		left := ""
		if rerr == nil {
			left = text[spaceEnd(text, int(d.InputOffset())):]
		}
		if rerr == nil && strings.IndexByte("-0123456789", raw[0]) >= 0 && left != "" && strings.IndexByte("0123456789+-.eE", left[0]) >= 0 && left == text[d.InputOffset():] {
			c.Count("number_directly_followed_by_number_characters", 1)
			return
		}
		type res struct {
			v   reflect.Value
			err error
			pan any
		}
		refs := map[jc.ParseFlags]res{}
		for _, f := range flagsets {
			c.State(1)
			c.Trans(1)
			x := mk()
			in := []byte(text)
			var r []byte
			var err error
			pan := catch(func() { r, err = jc.Parse(in, x.Interface(), f) })
			desc := func() string {
				return fmt.Sprintf("Parse(%q) into %v with flags %#x", clip(text, 400), x.Type().Elem(), f)
			}
			fk := fmt.Sprintf("%s %#x %s", key, f, clip(text, 100))
			if rerr != nil {
				if pan != nil || err == nil {
					c.Fail("malformed "+fk, "%s: %v %v, encoding/json: %v", desc(), err, pan, rerr)
				}
				continue
			}
			w, ok := refs[f&sem]
			if !ok {
				w.v, w.err, w.pan = ref(mk, rt, string(raw), f)
				refs[f&sem] = w
			}
			if w.pan != nil {
				continue
			}
			if pan != nil {
				c.Fail("panic "+fk, "%s: panic %v", desc(), pan)
				continue
			}
			if (err != nil) != (w.err != nil) {
				if dur && err == nil && hasDurString(string(raw)) || odd && w.err == nil && hasOddString(string(raw)) {
					continue
				}
				c.Fail("error "+fk, "%s: %v, want %v", desc(), err, w.err)
				continue
			}
			if !bytes.HasSuffix([]byte(text), r) {
				c.Fail("rest "+fk, "%s: returns %q, which is not a suffix", desc(), clip(string(r), 100))
				continue
			}
			if err != nil {
				continue
			}
			c.Valid(1)
			if string(r) != left {
				c.Fail("rest "+fk, "%s: returns the remaining %q, want %q", desc(), clip(string(r), 100), clip(left, 100))
				continue
			}
			if !decSame(x.Elem(), w.v.Elem()) {
				c.Fail("value "+fk, "%s:\n got  %s\n want %s", desc(), dump(x), dump(w.v))
			}
		}
	}
	var flags64, flags8 []jc.ParseFlags
	flags4 := []jc.ParseFlags{0, jc.DontMatchCaseInsensitiveStructFields, jc.DisallowUnknownFields | jc.UseNumber, sem}
	for f := jc.ParseFlags(0); f < 64; f++ {
		flags64 = append(flags64, f)
		if f&^sem == 0 {
			flags8 = append(flags8, f)
		}
	}
	f := func(nd, max int, full bool) func(l leafT) {
		return func(l leafT) {
			if !decodable(l) {
				return
			}
			dur, odd := mentions(l.t, isDur), mentions(l.t, quotedOdd)
			mk := func() reflect.Value { return reflect.New(l.t) }
			flags8 := flags8
			if !mentions(l.t, func(t reflect.Type) bool { return t.Kind() == reflect.Struct && t != timeT }) {
				flags8 = []jc.ParseFlags{0, jc.UseNumber, sem}
			} else if !full && !c.thorough {
				flags8 = flags4
			}
			do := func(s string, fs []jc.ParseFlags) { one(l.name, mk, l.t, dur, odd, s, fs) }
			for i, d := range append(docsOf(l, nd, max), `null`) {
				if full {
					for _, t := range trailing {
						do(" "+d+t, []jc.ParseFlags{0, 63})
					}
					do(" "+d+" {}", flags64)
				} else {
					do(d+" x", flags64[:c.Pick(0, 64)])
				}
				alts := fewAlts
				if !full && !c.thorough {
					alts = alts[:1]
				} else if i > 0 || !full {
					alts = alts[:5]
				}
				variantsOf(append(append([]string{}, alts...), `{"A":1,"zz":{"A":2}}`, `[{"a":null,"B":2}]`, `1e400`), d, full, func(s string) { do(s, flags8) })
				// all keys in another case
				_, ks, _ := nodes(d)
				for _, cv := range []func(string) string{strings.ToUpper, strings.ToLower} {
					s, last := "", 0
					for _, k := range ks {
						s += d[last:k.s] + cv(d[k.s:k.e])
						last = k.e
					}
					do(s+d[last:], flags8)
				}
			}
		}
	}
	c.universeOf(allDecLeaves(), 1, nil, func(d int) int { return 6 }, f(c.Pick(2, 4), c.Pick(400, 3000), true))
	c.universeOf(allDecLeaves(), 2, decPairs(), func(d int) int { return c.Pick(1, 3) }, f(1, c.Pick(120, 1500), false))
	// interfaces that hold pointers
	type inner struct {
		Name string
		Sub  *inner
		V    any
	}
	for i, hold := range []func() reflect.Value{
		func() reflect.Value { x := any(&inner{}); return reflect.ValueOf(&x) },
		func() reflect.Value { y := any(&inner{}); x := any(&y); return reflect.ValueOf(&x) },
		func() reflect.Value {
			return reflect.ValueOf(&struct{ X any }{&map[string]inner{}})
		},
		func() reflect.Value { x := heldI(&held{}); return reflect.ValueOf(&x) },
		func() reflect.Value { return reflect.ValueOf(&struct{ X heldI }{&held{Sub: &held{}}}) },
		func() reflect.Value { return reflect.ValueOf(&[]heldI{&held{}, &held{I: &held{}}}) },
		func() reflect.Value { return reflect.ValueOf(&held{I: &held{I: &held{}}, Sub: &held{I: &held{}}}) },
		func() reflect.Value { return reflect.ValueOf(&[]any{&inner{}, &inner{Sub: &inner{}}}) },
	} {
		type noI struct {
			Name string
			Sub  *noI
			V    any
			I    *noI
		}
		n := reflect.TypeOf(noI{})
		t := []reflect.Type{reflect.TypeOf(inner{}), reflect.TypeOf(inner{}), reflect.TypeOf(struct{ X map[string]inner }{}),
			n, reflect.TypeOf(struct{ X noI }{}), reflect.TypeOf([]noI{}), n, reflect.TypeOf([]inner{})}[i]
		docs := []string{`{"Name":"n","Sub":{"Name":"m","V":1},"V":[2]}`, `{"X":{"k":{"Name":"n","V":1.5}}}`}
		if i > 2 {
			docs = []string{`{"Name":"n","I":{"Name":"m","I":{"V":[1]},"V":2}}`}
			switch t.Kind() {
			case reflect.Slice:
				docs = []string{`[{"V":1},{"I":{"V":2,"Name":"x"},"Sub":{"V":3}}]`}
			case reflect.Struct:
				if t.NumField() == 1 {
					docs = []string{`{"X":{"Name":"n","V":[1.5],"Sub":{"V":1}}}`}
				}
			}
		}
		c.Case(func() string { return fmt.Sprintf("interface holding a pointer, %d", i) }, func() {
			for _, d := range docs {
				variants(d, true, func(s string) { one("held", hold, t, false, false, s, flags64) })
			}
		})
	}
	oneOption(c)
	c.scales(scaleLimit{s: c.Pick(5000, 140000), e: c.Pick(300, 5000), m: c.Pick(130, 1100), f: c.Pick(20, 70), d: c.Pick(140, 1100)}, func(l leafT) {
		b, err, pan := stdEncode(l.vals[0].Interface(), false)
		if err != nil || pan != nil || !decodable(l) {
			return
		}
		odd := mentions(l.t, quotedOdd)
		for _, t := range []reflect.Type{l.t, anyT, rawT} {
			mk := func() reflect.Value { return reflect.New(t) }
			for _, tr := range []string{"", " \n{\"", "]", " 1", rep(" ", 70) + "x" + rep("y", 5000)} {
				one(l.name, mk, t, false, odd, string(b)+tr, flags4)
			}
			if len(b) < 300 {
				scaleTexts(string(b), func(s string) { one(l.name, mk, t, false, odd, s, flags4[:1]) })
			}
		}
	})
	// an unknown or misspelled member at every depth, after and between known ones
	for n := 0; n <= c.Pick(40, 70); n++ {
		c.Case(func() string { return fmt.Sprintf("unknown, numeric and misspelled members at depth %d", n) }, func() {
			for _, leaf := range []string{`{"v":1,"zz":2}`, `{"V":1.5,"next":null}`, `{"v":1,"NEXT":{"v":3}}`, `{"v":7}`, `{"zz":{"v":1}}`, `{"v":1,"a":[{"zz":1}]}`} {
				t := reflect.TypeOf(scaleN{})
				s := rep(`{"v":5,"next":`, n) + leaf + rep(`}`, n)
				one("depth", func() reflect.Value { return reflect.New(t) }, t, false, false, s+" x", flags8)
				u := rep(`{"a":`, n) + leaf + rep(`,"B":1}`, n)
				t2 := reflect.TypeOf(scaleI{})
				one("depth any", func() reflect.Value { return reflect.New(t2) }, t2, false, false, u, flags8)
				t3 := reflect.TypeOf([]scaleM{})
				one("depth map", func() reflect.Value { return reflect.New(t3) }, t3, false, false, "["+rep(`{"a":`, n)+`{}`+rep(`,"B":null}`, n)+"]", flags8)
			}
		})
	}
	// any text into an empty interface
	mk := func() reflect.Value { return reflect.New(anyT) }
	c.batches("texts", append(append([]string{}, tokAlphabet...), "0", "."), 0, c.Pick(4, 5), 1, same, func(s string) {
		one("any", mk, anyT, false, false, s, []jc.ParseFlags{0, jc.UseNumber, jc.ZeroCopy, jc.ZeroCopy | jc.UseNumber})
	})
	// without a destination
	c.batches("no destination", tokAlphabet[:10], 0, c.Pick(3, 4), 1, same, func(s string) {
		d := json.NewDecoder(strings.NewReader(s))
		var raw json.RawMessage
		rerr := d.Decode(&raw)
		for _, x := range []any{nil, 1, (*int)(nil), []int{}, map[string]int{}} {
			c.Trans(1)
			var err error
			var r []byte
			pan := catch(func() { r, err = jc.Parse([]byte(s), x, 0) })
			_, inv := err.(*json.InvalidUnmarshalError)
			if pan != nil || err == nil || rerr == nil && (!inv || string(r) != s[spaceEnd(s, int(d.InputOffset())):]) {
				c.Fail("none "+s, "Parse(%q) into %#v: %q %v %v", s, x, r, err, pan)
			}
		}
	})
	c.Bound("all 64 flag sets with %d trailing texts; 16 flag sets for the edits", len(trailing))
}

// ---------------------------------------------------------------------------
// C16

func runC16(c *C) {
	const zc = jc.ZeroCopy
	good := "" // the text that all flag sets are tried on
	one := func(key string, t reflect.Type, text string) {
		want := reflect.New(t)
		var serr error
		if catch(func() { serr = json.Unmarshal([]byte(text), want.Interface()) }) != nil {
			return
		}
		// the buffer has spare capacity that must not be touched either
		mkbuf := func() []byte {
			b := bytes.Repeat([]byte{0xA5}, len(text)+40)
			copy(b[8:], text)
			return b
		}
		intact := func(b []byte) bool {
			for i, x := range b {
				if i >= 8 && i < 8+len(text) {
					if x != text[i-8] {
						return false
					}
				} else if x != 0xA5 {
					return false
				}
			}
			return true
		}
		for f := jc.ParseFlags(0); f < 64; f++ {
			if f&^zc != 0 || f != 0 && (f != zc && !c.thorough || text != good) {
				continue
			}
			c.State(1)
			c.Trans(1)
			x := reflect.New(t)
			b := mkbuf()
			var err error
			pan := catch(func() {
				if f == 0 {
					err = jc.Unmarshal(b[8:8+len(text)], x.Interface())
				} else {
					_, err = jc.Parse(b[8:8+len(text)], x.Interface(), f)
				}
			})
			desc := func() string {
				return fmt.Sprintf("decoding %q into %v with flags %#x", clip(text, 400), t, f)
			}
			fk := fmt.Sprintf("%s %#x %s", key, f, clip(text, 100))
			if pan != nil {
				c.Fail("panic "+fk, "%s: panic %v", desc(), pan)
				return
			}
			if !intact(b) {
				c.Fail("written "+fk, "%s changed the input to %q", desc(), b)
				return
			}
			if err != nil || serr != nil {
				if f != 0 {
					continue
				}
				// also what a failed decode stored must not depend on the buffer
				cp := dump(x)
				for i := range b {
					b[i] = 'Z'
				}
				if dump(x) != cp {
					c.Fail("alias "+fk, "%s (%v): what it stored changes with the input:\n before %s\n after  %s", desc(), err, cp, dump(x))
				}
				continue
			}
			if !decSame(x.Elem(), want.Elem()) {
				c.Fail("value "+fk, "%s:\n got  %s\n want %s", desc(), dump(x), dump(want))
				return
			}
			if f != 0 {
				continue
			}
			c.Valid(1)
			for _, fill := range []byte{'Z', 0, '"'} {
				for i := range b {
					b[i] = fill
				}
				if !decSame(x.Elem(), want.Elem()) {
					c.Fail("alias "+fk, "%s: after overwriting the input the value is\n got  %s\n want %s", desc(), dump(x), dump(want))
					return
				}
			}
		}
	}
	f := func(nd, max int, alts []string, bad bool) func(l leafT) {
		return func(l leafT) {
			if !decodable(l) {
				return
			}
			for _, d := range append(docsOf(l, nd, max), `null`) {
				good = d
				variantsOf(alts, d, bad, func(s string) {
					if stdValid(s) {
						good = s
					}
					one(l.name, l.t, s)
				})
			}
		}
	}
	c.universeOf(allDecLeaves(), 1, nil, func(d int) int { return 6 }, f(c.Pick(3, 6), 2000, valAlts, true))
	c.universeOf(allDecLeaves(), 2, decPairs(), func(d int) int { return c.Pick(1, 3) }, f(1, c.Pick(150, 1500), append([]string{`"\u0041b"`, `"x\n"`}, fewAlts...), c.thorough))

	oneOption(c)
	c.scales(scaleLimit{s: c.Pick(33000, 140000), e: c.Pick(300, 5000), m: c.Pick(130, 1100), f: 20, d: c.Pick(70, 1100)}, func(l leafT) {
		b, err, pan := stdEncode(l.vals[0].Interface(), false)
		if err != nil || pan != nil || !decodable(l) {
			return
		}
		good = string(b)
		for _, t := range []reflect.Type{l.t, anyT, rawT} {
			one(l.name, t, good)
			if len(good) < 200 {
				scaleTexts(good, func(s string) { one(l.name, t, s) })
			}
		}
	})

	// a destination decoded into twice: the first input, and copies of the first value, stay as they were
	twice := []struct {
		t reflect.Type
		a []string
	}{
		{reflect.TypeOf(""), []string{`"abc"`, `"x"`, `"\n"`, `null`}},
		{rawT, []string{`"abcdef"`, `[1]`, `{}`, `null`}},
		{numberT, []string{`12345`, `1`, `"7"`, `null`}},
		{anyT, []string{`"abcdef"`, `["xy",{"a":"bc"}]`, `12`, `null`}},
		{reflect.TypeOf([]byte{}), []string{`"YWJjZGVm"`, `"eA=="`, `[1,2]`, `null`}},
		{reflect.TypeOf([]string{}), []string{`["abc","def"]`, `["x"]`, `[null,"y"]`}},
		{reflect.TypeOf([]json.RawMessage{}), []string{`["abc",[1]]`, `[1]`, `[null,{}]`}},
		{reflect.TypeOf(map[string]json.RawMessage{}), []string{`{"a":"abc"}`, `{"a":1,"b":[]}`}},
		{reflect.TypeOf(map[string]string{}), []string{`{"abc":"def"}`, `{"abc":"x"}`}},
		{reflect.TypeOf(struct {
			A json.RawMessage
			B []byte
			C string
			D any
		}{}), []string{`{"A":[1,2,3],"B":"YWJj","C":"ccc","D":"ddd"}`, `{"A":1,"B":"eA==","C":"x","D":null}`, `{"A":null}`}},
	}
	for _, tw := range twice {
		c.Case(func() string { return fmt.Sprintf("decoding again into %v", tw.t) }, func() {
			for _, fs := range [][2]jc.ParseFlags{{0, 0}, {zc, 0}, {0, zc}, {zc, zc}} {
				seqs(len(tw.a), 2, func(ix []int) {
					c.Trans(2)
					x, w := reflect.New(tw.t), reflect.New(tw.t)
					b1, b2 := []byte(tw.a[ix[0]]+" "), []byte(tw.a[ix[1]]+" ")
					e1 := func() error { _, err := jc.Parse(b1, x.Interface(), fs[0]); return err }()
					s1 := json.Unmarshal(b1, w.Interface())
					e2 := func() error { _, err := jc.Parse(b2, x.Interface(), fs[1]); return err }()
					s2 := json.Unmarshal(b2, w.Interface())
					if (e1 != nil) != (s1 != nil) || (e2 != nil) != (s2 != nil) || e1 == nil && e2 == nil && !decSame(x.Elem(), w.Elem()) {
						c.Fail("twice "+tw.a[ix[0]]+tw.a[ix[1]], "%q then %q into %v with flags %v: %v %v %s, want %s", tw.a[ix[0]], tw.a[ix[1]], tw.t, fs, e1, e2, dump(x), dump(w))
					}
					if string(b1) != tw.a[ix[0]]+" " || string(b2) != tw.a[ix[1]]+" " {
						c.Fail("twice written "+tw.a[ix[0]]+tw.a[ix[1]], "%q then %q into %v with flags %v: the inputs are now %q %q", tw.a[ix[0]], tw.a[ix[1]], tw.t, fs, b1, b2)
					}
				})
			}
		})
	}

	// values kept from a Decoder
	kinds := []reflect.Type{anyT, rawT, reflect.TypeOf(typedDest{}), reflect.TypeOf(map[string]any{}), reflect.TypeOf(map[string]json.RawMessage{}), reflect.TypeOf(struct {
		S string
		A json.RawMessage
		M map[string]json.Number
	}{})}
	docs := []string{`{"S":"abc","A":[1,2],"M":{"k":1}}`, `{"S":"\u0061\nb","M":{"k\t":2.5e1,"l":-0}} `, "{}\n", `{"A":[123456],"S":"` + rep("long ", 30) + `"}`}
	for n := 1; n <= c.Pick(3, 5); n++ {
		seqs(len(docs), n, func(ix []int) {
			order := append([]int{}, ix...)
			c.Case(func() string { return fmt.Sprintf("values kept from a stream of documents %v", order) }, func() {
				text := ""
				for _, i := range order {
					text += docs[i]
				}
				for _, pad := range []int{0, 32768 - len(text)/2, 70000} {
					full := rep(" ", pad/2) + text
					if pad > 0 {
						full = `"` + rep("p", pad-2) + `"` + text
					}
					for _, t := range kinds {
						for _, cuts := range [][]int{{len(full)}, every(len(full), 5+pad/8), every(len(full), 4096), every(len(full), 32768)} {
							c.State(1)
							d := jc.NewDecoder(&scriptReader{text: full, cuts: cuts, final: io.EOF})
							sd := json.NewDecoder(strings.NewReader(full))
							if pad > 0 {
								var s1, s2 string
								if d.Decode(&s1) != nil || sd.Decode(&s2) != nil || s1 != s2 {
									c.Fail("stream pad", "the long string before the documents is not decoded")
									return
								}
							}
							var got, want []reflect.Value
							for range order {
								x, w := reflect.New(t), reflect.New(t)
								if e, s := d.Decode(x.Interface()), sd.Decode(w.Interface()); (e != nil) != (s != nil) {
									c.Fail("stream error", "documents %v cut at %v into %v: %v, want %v", order, clipInts(cuts), t, e, s)
									return
								}
								c.Trans(1)
								got, want = append(got, x), append(want, w)
							}
							var last any
							d.Decode(&last)
							for i := range got {
								if !decSame(got[i].Elem(), want[i].Elem()) {
									c.Fail("stream alias", "documents %v cut at %v into %v: value %d is now\n got  %s\n want %s", order, clipInts(cuts), t, i, dump(got[i]), dump(want[i]))
									return
								}
								c.Valid(1)
							}
						}
					}
				}
			})
		})
	}
}

// oneOption: what each set of flags lets alias the input, kind of value by kind.
func oneOption(c *C) {
	S := reflect.TypeOf("")
	// each zero-copy option concerns its own kind of value only
	type part struct {
		name string
		t    reflect.Type
		doc  string
		not  jc.ParseFlags // options that allow the value to alias
		base jc.ParseFlags
	}
	parts := []part{
		{"string", S, `"abc"`, jc.DontCopyString, 0},
		{"escaped string", S, `"a\u0062c\n"`, jc.DontCopyString, 0},
		{"strings", reflect.TypeOf([]string{}), `["abc","d\te"]`, jc.DontCopyString, 0},
		{"map", reflect.TypeOf(map[string]int{}), `{"abc":1,"d\te":2}`, jc.DontCopyString, 0},
		{"string map", reflect.TypeOf(map[string]string{}), `{"abc":"x","d\te":"y"}`, jc.DontCopyString, 0},
		{"any", anyT, `{"abc":["x",{"y":"z"}],"n":1}`, jc.DontCopyString, 0},
		{"number", numberT, `123`, jc.DontCopyNumber, 0},
		{"quoted number", numberT, `"123"`, jc.DontCopyNumber | jc.DontCopyString, 0},
		{"numbers", reflect.TypeOf([]json.Number{}), `[1,-2.5e1]`, jc.DontCopyNumber, 0},
		{"number in any", anyT, `[12,[3]]`, jc.DontCopyNumber, jc.UseNumber},
		{"raw", rawT, ` {"a":"b"} `, jc.DontCopyRawMessage, 0},
		{"raws", reflect.TypeOf([]json.RawMessage{}), `[1,"x",{}]`, jc.DontCopyRawMessage, 0},
		{"raw field", reflect.TypeOf(struct{ A json.RawMessage }{}), `{"A":[1,2]}`, jc.DontCopyRawMessage, 0},
		{"bytes", reflect.TypeOf([]byte{}), `"YWJj"`, 0, 0},
		{"time", timeT, `"2021-02-03T04:05:06Z"`, 0, 0},
		{"duration", durT, `3600`, 0, 0},
		{"int keys", reflect.TypeOf(map[int]int{}), `{"12":3}`, 0, 0},
		{"text key", reflect.TypeOf(map[UTKey]int{}), `{"abc":3}`, 0, 0},
		{"text", reflect.TypeOf(UTStr("")), `"abc"`, 0, 0},
		{"json", reflect.TypeOf(UJStr("")), `{"a":1}`, 0, 0},
	}
	// longer ones, in case only short or long values are copied
	for _, n := range ladder(0, c.Pick(5000, 70000)) {
		if n < 12 {
			continue
		}
		q := `"` + rep("v", n) + `"`
		parts = append(parts,
			part{fmt.Sprintf("string of %d", n), S, q, jc.DontCopyString, 0},
			part{fmt.Sprintf("key of %d", n), reflect.TypeOf(map[string]int{}), "{" + q + ":1}", jc.DontCopyString, 0},
			part{fmt.Sprintf("any of %d", n), anyT, "{" + q + ":[" + q + "]}", jc.DontCopyString, 0},
			part{fmt.Sprintf("number of %d", n), numberT, rep("7", n), jc.DontCopyNumber, 0},
			part{fmt.Sprintf("number of %d in any", n), anyT, "[" + rep("7", n) + "]", jc.DontCopyNumber, jc.UseNumber},
			part{fmt.Sprintf("raw of %d", n), rawT, q, jc.DontCopyRawMessage, 0},
			part{fmt.Sprintf("raw map of %d", n), reflect.TypeOf(map[string]json.RawMessage{}), `{"k":` + q + "}", jc.DontCopyRawMessage | jc.DontCopyString, 0},
			part{fmt.Sprintf("bytes of %d", n), reflect.TypeOf([]byte{}), `"` + rep("QUJD", n) + `"`, 0, 0},
			part{fmt.Sprintf("text of %d", n), reflect.TypeOf(UTStr("")), q, 0, 0},
			part{fmt.Sprintf("json of %d", n), reflect.TypeOf(UJStr("")), q, 0, 0},
		)
	}
	for _, p := range parts {
		c.Case(func() string { return "one option at a time: " + p.name }, func() {
			want := reflect.New(p.t)
			d := json.NewDecoder(strings.NewReader(p.doc))
			if p.base&jc.UseNumber != 0 {
				d.UseNumber()
			}
			d.Decode(want.Interface())
			for f := jc.ParseFlags(0); f < 64; f++ {
				if f&p.base != p.base || p.base == 0 && f&jc.UseNumber != 0 {
					continue
				}
				c.Trans(1)
				x := reflect.New(p.t)
				b := []byte(p.doc)
				_, err := jc.Parse(b, x.Interface(), f)
				if err != nil || !decSame(x.Elem(), want.Elem()) {
					c.Fail("part "+p.name, "decoding %q into %v with flags %#x: %v %s", p.doc, p.t, f, err, dump(x))
				}
				if f&p.not != 0 {
					continue
				}
				for i := range b {
					b[i] = 'Z'
				}
				if !decSame(x.Elem(), want.Elem()) {
					c.Fail("part alias "+p.name, "decoding %q into %v with flags %#x: the value aliases the input", p.doc, p.t, f)
				}
				c.Valid(1)
			}
		})
	}
	c.Bound("%d kinds and lengths of values x all 64 flag sets", len(parts))
}
