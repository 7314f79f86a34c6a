package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"math"
	"reflect"
	"strings"
	"time"

	jc "github.com/neilotoole/jsoncolor"
)

// catch runs f and returns its panic, if any.
func catch(f func()) (pan any) {
	defer func() {
		if r := recover(); r != nil {
			pan = r
		}
	}()
	f()
	return nil
}

// stdEncode is the reference: compact encoding by encoding/json.
func stdEncode(x any, html bool) (out []byte, err error, pan any) {
	pan = catch(func() {
		var buf bytes.Buffer
		e := json.NewEncoder(&buf)
		e.SetEscapeHTML(html)
		err = e.Encode(x)
		out = buf.Bytes()
	})
	if pan == nil && err == nil {
		out = out[:len(out)-1]
	}
	return
}

type encConf struct {
	html, unsorted, trust bool
	prefix, indent        string
	colors                *jc.Colors
}

func (k encConf) String() string {
	return fmt.Sprintf("{html=%v sort=%v trust=%v prefix=%q indent=%q colors=%v}", k.html, !k.unsorted, k.trust, k.prefix, k.indent, k.colors != nil)
}

func (k encConf) flags() (f jc.AppendFlags) {
	if k.html {
		f |= jc.EscapeHTML
	}
	if !k.unsorted {
		f |= jc.SortMapKeys
	}
	if k.trust {
		f |= jc.TrustRawMessage
	}
	return
}

func (k encConf) encoder(w io.Writer) *jc.Encoder {
	e := jc.NewEncoder(w)
	e.SetEscapeHTML(k.html)
	e.SetSortMapKeys(!k.unsorted)
	e.SetTrustRawMessage(k.trust)
	if k.prefix != "" || k.indent != "" {
		e.SetIndent(k.prefix, k.indent)
	}
	if k.colors != nil {
		e.SetColors(k.colors)
	}
	return e
}

// encodeWith encodes through a fresh Encoder and returns what it wrote.
func (k encConf) encode(x any) (out []byte, err error, pan any) {
	var buf bytes.Buffer
	pan = catch(func() { err = k.encoder(&buf).Encode(x) })
	return buf.Bytes(), err, pan
}

func (k encConf) append(b []byte, x any) (out []byte, err error, pan any) {
	pan = catch(func() {
		var in *jc.Indenter
		if k.prefix != "" || k.indent != "" {
			in = jc.NewIndenter(k.prefix, k.indent)
		}
		out, err = jc.Append(b, x, k.flags(), k.colors, in)
	})
	return
}

var stripper = func(b []byte) []byte {
	var o []byte
	for i := 0; i < len(b); i++ {
		if b[i] == 0x1b {
			for i < len(b) && b[i] != 'm' {
				i++
			}
			continue
		}
		o = append(o, b[i])
	}
	return o
}

// indented is the reference for indentation.
func indented(compact []byte, prefix, indent string) []byte {
	if prefix == "" && indent == "" {
		return compact
	}
	var b bytes.Buffer
	if json.Indent(&b, compact, prefix, indent) != nil {
		return nil
	}
	return b.Bytes()
}

func show(v any) string { return clip(fmt.Sprintf("%#v", v), 400) }

func typeKey(l leafT, i int) string { return fmt.Sprintf("%s#%d", clip(l.name, 160), i) }

// isSelfContained: std panics or jc panics are attributed to user methods when
// both do.
func bothPanic(a, b any) bool { return a != nil && b != nil }

// ---------------------------------------------------------------------------
// C01

func init() {
	register(&check{id: "C01", rule: "every value of the composed type universe through Marshal, Encoder and Append, both HTML settings, against encoding/json", run: func(c *C) {
		c.universe(2, nil, func(d int) int { return c.Pick(7, 12) }, func(l leafT) { c01type(c, l) })
		c.scales(c.scaleLim(), func(l leafT) { c01type(c, l) })
		c.giants(func(l leafT) { c01type(c, l) })
		if c.thorough {
			c.universe3(func(l leafT) { c01type(c, l) })
		}
	}})
	register(&check{id: "C02", rule: "every value of the composed type universe, hostile marshaler results, raw messages and number literals under every encoder configuration; each successful output (colors removed) must be one valid JSON value and a newline, without raw HTML or line separators where promised", run: runC02})
	register(&check{id: "C03", rule: "every value of the composed type universe under a set of color configurations, indentations and flags; the colored output is compared with the token-wise decoration of the uncolored output; success must agree", run: func(c *C) {
		c.universe(2, nil, func(d int) int { return c.Pick(5, 9) }, func(l leafT) { c03type(c, l, false) })
		c.scales(c.scaleLim(), func(l leafT) { c03type(c, l, false) })
		ls := structLeaves()
		for i := 0; i < len(ls); i += 10 {
			c.Case(func() string { return "structs from " + ls[i].name }, func() {
				for _, l := range ls[i:min(i+10, len(ls))] {
					c03type(c, l, false)
				}
			})
		}
		c.Bound("%d struct types of odd, embedded and generated fields", len(ls))
		if c.thorough {
			c.universe3(func(l leafT) { c03type(c, l, false) })
		}
	}})
	register(&check{id: "C04", rule: "every value of the composed type universe, colored with a distinct color per class; expected output computed by walking the value and the tokens of its uncolored encoding together; all 8192 set/unset assignments of the 13 color fields on documents containing every class", run: runC04})
	register(&check{id: "C05", rule: "every value of the composed type universe x prefix/indent pairs; reference is encoding/json.Indent of the compact output; MarshalIndent, Indent, Compact and HTMLEscape on all token sequences against encoding/json", run: runC05})
	register(&check{id: "C20", rule: "every value of the composed type universe that encoding/json itself round-trips; decode(encode(v)) must equal v and re-encode identically, over flags and indentation", run: func(c *C) {
		c.universe(2, nil, func(d int) int { return c.Pick(8, 14) }, func(l leafT) { c20type(c, l) })
		c.scales(c.scaleLim(), func(l leafT) { c20type(c, l) })
		c.giants(func(l leafT) { c20type(c, l) })
		runC20numbers(c)
		if c.thorough {
			c.universe3(func(l leafT) { c20type(c, l) })
		}
	}})
}

// universe3 is the third level of composition, over a reduced set of leaves.
func (c *C) universe3(f func(l leafT)) {
	ls := leaves()
	keep := map[string]bool{}
	for _, n := range []string{"int", "string", "interface {}", "[]uint8", "json.RawMessage", "time.Time", "main.StructVM", "main.StructPM", "main.StructPT", "main.IntVT", "main.MapVM", "main.PtrShape", "main.EmbP3", "main.Omits", "map[string]interface {}", "main.Node", "main.IfaceM", "json.Number", "float64", "main.PtrShapePM", "bool", "struct {}", "main.Stringed"} {
		keep[n] = true
	}
	ws := wrappers()
	for li := range ls {
		if !keep[ls[li].name] {
			continue
		}
		seqs(len(ws), 3, func(s []int) {
			w := append([]int{}, s...)
			c.Case(func() string {
				n := ls[li].name
				for _, x := range w {
					n = ws[x].name + "(" + n + ")"
				}
				return "type " + n
			}, func() {
				l := ls[li]
				ok := true
				for _, x := range w {
					if len(l.vals) == 0 {
						return
					}
					if l, ok = ws[x].f(l, 5); !ok {
						return
					}
				}
				c.Count("types", 1)
				f(l)
			})
		})
	}
	c.Bound("third level: %d leaf types under all sequences of 3 of %d constructors", len(keep), len(ws))
}

func c01type(c *C, l leafT) {
	for i, v := range l.vals {
		x := v.Interface()
		for _, html := range []bool{true, false} {
			want, werr, wpan := stdEncode(x, html)
			k := encConf{html: html}
			type res struct {
				name string
				out  []byte
				err  error
				pan  any
			}
			var rs []res
			add := func(name string, out []byte, err error, pan any) { rs = append(rs, res{name, out, err, pan}) }
			o, e, pn := k.encode(x)
			if pn == nil && e == nil {
				if len(o) == 0 || o[len(o)-1] != '\n' {
					c.Fail("newline "+typeKey(l, i), "Encoder output %q of %s lacks the newline", o, show(x))
					continue
				}
				o = o[:len(o)-1]
			} else if len(o) != 0 && pn == nil {
				c.Fail("wrote "+typeKey(l, i), "Encoder failed with %v but wrote %q", e, o)
			}
			add("Encoder", o, e, pn)
			o, e, pn = k.append(nil, x)
			add("Append", o, e, pn)
			if html {
				var mo []byte
				var me error
				mp := catch(func() { mo, me = jc.Marshal(x) })
				add("Marshal", mo, me, mp)
			}
			for _, r := range rs {
				c.State(1)
				c.Trans(1)
				if r.pan != nil || wpan != nil {
					if !bothPanic(r.pan, wpan) {
						c.Fail("panic "+typeKey(l, i), "%s(html=%v) of %s: panic %v, encoding/json: panic %v (err %v)", r.name, html, show(x), r.pan, wpan, werr)
					}
					continue
				}
				if (r.err != nil) != (werr != nil) {
					c.Fail("error "+typeKey(l, i), "%s(html=%v) of %s: %q, %v; encoding/json: %q, %v", r.name, html, show(x), r.out, r.err, want, werr)
					continue
				}
				if r.err != nil {
					c.Count("encode_errors", 1)
					continue
				}
				c.Valid(1)
				if !sameDoc(r.out, want) {
					c.Fail("output "+typeKey(l, i), "%s(html=%v) of %s:\n got  %q\n want %q", r.name, html, show(x), r.out, want)
				}
			}
		}
	}
}

// ---------------------------------------------------------------------------
// C02

func runC02(c *C) {
	full := fullPalette().colors()
	confs := []encConf{}
	for _, h := range []bool{false, true} {
		for _, u := range []bool{false, true} {
			for _, t := range []bool{false, true} {
				for _, in := range [][2]string{{"", ""}, {"", "  "}, {"", "\t"}, {"\t", ""}, {" ", " "}} {
					for _, cl := range []*jc.Colors{nil, full, {}} {
						confs = append(confs, encConf{html: h, unsorted: u, trust: t, prefix: in[0], indent: in[1], colors: cl})
					}
				}
			}
		}
	}
	one := func(key string, x any, raw bool, ks []encConf) {
		for _, k := range ks {
			if raw && k.trust {
				continue // malformed raw messages may be emitted when trusted
			}
			out, err, pan := k.encode(x)
			c.State(1)
			c.Trans(1)
			if pan != nil {
				if _, _, wpan := stdEncode(x, true); wpan == nil {
					c.Fail("panic "+key, "%v of %s: panic %v", k, show(x), pan)
				}
				continue
			}
			if err != nil {
				if len(out) != 0 {
					c.Fail("wrote "+key, "%v of %s failed with %v but wrote %q", k, show(x), err, out)
				}
				continue
			}
			c.Valid(1)
			doc := out
			if k.colors != nil {
				doc = stripper(out)
			}
			if len(doc) == 0 || doc[len(doc)-1] != '\n' {
				c.Fail("newline "+key, "%v of %s: no newline in %q", k, show(x), out)
				continue
			}
			doc = doc[:len(doc)-1]
			if bytes.HasSuffix(doc, []byte("\n")) || !json.Valid(doc) {
				c.Fail("invalid "+key, "%v of %s: malformed output %q", k, show(x), out)
				continue
			}
			if bytes.IndexByte(doc, 0x1b) >= 0 {
				c.Fail("escape "+key, "%v of %s: color codes inside %q", k, show(x), out)
			}
			if k.html && bytes.ContainsAny(doc, "<>&") {
				c.Fail("html "+key, "%v of %s: HTML characters in %q", k, show(x), out)
			}
			if (k.html || !raw) && (bytes.Contains(doc, []byte("\u2028")) || bytes.Contains(doc, []byte("\u2029"))) {
				c.Fail("sep "+key, "%v of %s: raw line separator in %q", k, show(x), out)
			}
		}
	}
	quick := []encConf{confs[0], {html: true, prefix: "\t", indent: " ", colors: full}, {unsorted: true, indent: "  "}, {html: true, unsorted: true, colors: full}, {html: true}}
	c.universe(2, nil, func(d int) int { return c.Pick(5, 9) }, func(l leafT) {
		for i, v := range l.vals {
			ks := quick
			raw := strings.Contains(l.name, "Raw") || strings.Contains(l.name, "Big")
			if !strings.Contains(l.name, "(") {
				ks = confs // bare leaves under all configurations
			}
			one(typeKey(l, i), v.Interface(), raw, ks)
		}
	})
	c.scales(c.scaleLim(), func(l leafT) {
		one(typeKey(l, 0), l.vals[0].Interface(), strings.Contains(l.name, "Raw"), quick)
	})
	c.giants(func(l leafT) { one(typeKey(l, 0), l.vals[0].Interface(), l.t == rawT, quick[:min(2, len(quick))]) })
	// hostile contents in every position
	type holder struct {
		name string
		mk   func(s string) any
		raw  bool
	}
	hs := []holder{
		{"RawMessage", func(s string) any { return json.RawMessage(s) }, true},
		{"[]RawMessage", func(s string) any { return []json.RawMessage{json.RawMessage(s), json.RawMessage("1")} }, true},
		{"map[string]RawMessage", func(s string) any {
			return map[string]json.RawMessage{"a": json.RawMessage("1"), "b": json.RawMessage(s), "c": json.RawMessage("2")}
		}, true},
		{"struct RawMessage", func(s string) any {
			return struct {
				A int
				R json.RawMessage `json:"r,omitempty"`
				Z int
			}{1, json.RawMessage(s), 2}
		}, true},
		{"Marshaler", func(s string) any { return RawOut{s} }, true},
		{"[]Marshaler", func(s string) any { return []any{RawOut{s}, &RawOut{s}, 1} }, true},
		{"map[string]any Marshaler", func(s string) any { return map[string]any{"a": 1, "m": RawOut{s}} }, true},
		{"TextMarshaler", func(s string) any { return []any{TextOut{s}, 1} }, false},
		{"TextMarshaler key", func(s string) any { return map[TextOut]int{{s}: 1, {"z"}: 2} }, false},
		{"raw object key", func(s string) any { return []json.RawMessage{json.RawMessage(`{"` + s + `":"` + s + `"}`)} }, true},
		{"nested raw object key", func(s string) any {
			return map[string]any{"a": RawOut{`{"k":[{"` + s + `" : {"` + s + `":[]}, "z":1}]}`}}
		}, true},
		{"Number", func(s string) any { return []json.Number{json.Number(s), "1"} }, false},
		{"Number field,string", func(s string) any {
			return struct {
				N json.Number `json:",string"`
				M json.Number `json:",omitempty"`
			}{json.Number(s), json.Number(s)}
		}, false},
		{"map[string]any Number", func(s string) any { return map[string]any{"n": json.Number(s)} }, false},
		{"string,string", func(s string) any {
			return struct {
				S string `json:",string"`
			}{s}
		}, false},
		{"key", func(s string) any { return map[string]any{s: s} }, false},
	}
	hostile := []string{"{", "}", "[", "]", ",", ":", `"a"`, "1", "null", " ", "<", "\u2028", "\\", "-", ".", "e", "\x1b[0m", "\xff", `"<` + "\u2029" + `"`}
	n := c.Pick(3, 4)
	few := []encConf{{}, {html: true}, {indent: " ", colors: full, html: true}, {unsorted: true, prefix: " "}, {unsorted: true, html: true, colors: full}}
	for _, h := range hs {
		c.batches("hostile "+h.name, hostile, 0, n, 1, same, func(s string) { one(h.name+" "+clip(s, 100), h.mk(s), h.raw, few) })
		c.batches("hostile all configurations "+h.name, hostile, 0, 2, 1, same, func(s string) { one(h.name+" "+clip(s, 100), h.mk(s), h.raw, confs) })
	}
	c.Bound("all %d configurations (html, sort, trust, 5 indents, 3 color sets) on leaves and short hostile texts", len(confs))
}

// ---------------------------------------------------------------------------
// C03 and C04

func palettes() []palette {
	f := fullPalette()
	var part, puncOnly, gran palette
	for i := range f {
		if i%2 == 0 {
			part[i] = f[i]
		}
	}
	puncOnly[clPunc] = f[clPunc]
	for _, i := range []int{clBrackets, clBraces, clComma, clColon, clKey} {
		gran[i] = f[i]
	}
	// colors that are not escape sequences at all, including JSON syntax
	var odd palette
	for i := range odd {
		odd[i] = []string{`"`, "<c>", "\\", "{", "\n", "\x00"}[i%6] + string(rune('A'+i))
	}
	return []palette{f, {}, part, puncOnly, gran, odd}
}

func c03type(c *C, l leafT, classes bool) {
	ps := palettes()
	confs := []encConf{{html: true}, {html: false}, {html: true, indent: "  "}, {prefix: " ", indent: "\t"}, {html: true, trust: true, prefix: "\t"}}
	if classes {
		ps = ps[:1]
	}
	for i, v := range l.vals {
		x := v.Interface()
		for ki, k := range confs {
			plain, err, pan := k.append(nil, x)
			var ts []tokn
			var cls map[int]int
			classified := false
			if pan == nil && err == nil {
				var terr error
				ts, terr = tokenize(plain)
				if terr != nil {
					if k.trust {
						continue
					}
					c.Fail("malformed "+typeKey(l, i), "%v of %s: %q: %v", k, show(x), plain, terr)
					continue
				}
				if k.trust { // malformed raw messages may be emitted as they come
					ku := k
					ku.trust = false
					if _, uerr, _ := ku.append(nil, x); uerr != nil {
						continue
					}
				}
				if cls, classified = classify(v2top(v), plain, ts); !classified {
					c.Count("values_not_classified", 1)
					cls = nil
				} else {
					c.Count("values_classified", 1)
				}
			}
			for pi, pal := range ps {
				if ki > 2 && pi > 1 && pi < 5 {
					continue
				}
				kc := k
				kc.colors = pal.colors()
				out, cerr, cpan := kc.append(nil, x)
				c.State(1)
				c.Trans(2)
				if (cpan != nil) != (pan != nil) {
					c.Fail("panic "+typeKey(l, i), "%v of %s: with color panic %v, without %v", kc, show(x), cpan, pan)
					continue
				}
				if pan != nil {
					continue
				}
				if (cerr != nil) != (err != nil) {
					c.Fail("error "+typeKey(l, i), "%v of %s: with color error %v, without %v", kc, show(x), cerr, err)
					continue
				}
				if err != nil {
					continue
				}
				c.Valid(1)
				if !pal.intact(kc.colors) {
					c.Fail("colors modified "+typeKey(l, i), "%v of %s modified the Colors", kc, show(x))
				}
				if classified {
					want := decorate(plain, ts, cls, pal)
					if !bytes.Equal(out, want) {
						c.Fail("decoration "+typeKey(l, i), "%v palette %d of %s:\n got  %q\n want %q", kc, pi, show(x), out, want)
						continue
					}
				}
				if pi == 0 {
					if s := stripper(out); !bytes.Equal(s, plain) {
						c.Fail("strip "+typeKey(l, i), "%v of %s:\n stripped  %q\n uncolored %q", kc, show(x), s, plain)
					}
				}
				if ki == 2 && pi == 0 {
					eo, eerr, _ := kc.encode(x)
					if eerr != nil || !bytes.Equal(eo, append(append([]byte{}, out...), '\n')) {
						c.Fail("encoder "+typeKey(l, i), "Encoder %v of %s: %q, %v; Append: %q", kc, show(x), eo, eerr, out)
					}
				}
			}
		}
		// unsorted maps: order is free, so compare each output with its own decoration
		k := encConf{unsorted: true, indent: " ", colors: ps[0].colors()}
		out, err, pan := k.append(nil, x)
		if pan != nil || err != nil {
			continue
		}
		c.Trans(1)
		plain := stripper(out)
		ts, terr := tokenize(plain)
		if terr != nil || !json.Valid(plain) {
			c.Fail("unsorted "+typeKey(l, i), "%v of %s: %q", k, show(x), out)
			continue
		}
		if cls, ok := classify(v2top(v), plain, ts); ok {
			if want := decorate(plain, ts, cls, ps[0]); !bytes.Equal(out, want) {
				c.Fail("unsorted decoration "+typeKey(l, i), "%v of %s:\n got  %q\n want %q", k, show(x), out, want)
			}
		}
		ref, rerr, _ := encConf{}.append(nil, x)
		var cb bytes.Buffer
		if json.Compact(&cb, plain) == nil && (rerr != nil || canonDoc(cb.Bytes()) != canonDoc(ref)) {
			c.Fail("unsorted content "+typeKey(l, i), "%v of %s: %q, sorted and uncolored: %q %v", k, show(x), plain, ref, rerr)
		}
	}
}

// v2top gives the value as an encoder sees it: not addressable.
func v2top(v reflect.Value) reflect.Value { return reflect.ValueOf(v.Interface()) }

func runC04(c *C) {
	c.universe(2, nil, func(d int) int { return c.Pick(6, 10) }, func(l leafT) { c03type(c, l, true) })
	c.scales(c.scaleLim(), func(l leafT) { c03type(c, l, true) })
	if c.thorough {
		c.universe3(func(l leafT) { c03type(c, l, true) })
	}
	// all assignments of the color fields
	ls := leaves()
	docs := []any{}
	for _, l := range ls {
		if l.name == "main.Big" {
			docs = append(docs, l.vals[1].Interface(), &l.vals)
		}
	}
	docs = docs[:1]
	docs = append(docs, map[string]any{"a": []any{nil, true, 1, "s", []byte("b"), mustTime("2021-02-03T04:05:06Z"), StructVT{1}, json.RawMessage(`{"k":[1,"x",null,true]}`), map[int]int{1: 2}, []int{}, struct{}{}}, "b": map[string]json.RawMessage{"x": json.RawMessage(`["y"]`)}, "c": Stringed{}})
	full := fullPalette()
	for hi := 0; hi < 64; hi++ {
		c.Case(func() string { return fmt.Sprintf("color assignments %d*128.. of the 13 fields", hi) }, func() {
			for lo := 0; lo < 128; lo++ {
				bits := hi*128 + lo
				var pal palette
				for i := range pal {
					if bits>>i&1 == 1 {
						pal[i] = full[i]
					}
				}
				for di, x := range docs {
					for _, k := range []encConf{{html: true}, {indent: "  "}} {
						plain, err, _ := k.append(nil, x)
						ts, terr := tokenize(plain)
						cls, ok := classify(reflect.ValueOf(x), plain, ts)
						kc := k
						kc.colors = pal.colors()
						out, cerr, pan := kc.append(nil, x)
						c.State(1)
						c.Trans(1)
						if err != nil || terr != nil || !ok || cerr != nil || pan != nil {
							c.Fail(fmt.Sprintf("assign doc %d", di), "cannot decide: %v %v %v %v %v", err, terr, ok, cerr, pan)
							return
						}
						c.Valid(1)
						if want := decorate(plain, ts, cls, pal); !bytes.Equal(out, want) {
							c.Fail(fmt.Sprintf("assign doc %d", di), "colors set %013b: got %q\nwant %q", bits, out, want)
							return
						}
					}
				}
			}
		})
	}
	c.Bound("all 2^13 assignments of the color fields on %d documents", len(docs))
	// default colors
	c.Case(func() string { return "DefaultColors" }, func() {
		d := jc.DefaultColors()
		pal := palette{string(d.Null), string(d.Bool), string(d.Number), string(d.String), string(d.Key), string(d.Bytes), string(d.Time), string(d.Punc), string(d.Brackets), string(d.Braces), string(d.Comma), string(d.Colon), string(d.TextMarshaler)}
		for di, x := range docs {
			k := encConf{indent: "  "}
			plain, _, _ := k.append(nil, x)
			ts, _ := tokenize(plain)
			cls, _ := classify(reflect.ValueOf(x), plain, ts)
			k.colors = d
			out, _, _ := k.append(nil, x)
			if want := decorate(plain, ts, cls, pal); !bytes.Equal(out, want) {
				c.Fail(fmt.Sprintf("default doc %d", di), "got %q\nwant %q", out, want)
			}
		}
	})
}

// ---------------------------------------------------------------------------
// C05

func runC05(c *C) {
	pairs := [][2]string{{"", "  "}, {"", "\t"}, {">", ""}, {"p ", "ii"}, {"", ""}, {"\"", "{"}}
	c.universe(2, nil, func(d int) int { return c.Pick(5, 9) }, func(l leafT) { c05type(c, l, pairs) })
	c.scales(c.scaleLim(), func(l leafT) { c05type(c, l, pairs) })
	if c.thorough {
		c.universe3(func(l leafT) { c05type(c, l, pairs) })
	}
	// Indent, Compact, HTMLEscape on all texts
	c.batches("document functions", append([]string{"<", "\u2028", "\n"}, tokAlphabet[:10]...), 0, c.Pick(4, 5), 1, same, func(s string) {
		c.State(1)
		c.Trans(4)
		for _, pr := range pairs {
			var a, b bytes.Buffer
			a.WriteString("x")
			b.WriteString("x")
			ea, eb := jc.Indent(&a, []byte(s), pr[0], pr[1]), json.Indent(&b, []byte(s), pr[0], pr[1])
			if a.String() != b.String() || fmt.Sprint(ea) != fmt.Sprint(eb) {
				c.Fail("Indent "+s, "Indent(%q, %q): %q %v, want %q %v", s, pr, a.String(), ea, b.String(), eb)
			}
			if raw := json.RawMessage(s); ea == nil {
				m, me := jc.MarshalIndent(raw, pr[0], pr[1])
				w, we := json.MarshalIndent(raw, pr[0], pr[1])
				if string(m) != string(w) || (me != nil) != (we != nil) {
					c.Fail("MarshalIndent "+s, "MarshalIndent(RawMessage(%q), %q): %q %v, want %q %v", s, pr, m, me, w, we)
				}
			}
		}
		var a, b bytes.Buffer
		ea, eb := jc.Compact(&a, []byte(s)), json.Compact(&b, []byte(s))
		if a.String() != b.String() || fmt.Sprint(ea) != fmt.Sprint(eb) {
			c.Fail("Compact "+s, "Compact(%q): %q %v, want %q %v", s, a.String(), ea, b.String(), eb)
		}
		a.Reset()
		b.Reset()
		jc.HTMLEscape(&a, []byte(s))
		json.HTMLEscape(&b, []byte(s))
		if a.String() != b.String() {
			c.Fail("HTMLEscape "+s, "HTMLEscape(%q): %q, want %q", s, a.String(), b.String())
		}
		c.Valid(3)
	})
	// nesting: every arrangement of container kinds, empty or not, to a depth
	var kinds = []func(in any) any{
		func(in any) any { return []any{in} },
		func(in any) any { return []any{1, in, []int{}} },
		func(in any) any { return map[string]any{"k": in} },
		func(in any) any { return map[string]any{"a": map[string]any{}, "k": in} },
		func(in any) any { return struct{ F any }{in} },
		func(in any) any {
			return struct {
				E struct{}
				F any  `json:",omitempty"`
				Z *int `json:",omitempty"`
			}{F: in}
		},
		func(in any) any { return map[int]any{1: in, 2: Omits{}.A} },
		func(in any) any { return [2]any{in, struct{}{}} },
		func(in any) any {
			return map[string]json.RawMessage{"r": mustJSON(in), "s": json.RawMessage(`{"x":[ ]}`)}
		},
		func(in any) any { return RawOut{string(mustJSON(in))} },
		func(in any) any { return &in },
	}
	ends := []any{nil, 1, []any{}, map[string]any{}, struct{}{}, [0]int{}, map[int]int{}, map[string]json.RawMessage{}, json.RawMessage(" [ { } , [ ] ]"), EmbP4{}}
	depth := c.Pick(4, 5)
	for d := 0; d <= depth; d++ {
		seqs(len(kinds), d, func(s []int) {
			w := append([]int{}, s...)
			c.Case(func() string { return fmt.Sprintf("nesting %v", w) }, func() {
				for ei, e := range ends {
					x := e
					for _, k := range w {
						x = kinds[k](x)
					}
					c05value(c, fmt.Sprintf("nest %v/%d", w, ei), x, pairs[:4])
				}
			})
		})
	}
	c.Bound("%d container shapes nested to depth %d over %d innermost values, %d prefix/indent pairs", len(kinds), depth, len(ends), len(pairs))
}

func mustJSON(x any) []byte {
	b, err := json.Marshal(x)
	if err != nil {
		panic(err)
	}
	return b
}

func c05type(c *C, l leafT, pairs [][2]string) {
	for i, v := range l.vals {
		c05value(c, typeKey(l, i), v.Interface(), pairs)
	}
}

func c05value(c *C, key string, x any, pairs [][2]string) {
	for _, html := range []bool{true, false} {
		compact, err, pan := encConf{html: html}.append(nil, x)
		if pan != nil {
			continue
		}
		for _, pr := range pairs {
			k := encConf{html: html, prefix: pr[0], indent: pr[1]}
			out, ierr, ipan := k.append(nil, x)
			c.State(1)
			c.Trans(1)
			if ipan != nil || (ierr != nil) != (err != nil) {
				c.Fail("error "+key, "%v of %s: %v %v, compact: %v", k, show(x), ierr, ipan, err)
				continue
			}
			if err != nil {
				continue
			}
			c.Valid(1)
			want := indented(compact, pr[0], pr[1])
			if !bytes.Equal(out, want) {
				c.Fail("indent "+key, "%v of %s:\n got  %q\n want %q", k, show(x), out, want)
			}
			if html {
				eo, eerr, _ := k.encode(x)
				if eerr != nil || !bytes.Equal(eo, append(want[:len(want):len(want)], '\n')) {
					c.Fail("encoder "+key, "Encoder %v of %s: %q, %v, want %q and newline", k, show(x), eo, eerr, want)
				}
				m, merr := jc.MarshalIndent(x, pr[0], pr[1])
				var w bytes.Buffer // MarshalIndent always indents, even with empty strings
				json.Indent(&w, compact, pr[0], pr[1])
				if merr != nil || !bytes.Equal(m, w.Bytes()) {
					c.Fail("MarshalIndent "+key, "MarshalIndent %v of %s: %q, %v, want %q", k, show(x), m, merr, w.Bytes())
				}
			}
		}
		// indentation is the same for the elements of unsorted maps, wherever they go
		k := encConf{html: html, unsorted: true, prefix: ">", indent: " "}
		out, uerr, _ := k.append(nil, x)
		if err == nil && uerr == nil {
			var cb bytes.Buffer
			if json.Compact(&cb, bytes.ReplaceAll(out, []byte("\n>"), []byte("\n"))) == nil {
				if want := indented(cb.Bytes(), ">", " "); !bytes.Equal(out, want) {
					c.Fail("unsorted indent "+key, "%v of %s:\n got  %q\n want %q", k, show(x), out, want)
				}
			}
		}
	}
}

// ---------------------------------------------------------------------------
// C20

func c20type(c *C, l leafT) {
	for i, v := range l.vals {
		x := v.Interface()
		if x == nil || !v.IsValid() {
			continue
		}
		t := v.Type()
		// the standard library decides which values are losslessly encodable
		var sb []byte
		var serr error
		back := reflect.New(t)
		if catch(func() {
			sb, serr = json.Marshal(x)
			if serr == nil {
				serr = json.Unmarshal(sb, back.Interface())
			}
		}) != nil || serr != nil || !deepSame(back.Elem(), v) {
			c.Count("values_not_lossless", 1)
			continue
		}
		c.Count("values_lossless", 1)
		for _, k := range []encConf{{html: true}, {}, {html: true, indent: "  "}, {prefix: " ", indent: "\t", unsorted: true}, {html: true, trust: true}} {
			if k.indent+k.prefix != "" && strings.Contains(l.name, "scale") && strings.Contains(l.name, "Raw") {
				continue // a RawMessage holds the layout too
			}
			doc, err, pan := k.append(nil, x)
			c.State(1)
			c.Trans(2)
			if err != nil || pan != nil {
				c.Fail("encode "+typeKey(l, i), "%v of %s: %v %v", k, show(x), err, pan)
				continue
			}
			d := reflect.New(t)
			var derr error
			if dpan := catch(func() { derr = jc.Unmarshal(doc, d.Interface()) }); dpan != nil || derr != nil {
				c.Fail("decode "+typeKey(l, i), "%v: decoding %q into %s: %v %v", k, doc, t, derr, dpan)
				continue
			}
			if !deepSame(d.Elem(), v) {
				c.Fail("value "+typeKey(l, i), "%v: %s encoded as %q decodes to %s", k, show(x), doc, show(d.Elem().Interface()))
				continue
			}
			c.Valid(1)
			if k.unsorted {
				continue
			}
			again, err, pan := k.append(nil, d.Elem().Interface())
			if err != nil || pan != nil || !bytes.Equal(again, doc) {
				c.Fail("again "+typeKey(l, i), "%v: %q decoded and encoded again gives %q, %v %v", k, doc, again, err, pan)
			}
		}
	}
}

func runC20numbers(c *C) {
	for h := -23; h <= 23; h++ {
		c.Case(func() string { return fmt.Sprintf("times in all zones of %d hours and whole minutes", h) }, func() {
			var l leafT
			l.name, l.t = "zones", timeT
			for m := 0; m < 60; m++ {
				off := h*3600 + m*60
				if h < 0 {
					off = h*3600 - m*60
				}
				z := time.FixedZone("", off)
				for _, ns := range []int{0, 1, 120000000, 999999999, 100} {
					l.vals = append(l.vals, reflect.ValueOf(time.Date(2021, 2, 3+m, h+23, m, 59, ns, z)), reflect.ValueOf(time.Date(m*h*h/4+60, 12, 31, 0, m, m, ns, z)))
				}
			}
			c20type(c, l)
			if h == -1 { // minus zero hours
				l.vals = nil
				for m := 1; m < 60; m++ {
					l.vals = append(l.vals, reflect.ValueOf(time.Date(2021, 2, 3, 4, 5, 6, 0, time.FixedZone("", -m*60))))
				}
				c20type(c, l)
			}
		})
	}
	c.Bound("times in every zone of whole minutes, with fractions of seconds")
	for e := 0; e < 2048; e += 32 {
		c.Case(func() string { return fmt.Sprintf("float64 exponents %d.. with boundary mantissas", e) }, func() {
			for x := e; x < e+32; x++ {
				for _, m := range []uint64{0, 1, 2, 1<<52 - 1, 1 << 51, 0x5555555555555, 0xaaaaaaaaaaaaa} {
					for s := uint64(0); s < 2; s++ {
						f := math.Float64frombits(s<<63 | uint64(x)<<52 | m)
						if math.IsNaN(f) || math.IsInf(f, 0) {
							continue
						}
						b, err := jc.Marshal(f)
						var g float64
						var a any
						c.State(1)
						c.Trans(3)
						if err == nil {
							err = jc.Unmarshal(b, &g)
						}
						if err == nil {
							err = jc.Unmarshal(b, &a)
						}
						if err != nil || math.Float64bits(g) != math.Float64bits(f) || a != any(f) {
							c.Fail(fmt.Sprintf("float %x", math.Float64bits(f)), "%v -> %s -> %v, %v, %v", f, b, g, a, err)
						}
						c.Valid(1)
					}
				}
			}
		})
	}
	for i := 0; i < 64; i++ {
		c.Case(func() string { return fmt.Sprintf("integers around 2^%d", i) }, func() {
			for d := -3; d <= 3; d++ {
				u := uint64(1)<<i + uint64(d)
				n := int64(u)
				b, err := jc.Marshal([]any{u, n, -n})
				var r struct {
					u uint64
					n [2]int64
				}
				raw := []json.RawMessage{}
				if err == nil {
					err = jc.Unmarshal(b, &raw)
				}
				if err == nil {
					err = jc.Unmarshal(raw[0], &r.u)
				}
				if err == nil {
					err = jc.Unmarshal([]byte("["+string(raw[1])+","+string(raw[2])+"]"), &r.n)
				}
				c.State(1)
				c.Trans(4)
				if err != nil || r.u != u || r.n[0] != n || r.n[1] != -n {
					c.Fail(fmt.Sprintf("int %d", u), "%d, %d -> %s -> %v, %v", u, n, b, r, err)
				}
				c.Valid(1)
			}
		})
	}
}
