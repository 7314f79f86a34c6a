package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"reflect"
	"strings"
	"unicode"
	"unicode/utf8"

	jc "github.com/neilotoole/jsoncolor"
)

// ---------------------------------------------------------------------------
// Reference for string literals, written from RFC 8259 and the documented
// treatment of invalid UTF-8; cross-checked with encoding/json in C19.

// meaning is the text a Go string stands for: each invalid byte is U+FFFD.
func meaning(s string) string {
	var b []byte
	for i := 0; i < len(s); {
		r, n := utf8.DecodeRuneInString(s[i:])
		b = utf8.AppendRune(b, r)
		i += n
	}
	return string(b)
}

func hex4(b []byte) (rune, bool) {
	if len(b) < 4 {
		return 0, false
	}
	var r rune
	for _, c := range b[:4] {
		r <<= 4
		switch {
		case c >= '0' && c <= '9':
			r |= rune(c - '0')
		case c >= 'a' && c <= 'f':
			r |= rune(c-'a') + 10
		case c >= 'A' && c <= 'F':
			r |= rune(c-'A') + 10
		default:
			return 0, false
		}
	}
	return r, true
}

// literal decodes a whole string literal; ok reports whether it is one.
func literal(b []byte) (text []byte, ok bool) {
	if len(b) < 2 || b[0] != '"' || b[len(b)-1] != '"' {
		return nil, false
	}
	b = b[1 : len(b)-1]
	text = []byte{}
	for i := 0; i < len(b); {
		ch := b[i]
		switch {
		case ch == '"' || ch < 0x20:
			return nil, false
		case ch == '\\':
			if i+1 >= len(b) {
				return nil, false
			}
			i += 2
			switch b[i-1] {
			case '"', '\\', '/':
				text = append(text, b[i-1])
			case 'b':
				text = append(text, 8)
			case 'f':
				text = append(text, 12)
			case 'n':
				text = append(text, 10)
			case 'r':
				text = append(text, 13)
			case 't':
				text = append(text, 9)
			case 'u':
				r, ok := hex4(b[i:])
				if !ok {
					return nil, false
				}
				i += 4
				if r >= 0xd800 && r < 0xe000 {
					hi := r
					r = 0xfffd
					if hi < 0xdc00 && i+6 <= len(b) && b[i] == '\\' && b[i+1] == 'u' {
						if lo, ok := hex4(b[i+2:]); ok && lo >= 0xdc00 && lo < 0xe000 {
							r = 0x10000 + (hi-0xd800)<<10 + (lo - 0xdc00)
							i += 6
						}
					}
				}
				text = utf8.AppendRune(text, r)
			default:
				return nil, false
			}
		default:
			r, n := utf8.DecodeRune(b[i:])
			text = utf8.AppendRune(text, r)
			i += n
		}
	}
	return text, true
}

// goodLiteral reports what is wrong with lit as the encoding of s.
func goodLiteral(lit []byte, s string, html bool) string {
	text, ok := literal(lit)
	if !ok {
		return "not a JSON string"
	}
	if string(text) != meaning(s) {
		return fmt.Sprintf("means %q", text)
	}
	if html && bytes.ContainsAny(lit, "<>&") {
		return "HTML character not escaped"
	}
	if !html {
		for _, r := range "<>&" {
			if bytes.Count(lit, []byte(string(r))) != strings.Count(s, string(r)) {
				return "HTML character escaped although that is off"
			}
		}
	}
	if bytes.Contains(lit, []byte("\u2028")) || bytes.Contains(lit, []byte("\u2029")) {
		return "line separator not escaped"
	}
	return ""
}

// stdLit is encoding/json's literal for s (fast path of the comparison).
func stdLit(buf *bytes.Buffer, e *json.Encoder, s string) []byte {
	buf.Reset()
	_ = e.Encode(s)
	return buf.Bytes()[:buf.Len()-1]
}

func init() {
	register(&check{id: "C28", rule: "all strings of up to two bytes, all strings over an alphabet of byte classes and all of them at every alignment, in every position a string can appear, for both HTML settings; the literal is decoded by a reference written from RFC 8259", run: runC28})
	register(&check{id: "C19", rule: "all string literals over an alphabet of escapes, escape fragments, multi-byte characters and invalid bytes, at every alignment, through Unquote, AppendUnquote, a string, an interface, a map key, a text unmarshaler and Parse; reference written from RFC 8259 and cross-checked with encoding/json", run: runC19})
}

type KeyName string

type strPos struct {
	name          string
	mk            func(s string) any
	before, after string
	quoted        bool // the literal is itself encoded as a string
}

func strPositions() []strPos {
	return []strPos{
		{"value", func(s string) any { return s }, ``, ``, false},
		{"named", func(s string) any { return KeyName(s) }, ``, ``, false},
		{"slice", func(s string) any { return []string{"a", s, "b"} }, `["a",`, `,"b"]`, false},
		{"interface", func(s string) any { return []any{1, s} }, `[1,`, `]`, false},
		{"field", func(s string) any {
			return struct {
				A string
				B *string `json:"b,omitempty"`
			}{s, nil}
		}, `{"A":`, `}`, false},
		{"map key", func(s string) any { return map[string]int{s: 1} }, `{`, `:1}`, false},
		{"any map key", func(s string) any { return map[string]any{s: 1} }, `{`, `:1}`, false},
		{"raw map key", func(s string) any { return map[string]json.RawMessage{s: json.RawMessage("1")} }, `{`, `:1}`, false},
		{"named map key", func(s string) any { return map[KeyName]bool{KeyName(s): true} }, `{`, `:true}`, false},
		{"text marshaler", func(s string) any { return TextOut{s} }, ``, ``, false},
		{"text key", func(s string) any { return map[TextOut]int{{s}: 1} }, `{`, `:1}`, false},
		{"string option", func(s string) any {
			return struct {
				A string `json:",string"`
			}{s}
		}, `{"A":`, `}`, true},
		{"string option pointer", func(s string) any {
			return struct {
				A *string `json:"a,string,omitempty"`
			}{&s}
		}, `{"a":`, `}`, true},
	}
}

func runC28(c *C) {
	ps := strPositions()
	pal := fullPalette()
	full := pal.colors()
	type std struct {
		b bytes.Buffer
		e *json.Encoder
	}
	var stds [2]*std
	for i := range stds {
		stds[i] = &std{}
		stds[i].e = json.NewEncoder(&stds[i].b)
		stds[i].e.SetEscapeHTML(i == 1)
	}
	buf := make([]byte, 0, 4096)
	one := func(p *strPos, s string, color bool) {
		x := p.mk(s)
		for h := 0; h < 2; h++ {
			f := jc.SortMapKeys
			if h == 1 {
				f |= jc.EscapeHTML
			}
			c.State(1)
			c.Trans(1)
			out, err := jc.Append(buf[:0], x, f, nil, nil)
			key := fmt.Sprintf("%s %q", p.name, clip(s, 60))
			if err != nil {
				c.Fail("error "+key, "string %q as %s (html %v): %v", s, p.name, h == 1, err)
				continue
			}
			if !bytes.HasPrefix(out, []byte(p.before)) || !bytes.HasSuffix(out, []byte(p.after)) || len(out) < len(p.before)+len(p.after) {
				c.Fail("around "+key, "string %q as %s (html %v): %q", s, p.name, h == 1, out)
				continue
			}
			c.Valid(1)
			lit := out[len(p.before) : len(out)-len(p.after)]
			if p.quoted {
				inner, ok := literal(lit)
				if !ok {
					c.Fail("literal "+key, "string %q as %s (html %v): %q is not a literal", s, p.name, h == 1, lit)
					continue
				}
				if h == 1 && bytes.ContainsAny(lit, "<>&") {
					c.Fail("literal "+key, "string %q as %s: HTML character not escaped in %q", s, p.name, lit)
					continue
				}
				lit = inner
			}
			if !bytes.Equal(lit, stdLit(&stds[h].b, stds[h].e, s)) {
				if why := goodLiteral(lit, s, h == 1); why != "" {
					c.Fail("literal "+key, "string %q as %s (html %v): %q %s", s, p.name, h == 1, lit, why)
					continue
				}
			}
			if color { // the same literal, colored or indented
				for _, k := range []encConf{{html: h == 1, colors: full}, {html: h == 1, indent: " ", prefix: " "}} {
					o, e, _ := k.append(nil, x)
					plain := stripper(o)
					var cb bytes.Buffer
					if e != nil || json.Compact(&cb, plain) != nil || !bytes.Equal(cb.Bytes(), out) {
						c.Fail("colored "+key, "string %q as %s %v: %q %v, plain %q", s, p.name, k, o, e, out)
					}
				}
			}
		}
	}
	for a := 0; a < 256; a++ {
		c.Case(func() string {
			return fmt.Sprintf("strings of one or two bytes starting with %#02x in every position", a)
		}, func() {
			for i := range ps {
				one(&ps[i], string([]byte{byte(a)}), true)
				for b := 0; b < 256; b++ {
					one(&ps[i], string([]byte{byte(a), byte(b)}), i < 3)
				}
			}
		})
	}
	// names of struct fields
	tagChars := "!#$%&()*+-./:;<=>?@[]^_{|}~ aZ0é\u2028"
	var tags []string
	for _, a := range tagChars {
		for _, b := range "&<a!-é" {
			tags = append(tags, string(a)+string(b), string(b)+"xyzxyzxyz"+string(a))
		}
	}
	for _, tag := range tags {
		if tag == "-" {
			continue
		}
		c.Case(func() string { return fmt.Sprintf("field names %q", tag) }, func() {
			for _, opt := range []string{"", ",omitempty", ",string"} {
				in := reflect.StructOf([]reflect.StructField{{Name: "A", Type: reflect.TypeOf(1), Tag: reflect.StructTag(fmt.Sprintf("json:%q", tag+opt))}})
				inv := reflect.New(in).Elem()
				inv.Field(0).SetInt(1)
				num := "1"
				if opt == ",string" {
					num = `"1"`
				}
				// the names, and names of embedded structs
				emb := reflect.StructOf([]reflect.StructField{{Name: "E", Type: in, Anonymous: true}})
				embv := reflect.New(emb).Elem()
				embv.Field(0).Set(inv)
				pemb := reflect.StructOf([]reflect.StructField{{Name: "E", Type: reflect.PointerTo(in), Anonymous: true}, {Name: "B", Type: reflect.TypeOf(1), Tag: `json:",omitempty"`}})
				pembv := reflect.New(pemb).Elem()
				pembv.Field(0).Set(reflect.New(in))
				pembv.Field(0).Elem().Set(inv)
				for _, x := range []any{inv.Interface(), embv.Interface(), pembv.Interface(), []any{embv.Addr().Interface()}, map[string]any{"m": inv.Interface()}} {
					for h := 0; h < 2; h++ {
						k := encConf{html: h == 1}
						out, err, pan := k.append(nil, x)
						std, serr, _ := stdEncode(x, h == 1)
						c.State(1)
						c.Trans(1)
						c.Valid(1)
						if err != nil || pan != nil || serr != nil || !bytes.Equal(out, std) {
							c.Fail(fmt.Sprintf("name %q %s", tag, opt), "%T %v: %s %v %v, encoding/json: %s", x, k, out, err, pan, std)
							continue
						}
						if s := string(out); s[0] == '{' && strings.Count(s, "{") == 1 {
							lit := s[1:strings.LastIndexByte(s, ':')]
							if why := goodLiteral([]byte(lit), tag, h == 1); !strings.HasSuffix(s, ":"+num+"}") || why != "" && lit != `"A"` {
								c.Fail(fmt.Sprintf("name %q %s", tag, opt), "%T %v: %s: %s", x, k, out, why)
							}
						}
						for _, kk := range []encConf{{html: h == 1, colors: full}, {html: h == 1, indent: " ", prefix: " "}} {
							o, e, _ := kk.append(nil, x)
							var cb bytes.Buffer
							if e != nil || json.Compact(&cb, stripper(o)) != nil || !bytes.Equal(cb.Bytes(), out) {
								c.Fail(fmt.Sprintf("colored name %q %s", tag, opt), "%T %v: %q %v, plain %q", x, kk, o, e, out)
							}
						}
					}
				}
			}
		})
	}
	c.Bound("names of struct fields: %d tags of special characters, in structs and embedded structs, with options", len(tags))
	// every code point, at two alignments
	for blk := 0; blk < 0x110000; blk += 0x1000 {
		c.Case(func() string { return fmt.Sprintf("code points %#x..", blk) }, func() {
			for r := blk; r < blk+0x1000; r++ {
				if r >= 0xd800 && r < 0xe000 {
					// the surrogates' would-be encodings
					one(&ps[0], string([]byte{0xe0 | byte(r>>12), 0x80 | byte(r>>6&0x3f), 0x80 | byte(r&0x3f)}), false)
					continue
				}
				one(&ps[0], string(rune(r)), false)
				one(&ps[r%len(ps)], "abcdefg"+string(rune(r))+"x", false)
			}
		})
	}
	// every byte at every position of an otherwise plain string
	for _, n := range []int{3, 7, 8, 9, 15, 16, 17, 23, 24, 25, 31, 32, 33, 40, 64, 65} {
		c.Case(func() string {
			return fmt.Sprintf("one or two special bytes at every position of a string of %d bytes", n)
		}, func() {
			for _, base := range []byte{'a', 0x7f, ' '} {
				s := bytes.Repeat([]byte{base}, n)
				for i := range s {
					for v := 0; v < 256; v++ {
						s[i] = byte(v)
						one(&ps[0], string(s), false)
						if v < 0x80 && unicode.IsGraphic(rune(v)) && !strings.ContainsRune(`"\<>&`, rune(v)) {
							continue
						}
						one(&ps[5+v%8], string(s), false)
						if n <= 25 {
							for j := i + 1; j < n; j++ {
								for _, w := range []byte{'"', '\\', '<', 0x80, 0x1f, 0xe2} {
									s[j] = w
									one(&ps[0], string(s), false)
								}
								s[j] = base
							}
						}
					}
					s[i] = base
				}
			}
		})
	}
	alpha := []string{"a", `"`, `\`, "<", "&", "\x00", "\n", "\x1f", "\x7f", "é", "\u2028", "\u2029", "\u2027", "😀", "\xff", "\xc3", "\xe2", "\xe2\x80", "\xa8", "\ufffd", "\xed\xa0\x80", "\xf0\x9f", "/", "\u202a"}
	for i := range ps {
		p := &ps[i]
		c.batches("classes as "+p.name, alpha, 0, c.Pick(3, 4), 1, same, func(s string) { one(p, s, len(s) < 4) })
	}
	c.batches("classes, longer", alpha, 4, c.Pick(5, 6), 2, same, func(s string) { one(&ps[0], s, false) })
	for al := 1; al <= 16; al++ {
		pad := strings.Repeat("x", al)
		c.batches(fmt.Sprintf("classes after %d bytes", al), alpha, 1, c.Pick(3, 3), 1, func(s string) string { return pad + s + pad[:al/2] }, func(s string) {
			for i := range ps {
				one(&ps[i], s, false)
			}
		})
	}
	for _, st := range scaleStrings() {
		for _, n := range ladder(c.Pick(70, 300), c.Pick(70000, 270000)) {
			c.Case(func() string { return fmt.Sprintf("scale: %d bytes, %s, in every position", n, st.name) }, func() {
				for i := range ps {
					one(&ps[i], st.mk(n), i == 0 || n < 100)
				}
			})
		}
	}
	// tag names: reflect can only make ASCII-quotable ones through StructOf
	names := []string{"<", ">", "&", "é", "a", "-", "\u4e16", "_", "/", "~", " ", "$", "𝔘", "{", "?"}
	c.batches("tag names", names, 1, c.Pick(3, 4), 1, same, func(s string) {
		if s == "-" {
			return
		}
		for _, opt := range []string{"", ",omitempty", ",string"} {
			t := reflect.StructOf([]reflect.StructField{sf("A", reflect.TypeOf(0), s+opt)})
			v := reflect.New(t).Elem()
			v.Field(0).SetInt(7)
			for h := 0; h < 2; h++ {
				f := jc.SortMapKeys
				if h == 1 {
					f |= jc.EscapeHTML
				}
				out, err := jc.Append(nil, v.Interface(), f, nil, nil)
				c.State(1)
				c.Trans(1)
				want, _, _ := stdEncode(v.Interface(), h == 1)
				if err != nil || !sameDoc(out, want) {
					c.Fail("tag "+s, "tag name %q (html %v): %q %v, want %q", s, h == 1, out, err, want)
					continue
				}
				c.Valid(1)
				if h == 1 && bytes.ContainsAny(out, "<>&") {
					c.Fail("tag html "+s, "tag name %q: %q", s, out)
				}
			}
		}
	})
	c.Bound("%d positions, both HTML settings, alignments 0..16", len(ps))
}

// ---------------------------------------------------------------------------
// C19

type textIn struct{ s string }

func (t *textIn) UnmarshalText(b []byte) error { t.s = string(b); return nil }

func runC19(c *C) {
	lits := 0
	one := func(lit string) {
		want, ok := literal([]byte(lit))
		c.State(1)
		lits++
		key := fmt.Sprintf("%q", clip(lit, 80))
		// cross-check the reference
		var std string
		serr := json.Unmarshal([]byte(lit), &std)
		trimmed := strings.Trim(lit, " \t\r\n") == lit
		if trimmed && (serr == nil) != ok || ok && std != string(want) {
			c.Fail("reference "+key, "the reference and encoding/json disagree about %q: %q %v, %q %v", lit, want, ok, std, serr)
			return
		}
		b := []byte(lit)
		snapshot := lit
		check := func(what, got string, err error) {
			c.Trans(1)
			if ok && (err != nil || got != string(want)) {
				c.Fail(what+" "+key, "%s of %s: %q %v, want %q", what, lit, got, err, want)
			} else if !ok && err == nil {
				c.Fail(what+" accepted "+key, "%s accepted the malformed %s as %q", what, lit, got)
			}
			if string(b) != snapshot {
				c.Fail(what+" modified "+key, "%s modified its input %s to %s", what, snapshot, b)
				copy(b, snapshot)
			}
		}
		var s string
		err := jc.Unmarshal(b, &s)
		check("Unmarshal string", s, err)
		var x any
		err = jc.Unmarshal(b, &x)
		s, _ = x.(string)
		check("Unmarshal interface", s, err)
		s = ""
		rest, err := jc.Parse(b, &s, jc.ZeroCopy)
		if len(rest) == 0 || err != nil {
			check("Parse", s, err)
		}
		var t textIn
		err = jc.Unmarshal(b, &t)
		check("UnmarshalText", t.s, err)
		if ok {
			var m map[string]int
			err = jc.Unmarshal([]byte("{"+lit+":1}"), &m)
			s = "(none)"
			for k := range m {
				s = k
			}
			check("map key", s, err)
		}
		if !ok {
			// Unquote is for valid literals: whatever else it gets, it must not take a
			// malformed escape in a literal that the Tokenizer delivers
			tk := jc.NewTokenizer(b)
			if !tk.Next() || !tk.Value.String() || tk.Next() || tk.Err != nil {
				return
			}
		}
		v := jc.RawValue(b)
		var o []byte
		if pan := catch(func() { o = v.Unquote() }); pan != nil {
			err = fmt.Errorf("%v", pan)
		} else {
			err = nil
		}
		if ok {
			check("Unquote", string(o), err)
		}
		for _, pre := range []string{"", "ab", "0123456789abcdef"} {
			for _, spare := range []int{0, 1, len(want), len(lit) + 9} {
				a := make([]byte, len(pre), len(pre)+spare)
				copy(a, pre)
				c.Trans(1)
				if pan := catch(func() { o = v.AppendUnquote(a) }); pan != nil {
					if ok {
						check("AppendUnquote", "", fmt.Errorf("%v", pan))
					}
					continue
				}
				if ok && string(o) != pre+string(want) || string(a) != pre {
					c.Fail("AppendUnquote "+key, "AppendUnquote(%q) of %s: %q, want %q (buffer now %q)", pre, lit, o, pre+string(want), a)
				}
			}
		}
		c.Valid(1)
	}
	quote := func(s string) string { return `"` + s + `"` }
	alpha := []string{"a", `\n`, `\"`, `\\`, `\/`, `\b`, `\u0041`, `\ud83d`, `\ude00`, `\uD83D`, `\uDE00`, `\u2028`, `\u0000`, `\ufffd`, "é", "😀", "\u2028", "\xff", "\xc3", "\xe2\x80", `\`, `\u`, `\u00`, `\x`, "u", `"`, "\x1f", "\x7f", `\u00e9`, `\ud800`, `\udbff`, `\udfff`, `\udc00`, `\uzzzz`}
	c.batches("literals", alpha, 0, c.Pick(4, 5), 2, quote, one)
	for al := 1; al <= 17; al++ {
		pad := strings.Repeat("x", al)
		c.batches(fmt.Sprintf("literals after %d bytes", al), alpha, 1, c.Pick(3, 3), 1, func(s string) string { return `"` + pad + s + pad[:al%9] + `"` }, one)
	}
	// long literals, and AppendUnquote after prefixes of many lengths
	for _, m := range []string{"", `\n`, `\u00e9`, `\ud83d\ude00`, `\ud83d`, "é", "\xff", `\"`, `\x`, "\n", `\u12`, `\u2028\u0041`} {
		for _, n := range ladder(c.Pick(70, 300), c.Pick(70000, 270000)) {
			c.Case(func() string { return fmt.Sprintf("literals of %d bytes with %q", n, m) }, func() {
				s := rep("abcdefgh", n/8+1)[:n]
				for _, at := range []int{0, 1, n / 2, n - 1, n} {
					if at >= 0 && at <= n {
						one(quote(s[:at] + m + s[at:]))
					}
				}
				if n < 5000 {
					one(quote(rep(m, n)))
				}
				one(`"` + s + m)
			})
		}
	}
	ulits := []string{`""`, `"abc"`, `"\n"`, `"x\u00e9y"`, `"\ud83d\ude00"`, `"` + rep(`a\t`, 40) + `"`, `"` + rep("p", 70) + `"`, `"` + rep("p", 300) + `\\"`, "\"\xff\""}
	for _, n := range ladder(c.Pick(140, 600), c.Pick(70000, 270000)) {
		c.Case(func() string { return fmt.Sprintf("AppendUnquote after %d bytes", n) }, func() {
			pre := rep("0123456789", n/10+1)[:n]
			for _, lit := range ulits {
				want, _ := literal([]byte(lit))
				for _, spare := range append(ladder(20, 300), len(want), len(want)+1, len(lit), len(lit)-1, len(lit)-2, len(lit)-3, 4096, n) {
					if spare < 0 {
						continue
					}
					arr := make([]byte, n+spare+8)
					copy(arr, pre)
					for i := n + spare; i < len(arr); i++ {
						arr[i] = 0xA5
					}
					a := arr[: n : n+spare]
					v := jc.RawValue(lit)
					c.State(1)
					c.Trans(1)
					var o []byte
					pan := catch(func() { o = v.AppendUnquote(a) })
					if pan != nil || len(o) != n+len(want) || string(o[:n]) != pre || string(o[n:]) != string(want) || string(arr[:n]) != pre || string(arr[n+spare:]) != rep("\xa5", 8) {
						c.Fail(fmt.Sprintf("AppendUnquote long %q", clip(lit, 40)), "AppendUnquote of %s to %d bytes with capacity %d: %q (panic %v), want the prefix and %q", clip(lit, 100), n, n+spare, clip(string(o), 300), pan, clip(string(want), 100))
						return
					}
					c.Valid(1)
				}
			}
		})
	}
	// every \uXXXX, alone and after a high surrogate
	for hi := 0; hi < 256; hi++ {
		c.Case(func() string { return fmt.Sprintf(`every \u%02xXX and \u%02XXX, alone and in pairs`, hi, hi) }, func() {
			for lo := 0; lo < 256; lo++ {
				u := fmt.Sprintf(`\u%02x%02x`, hi, lo)
				U := fmt.Sprintf(`\u%02X%02X`, hi, lo)
				one(quote(u))
				one(quote("1234567" + U))
				one(quote(`\ud83d` + U))
				one(quote(u + `\ude00`))
				one(quote(`\udbff` + u + `\udfff`))
				one(quote(u + U))
			}
		})
	}
	// every byte inside of escapes and at every position
	for v := 0; v < 256; v++ {
		c.Case(func() string { return fmt.Sprintf("byte %#02x in every position of literals", v) }, func() {
			for _, base := range []string{`abcdefgh`, `\u00e9\ud83d\ude00`, `a\tb`, `é😀`, `01234567890123456789012345678901`} {
				for i := 0; i <= len(base); i++ {
					one(quote(base[:i] + string([]byte{byte(v)}) + base[i:]))
					if i < len(base) {
						one(quote(base[:i] + string([]byte{byte(v)}) + base[i+1:]))
						one(`"` + base[:i] + string([]byte{byte(v)}))
					}
					one(quote(base[:i] + `\` + string([]byte{byte(v)}) + base[i:]))
				}
			}
			one(`"` + string([]byte{byte(v)}))
			one(string([]byte{byte(v)}) + `"`)
		})
	}
	// all pairs of bytes
	for v := 0; v < 256; v++ {
		c.Case(func() string { return fmt.Sprintf("two-byte literals starting with %#02x", v) }, func() {
			for w := 0; w < 256; w++ {
				one(quote(string([]byte{byte(v), byte(w)})))
				one(quote(`\u00` + string([]byte{byte(v), byte(w)})))
				one(quote(`\u` + string([]byte{byte(v), byte(w)}) + `41`))
			}
		})
	}
	c.Bound("alignments 0..17, all 65536 escapes in both spellings")
}
