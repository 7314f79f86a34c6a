package main

import (
	"encoding/json"
	"fmt"
	"regexp"
	"strings"
	"unsafe"

	jc "github.com/neilotoole/jsoncolor"
)

func init() {
	register(&check{id: "C18", rule: "every sequence of up to n symbols of several alphabets, every nesting of containers to a depth, documents of the type universe, their byte edits: the Tokenizer is stepped in lock-step with a pushdown model (token bytes, depth, index, key status, error class); every (document, number of steps, document) pair and triple for Reset", run: runC18})
}

type tokStep struct {
	s, e         int
	k            byte
	depth, index int
	key          bool
}

// refTokens is the model: the tokens of a text, and what ends it.
// end: 0 clean, 1 an error is due, 2 not specified.
func refTokens(text string) (steps []tokStep, end int) {
	type fr struct {
		k     byte
		n     int
		isKey bool
	}
	var st []fr
	top := func() *fr {
		if len(st) == 0 {
			return nil
		}
		return &st[len(st)-1]
	}
	add := func(s, e int, k byte, key bool) {
		t := tokStep{s: s, e: e, k: k, depth: len(st), key: key}
		if f := top(); f != nil {
			t.index = f.n
		}
		steps = append(steps, t)
	}
	i := 0
	for {
		i = spaceEnd(text, i)
		if i == len(text) {
			if len(st) > 0 {
				return steps, 1
			}
			return steps, end
		}
		ch := text[i]
		switch ch {
		case '{', '[':
			add(i, i+1, ch, false)
			st = append(st, fr{k: ch, isKey: ch == '{'})
			i++
		case '}', ']':
			f := top()
			if f == nil || f.k != ch-2 {
				return steps, 1
			}
			st = st[:len(st)-1]
			add(i, i+1, ch, false)
			i++
		case ',':
			f := top()
			if f == nil {
				return steps, 1
			}
			add(i, i+1, ch, false)
			f.n++
			f.isKey = f.k == '{'
			i++
		case ':':
			add(i, i+1, ch, false)
			if f := top(); f != nil {
				f.isKey = false
			}
			i++
		default:
			var n int
			switch {
			case ch == '"':
				n = 1
				for i+n < len(text) && text[i+n] != '"' {
					if text[i+n] == '\\' {
						n++
					}
					n++
				}
				n++
				if i+n > len(text) || !stdValid(text[i:i+n]) {
					return steps, 1
				}
			case strings.HasPrefix(text[i:], "null"), strings.HasPrefix(text[i:], "true"):
				n = 4
			case strings.HasPrefix(text[i:], "false"):
				n = 5
			default:
				n = len(numberRE.FindString(text[i:]))
				if n == 0 {
					return steps, 1
				}
				if i+n < len(text) && strings.IndexByte("0123456789.eE+-", text[i+n]) >= 0 {
					return steps, 2
				}
			}
			k := ch
			f := top()
			add(i, i+n, k, f != nil && f.isKey)
			i += n
		}
	}
}

var numberRE = regexp.MustCompile(`^-?(0|[1-9][0-9]*)(\.[0-9]+)?([eE][+-]?[0-9]+)?`)

func offsetIn(in []byte, v []byte) int {
	if len(v) == 0 || len(in) == 0 {
		return -1
	}
	o := int(uintptr(unsafe.Pointer(unsafe.SliceData(v))) - uintptr(unsafe.Pointer(unsafe.SliceData(in))))
	if o < 0 || o+len(v) > len(in) {
		return -1
	}
	return o
}

func c18(c *C, t *jc.Tokenizer, in []byte) {
	text := string(in)
	steps, end := refTokens(text)
	valid := stdValid(text)
	c.State(1)
	bad := func(what, f string, a ...any) {
		c.Fail(what+" "+clip(text, 100), "tokenizing %q: %s", clip(text, 300), fmt.Sprintf(f, a...))
	}
	pan := catch(func() {
		last := 0
		for i := 0; ; i++ {
			ok := t.Next()
			c.Trans(1)
			if i > len(text)+2 {
				bad("endless", "does not terminate")
				return
			}
			if !ok {
				switch {
				case end == 0 && valid && (t.Err != nil || i != len(steps)):
					bad("ends", "stops after %d of %d tokens with %v", i, len(steps), t.Err)
				case end == 0 && t.Err == nil && i != len(steps):
					bad("ends", "stops after %d of %d tokens without an error", i, len(steps))
				case end == 1 && t.Err == nil:
					bad("noerr", "stops after %d tokens without an error, one is due", i)
				}
				e := t.Err
				for k := 0; k < 3; k++ {
					if t.Next() || (t.Err != nil) != (e != nil) || e != nil && t.Err.Error() != e.Error() {
						bad("sticky", "after it stopped with %v, Next continues with %v", e, t.Err)
						return
					}
				}
				return
			}
			if t.Err != nil {
				bad("err", "Next reports a token and the error %v", t.Err)
				return
			}
			o := offsetIn(in, t.Value)
			if o < last {
				bad("bytes", "token %d is %q, not the next bytes of the input", i, t.Value)
				return
			}
			last = o + len(t.Value)
			if i >= len(steps) {
				if end != 2 {
					bad("more", "yields token %d %q, the model ends after %d", i, t.Value, len(steps))
					return
				}
				continue
			}
			w := steps[i]
			if end == 2 && !(o == w.s && last == w.e) {
				end = 3 // number syntax not specified from here on
			}
			if end == 3 {
				continue
			}
			if o != w.s || last != w.e {
				bad("token", "token %d is [%d:%d] %q, want [%d:%d] %q", i, o, last, t.Value, w.s, w.e, text[w.s:w.e])
				return
			}
			delim := strings.IndexByte("{}[]:,", w.k) >= 0
			if (t.Delim != 0) != delim || delim && byte(t.Delim) != w.k {
				bad("delim", "token %d %q has Delim %q", i, t.Value, rune(t.Delim))
				return
			}
			if t.Value.String() != (w.k == '"') || t.Value.Null() != (w.k == 'n') || t.Value.True() != (w.k == 't') || t.Value.False() != (w.k == 'f') || t.Value.Number() != (w.k == '-' || w.k >= '0' && w.k <= '9') {
				bad("kind", "token %d %q is misclassified", i, t.Value)
				return
			}
			if !valid {
				continue
			}
			if t.Depth != w.depth || t.Index != w.index || t.IsKey != w.key {
				bad("place", "token %d %q has depth %d, index %d, IsKey %v, want %d, %d, %v", i, t.Value, t.Depth, t.Index, t.IsKey, w.depth, w.index, w.key)
				return
			}
			c.Valid(1)
			if w.k == '"' && len(text) < 200 {
				var s string
				json.Unmarshal(t.Value, &s)
				if got := string(t.Value.Unquote()); got != s {
					bad("unquote", "token %d %q unquotes to %q, want %q", i, t.Value, got, s)
				}
			}
		}
	})
	if pan != nil {
		bad("panic", "panic %v", pan)
	}
	if string(in) != text {
		bad("written", "the input was changed to %q", in)
	}
}

func runC18(c *C) {
	one := func(s string) {
		in := []byte(s)
		c18(c, jc.NewTokenizer(in), in)
	}
	c.batches("tokens", tokAlphabet, 0, c.Pick(6, 7), 1, same, one)
	c.batches("structure", []string{"{", "}", "[", "]", ",", ":", `"a"`, `1`}, 0, c.Pick(8, 9), 2, same, one)
	c.batches("nested structure", []string{"{", "}", "[", "]", ",", ":", `"a"`, `1`}, 0, c.Pick(6, 7), 2, func(s string) string { return rep(`[0,{"k":`, 4) + s + rep("}]", 4) }, one)
	c.batches("characters", []string{`"`, `\`, "u", "0041", "n", "a", "-", "1", ".", "e", "tru", "fals", "nul", "l", "e", "[", "]", " ", "\x00", "\xff", "\u00e9"}, 0, c.Pick(4, 5), 1, same, one)
	// all documents of nested containers with up to three elements
	var shapes func(depth int) []string
	shapes = func(depth int) []string {
		out := []string{`1`, `"s"`}
		if depth == 0 {
			return out
		}
		sub := shapes(depth - 1)
		if len(sub) > 40 {
			sub = append(sub[:20:20], sub[len(sub)-20:]...)
		}
		out = append(out, `[]`, `{}`)
		for _, a := range sub {
			out = append(out, `[`+a+`]`, `{"a":`+a+`}`)
			for _, b := range sub {
				out = append(out, `[`+a+`,`+b+`]`, `{"a":`+a+`,"b":`+b+`}`, `[`+a+`,`+b+`,null]`)
			}
		}
		return out
	}
	for d := 1; d <= 3; d++ {
		for i, s := range shapes(d) {
			if i%50 == 0 {
				lo := i
				sh := shapes(d)
				c.Case(func() string { return fmt.Sprintf("nested containers of depth %d from %s", d, clip(s, 60)) }, func() {
					for j := lo; j < lo+50 && j < len(sh); j++ {
						one(sh[j])
						one(" " + strings.NewReplacer(",", " ,\n", ":", "\t: ", "]", " ]", "[", "[ ").Replace(sh[j]) + "\r\n")
					}
				})
			}
		}
	}
	for n := 1; n <= 24; n++ {
		c.Case(func() string { return fmt.Sprintf("nesting %d", n) }, func() {
			seqs(2, min(n, 9), func(ix []int) {
				open, cl := "", ""
				for i := 0; i < n; i++ {
					if ix[i%len(ix)] == 0 {
						open, cl = open+`[0,`, `,9]`+cl
					} else {
						open, cl = open+`{"x":0,"y":`, `,"z":9}`+cl
					}
				}
				one(open + `"in"` + cl)
				one(open + `"in"` + cl[:len(cl)-1])
				one(open + `"in"` + cl + "]")
			})
		})
	}
	for _, n := range []int{1000, 10001} {
		c.Case(func() string { return fmt.Sprintf("nesting %d", n) }, func() {
			for _, s := range []string{rep("[", n) + rep("]", n), rep(`{"a":`, n) + "1" + rep("}", n), rep("[", n), rep("]", n)} {
				in := []byte(s)
				t := jc.NewTokenizer(in)
				k := 0
				for t.Next() {
					k++
				}
				if (t.Err == nil) != (len(s) == 2*n || s[0] == '{') {
					c.Fail("deep", "%d tokens of %d x %q..: %v", k, n, s[:5], t.Err)
				}
			}
		})
	}
	c.universe(1, nil, func(d int) int { return 6 }, func(l leafT) {
		for _, d := range docsOf(l, 6, 3000) {
			one(d)
			if len(d) < 120 {
				edits(d, `{}[],:"\1 n`, one)
			}
		}
	})
	c.scales(scaleLimit{s: c.Pick(5000, 70000), e: c.Pick(300, 5000), m: c.Pick(130, 1100), f: 30, d: c.Pick(140, 1100)}, func(l leafT) {
		b, err, pan := stdEncode(l.vals[0].Interface(), false)
		if err != nil || pan != nil {
			return
		}
		if len(b) < 1500 || c.thorough && len(b) < 20000 {
			scaleTexts(string(b), one)
		} else {
			one(string(b))
		}
	})
	c.giants(func(l leafT) {
		if b, err, pan := stdEncode(l.vals[0].Interface(), false); err == nil && pan == nil {
			one(string(b))
		}
	})
	// Reset
	docs := []string{``, ` `, `1`, `"a"`, `{}`, `[]`, `{"a":1,"b":[2,{"c":null}]}`, `[1,[2,[3,[4,[5,[6,[7,[8,[9,[10]]]]]]]]]]`, `{"a":{"a":{"a":{"a":{"a":{"a":{"a":{"a":{"a":1}}}}}}}}}`, `{"k":`, `{`, `[[`, `[1,`, `}`, `]`, `,`, `x`, `[}`, `{"a":1]`, `"`, `[x`, `{"a"`, `1 2`, `{"a":1,`}
	type snap struct {
		ok  bool
		str string
	}
	take := func(t *jc.Tokenizer) snap {
		ok := t.Next()
		return snap{ok, fmt.Sprintf("%v %q %q %v %d %d %v", ok, rune(t.Delim), t.Value, t.Err, t.Depth, t.Index, t.IsKey)}
	}
	fresh := map[string][]snap{}
	for _, d := range docs {
		t := jc.NewTokenizer([]byte(d))
		for i := 0; i < 60; i++ {
			s := take(t)
			fresh[d] = append(fresh[d], s)
			if !s.ok && i > 0 && fresh[d][i-1].str == s.str {
				break
			}
		}
	}
	pair := func(t *jc.Tokenizer, a string, k int) {
		for i := 0; i < k; i++ {
			t.Next()
		}
	}
	for ai, a := range docs {
		c.Case(func() string { return fmt.Sprintf("Reset after parts of %q", a) }, func() {
			for k := 0; k <= len(fresh[a]); k++ {
				for bi, b := range docs {
					for _, b2 := range append([]string{""}, docs[6:12]...) {
						for j := 0; j <= len(fresh[b]); j++ {
							if b2 != "" && (ai+bi)%3 != 0 && !c.thorough {
								break
							}
							c.State(1)
							t := jc.NewTokenizer([]byte(a))
							pair(t, a, k)
							if b2 != "" {
								t.Reset([]byte(b))
								pair(t, b, j)
								t.Reset([]byte(b2))
								compareTok(c, t, b2, fresh[b2][0:], func(t *jc.Tokenizer) string { return take(t).str }, func(i int) string { return fresh[b2][i].str }, fmt.Sprintf("%d steps of %q, %d of %q", k, a, j, b))
								continue
							}
							t.Reset([]byte(b))
							compareTok(c, t, b, fresh[b], func(t *jc.Tokenizer) string { return take(t).str }, func(i int) string { return fresh[b][i].str }, fmt.Sprintf("%d steps of %q", k, a))
							break
						}
					}
				}
			}
		})
	}
}

func compareTok[T any](c *C, t *jc.Tokenizer, doc string, want []T, take func(*jc.Tokenizer) string, ws func(int) string, hist string) {
	for i := range want {
		c.Trans(1)
		if g := take(t); g != ws(i) {
			c.Fail("reset "+doc, "after %s, Reset(%q): step %d is %s, of a new Tokenizer %s", hist, doc, i, g, ws(i))
			return
		}
		c.Valid(1)
	}
}
