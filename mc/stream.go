package main

import (
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"reflect"
	"strings"

	jc "github.com/neilotoole/jsoncolor"
)

// ---------------------------------------------------------------------------
// Model of a stream: what encoding/json makes of the whole of it.

const (
	endEOF = iota
	endInside
	endMalformed
)

type sref struct {
	text         string
	starts, ends []int // of the values before the stream's end or first defect
	next         []int // where the next thing after the value starts
	term         int
	vals         [4][]reflect.Value // per kind of destination; invalid: an error
}

type typedDest struct {
	A []int
	S string
	M map[string]any
	N *typedDest
}

func newDest(kind int) reflect.Value {
	switch kind {
	case 1:
		return reflect.New(rawT)
	case 2:
		return reflect.New(reflect.TypeOf(typedDest{}))
	}
	return reflect.New(anyT)
}

func spaceEnd(s string, i int) int {
	for i < len(s) && strings.IndexByte(" \t\r\n", s[i]) >= 0 {
		i++
	}
	return i
}

func refStream(text string, kinds int) *sref {
	r := &sref{text: text}
	d := json.NewDecoder(strings.NewReader(text))
	pos := 0
	for {
		var raw json.RawMessage
		err := d.Decode(&raw)
		if err != nil {
			switch err {
			case io.EOF:
				r.term = endEOF
			case io.ErrUnexpectedEOF:
				r.term = endInside
			default:
				r.term = endMalformed
			}
			break
		}
		e := int(d.InputOffset())
		r.starts = append(r.starts, spaceEnd(text, pos))
		r.ends = append(r.ends, e)
		r.next = append(r.next, spaceEnd(text, e))
		pos = e
	}
	for k := 0; k < kinds; k++ {
		d := json.NewDecoder(strings.NewReader(text))
		if k == 3 {
			d.UseNumber()
		}
		for range r.ends {
			v := newDest(k)
			if d.Decode(v.Interface()) != nil {
				v = reflect.Value{}
			}
			r.vals[k] = append(r.vals[k], v)
		}
	}
	return r
}

// ---------------------------------------------------------------------------
// Scripted reader

type scriptReader struct {
	text   string
	cuts   []int // ends of the chunks, ascending; the last is where the script ends
	i      int
	given  int
	last   int   // bytes given when Read was last called
	final  error // what ends the script
	with   bool  // the final error accompanies the last bytes
	empty  bool  // every chunk is preceded by a read of no bytes
	toggle bool
	ended  bool // the final error was returned
	extra  int  // calls after that
	max    int  // longest buffer offered
}

var errOther = errors.New("read after the error")

func (r *scriptReader) Read(p []byte) (int, error) {
	r.last = r.given
	if len(p) > r.max {
		r.max = len(p)
	}
	if r.ended {
		r.extra++
		if r.extra > 3 {
			return 0, errOther
		}
		// A reader is free to go on after an error.
		return copy(p, `{"extra":1} `), nil
	}
	if r.i == len(r.cuts) {
		r.ended = true
		return 0, r.final
	}
	if r.empty {
		if r.toggle = !r.toggle; r.toggle {
			return 0, nil
		}
	}
	n := copy(p, r.text[r.given:r.cuts[r.i]])
	r.given += n
	if r.given == r.cuts[r.i] {
		r.i++
	}
	if r.with && r.i == len(r.cuts) {
		r.ended = true
		return n, r.final
	}
	return n, nil
}

func (r *scriptReader) String() string {
	return fmt.Sprintf("%q in chunks ending at %v, then %v (with the last bytes: %v, empty reads: %v)", clip(r.text, 200), clipInts(r.cuts), r.final, r.with, r.empty)
}

func clipInts(a []int) string { return clip(fmt.Sprint(a), 120) }

func decodeOnce(d *jc.Decoder, kind int) (v reflect.Value, err error, pan any) {
	v = newDest(kind)
	pan = catch(func() { err = d.Decode(v.Interface()) })
	return
}

// ---------------------------------------------------------------------------
// C14

func c14(c *C, ref *sref, kind int, cuts []int, with, empty bool) {
	rd := &scriptReader{text: ref.text, cuts: cuts, final: io.EOF, with: with, empty: empty}
	d := jc.NewDecoder(rd)
	if kind == 3 {
		d.UseNumber()
	}
	c.State(1)
	bad := func(what string, f string, a ...any) {
		c.Fail(what+" "+clip(ref.text, 100), "%v: %s", rd, fmt.Sprintf(f, a...))
	}
	for i := range ref.ends {
		v, err, pan := decodeOnce(d, kind)
		c.Trans(1)
		if pan != nil {
			bad("panic", "Decode %d: panic %v", i, pan)
			return
		}
		want := ref.vals[kind][i]
		if (err != nil) == want.IsValid() {
			bad("error", "Decode %d into %v: %v, encoding/json: %v", i, v.Type().Elem(), err, want.IsValid())
			return
		}
		if err != nil {
			continue
		}
		if !decSame(v.Elem(), want.Elem()) {
			bad("value", "Decode %d into %v:\n got  %s\n want %s", i, v.Type().Elem(), dump(v), dump(want))
			return
		}
		off := int(d.InputOffset())
		if off < ref.ends[i] || off > ref.next[i] {
			bad("offset", "after Decode %d InputOffset is %d, the value ends at %d and the next starts at %d", i, off, ref.ends[i], ref.next[i])
			return
		}
		c.Valid(1)
		if n := len(ref.ends); n > 64 && i%61 != 0 && i < n-8 {
			continue
		}
		buf, _ := io.ReadAll(d.Buffered())
		if off+len(buf) != rd.given || ref.text[off:rd.given] != string(buf) {
			bad("buffered", "after Decode %d InputOffset is %d, Buffered has %d bytes %q, %d bytes were read", i, off, len(buf), clip(string(buf), 100), rd.given)
			return
		}
	}
	for k := 0; k < 2; k++ {
		v, err, pan := decodeOnce(d, kind)
		c.Trans(1)
		if pan != nil {
			bad("panic", "Decode at the end: panic %v", pan)
			return
		}
		if err == nil {
			bad("extra", "Decode %d beyond the last value succeeds with %s", k, dump(v))
			return
		}
		if (err == io.EOF) != (ref.term == endEOF) {
			bad("end", "Decode at the end: %v, want one of class %d", err, ref.term)
			return
		}
	}
}

// compositions calls f with every way to cut n bytes into chunks.
func compositions(n int, f func(cuts []int)) {
	if n == 0 {
		f(nil)
		return
	}
	cuts := make([]int, 0, n)
	for m := 0; m < 1<<(n-1); m++ {
		cuts = cuts[:0]
		for i := 0; i < n-1; i++ {
			if m>>i&1 == 1 {
				cuts = append(cuts, i+1)
			}
		}
		f(append(cuts, n))
	}
}

// splits calls f with every way to cut n bytes into one, two or three chunks, and into single bytes.
func splits(n int, three bool, f func(cuts []int)) {
	f([]int{n})
	for i := 1; i < n; i++ {
		f([]int{i, n})
		if three {
			for j := i + 1; j < n; j++ {
				f([]int{i, j, n})
			}
		}
	}
	ones := make([]int, n)
	for i := range ones {
		ones[i] = i + 1
	}
	f(ones)
}

func every(n, k int) (cuts []int) {
	for i := k; i < n; i += k {
		cuts = append(cuts, i)
	}
	return append(cuts, n)
}

var streamTokens = []string{`1`, `-`, `0`, `.5`, `e1`, `"`, `\`, `u0041`, "é", `[`, `]`, `{`, `}`, `:`, `,`, ` `, `null`, `true`, `"a"`, "\n", "x"}

var streamTexts = []string{
	`{"a":[1,{"b":null}],"S":"x"} {"A":[1,2],"M":{"k":1.5}}`,
	`{"A":[1,"x"]} {"S":1} {"S":"y"}`,
	`"\u0041\ud83d\ude00\n" "é` + "\u2028" + `" "\\" ""`,
	`true false null 12 -1.5e-10 0 "a"[1][]{}`,
	"1\n2\n3\n", "1 2", "12", " 12 ", "  ", "", "-", "1.", "1e", "1e+", "tru", "nul", "fals", `"abc`, `"ab\`, `"\u00`, `"\ud83d\ude`, `[1,`, `[1`, `{"a"`, `{"a":`, `{"a":1`, `{"a":1,`, `[[[]]`, "[1]]", "[1]x", `{"a":1}}`, `1 x 2`, `[1] tru`, `[1] truex`, `[1,2}`, `{"a":1]`, "\"\n\"", "\"\xff\"", `[1] "a`, `1"a"2`, `nulltrue`, `{}{}{}`, `[][]`, `""""`, `01`, `1 01`, `--1`, `[01]`, "1\x00", "\ufeff1", `"\x"`, `"\u12x4"`, "\t\r\n[ ]\r\n\t", `{"N":{"N":{"A":[1]}}}`, `{"a" :1 , "a": 2 }`, `123456789012345678901234567890 1e400`, `{"S":"\"\\\/\b\f\n\r\t"}`,
}

func init() {
	register(&check{id: "C14", rule: "every stream of up to n tokens of an alphabet and listed streams x every way to cut the bytes into reads (all compositions of short streams, all 2- and 3-cuts and single bytes of longer ones; EOF with or after the last bytes; empty reads) x destinations, and values and numbers of every kind placed at every offset around the decoder's buffer boundaries; encoding/json.Decoder on the uncut stream is the model, with InputOffset and Buffered checked after every Decode", run: runC14})
	register(&check{id: "C15", rule: "every prefix of the streams x every way to cut it into reads x every way the reader can fail (after or with the last bytes, not repeated), at every point around buffer boundaries; the model knows which values are complete after every byte: no Read may happen once the next value is known complete, and the reader's own error must come out", run: runC15})
}

func runC14(c *C) {
	all := func(text string, kinds, comp int) {
		ref := refStream(text, kinds)
		n := len(text)
		for k := 0; k < kinds; k++ {
			g := func(cuts []int) { c14(c, ref, k, cuts, false, false) }
			if n <= comp {
				compositions(n, g)
			} else {
				splits(n, n < 24, g)
			}
			if n > 0 {
				splits(n, false, func(cuts []int) {
					c14(c, ref, k, cuts, true, false)
					c14(c, ref, k, cuts, false, true)
					c14(c, ref, k, cuts, true, true)
				})
			}
		}
	}
	comp := c.Pick(7, 10)
	c.batches("streams of tokens", streamTokens, 0, c.Pick(3, 4), 2, same, func(s string) { all(s, 1, comp) })
	c.batches("values in a row", []string{`1`, `"a"`, `[1]`, `{"S":"x"}`, ` `, "\n", `null`, `-2`, `{"A":[1,`, `]}`, `x`}, 0, c.Pick(4, 5), 2, same, func(s string) { all(s, 4, comp-1) })
	for _, s := range streamTexts {
		c.Case(func() string { return fmt.Sprintf("stream %q", s) }, func() { all(s, 4, c.Pick(12, 16)) })
	}
	// around the buffer boundaries
	vals := []string{`{"a":[1,{"b":null}],"S":"x"}`, `"\u0041\ud83d\ude00\n` + "é\u2028" + `\\"`, `-123.5e-10`, `true`, `[ 1 , 2 ]`, `"abc"`, `12`}
	fills := []struct {
		name string
		mk   func(n int) string
	}{
		{"spaces", func(n int) string { return rep(" ", n) }},
		{"values", func(n int) string { return (rep(`[1] "ab" `, n/9+1))[:n/9*9] + rep("\n", n%9) }},
		{"one string", func(n int) string {
			if n < 3 {
				return rep(" ", n)
			}
			return `"` + rep("x", n-3) + `" `
		}},
		{"one array", func(n int) string {
			if n < 8 {
				return rep(" ", n)
			}
			return "[" + rep("1,", (n-4)/2) + "1]" + rep(" ", (n-4)%2+1)
		}},
	}
	bounds := []int{4096, 28672, 32768, 65536 - 4096, 65536}
	if c.thorough {
		bounds = append(bounds, 36864, 131072-4096, 131072)
	}
	for _, b := range bounds {
		for vi, v := range vals {
			if vi >= 3 && b != 32768 && !c.thorough {
				continue
			}
			for fi, fl := range fills {
				for at := b - len(v) - 1; at <= b+1; at++ {
					if fi != 0 && !c.thorough && at%3 != 0 && at != b && at != b-len(v) {
						continue
					}
					c.Case(func() string { return fmt.Sprintf("%q at offset %d after %s", v, at, fl.name) }, func() {
						text := fl.mk(at) + v + ` {"t":[1,"` + rep("y", 40) + `"]} 7`
						ref := refStream(text, 1)
						n := len(text)
						for _, cuts := range [][]int{{n}, every(n, 4096), every(n, 32768), every(n, 1000), {b, n}, {b - 1, n}, {b + 1, n}, {at, n}, {at + 1, n}, {at + len(v), n}, append(append([]int{at}, func() (o []int) {
							for i := 1; i < len(v); i++ {
								o = append(o, at+i)
							}
							return
						}()...), n)} {
							cuts := cuts
							if cuts[0] <= 0 {
								continue
							}
							c14(c, ref, 0, cuts, false, false)
							c14(c, ref, 0, cuts, true, false)
						}
					})
				}
			}
		}
	}
	// one value longer than the buffer, of every length around where it grows
	for _, n := range []int{28672, 32768, 65536, 131072} {
		for d := -4; d <= 4; d++ {
			c.Case(func() string { return fmt.Sprintf("values of %d bytes", n+d) }, func() {
				for _, big := range []string{`"` + rep("x", n+d-2) + `"`, `"` + rep(`\n`, (n+d-2)/2) + `"`, rep("1", n+d), "[" + rep(" ", n+d-2) + "]", rep("[", 100) + rep(" ", n+d-200) + rep("]", 100)} {
					for _, text := range []string{big, "1 " + big + ` "after" 2`, big + big, big[:len(big)-1]} {
						ref := refStream(text, 1)
						for i, cuts := range [][]int{{len(text)}, every(len(text), 4095), {n, len(text)}} {
							if cuts[0] > len(text) {
								continue
							}
							c14(c, ref, 0, cuts, i == 1, false)
						}
					}
				}
			})
		}
	}
	c.Case(func() string { return "long stream of small values, many refills" }, func() {
		var sb strings.Builder
		for i := 0; sb.Len() < 200000; i++ {
			fmt.Fprintf(&sb, `{"S":"%s","A":[%d]}%s`, rep("z", i%37), i, rep(" ", i%5))
		}
		ref := refStream(sb.String(), 4)
		for k := 0; k < 4; k++ {
			for _, step := range []int{1 << 20, 32768, 32767, 4097, 511, 61} {
				c14(c, ref, k, every(sb.Len(), step), false, false)
			}
		}
	})
	c.scales(scaleLimit{s: c.Pick(5000, 140000), e: c.Pick(300, 20000), m: c.Pick(130, 5000), f: 10, d: c.Pick(140, 1100)}, func(l leafT) {
		b, err, pan := stdEncode(l.vals[0].Interface(), false)
		if err != nil || pan != nil {
			return
		}
		doc := string(b)
		for ti, text := range []string{doc + "\n" + doc + ` {"t":1} 7`, "1 " + doc, doc[:len(doc)-1], doc + "x", rep(" ", 4090) + doc + doc} {
			ref := refStream(text, 2)
			n := len(text)
			for _, cuts := range [][]int{{n}, every(n, 1000), every(n, 4096), every(n, 61), {n / 2, n}, {len(doc), n}, {len(doc) - 1, n}} {
				if cuts[0] <= 0 || cuts[0] > n || n > 20000 && len(cuts) > 200 {
					continue
				}
				c14(c, ref, ti&1, cuts, false, false)
				c14(c, ref, 1-ti&1, cuts, true, len(cuts) < 5)
			}
		}
	})
	c.giants(func(l leafT) {
		b, err, pan := stdEncode(l.vals[0].Interface(), false)
		if err != nil || pan != nil {
			return
		}
		for _, text := range []string{string(b) + ` {"t":1} 7`, "1 " + string(b[:len(b)-1])} {
			ref := refStream(text, 1)
			n := len(text)
			c14(c, ref, 0, []int{n}, false, false)
			c14(c, ref, 0, every(n, 100003), true, false)
		}
	})
	c.Bound("compositions of streams to %d bytes; boundaries %v", comp, bounds)
}

// ---------------------------------------------------------------------------
// C15

var errReader = errors.New("reader failed")
var errWrapEOF = fmt.Errorf("connection lost: %w", io.EOF)

// c15 runs the script that delivers text[:n] cut as given and then fails.
func c15(c *C, ref *sref, cuts []int, final error, with, empty bool) {
	n := 0
	if len(cuts) > 0 {
		n = cuts[len(cuts)-1]
	}
	rd := &scriptReader{text: ref.text, cuts: cuts, final: final, with: with, empty: empty}
	d := jc.NewDecoder(rd)
	c.State(1)
	bad := func(what string, f string, a ...any) {
		c.Fail(what+" "+clip(ref.text[:n], 100), "%v: %s", rd, fmt.Sprintf(f, a...))
	}
	got := 0
	for i := range ref.ends {
		// the number of bytes that must be there to know that value i is complete
		need := ref.ends[i]
		num := strings.IndexByte("-0123456789", ref.text[ref.starts[i]]) >= 0
		if num {
			need++
		}
		if need > n && !(num && final == io.EOF && ref.ends[i] <= n) {
			break
		}
		var raw jc.RawMessage
		before := rd.given
		rd.last = -1
		var err error
		pan := catch(func() { err = d.Decode(&raw) })
		c.Trans(1)
		if pan != nil {
			bad("panic", "Decode %d: panic %v", i, pan)
			return
		}
		if err != nil {
			bad("lost", "Decode %d: %v, although the value %q was delivered", i, err, clip(ref.text[ref.starts[i]:ref.ends[i]], 100))
			return
		}
		if string(raw) != ref.text[ref.starts[i]:ref.ends[i]] {
			bad("value", "Decode %d: %q, want %q", i, clip(string(raw), 100), clip(ref.text[ref.starts[i]:ref.ends[i]], 100))
			return
		}
		if rd.last >= need {
			bad("late", "Decode %d called Read with %d bytes delivered, the value is known complete with %d (%d were delivered before the call)", i, rd.last, need, before)
			return
		}
		if rd.extra > 0 {
			bad("extra", "Decode %d read on after the reader had reported %v", i, final)
			return
		}
		got++
		c.Valid(1)
	}
	rest := ref.text[:n]
	if got > 0 {
		rest = rest[ref.ends[got-1]:]
	}
	var raw jc.RawMessage
	var err error
	pan := catch(func() { err = d.Decode(&raw) })
	c.Trans(1)
	if pan != nil {
		bad("panic", "Decode at the end: panic %v", pan)
		return
	}
	if err == nil {
		bad("extra", "Decode at the end returns %q", clip(string(raw), 100))
		return
	}
	want := final
	blank := spaceEnd(rest, 0) == len(rest)
	malformed := false
	if !blank {
		if final == io.EOF {
			want = io.ErrUnexpectedEOF
		}
		var x json.RawMessage
		e := json.NewDecoder(strings.NewReader(rest)).Decode(&x)
		malformed = e != nil && e != io.ErrUnexpectedEOF
	}
	if malformed {
		if err == io.EOF {
			bad("eof", "Decode at the end: io.EOF after the malformed %q", clip(rest, 100))
		}
		return
	}
	if err != want {
		bad("error", "Decode at the end: %v, want %v", err, want)
		return
	}
	pan = catch(func() { err = d.Decode(&raw) })
	if pan != nil || err == nil {
		bad("after", "Decode after %v: %v %v, value %q", want, err, pan, clip(string(raw), 100))
	}
}

func runC15(c *C) {
	finals := []error{errReader, io.EOF, errWrapEOF, io.ErrUnexpectedEOF}
	all := func(text string, comp int) {
		for n := 0; n <= len(text); n++ {
			ref := refStream(text[:n], 0)
			for fi, final := range finals {
				g := func(cuts []int) {
					c15(c, ref, cuts, final, false, false)
					if n > 0 {
						c15(c, ref, cuts, final, true, false)
					}
				}
				switch {
				case n <= comp && fi < 2:
					compositions(n, g)
				case n > 0:
					splits(n, n < 12 && fi < 2, g)
				default:
					g(nil)
				}
				if n > 0 && fi < 2 {
					splits(n, false, func(cuts []int) {
						c15(c, ref, cuts, final, true, true)
						c15(c, ref, cuts, final, false, true)
					})
				}
			}
		}
	}
	comp := c.Pick(7, 10)
	c.batches("streams of tokens", streamTokens, 0, c.Pick(3, 4), 2, same, func(s string) { all(s, comp) })
	c.batches("values in a row", []string{`1`, `"a"`, `[1]`, `{"a":1}`, ` `, "\n", `null`, `-2.5`, `"\n`}, 0, c.Pick(3, 4), 1, same, func(s string) { all(s, comp-1) })
	for _, s := range streamTexts {
		c.Case(func() string { return fmt.Sprintf("stream %q", s) }, func() { all(s, c.Pick(9, 12)) })
	}
	for _, b := range []int{4096, 28672, 32768, 65536 - 4096, 65536, 131072} {
		for _, fill := range []string{" ", "[1] ", "x"} {
			c.Case(func() string { return fmt.Sprintf("failures around %d bytes of %q", b, fill) }, func() {
				head := rep(fill, b/len(fill)-4)
				if fill == "x" {
					head = `"` + head[1:]
					head = head[:len(head)-1] + `"`
				}
				text := head + `["ab",12] 345 {"c":"\u0041"} 6`
				for n := len(head) - 3; n <= len(text); n++ {
					ref := refStream(text[:n], 0)
					for _, final := range finals[:2] {
						for _, cuts := range [][]int{{n}, every(n, 4096), every(n, 32768), {b - 8, n}, {len(head) - 4, n}} {
							if cuts[0] > n {
								continue
							}
							c15(c, ref, cuts, final, false, false)
							c15(c, ref, cuts, final, true, false)
						}
					}
				}
			})
		}
	}
	c.scales(scaleLimit{s: c.Pick(5000, 140000), e: c.Pick(300, 20000), m: c.Pick(130, 5000), f: 10, d: c.Pick(140, 1100)}, func(l leafT) {
		b, err, pan := stdEncode(l.vals[0].Interface(), false)
		if err != nil || pan != nil {
			return
		}
		doc := string(b)
		text := doc + "\n" + doc + " 7 "
		for _, n := range []int{len(doc), len(doc) + 1, 2*len(doc) + 1, len(text), len(doc) - 1, len(doc) / 2, len(doc) + len(doc)/2, len(text) - 1} {
			ref := refStream(text[:n], 0)
			for fi, final := range finals[:2] {
				for _, cuts := range [][]int{{n}, every(n, 1000), every(n, 4096), every(n, 61), {n / 2, n}, {n - 1, n}, {len(doc), n}} {
					if n == 0 || cuts[0] <= 0 || cuts[0] > n || n > 20000 && len(cuts) > 200 || len(cuts) == 2 && cuts[0] == cuts[1] {
						continue
					}
					c15(c, ref, cuts, final, fi == 0, false)
					c15(c, ref, cuts, final, fi == 1, len(cuts) < 9)
				}
			}
		}
	})
	c.Bound("prefixes of all streams, compositions to %d bytes", comp)
}
