package main

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"io"
	"reflect"
	"runtime"
	"runtime/coverage"
	"strings"
	"time"

	jc "github.com/neilotoole/jsoncolor"
)

// C33: work is proportional to the size of the text read and written. check.sh
// builds this check with the statement counters of go build -cover in the package
// (and in the standard packages it calls), so the work of a call is a number that
// is the same in every run, not a time.

func init() {
	register(&check{
		id:   "C33",
		rule: "all periodic texts p·uⁿ·m·sⁿ·q with u up to 3 and s up to 2 symbols through every reader, all periodic string contents, and every shape of value at two sizes through every encoder; the executed statements are counted exactly",
		run:  runC33})
}

var costMain = -1

// costCounts returns the statement counts of all packages by index.
func costCounts(w *bytes.Buffer) (n [64]uint64, last int) {
	w.Reset()
	if err := coverage.WriteCounters(w); err != nil {
		panic("C33 needs a build with -cover -covermode=atomic: " + err.Error())
	}
	p := w.Bytes()[32:] // file header
	fc, stl, al := binary.LittleEndian.Uint64(p), binary.LittleEndian.Uint32(p[8:]), binary.LittleEndian.Uint32(p[12:])
	o := 16 + int(stl) + int(al)
	p = p[(o+3)&^3:]
	ul := func() uint64 { v, k := binary.Uvarint(p); p = p[k:]; return v }
	for ; fc > 0; fc-- {
		nc, pk := ul(), ul()
		ul()
		last = max(last, int(pk))
		for ; nc > 0; nc-- {
			n[pk] += ul()
		}
	}
	return
}

type cost struct{ steps, alloc uint64 }

var costBuf bytes.Buffer

// costOf counts the statements f executes and the bytes it allocates.
func costOf(f func()) (k cost) {
	var m1, m2 runtime.MemStats
	runtime.ReadMemStats(&m1)
	if err := coverage.ClearCounters(); err != nil {
		panic(err)
	}
	costScanned(true)
	f()
	k.steps = costScanned(false)
	n, last := costCounts(&costBuf)
	runtime.ReadMemStats(&m2)
	costMain = max(costMain, last) // package main is the last one
	for i, x := range n {
		if i != costMain {
			k.steps += x
		}
	}
	k.alloc = m2.TotalAlloc - m1.TotalAlloc
	return
}

// A costOp performs an operation on an input of a size and returns the size of
// what was read and written.
type costOp func() int

// costJudge compares the work at two sizes.
func (c *C) costJudge(key, what string, small, large costOp, mem bool) {
	small() // warms up
	var s1, s2 int
	k1 := costOf(func() { s1 = small() })
	k2 := costOf(func() { s2 = large() })
	c.Trans(3)
	c.Valid(1)
	bound := func(a, slack uint64) uint64 {
		return a*uint64(s2)/uint64(max(s1, 1))*3/2 + slack
	}
	if b := bound(k1.steps, 5000); k2.steps > b {
		c.Fail(key, "%s: %d bytes take %d steps, %d bytes take %d (linear growth, with half as much again, would be %d)", what, s1, k1.steps, s2, k2.steps, b)
	}
	if b := bound(k1.alloc, 300000); mem && k2.alloc > b*3 {
		c.Fail(key+" memory", "%s: %d bytes allocate %d bytes, %d bytes allocate %d", what, s1, k1.alloc, s2, k2.alloc)
	}
}

type costT struct {
	A *costT           `json:"a"`
	B []costT          `json:"b"`
	M map[string]costT `json:"m"`
	I any              `json:"i"`
	R jc.RawMessage    `json:"r"`
	S string           `json:"s"`
}
type costL []costL
type costF [][1]*costF

type costReader struct {
	name    string
	lenient bool // goes on where the text is malformed
	run     func(text []byte) (out int, ok bool)
}

func costReaders() (o []costReader) {
	add := func(name string, lenient bool, f func(text []byte) (int, bool)) {
		o = append(o, costReader{name, lenient, f})
	}
	add("Valid", false, func(b []byte) (int, bool) { return 0, jc.Valid(b) })
	add("Tokenizer", true, func(b []byte) (int, bool) {
		t := jc.NewTokenizer(b)
		for t.Next() {
		}
		return 0, t.Err == nil
	})
	into := func(name string, mk func() any) {
		add("Unmarshal into "+name, false, func(b []byte) (int, bool) { return 0, jc.Unmarshal(b, mk()) == nil })
	}
	into("any", func() any { return new(any) })
	into("map of Raw", func() any { return new(map[string]jc.RawMessage) })
	into("struct", func() any { return new(costT) })
	into("recursive slice", func() any { return new(costL) })
	into("recursive array", func() any { return new(costF) })
	into("int", func() any { return new(int) })
	add("Parse into any, UseNumber|ZeroCopy", false, func(b []byte) (int, bool) {
		var v any
		_, err := jc.Parse(b, &v, jc.UseNumber|jc.ZeroCopy)
		return 0, err == nil
	})
	raw := func(name string, flags jc.AppendFlags, clrs *jc.Colors, ind bool, lenient bool) {
		add("Append of RawMessage "+name, lenient, func(b []byte) (int, bool) {
			var in *jc.Indenter
			if ind {
				in = jc.NewIndenter("", " ")
			}
			r, err := jc.Append(nil, jc.RawMessage(b), flags, clrs, in)
			return len(r), err == nil
		})
	}
	raw("plain", 0, nil, false, false)
	raw("indented, escaped", jc.EscapeHTML, nil, true, false)
	raw("trusted, colored", jc.TrustRawMessage, jc.DefaultColors(), false, true)
	add("Decoder", false, func(b []byte) (int, bool) {
		d := jc.NewDecoder(bytes.NewReader(b))
		n := 0
		for {
			var v any
			if err := d.Decode(&v); err != nil {
				return 0, err == io.EOF && n > 0
			}
			n++
		}
	})
	return
}

// viable tells whether a reader gets past half of the text.
func viable(text []byte) bool {
	var v json.RawMessage
	d := json.NewDecoder(bytes.NewReader(text))
	for {
		switch err := d.Decode(&v).(type) {
		case nil:
		case *json.SyntaxError:
			return err.Offset > int64(len(text)/2)
		default:
			return true
		}
	}
}

func tokens(text []byte) (n int) {
	for t := jc.NewTokenizer(text); t.Next(); n++ {
	}
	return
}

func (c *C) costText(rd []costReader, what string, text func(n int) string, lo, hi int) {
	t16 := []byte(text(16))
	strict := viable(t16)
	lenient := strict || tokens(t16) >= 16
	if !lenient {
		return
	}
	c.Count("texts_judged", 1)
	tlo, thi := []byte(text(lo)), []byte(text(hi))
	for _, r := range rd {
		if strict || r.lenient {
			op := func(b []byte) costOp {
				return func() int { n, _ := r.run(b); return n + len(b) }
			}
			_, ok := r.run(tlo)
			c.costJudge("reading", r.name+" of "+what, op(tlo), op(thi), ok)
		}
	}
}

func runC33(c *C) {
	rd := costReaders()
	syms := []string{"[", "]", "{", "}", ",", ":", `"a"`, `"\u00e9\n"`, "1", "-1.5e3", "null", " ", `"i"`}
	type wrap struct{ p, q string }
	wraps := []wrap{{"", ""}, {"[", "]"}, {`{"a":`, "}"}, {`{"i":`, "}"}, {"[1", "]"}, {`{"i":1`, "}"}}
	mids := []string{"", "1", "x"}
	lo, hi := 64, 512
	if c.thorough {
		lo, hi = 128, 1024
	}
	var tails []string
	tails = append(tails, "")
	for n := 1; n <= 2; n++ {
		seqs(len(syms), n, func(s []int) { tails = append(tails, joinSyms(syms, s)) })
	}
	few := []string{"", "]", "}", "]}", "}]"}
	if c.thorough {
		few = append(few, ",]", ",}", ":1}", "]]", "}}")
	}
	words := 0
	for n := 1; n <= 3; n++ {
		seqs(len(syms), n, func(s []int) {
			u := joinSyms(syms, s)
			if n == 2 && s[0] == s[1] || n == 3 && s[0] == s[1] && s[1] == s[2] {
				return
			}
			words++
			tails, mids, wraps := tails, mids, wraps
			if n > 1 {
				tails = few
			}
			if n == 3 && !c.thorough {
				tails, mids, wraps = tails[:3], mids[:2], wraps[:2]
			}
			c.Case(func() string { return fmt.Sprintf("texts that repeat %q", u) }, func() {
				for _, w := range wraps {
					for _, m := range mids {
						if w.p == "" && m == "" {
							continue // the same with any tail
						}
						for _, s := range tails {
							what := fmt.Sprintf("%s(%s)ⁿ%s(%s)ⁿ%s", w.p, u, m, s, w.q)
							c.State(1)
							c.costText(rd, what, func(n int) string {
								return w.p + rep(u, n) + m + rep(s, n) + w.q
							}, lo, hi)
						}
					}
				}
			})
		})
	}
	c.Bound("%d words of at most 3 of %d symbols × %d tails (%d for words of more than one symbol) × %d middles × %d surroundings (fewer for three symbols in the quick tier), repeated %d and %d times, through %d readers", words, len(syms), len(tails), len(few), len(mids), len(wraps), lo, hi, len(rd))

	// contents of strings
	chars := []string{"a", `\n`, `\u0041`, "é", `\ud83d`, `\ude00`, "<", "\xff", "\u2028", `\\`, `\"`, "\x7f", " "}
	cwraps := []wrap{{`"`, `"`}, {`["`, `"]`}, {`{"`, `":1}`}, {`{"s":"`, `"}`}, {`"`, ""}, {`{"r":"`, `"}`}}
	unq := append(rd[:len(rd):len(rd)], costReader{"Unquote", false, func(b []byte) (int, bool) {
		defer func() { recover() }()
		return len(jc.RawValue(b).Unquote()), true
	}})
	for n := 1; n <= c.Pick(2, 3); n++ {
		seqs(len(chars), n, func(s []int) {
			u := joinSyms(chars, s)
			c.Case(func() string { return fmt.Sprintf("strings that repeat %q", u) }, func() {
				for _, w := range cwraps {
					c.State(1)
					c.costText(unq, fmt.Sprintf("%s(%s)ⁿ%s", w.p, u, w.q), func(n int) string { return w.p + rep(u, n) + w.q }, lo, hi)
				}
				// encoding: the string itself, as value and key
				for i, mk := range []func(s string) any{
					func(s string) any { return s },
					func(s string) any { return map[string]any{s: s} },
					func(s string) any { return map[string]int{s: 1} },
					func(s string) any {
						return struct {
							A string `json:",string"`
						}{s}
					},
					func(s string) any { return []scaleT{{s}} },
					func(s string) any { return []byte(s) },
				} {
					for _, cf := range costConfs() {
						op := func(n int) costOp {
							x := mk(rep(u, n))
							return func() int { return cf.enc(x) + n*len(u) }
						}
						c.State(1)
						c.costJudge("writing", fmt.Sprintf("encoding (%s) string %d of (%q)ⁿ", cf.name, i, u), op(lo*16), op(hi*16), true)
					}
				}
			})
		})
	}
	c.Bound("contents of strings: all words of at most %d of %d characters and escapes", c.Pick(2, 3), len(chars))

	// long lists, objects and strings: growth by a constant shows late
	far := c.Pick(16000, 60000)
	type longT struct {
		A int `json:"a"`
		B []byte
	}
	dsts := []any{new(any), new([]any), new([]int), new([]int8), new([][]int), new([][2]int), new([]map[string]int8), new([]longT), new([]*longT), new([]string), new([]*string), new([]jc.RawMessage), new(jc.RawMessage), new([]json.Number), new([][]byte), new([]time.Time), new([]UTStruct), new([]float64), new([]bool),
		new(map[string]any), new(map[string]int), new(map[string]jc.RawMessage), new(map[int]int), new(map[string]longT), new(map[string][]int), new(map[UTKey]int), new(string), new([]byte), new(longT)}
	long := func(name string, text func(n int) []byte) {
		c.Case(func() string { return "long " + name }, func() {
			t1, t2 := text(far/16), text(far)
			for _, d := range dsts {
				dt := reflect.TypeOf(d).Elem()
				if jc.Unmarshal(t1, reflect.New(dt).Interface()) != nil {
					continue
				}
				op := func(b []byte) costOp {
					return func() int { jc.Unmarshal(b, reflect.New(dt).Interface()); return len(b) }
				}
				c.State(1)
				c.costJudge("reading", fmt.Sprintf("Unmarshal into %v of %d %s", dt, far, name), op(t1), op(t2), true)
			}
			if t1[0] == '"' {
				for _, into := range []int{0, 7} {
					op := func(b []byte) costOp {
						return func() int { return len(jc.RawValue(b).AppendUnquote(make([]byte, into))) }
					}
					c.State(1)
					c.costJudge("reading", fmt.Sprintf("AppendUnquote of %d %s", far, name), op(t1), op(t2), true)
				}
			}
		})
	}
	for _, e := range []string{"1", "-1.5e1", "{}", "[]", "[1]", `"ab"`, `"\u00e9\n"`, "null", "true", `{"a":1}`, `{"A":1}`, `{"z":[{}]}`, `"2021-02-03T04:05:06Z"`, `"AQID"`} {
		long("elements "+e, func(n int) []byte { return []byte("[" + rep(e+",", n-1) + e + "]") })
		long("members with values "+e, func(n int) []byte {
			var b bytes.Buffer
			for i := 0; i < n; i++ {
				fmt.Fprintf(&b, `,"%d":%s`, i, e)
			}
			return []byte("{" + b.String()[1:] + "}")
		})
		long("equal members with values "+e, func(n int) []byte { return []byte("{" + rep(`"7":`+e+",", n-1) + `"7":` + e + "}") })
	}
	for _, u := range []string{"a", "AAAA", `\n`, `\u00e9`, "é", `\ud83d\ude00`, `\ud83d`, "\xff", "<", `a\\aaaaaaa`} {
		long("repetitions in a string of "+u, func(n int) []byte { return []byte(`"` + rep(u, n) + `"`) })
	}
	c.Bound("lists, objects and strings of %d and %d parts into %d types", far/16, far, len(dsts))

	// values
	sizes := map[byte][2]int{'s': {4096, 32768}, 'e': {512, 4096}, 'm': {512, 4096}, 'f': {32, 256}, 'd': {100, 800}}
	if c.thorough {
		sizes = map[byte][2]int{'s': {16384, 262144}, 'e': {1024, 16384}, 'm': {1024, 16384}, 'f': {64, 512}, 'd': {200, 3200}}
	}
	shapes := scaleShapes()
	for _, sh := range shapes {
		if strings.Contains(sh.name, "uint8") || strings.Contains(sh.name, "Marshaler") {
			continue
		}
		ns := sizes[sh.kind]
		c.Case(func() string { return fmt.Sprintf("values: %s of sizes %v", sh.name, ns) }, func() {
			x1, x2 := sh.mk(ns[0]), sh.mk(ns[1])
			if x1 == nil || x2 == nil {
				return
			}
			for _, cf := range costConfs() {
				cf.enc(x2)
				c.State(1)
				c.costJudge("writing", fmt.Sprintf("encoding (%s) %s of sizes %v", cf.name, sh.name, ns),
					func() int { return cf.enc(x1) + ns[0] }, func() int { return cf.enc(x2) + ns[1] }, true)
			}
			for i, mk := range []func(x any) any{
				func(x any) any { return reflect.New(reflect.TypeOf(x)).Interface() },
				func(any) any { return new(any) },
			} {
				op := func(x any) (costOp, error) {
					b, err := jc.Marshal(x)
					if err == nil {
						err = jc.Unmarshal(b, mk(x))
					}
					return func() int { jc.Unmarshal(b, mk(x)); return len(b) }, err
				}
				o1, e1 := op(x1)
				o2, e2 := op(x2)
				c.State(1)
				c.costJudge("reading", fmt.Sprintf("decoding (%d) %s of sizes %v", i, sh.name, ns), o1, o2, e1 == nil && e2 == nil)
			}
		})
	}
	c.Bound("%d shapes of values at two sizes in the ratio 1:8 at least", len(shapes))
}

func joinSyms(syms []string, s []int) string {
	var b strings.Builder
	for _, i := range s {
		b.WriteString(syms[i])
	}
	return b.String()
}

type costConf struct {
	name string
	enc  func(x any) int
}

func costConfs() []costConf {
	app := func(name string, flags jc.AppendFlags, clrs *jc.Colors, ind bool) costConf {
		return costConf{name, func(x any) int {
			var in *jc.Indenter
			if ind {
				in = jc.NewIndenter("", " ")
			}
			b, _ := jc.Append(nil, x, flags, clrs, in)
			return len(b)
		}}
	}
	return []costConf{
		app("sorted, escaped", jc.EscapeHTML|jc.SortMapKeys, nil, false),
		app("indented", jc.SortMapKeys, nil, true),
		app("colored, unsorted", jc.EscapeHTML, jc.DefaultColors(), false),
		app("colored, indented, trusted", jc.SortMapKeys|jc.TrustRawMessage, jc.DefaultColors(), true),
		{"Encoder", func(x any) int {
			n := 0
			e := jc.NewEncoder(costWriter(func(b []byte) (int, error) { n += len(b); return len(b), nil }))
			e.Encode(x)
			return n
		}},
		{"MarshalIndent", func(x any) int { b, _ := jc.MarshalIndent(x, "", " "); return len(b) }},
	}
}

type costWriter func(b []byte) (int, error)

func (f costWriter) Write(b []byte) (int, error) { return f(b) }
