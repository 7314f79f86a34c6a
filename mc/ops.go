package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math"
	"reflect"
	"strings"

	jc "github.com/neilotoole/jsoncolor"
)

// ---------------------------------------------------------------------------
// C07: operation sequences

type panicker struct{ n int }

func (p panicker) MarshalJSON() ([]byte, error) { panic(errBoom) }

// reenter encodes with the package from inside a marshaler.
type reenter struct{ N int }

func (r reenter) MarshalJSON() ([]byte, error) {
	var b bytes.Buffer
	e := jc.NewEncoder(&b)
	e.SetIndent("#", "#")
	_ = e.Encode(map[string]any{"zz": make(chan int)})
	m, err := jc.Marshal(map[string]any{"q": []int{r.N}, "b": map[string]int{"y": 1, "x": 2}})
	if err != nil {
		return nil, err
	}
	return m, nil
}

type retext struct{ N int }

func (r retext) MarshalText() ([]byte, error) {
	m, err := jc.Marshal(map[string]int{"q": r.N, "p": 1})
	return m, err
}

type opVal struct {
	name string
	x    any
	mode int // 0 succeeds, 1 fails, 2 panics
}

func opVals() []opVal {
	big := map[string]any{}
	for i := 0; i < 12; i++ {
		big[fmt.Sprintf("k%02d", 11-i)] = i
	}
	long := []string{}
	for i := 0; i < 90; i++ {
		long = append(long, strings.Repeat("<é>", 15))
	}
	return []opVal{
		{"nested", map[string]any{"b": []any{1, nil, map[string]any{"<": "&", "a": true}}, "a": []int{}}, 0},
		{"fails deep", map[string]any{"z": []any{map[string]any{"f": func() {}, "a": 1}}, "a": []any{[]int{1}}}, 1},
		{"panics deep", map[string]any{"z": []any{map[string]any{"f": panicker{1}, "a": 1}}, "a": []any{[]int{1}}}, 2},
		{"struct", &struct {
			A any `json:",omitempty"`
			B []any
			R json.RawMessage
			M reenter
		}{nil, []any{1.5, []byte("xyz"), mustTime("2020-01-02T03:04:05Z")}, json.RawMessage(`{"r":[1,{"s":null}]}`), reenter{4}}, 0},
		{"bad raw", map[string]any{"a": []json.RawMessage{json.RawMessage(`{"x":[1,{"y":`)}, "b": 1}, 1},
		{"maps", map[string]any{"m": map[int]any{3: 1, 2: 2, 1: map[string]json.RawMessage{"r": json.RawMessage("1"), "a": json.RawMessage(`"<"`)}}, "big": big, "t": map[retext]int{{2}: 1, {1}: 2}}, 0},
		{"long", long, 0},
		{"NaN in map", map[string]map[string]float64{"b": {"x": 1, "n": math.NaN()}, "a": {"y": 2}}, 1},
		{"marshaler error", []any{[]any{StructVM{13}}, 1}, 1},
		{"text key panics", map[string]any{"a": map[keyPanics]int{{1}: 1, {2}: 2}}, 2},
	}
}

type keyPanics struct{ N int }

func (k keyPanics) MarshalText() ([]byte, error) {
	if k.N == 2 {
		panic(errBoom)
	}
	return []byte("k"), nil
}

// settings of an encoder, the model state
type encModel struct {
	html, sort, trust bool
	indent, colors    int
}

var opIndents = [][2]string{{"", ""}, {"", "  "}, {">", "\t"}}

func (m encModel) conf(cs []*jc.Colors) encConf {
	return encConf{html: m.html, unsorted: !m.sort, trust: m.trust, prefix: opIndents[m.indent][0], indent: opIndents[m.indent][1], colors: cs[m.colors]}
}

type opsWorld struct {
	enc    [2]*jc.Encoder
	buf    [2]*bytes.Buffer
	model  [2]encModel
	ind    *jc.Indenter
	kept   []keptBytes
	cs     []*jc.Colors
	pals   []palette
	vals   []opVal
	wants  map[string]string
	fails  func(format string, a ...any)
	checks int
}

type keptBytes struct {
	b    []byte
	want string
	what string
}

// want is the expected output of value v in model state m, independent of any
// history: from encoding/json.
func (w *opsWorld) want(m encModel, v int) string {
	key := fmt.Sprint(m, v)
	if s, ok := w.wants[key]; ok {
		return s
	}
	m.sort = true
	b, err := refOutPrefix(w.vals[v].x, m.conf(w.cs), w.pals[m.colors])
	if err != nil {
		panic(err)
	}
	w.wants[key] = string(b)
	return string(b)
}

// refOutPrefix is refOut for prefixes that are not white space: they are put in
// after the tokens have been decorated.
func refOutPrefix(x any, k encConf, pal palette) ([]byte, error) {
	p := k.prefix
	if p == "" || k.indent == "" {
		return refOut(x, k, pal)
	}
	k.prefix = ""
	b, err := refOut(x, k, pal)
	if err != nil {
		return nil, err
	}
	return bytes.ReplaceAll(b, []byte("\n"), []byte("\n"+p)), nil
}

func newOpsWorld(fails func(string, ...any), wants map[string]string, vals []opVal, pals []palette) *opsWorld {
	w := &opsWorld{fails: fails, wants: wants, vals: vals, pals: pals}
	for i := range w.enc {
		w.buf[i] = &bytes.Buffer{}
		w.enc[i] = jc.NewEncoder(w.buf[i])
		w.model[i] = encModel{html: true, sort: true}
	}
	w.cs = []*jc.Colors{nil, pals[1].colors(), pals[2].colors()}
	w.ind = jc.NewIndenter("", "  ")
	return w
}

// compare checks one result against the model.
func (w *opsWorld) compare(what string, m encModel, v int, out []byte, err error, pan any, nl string) {
	w.checks++
	val := w.vals[v]
	if (pan != nil) != (val.mode == 2) {
		w.fails("%s of %s: panic %v", what, val.name, pan)
		return
	}
	if pan != nil {
		return
	}
	if (err != nil) != (val.mode == 1) && !(m.trust && val.mode == 1) {
		w.fails("%s of %s: error %v", what, val.name, err)
		return
	}
	if val.mode == 1 {
		return
	}
	want := w.want(m, v) + nl
	if string(out) == want {
		return
	}
	if !m.sort {
		a, b := stripper(out), stripper([]byte(want))
		var ca, cb bytes.Buffer
		p := opIndents[m.indent][0]
		if p != "" {
			a = bytes.ReplaceAll(a, []byte("\n"+p), []byte("\n"))
			b = bytes.ReplaceAll(b, []byte("\n"+p), []byte("\n"))
		}
		if len(out) == len(want) && json.Compact(&ca, a) == nil && json.Compact(&cb, b) == nil && canonDoc(ca.Bytes()) == canonDoc(cb.Bytes()) {
			return
		}
	}
	w.fails("%s of %s with %+v:\n got  %q\n want %q", what, val.name, m, clip(string(out), 1200), clip(want, 1200))
}

func (w *opsWorld) encode(i, v int) {
	w.buf[i].Reset()
	var err error
	pan := catch(func() { err = w.enc[i].Encode(w.vals[v].x) })
	if (pan != nil || err != nil) && w.buf[i].Len() > 0 {
		w.fails("Encode of %s failed but wrote %q", w.vals[v].name, w.buf[i].Bytes())
	}
	w.compare(fmt.Sprintf("encoder %d", i), w.model[i], v, w.buf[i].Bytes(), err, pan, "\n")
}

type op struct {
	name string
	run  func(w *opsWorld)
}

func allOps(vals []opVal) (ops []op) {
	for i := 0; i < 2; i++ {
		for v := range vals {
			if i == 1 && v > 2 {
				continue
			}
			ops = append(ops, op{fmt.Sprintf("e%d.Encode(%s)", i, vals[v].name), func(w *opsWorld) { w.encode(i, v) }})
		}
		for k := range opIndents {
			if i == 1 && k != 1 {
				continue
			}
			ops = append(ops, op{fmt.Sprintf("e%d.SetIndent(%q)", i, opIndents[k]), func(w *opsWorld) {
				w.enc[i].SetIndent(opIndents[k][0], opIndents[k][1])
				w.model[i].indent = k
			}})
		}
		for k := 0; k < 3; k++ {
			if i == 1 && k != 1 {
				continue
			}
			ops = append(ops, op{fmt.Sprintf("e%d.SetColors(%d)", i, k), func(w *opsWorld) {
				w.enc[i].SetColors(w.cs[k])
				w.model[i].colors = k
			}})
		}
		if i == 0 {
			for _, on := range []bool{false, true} {
				ops = append(ops, op{fmt.Sprintf("e0.SetEscapeHTML(%v)", on), func(w *opsWorld) {
					w.model[i].html = on
					w.enc[i].SetEscapeHTML(on)
				}}, op{fmt.Sprintf("e0.SetSortMapKeys(%v)", on), func(w *opsWorld) {
					w.model[i].sort = on
					w.enc[i].SetSortMapKeys(on)
				}}, op{fmt.Sprintf("e0.SetTrustRawMessage(%v)", on), func(w *opsWorld) {
					w.model[i].trust = on
					w.enc[i].SetTrustRawMessage(on)
				}})
			}
		}
	}
	keep := func(w *opsWorld, b []byte, what string) {
		if b != nil {
			w.kept = append(w.kept, keptBytes{b, string(b), what})
		}
	}
	base := encModel{html: true, sort: true}
	for v := range vals {
		if v == 6 || v == 4 {
			continue
		}
		ops = append(ops, op{"Marshal(" + vals[v].name + ")", func(w *opsWorld) {
			var b []byte
			var err error
			pan := catch(func() { b, err = jc.Marshal(w.vals[v].x) })
			w.compare("Marshal", base, v, b, err, pan, "")
			keep(w, b, "Marshal")
		}})
	}
	for v := 0; v < 4; v++ {
		ops = append(ops, op{"Append(shared indenter, " + vals[v].name + ")", func(w *opsWorld) {
			var b []byte
			var err error
			pan := catch(func() {
				b, err = jc.Append(make([]byte, 0, 300), w.vals[v].x, jc.EscapeHTML|jc.SortMapKeys, w.cs[1], w.ind)
			})
			m := base
			m.indent, m.colors = 1, 1
			w.compare("Append", m, v, b, err, pan, "")
			keep(w, b, "Append")
		}})
	}
	ops = append(ops, op{"MarshalIndent", func(w *opsWorld) {
		b, err := jc.MarshalIndent(w.vals[0].x, ">", "\t")
		m := base
		m.indent = 2
		w.compare("MarshalIndent", m, 0, b, err, nil, "")
		keep(w, b, "MarshalIndent")
	}}, op{"Unmarshal", func(w *opsWorld) {
		var x any
		if err := jc.Unmarshal([]byte(`{"b":[1,{"a":"\u00e9"}],"a":null}`), &x); err != nil {
			w.fails("Unmarshal: %v", err)
		}
		jc.Unmarshal([]byte(`{"b":[1,{"a":"\u00e9"}],"a":nul`), &x)
	}})
	return ops
}

func init() {
	register(&check{id: "C07", rule: "all sequences of encoder operations (settings, encodes that succeed, fail or panic, re-entrant marshalers, Marshal, Append with a shared Indenter) over two encoders up to a depth; every result is compared with encoding/json's for the model state of the settings, every slice returned earlier is re-checked", run: runC07})
	register(&check{id: "C08", rule: "all scripts of writer results x all sequences of encodes and setting changes, against a state machine of the encoder", run: runC08})
	register(&check{id: "C09", rule: "values x configurations x prefix lengths x every spare capacity up to the encoded length x spare contents, with guard bytes after the capacity", run: runC09})
}

func runC07(c *C) {
	vals := opVals()
	ops := allOps(vals)
	full := fullPalette()
	var other palette
	for i := range other {
		if i%3 != 0 {
			other[i] = fmt.Sprintf("\x1b[1;%dm", 30+i)
		}
	}
	pals := []palette{{}, full, other}
	wants := map[string]string{}
	run := func(s []int) {
		name := func() string {
			n := ""
			for _, o := range s {
				n += ops[o].name + "; "
			}
			return n
		}
		failed := false
		w := newOpsWorld(func(f string, a ...any) {
			if !failed {
				failed = true
				c.Fail("history "+clip(name(), 300), "after [%s]: %s", name(), fmt.Sprintf(f, a...))
			}
		}, wants, vals, pals)
		for _, o := range s {
			ops[o].run(w)
			if failed {
				return
			}
		}
		for _, k := range w.kept {
			if string(k.b) != k.want {
				w.fails("slice returned by %s changed from %q to %q", k.what, clip(k.want, 500), clip(string(k.b), 500))
			}
		}
		for i, p := range pals[1:] {
			if !p.intact(w.cs[i+1]) {
				w.fails("Colors %d modified", i+1)
			}
		}
		c.State(1)
		c.Trans(len(s))
		c.Valid(w.checks)
	}
	depth := c.Pick(3, 4)
	for d := 1; d <= depth; d++ {
		pre := 2
		if d < 2 {
			pre = d
		}
		seqs(len(ops), pre, func(s []int) {
			head := append([]int{}, s...)
			c.Case(func() string {
				return fmt.Sprintf("sequences of %d operations starting with %s, ...", d, ops[head[0]].name)
			}, func() {
				seqs(len(ops), d-pre, func(t []int) { run(append(append([]int{}, head...), t...)) })
			})
		})
	}
	// deeper over the operations that disturb, then one encode of everything
	var core []int
	for i, o := range ops {
		for _, n := range []string{"e0.Encode(nested)", "e0.Encode(fails deep)", "e0.Encode(panics deep)", "e0.Encode(maps)", "e1.Encode(nested)", "e0.SetIndent([\"\" \"\"])", "e0.SetIndent([\"\" \"  \"])", "e0.SetColors(0)", "e0.SetColors(1)", "e0.SetSortMapKeys(false)", "e0.SetEscapeHTML(false)", "e0.SetEscapeHTML(true)", "Append(shared indenter, nested)", "Append(shared indenter, panics deep)", "Append(shared indenter, fails deep)", "Marshal(struct)", "e0.Encode(text key panics)"} {
			if o.name == n {
				core = append(core, i)
			}
		}
	}
	deep := c.Pick(5, 6)
	for d := depth + 1; d <= deep; d++ {
		seqs(len(core), 2, func(s []int) {
			head := []int{core[s[0]], core[s[1]]}
			c.Case(func() string {
				return fmt.Sprintf("core sequences of %d operations starting with %s, %s", d, ops[head[0]].name, ops[head[1]].name)
			}, func() {
				seqs(len(core), d-2, func(t []int) {
					q := append([]int{}, head...)
					for _, x := range t {
						q = append(q, core[x])
					}
					run(q)
				})
			})
		})
	}
	c.Bound("all sequences of up to %d of %d operations; of up to %d of %d core operations", depth, len(ops), deep, len(core))
	// settings only: all sequences of setter calls, repeated and redundant ones
	// included, with an encode after each or only at the end
	var setters []int
	enc0 := -1
	for i, o := range ops {
		if strings.HasPrefix(o.name, "e0.Set") {
			setters = append(setters, i)
		}
		if o.name == "e0.Encode(nested)" {
			enc0 = i
		}
	}
	sdepth := c.Pick(4, 6)
	for d := 1; d <= sdepth; d++ {
		pre := min(d, 2)
		seqs(len(setters), pre, func(s []int) {
			head := append([]int{}, s...)
			c.Case(func() string {
				return fmt.Sprintf("%d setter calls starting with %s", d, ops[setters[head[0]]].name)
			}, func() {
				seqs(len(setters), d-pre, func(t []int) {
					var each, last []int
					for _, x := range append(append([]int{}, head...), t...) {
						each = append(each, setters[x], enc0)
						last = append(last, setters[x])
					}
					run(append(last, enc0))
					if d < sdepth || c.thorough {
						run(each)
					}
				})
			})
		})
	}
	c.Bound("all sequences of up to %d of %d setter calls", sdepth, len(setters))
	runC07dirty(c, pals)
	runC07sizes(c, pals)
}

// runC07dirty: values that fail or panic at every place of every kind of map,
// followed by values of every kind, through every entry point.
func runC07dirty(c *C, pals []palette) {
	bad := func(k int) any {
		return []any{make(chan int), panicker{1}, StructVM{13}, json.RawMessage("{x"), math.NaN()}[k]
	}
	type dv struct {
		name string
		x    any
	}
	var dirty []dv
	for k := 0; k < 5; k++ {
		for at := 0; at < 4; at++ {
			n := 4
			dirty = append(dirty, dv{fmt.Sprintf("map[string]any bad %d at %d", k, at), mapOfN(n, func(i int) string { return fmt.Sprint("q", i) }, func(i int) any {
				if i == at {
					return bad(k)
				}
				return []any{i}
			})}, dv{fmt.Sprintf("map[int]any bad %d at %d", k, at), mapOfN(n, func(i int) int { return i + 7 }, func(i int) any {
				if i == at {
					return map[string]any{"in": bad(k), "a": 1}
				}
				return i
			})})
			if k == 0 {
				dirty = append(dirty, dv{fmt.Sprintf("map[string]Raw bad at %d", at), mapOfN(n, func(i int) string { return fmt.Sprint("q", i) }, func(i int) json.RawMessage {
					if i == at {
						return json.RawMessage("{x")
					}
					return json.RawMessage("[1]")
				})}, dv{fmt.Sprintf("map[string]float64 bad at %d", at), mapOfN(n, func(i int) string { return fmt.Sprint("q", i) }, func(i int) float64 {
					if i == at {
						return math.Inf(1)
					}
					return 1
				})}, dv{fmt.Sprintf("map[keyPanics] at %d", at), mapOfN(n, func(i int) keyPanics { return keyPanics{i - at + 2} }, func(i int) int { return i })},
					dv{fmt.Sprintf("map[string][]Raw bad at %d", at), mapOfN(n, func(i int) string { return fmt.Sprint("q", i) }, func(i int) []json.RawMessage {
						if i == at {
							return []json.RawMessage{json.RawMessage("1"), json.RawMessage("nul")}
						}
						return nil
					})}, dv{fmt.Sprintf("slice bad at %d", at), sliceN(n, func(i int) any {
						if i == at {
							return map[string]json.RawMessage{"r": json.RawMessage("1"), "s": json.RawMessage("]")}
						}
						return map[string]any{"w": i}
					})})
			}
		}
	}
	mk := func(i int) string { return fmt.Sprint("k", (i*5)%13) }
	next := []opVal{
		{"any map", mapOfN(3, mk, func(i int) any { return i }), 0},
		{"raw map", mapOfN(3, mk, func(i int) json.RawMessage { return json.RawMessage(`{"b":1,"a":[2]}`) }), 0},
		{"string map", mapOfN(3, mk, func(i int) string { return mk(i) }), 0},
		{"int map", mapOfN(6, func(i int) int { return i * 5 % 13 }, func(i int) any { return map[int]int{i: 1, 12 - i: 2} }), 0},
		{"nested maps", mapOfN(5, mk, func(i int) any {
			return mapOfN(i, mk, func(j int) any {
				return map[string]json.RawMessage{"y": json.RawMessage("1"), "x": json.RawMessage("2")}
			})
		}), 0},
		{"text keys", mapOfN(5, func(i int) TextOut { return TextOut{mk(i)} }, func(i int) []int { return []int{i} }), 0},
		{"empty maps", []any{map[string]any{}, map[string]json.RawMessage{}, map[int]int{}, map[TextOut]any{}, nil}, 0},
		{"no map", []any{scaleI{[]int{1}, 2}, []byte("abc"), mustTime("2021-02-03T04:05:06Z")}, 0},
	}
	all := append([]opVal{}, next...)
	for _, d := range dirty {
		all = append(all, opVal{d.name, d.x, 3})
	}
	wants := map[string]string{}
	for di := range dirty {
		di := di + len(next)
		c.Case(func() string { return "after " + all[di].name }, func() {
			for _, m := range []encModel{{html: true, sort: true}, {html: true}, {sort: true, indent: 1, colors: 1}, {indent: 2, colors: 2}, {html: true, sort: true, trust: true, indent: 2}} {
				for _, again := range []int{0, 1, 2} { // failures before, and between the values
					for ni := range next {
						for nj := range next {
							hist := ""
							w := newOpsWorld(func(f string, a ...any) {
								c.Fail("dirty "+all[di].name+" "+next[ni].name, "after failing on %s (%s) with %+v: %s", all[di].name, hist, m, fmt.Sprintf(f, a...))
							}, wants, all, pals)
							e := m.conf(w.cs).encoder(w.buf[0])
							w.enc[0], w.model[0] = e, m
							fail := func() {
								hist += "fail; "
								w.buf[0].Reset()
								err := error(nil)
								pan := catch(func() { err = e.Encode(all[di].x) })
								if w.buf[0].Len() != 0 && (pan != nil || err != nil) {
									w.fails("a failed encode wrote %q", w.buf[0].Bytes())
								}
								catch(func() { _, _ = jc.Marshal(all[di].x) })
							}
							fail()
							if again > 0 {
								fail()
							}
							hist += next[ni].name + "; "
							w.encode(0, ni)
							if again == 2 {
								fail()
							}
							hist += next[nj].name + "; "
							w.encode(0, nj)
							if m.sort && !m.trust {
								var b []byte
								var err error
								pan := catch(func() { b, err = jc.Marshal(next[nj].x) })
								w.compare("Marshal", encModel{html: true, sort: true}, nj, b, err, pan, "")
							}
							c.State(1)
							c.Trans(5)
							c.Valid(w.checks)
						}
					}
				}
			}
		})
	}
	c.Bound("%d values that fail or panic at every place of every kind of map or list x all pairs of %d following values x 5 settings", len(dirty), len(next))
}

// runC07sizes: all sequences of calls with results of sizes around the steps in
// which buffers grow and are kept or dropped; earlier results must stay.
func runC07sizes(c *C, pals []palette) {
	sizes := []int{10, 1000, 4096, 33000, 65536, 70000, 140000}
	if c.thorough {
		sizes = append(sizes, 511, 16384, 32767, 65530, 262144, 1<<20+5)
	}
	var vals []opVal
	for _, n := range sizes {
		vals = append(vals, opVal{fmt.Sprintf("string of %d", n), []any{rep(string(rune('a'+len(vals))), n)}, 0})
	}
	nk := 4
	one := func(w *opsWorld, kind, v int, keep bool) {
		switch kind {
		case 0:
			var b []byte
			var err error
			pan := catch(func() { b, err = jc.Marshal(w.vals[v].x) })
			w.compare("Marshal", encModel{html: true, sort: true}, v, b, err, pan, "")
			if keep {
				w.kept = append(w.kept, keptBytes{b, string(b), "Marshal of " + w.vals[v].name})
			}
		case 1:
			w.encode(0, v)
		case 2:
			b, err := jc.Append(nil, w.vals[v].x, jc.SortMapKeys, nil, nil)
			w.compare("Append", encModel{sort: true}, v, b, err, nil, "")
			if keep {
				w.kept = append(w.kept, keptBytes{b, string(b), "Append of " + w.vals[v].name})
			}
		case 3:
			b, err := jc.MarshalIndent(w.vals[v].x, "", "  ")
			w.compare("MarshalIndent", encModel{html: true, sort: true, indent: 1}, v, b, err, nil, "")
			if keep {
				w.kept = append(w.kept, keptBytes{b, string(b), "MarshalIndent of " + w.vals[v].name})
			}
		}
	}
	wants := map[string]string{}
	n := len(vals) * nk
	for a := 0; a < n; a++ {
		for b := 0; b < n; b++ {
			c.Case(func() string { return fmt.Sprintf("results of sizes: operations %d, %d, ...", a, b) }, func() {
				for d := 0; d < n; d++ {
					w := newOpsWorld(func(f string, x ...any) {
						c.Fail(fmt.Sprintf("sizes %d %d %d", a, b, d), "sizes %d (operation %d), %d (%d), %d (%d): %s", sizes[a/nk], a%nk, sizes[b/nk], b%nk, sizes[d/nk], d%nk, fmt.Sprintf(f, x...))
					}, wants, vals, pals)
					one(w, a%nk, a/nk, true)
					one(w, b%nk, b/nk, true)
					one(w, d%nk, d/nk, true)
					for _, k := range w.kept {
						if string(k.b) != k.want {
							w.fails("slice returned by %s changed to %q", k.what, clip(string(k.b), 200))
						}
					}
					c.State(1)
					c.Trans(3)
					c.Valid(w.checks)
				}
			})
		}
	}
	c.Bound("all sequences of 3 calls out of Marshal, Encode, Append and MarshalIndent with results of %v bytes", sizes)
}

// ---------------------------------------------------------------------------
// C08

type scriptWriter struct {
	script []int // 0 ok, 1 error at once, 2 partial with error, 3 all written but error, 4 short write without error
	n      int
	wrote  []string
	errs   []error
	reent  bool
}

var writeErrs = []error{errors.New("write error 0"), io.ErrShortWrite, io.EOF, errors.New("write error 3"), errors.New("write error 4"), io.ErrClosedPipe, errors.New("write error 6")}

func (w *scriptWriter) Write(b []byte) (int, error) {
	if w.reent { // the writer uses the package itself
		_, _ = jc.Marshal(map[string]any{"overwrite": strings.Repeat("#", 64)})
		_ = jc.NewEncoder(io.Discard).Encode([]any{strings.Repeat("#", 600), map[string]int{"#": 1}})
	}
	w.wrote = append(w.wrote, string(b))
	k := 0
	if w.n < len(w.script) {
		k = w.script[w.n]
	}
	err := writeErrs[w.n%len(writeErrs)]
	w.n++
	switch k {
	case 1:
		return 0, err
	case 2:
		return len(b) / 2, err
	case 3:
		return len(b), err
	case 4:
		return len(b) / 2, nil
	}
	return len(b), nil
}

func runC08(c *C) {
	long := make([]string, 40)
	for i := range long {
		long[i] = strings.Repeat("<x>", 70)
	}
	vals := []opVal{
		{"small", 1, 0},
		{"nested", map[string]any{"a": []any{1, nil}, "b": "x"}, 0},
		{"long", long, 0},
		{"fails", []any{strings.Repeat("y", 50), func() {}}, 1},
		{"fails late", map[string]any{"a": long, "b": []any{[]any{make(chan int)}}}, 1},
		{"panics", []any{"x", []any{panicker{}}}, 2},
		{"marshaler error", []any{1, StructVM{13}}, 1},
	}
	type setting struct {
		name string
		f    func(e *jc.Encoder, m *encModel)
	}
	full := fullPalette()
	pals := []palette{{}, full}
	settings := []setting{
		{"SetColors", func(e *jc.Encoder, m *encModel) { e.SetColors(full.colors()); m.colors = 1 }},
		{"SetIndent", func(e *jc.Encoder, m *encModel) { e.SetIndent("", "  "); m.indent = 1 }},
		{"SetEscapeHTML(false)", func(e *jc.Encoder, m *encModel) { e.SetEscapeHTML(false); m.html = false }},
	}
	wants := map[string]string{}
	cs := []*jc.Colors{nil, full.colors()}
	want := func(m encModel, v int) string {
		k := fmt.Sprint(m, v)
		if s, ok := wants[k]; ok {
			return s
		}
		b, err := refOut(vals[v].x, m.conf(cs), pals[m.colors])
		if err != nil {
			panic(err)
		}
		wants[k] = string(b) + "\n"
		return wants[k]
	}
	nops := len(vals) + len(settings)
	run := func(script, ops []int, reent bool) {
		w := &scriptWriter{script: script, reent: reent}
		e := jc.NewEncoder(w)
		m := encModel{html: true, sort: true}
		var broken error
		c.State(1)
		for oi, o := range ops {
			c.Trans(1)
			if o >= len(vals) {
				settings[o-len(vals)].f(e, &m)
				continue
			}
			before := len(w.wrote)
			var err error
			pan := catch(func() { err = e.Encode(vals[o].x) })
			bad := func(f string, a ...any) {
				var names []string
				for _, p := range ops[:oi+1] {
					if p < len(vals) {
						names = append(names, "Encode("+vals[p].name+")")
					} else {
						names = append(names, settings[p-len(vals)].name)
					}
				}
				c.Fail(fmt.Sprintf("script %v ops %v", script, ops[:oi+1]), "writer script %v (reentrant %v), %v: %s", script, reent, names, fmt.Sprintf(f, a...))
			}
			if broken != nil {
				if pan != nil || !errors.Is(err, broken) {
					bad("encoder is broken by %v but Encode returned %v (panic %v)", broken, err, pan)
					return
				}
				if len(w.wrote) != before {
					bad("a broken encoder wrote %q", w.wrote[before:])
					return
				}
				continue
			}
			if vals[o].mode != 0 {
				if (pan != nil) != (vals[o].mode == 2) || (err == nil) != (vals[o].mode == 2) {
					bad("returned %v, panic %v", err, pan)
					return
				}
				if len(w.wrote) != before {
					bad("a failed encode wrote %q", w.wrote[before:])
					return
				}
				continue
			}
			if pan != nil {
				bad("panic %v", pan)
				return
			}
			if len(w.wrote) != before+1 || w.wrote[before] != want(m, o) {
				bad("wrote %q, want one write of %q", clip(fmt.Sprint(w.wrote[before:]), 600), clip(want(m, o), 600))
				return
			}
			k := 0
			if before < len(script) {
				k = script[before]
			}
			if k >= 1 && k <= 3 {
				broken = writeErrs[before%len(writeErrs)]
				if !errors.Is(err, broken) {
					bad("writer returned %v, Encode %v", broken, err)
					return
				}
			} else if k == 4 {
				// a writer that breaks its contract: reporting it is allowed
				if err != nil {
					broken = err
				}
			} else if err != nil {
				bad("Encode returned %v", err)
				return
			}
			c.Valid(1)
		}
	}
	ns, no := c.Pick(3, 4), c.Pick(4, 5)
	seqs(5, ns, func(s []int) {
		script := append([]int{}, s...)
		c.Case(func() string { return fmt.Sprintf("writer script %v, all sequences of %d operations", script, no) }, func() {
			seqs(nops, no, func(o []int) {
				run(script, o, false)
				run(script, o, true)
			})
		})
	})
	// outputs of every size: each in one write, with every result of the writer
	for _, n := range ladder(2, c.Pick(1<<20+1, 1<<22+1)) {
		if n < 100 && !c.thorough {
			continue
		}
		c.Case(func() string { return fmt.Sprintf("output of %d bytes and every writer script", n) }, func() {
			vals = append(vals[:7:7], opVal{fmt.Sprintf("%d bytes", n), []string{rep("z", n), "<"}, 0})
			nops = len(vals)
			sets := settings
			settings = nil
			defer func() { vals, settings = vals[:7], sets }()
			for k := range wants {
				if strings.HasSuffix(k, " 7") {
					delete(wants, k)
				}
			}
			seqs(5, 2, func(s []int) {
				for _, o := range [][]int{{7, 0, 7}, {0, 7, 1}, {7, 7, 7}, {3, 7, 5, 0}} {
					run(append([]int{}, s...), o, false)
					run(append([]int{}, s...), o, true)
				}
			})
		})
	}
	c.Bound("outputs of up to %d bytes at every rung of sizes", c.Pick(1<<20+1, 1<<22+1))
	c.Bound("all 5^%d writer scripts x all %d^%d operation sequences, with plain and re-entrant writers", ns, nops, no)
}

// ---------------------------------------------------------------------------
// C09

func runC09(c *C) {
	full := fullPalette()
	confs := []encConf{{html: true}, {}, {html: true, indent: "  "}, {html: true, prefix: "p", indent: "\t", colors: full.colors()}, {html: true, colors: full.colors()}, {trust: true, html: true, unsorted: true}}
	fills := []byte{0xff, '"', ' ', '}', '7', 0}
	pres := []string{"", "[", "abcdefgh", `{"a":`, "\xff\n  1,"}
	var longPres []int // lengths of further contents before, if not nil
	var oddPres []string
	one := func(key string, x any, ks []encConf, dense bool) {
		pres := pres
		if longPres != nil {
			pres = nil
			for _, n := range longPres {
				pres = append(pres, rep("p,[", n/3+1)[:n])
			}
		}
		if oddPres != nil {
			pres = oddPres
		}
		before := fmt.Sprintf("%#v", x)
		stdBefore, _, _ := stdEncode(x, true)
		for _, k := range ks {
			ref, rerr, rpan := k.append(nil, x)
			if rpan != nil {
				continue
			}
			if k.unsorted {
				if rs, _, _ := (encConf{html: k.html, trust: k.trust}).append(nil, x); len(rs) == 0 || bytes.Count(rs, []byte(":")) > 1 {
					continue // order is free
				}
			}
			n := len(ref)
			if rerr != nil {
				n = 64
			}
			var spares []int
			for s := 0; s <= n+3 && (s <= 70 || dense && s <= 600); s++ {
				spares = append(spares, s)
			}
			for _, s := range []int{n - 1, n, n + 1, n + 9, 2*n + 64, 127, 128, 255, 256, 511, 512, 1023, 1024, 4095, 4096} {
				if s > 70 && s <= 2*n+64 {
					spares = append(spares, s)
				}
			}
			if longPres != nil {
				spares = nil
				for _, s := range append(ladder(3, 2*n+64), n-3, n-2, n-1, n, n+1, n+2, n+3, n/2) {
					if s >= 0 && (len(spares) < 8 || n < 5000 || s >= n-1) {
						spares = append(spares, s)
					}
				}
			}
			if oddPres != nil {
				spares = []int{0, n, n + 40}
			}
			for pi, pre := range pres {
				for si, spare := range spares {
					fill := fills[(si+pi)%len(fills)]
					if !dense && pi > 1 && (si+pi)%3 != 0 {
						continue
					}
					c.State(1)
					c.Trans(1)
					arr := make([]byte, len(pre)+spare+8)
					for i := range arr {
						arr[i] = fill
					}
					copy(arr, pre)
					for i := len(pre) + spare; i < len(arr); i++ {
						arr[i] = 0xA5
					}
					b := arr[: len(pre) : len(pre)+spare]
					out, err, pan := k.append(b, x)
					if pan != nil || (err != nil) != (rerr != nil) {
						c.Fail("result "+key, "%v of %s into len %d cap %d: %v %v, into nil: %v", k, show(x), len(b), cap(b), err, pan, rerr)
						return
					}
					if string(arr[:len(pre)]) != pre {
						c.Fail("prefix "+key, "%v of %s into len %d cap %d: original contents became %q", k, show(x), len(b), cap(b), arr[:len(pre)])
						return
					}
					for _, g := range arr[len(pre)+spare:] {
						if g != 0xA5 {
							c.Fail("guard "+key, "%v of %s into len %d cap %d: wrote beyond the capacity", k, show(x), len(b), cap(b))
							return
						}
					}
					if err != nil {
						if !bytes.HasPrefix(out, []byte(pre)) {
							c.Fail("error prefix "+key, "%v of %s into len %d cap %d: failed and returned %q", k, show(x), len(b), cap(b), out)
							return
						}
						continue
					}
					c.Valid(1)
					if !bytes.HasPrefix(out, []byte(pre)) || !bytes.Equal(out[len(pre):], ref) {
						c.Fail("output "+key, "%v of %s into len %d cap %d filled with %q:\n got  %q\n want %q", k, show(x), len(b), cap(b), fill, out, pre+string(ref))
						return
					}
				}
			}
		}
		if after := fmt.Sprintf("%#v", x); after != before {
			c.Fail("modified "+key, "encoding modified %s to %s", clip(before, 300), clip(after, 300))
		}
		if stdAfter, _, _ := stdEncode(x, true); !bytes.Equal(stdBefore, stdAfter) {
			c.Fail("modified "+key, "encoding modified %s: was %q, is %q", show(x), stdBefore, stdAfter)
		}
	}
	c.universe(1, nil, func(d int) int { return c.Pick(5, 12) }, func(l leafT) {
		for i, v := range l.vals {
			one(typeKey(l, i), v.Interface(), confs, true)
		}
	})
	if c.thorough {
		c.universe(2, func(leaf int, ws []int) bool { return len(ws) == 2 }, func(d int) int { return 4 }, func(l leafT) {
			for i, v := range l.vals {
				one(typeKey(l, i), v.Interface(), confs[:4], false)
			}
		})
	}
	// byte slices and strings of every length: their encoders size the buffer ahead
	for _, kind := range []string{"bytes", "string", "escapes", "html", "named", "array", "ints", "rawstr", "text", "number"} {
		for blk := 0; blk < 10; blk++ {
			c.Case(func() string { return fmt.Sprintf("%s of lengths %d.. into every spare capacity", kind, blk*10) }, func() {
				for n := blk * 10; n < blk*10+10; n++ {
					s := strings.Repeat("abcdefghij", 10)[:n]
					var x any
					switch kind {
					case "bytes":
						x = []any{[]byte(s), 1}
					case "named":
						x = []ByteNo(s)
					case "string":
						x = map[string]string{s: s}
					case "escapes":
						x = strings.Repeat("\x01é\"", n/3)
					case "html":
						x = []string{strings.Repeat("<", n/4) + s}
					case "array":
						x = reflect.New(reflect.ArrayOf(n/8, reflect.TypeOf(uint8(0)))).Elem().Interface()
					case "ints":
						x = []int64{math.MinInt64, int64(n), math.MaxInt64}[:n%4%3+1]
					case "rawstr":
						x = json.RawMessage(`{"a": ["` + s + `"]}`)
					case "text":
						x = []any{TextOut{s}, mustTime("2021-02-03T04:05:06.789Z")}
					case "number":
						x = []json.Number{json.Number("1" + strings.Repeat("0", n)), "1"}
					}
					ks := confs[:1]
					if n < 24 {
						ks = confs[:5]
					}
					one(fmt.Sprintf("%s %d", kind, n), x, ks, true)
				}
			})
		}
	}
	// contents before that look like parts of what is written
	var ends []string
	for _, s := range []string{"e-0", "1e-07", "-1.5e-0", `"\\u003`, `"\\`, `"a`, "\xe2\x80", "\xf0\x9f", "null", "{", "[", ",", ":", ",\n  ", "\x1b[0m", "\x1b[", "rollback", "0", "-", "."} {
		ends = append(ends, s, s+s, "x"+s, s+" ")
	}
	nums := []any{}
	for _, f := range []float64{0, 1, -1, 1.5, 1e-6, 1e-7, -1e-7, 1e-9, 1e-10, -1e-10, 1.5e-12, 1e21, -1e21, 1e30, -1.5e-300, 5e-324, math.MaxFloat64} {
		nums = append(nums, f, float32(f), []float64{f, -f}, map[string]float32{"e-0": float32(f)})
	}
	for i := 0; i < len(nums); i += 4 {
		c.Case(func() string { return fmt.Sprintf("%v after parts of JSON", nums[i]) }, func() {
			oddPres = ends
			defer func() { oddPres = nil }()
			for j := i; j < i+4; j++ {
				if f, ok := nums[j].(float32); ok && math.IsInf(float64(f), 0) {
					continue
				}
				one(fmt.Sprintf("after parts %d", j), nums[j], []encConf{confs[0], confs[4]}, true)
			}
		})
	}
	c.universe(1, nil, func(d int) int { return c.Pick(4, 12) }, func(l leafT) {
		oddPres = ends
		defer func() { oddPres = nil }()
		for i, v := range l.vals {
			one(typeKey(l, i)+" after parts", v.Interface(), []encConf{confs[0], confs[3]}, true)
		}
	})
	c.Bound("%d contents before that are parts of JSON", len(ends))
	// long contents before, and large values
	mid := []any{1, "a<b", []byte("abcdef"), []byte(rep("x", 100)), map[string]any{"k": []any{nil, "v"}, "b": []byte("0123456789")}, struct {
		A int
		B []byte
	}{1, []byte("zz")}, json.RawMessage(`{"a":[1, 2]}`), mustTime("2021-02-03T04:05:06Z"), []string{rep("<", 40)}, map[string]json.RawMessage{"a": json.RawMessage("1")}, []float64{1.5, 1e30}, map[int]int{1: 2}, StructVM{1}, json.Number("12345678901234567890")}
	for _, n := range ladder(0, c.Pick(70000, 270000)) {
		if n < 12 {
			continue
		}
		for mi := range mid {
			c.Case(func() string { return fmt.Sprintf("%T after %d bytes", mid[mi], n) }, func() {
				longPres = []int{n}
				defer func() { longPres = nil }()
				one(fmt.Sprintf("%T after %d", mid[mi], n), mid[mi], confs[:5], true)
			})
		}
	}
	c.scales(scaleLimit{s: c.Pick(70000, 140000), e: c.Pick(300, 5000), m: c.Pick(130, 1100), f: c.Pick(20, 70), d: c.Pick(40, 300)}, func(l leafT) {
		longPres = []int{0, 5, 129, 4096, 5000}
		defer func() { longPres = nil }()
		one(l.name, l.vals[0].Interface(), []encConf{{html: true}, {indent: "  ", colors: full.colors()}}, true)
	})
	c.Bound("contents before of up to %d bytes at every rung of sizes, %d values", c.Pick(70000, 270000), len(mid))
	c.Bound("5 prefixes, every spare capacity 0..encoded length+3 (at most 600), %d configurations, 6 fill bytes", len(confs))
}
