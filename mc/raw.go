package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"reflect"
	"strings"
)

// refOut is the reference output of x under k (sorted): encoding/json for the
// document, encoding/json.Indent for the layout, decorate for the colors.
func refOut(x any, k encConf, pal palette) ([]byte, error) {
	doc, err, pan := stdEncode(x, k.html)
	if pan != nil {
		return nil, fmt.Errorf("panic: %v", pan)
	}
	if err != nil {
		return nil, err
	}
	doc = indented(doc, k.prefix, k.indent)
	if k.colors == nil {
		return doc, nil
	}
	ts, err := tokenize(doc)
	if err != nil {
		return nil, err
	}
	cls, ok := classify(reflect.ValueOf(x), doc, ts)
	if !ok {
		return nil, fmt.Errorf("not classified")
	}
	return decorate(doc, ts, cls, pal), nil
}

// ---------------------------------------------------------------------------
// C06

type RawPM struct{ S string }

func (r *RawPM) MarshalJSON() ([]byte, error) { return []byte(r.S), nil }

type RawKind string

func (r RawKind) MarshalJSON() ([]byte, error) { return []byte(r), nil }

type rawHolder struct {
	name   string
	mk     func(r json.RawMessage) any
	before string // compact text around the raw one
	after  string
}

func rawHolders() []rawHolder {
	type S struct {
		A int             `json:"a"`
		R json.RawMessage `json:"r"`
		Z []int           `json:"z"`
	}
	type O struct {
		A int             `json:"a"`
		R json.RawMessage `json:"r,omitempty"`
		Z []int           `json:"z"`
	}
	return []rawHolder{
		{"top", func(r json.RawMessage) any { return r }, "", ""},
		{"pointer", func(r json.RawMessage) any { return &r }, "", ""},
		{"slice", func(r json.RawMessage) any { return []any{1, r, map[string]int{"k": 2}} }, `[1,`, `,{"k":2}]`},
		{"typed slice", func(r json.RawMessage) any {
			return []json.RawMessage{json.RawMessage("1"), r, json.RawMessage(`[2]`)}
		}, `[1,`, `,[2]]`},
		{"map[string]RawMessage", func(r json.RawMessage) any {
			return map[string]json.RawMessage{"c": json.RawMessage(`{"d":2}`), "b": r, "a": json.RawMessage("1")}
		}, `{"a":1,"b":`, `,"c":{"d":2}}`},
		{"map[string]any", func(r json.RawMessage) any {
			return map[string]any{"c": map[string]any{"d": 2}, "b": r, "a": 1}
		}, `{"a":1,"b":`, `,"c":{"d":2}}`},
		{"map[int]RawMessage", func(r json.RawMessage) any {
			return map[int]json.RawMessage{3: json.RawMessage("[]"), 2: r, 1: json.RawMessage("1")}
		}, `{"1":1,"2":`, `,"3":[]}`},
		{"struct", func(r json.RawMessage) any { return S{1, r, []int{2}} }, `{"a":1,"r":`, `,"z":[2]}`},
		{"struct pointer", func(r json.RawMessage) any { return &S{1, r, []int{2}} }, `{"a":1,"r":`, `,"z":[2]}`},
		{"omitempty", func(r json.RawMessage) any { return []O{{1, r, []int{2}}} }, `[{"a":1,"r":`, `,"z":[2]}]`},
		{"nested", func(r json.RawMessage) any {
			return map[string]any{"m": []any{[]json.RawMessage{r}, map[string]json.RawMessage{"n": json.RawMessage("0")}}}
		}, `{"m":[[`, `],{"n":0}]}`},
		{"marshaler top", func(r json.RawMessage) any { return RawOut{string(r)} }, "", ""},
		{"marshaler pointer", func(r json.RawMessage) any { return &RawPM{string(r)} }, "", ""},
		{"marshaler slice", func(r json.RawMessage) any { return []any{1, RawOut{string(r)}, []int{}, map[string]int{"k": 2}} }, `[1,`, `,[],{"k":2}]`},
		{"marshaler typed slice", func(r json.RawMessage) any { return []RawPM{{"1"}, {string(r)}, {"{}"}} }, `[1,`, `,{}]`},
		{"marshaler map", func(r json.RawMessage) any {
			return map[string]RawKind{"a": "1", "b": RawKind(r), "c": `{"d":2}`}
		}, `{"a":1,"b":`, `,"c":{"d":2}}`},
		{"marshaler field", func(r json.RawMessage) any {
			return &struct {
				A int   `json:"a"`
				M RawPM `json:"m"`
				N struct {
					K RawKind `json:"k"`
				} `json:"n"`
			}{1, RawPM{string(r)}, struct {
				K RawKind `json:"k"`
			}{"0"}}
		}, `{"a":1,"m":`, `,"n":{"k":0}}`},
	}
}

func init() {
	register(&check{id: "C06", rule: "all texts over a token alphabet and character alphabets as RawMessage or marshaler result in every kind of position, under configurations of layout, color, HTML escaping, sorting and trust; tokens, layout and colors against a reference tokenizer, acceptance against encoding/json.Valid", run: runC06})
}

func runC06(c *C) {
	pal := fullPalette()
	full := pal.colors()
	confs := []encConf{
		{}, {html: true}, {indent: "  "}, {prefix: " ", indent: "\t", html: true, colors: full}, {colors: full},
		{unsorted: true, html: true}, {unsorted: true, indent: " ", colors: full},
		{trust: true}, {trust: true, html: true, indent: "  ", colors: full}, {trust: true, unsorted: true, prefix: "\t", html: true}, {trust: true, html: true},
	}
	one := func(h *rawHolder, s string, ks []encConf) {
		if s == "" && h.name == "omitempty" {
			return // omitted
		}
		x := h.mk(json.RawMessage(s))
		valid := json.Valid([]byte(s))
		var compact [2][]byte // html off, on
		if valid {
			for i := range compact {
				var b bytes.Buffer
				b.WriteString(h.before)
				json.Compact(&b, []byte(s))
				b.WriteString(h.after)
				compact[i] = b.Bytes()
				if i == 1 && strings.ContainsAny(s, "<>&\u2028\u2029") {
					var e bytes.Buffer
					json.HTMLEscape(&e, b.Bytes())
					compact[1] = e.Bytes()
				}
			}
		}
		for _, k := range ks {
			c.State(1)
			c.Trans(1)
			var buf bytes.Buffer
			var err error
			e := k.encoder(&buf)
			pan := catch(func() { err = e.Encode(x) })
			out := buf.Bytes()
			key := h.name + " " + clip(s, 120)
			if pan != nil {
				c.Fail("panic "+key, "%v: panic %v", k, pan)
				continue
			}
			if valid {
				if err != nil {
					c.Fail("rejected "+key, "%v: valid raw JSON %q rejected: %v", k, s, err)
					continue
				}
				w := compact[0]
				if k.html {
					w = compact[1]
				}
				want := indented(w, k.prefix, k.indent)
				if k.colors != nil {
					ts, _ := tokenize(want)
					want = decorate(want, ts, nil, pal)
				}
				want = append(want[:len(want):len(want)], '\n')
				c.Valid(1)
				if bytes.Equal(out, want) {
					continue
				}
				if k.unsorted && strings.Contains(h.name, "map") {
					// order is free: members as a set, then layout and colors of its own order
					plain := out
					if k.colors != nil {
						plain = stripper(out)
					}
					var cb bytes.Buffer
					if json.Compact(&cb, plain) == nil && canonDoc(cb.Bytes()) == canonDoc(w) {
						own := indented(cb.Bytes(), k.prefix, k.indent)
						if k.colors != nil {
							ts, _ := tokenize(own)
							own = decorate(own, ts, nil, pal)
						}
						if bytes.Equal(append(own[:len(own):len(own)], '\n'), out) {
							continue
						}
					}
				} else if k.html && k.colors == nil && k.indent+k.prefix == "" && len(out) > 0 && sameDoc(out[:len(out)-1], w) && strings.ContainsAny(s, "<>&\u2028\u2029") {
					continue // another spelling of the HTML escapes
				}
				c.Fail("tokens "+key, "%v: raw %q in %s:\n got  %q\n want %q", k, s, h.name, out, want)
				continue
			}
			if k.trust {
				c.Count("trusted_malformed", 1)
				if err == nil && !(k.unsorted && strings.Contains(h.name, "map")) {
					// what is around the malformed text stands
					doc := []byte(h.before + "7" + h.after)
					doc = indented(doc, k.prefix, k.indent)
					cut := bytes.LastIndexByte(doc, '7')
					head, tail := doc[:cut], doc[cut+1:]
					if k.colors != nil {
						ts, _ := tokenize(doc)
						d := decorate(doc, ts, nil, pal)
						seven := []byte(pal.of(clNumber) + "7" + reset)
						cut = bytes.Index(d, seven)
						head, tail = d[:cut], d[cut+len(seven):]
					}
					if !bytes.HasPrefix(out, head) || !bytes.HasSuffix(out, append(tail[:len(tail):len(tail)], '\n')) {
						c.Fail("surroundings "+key, "%v: trusted malformed %q in %s: got %q, want %q ... %q", k, s, h.name, out, head, tail)
					}
				} else if err != nil && len(out) != 0 {
					c.Fail("wrote "+key, "%v: failed with %v but wrote %q", k, err, out)
				}
				// and so does the next value
				buf.Reset()
				next := []any{map[string]any{"n": 1}, "s"}
				want, _ := refOut(next, k, pal)
				if err := e.Encode(next); err != nil || buf.String() != string(want)+"\n" {
					c.Fail("next "+key, "%v: after trusted malformed %q in %s: next value gives %q %v, want %q", k, s, h.name, buf.String(), err, want)
				}
				continue
			}
			if err == nil {
				c.Fail("accepted "+key, "%v: malformed raw %q in %s accepted, output %q", k, s, h.name, out)
			} else if len(out) != 0 {
				c.Fail("wrote "+key, "%v: failed with %v but wrote %q", k, err, out)
			}
			c.Valid(1)
		}
	}
	hs := rawHolders()
	var few []encConf
	for _, i := range []int{0, 3, 5, 8} {
		few = append(few, confs[i])
	}
	alpha := append([]string{}, tokAlphabet...)
	alpha = append(alpha, `"<"`, "\"\u2028\"", "\n", `"\u003c"`)
	for i := range hs {
		h := &hs[i]
		c.batches("raw "+h.name, alpha, 0, c.Pick(4, 5), 1, same, func(s string) { one(h, s, confs) })
		if c.thorough {
			c.batches("raw long "+h.name, tokAlphabet[:10], 5, 7, 2, same, func(s string) { one(h, s, few) })
		} else {
			c.batches("raw long "+h.name, tokAlphabet[:9], 5, 6, 2, same, func(s string) { one(h, s, few[1:3]) })
		}
	}
	chars := []string{`"`, `\`, "u", "0", "1", "-", ".", "e", "+", "t", "r", "n", "\x00", "\x1f", "\x7f", "\xff", "é", "<", "\t", "{", "]"}
	for _, i := range []int{0, 4, 13} {
		h := &hs[i]
		c.batches("raw characters "+h.name, chars, 1, c.Pick(3, 4), 1, same, func(s string) { one(h, s, few[:3]) })
		c.batches("raw string contents "+h.name, chars, 1, c.Pick(3, 4), 1, func(s string) string { return `["` + s + `"]` }, func(s string) { one(h, s, few[:3]) })
	}
	// documents of every shape, with white space in every gap
	docs := []string{`{"a":[1,{"b":null,"a":{}},[]],"a":true,"":-0.50e+10}`, `[[[[[["<&>"]]]]]]`, `{"z":{"y":{"x":{"w":[{},[],{"v":[]}]}}},"a":0}`, `[1e5,1E5,1.0,-0,"\u0041","\/","` + "\u2028é" + `",false]`, `{"k<":{"k>":"&"}}`}
	ws := []string{" ", "\n", "\t\r", "   \n\n"}
	for di, d := range docs {
		ts, _ := tokenize([]byte(d))
		for hi := range hs {
			h := &hs[hi]
			c.Case(func() string { return fmt.Sprintf("document %d with white space in every gap, %s", di, h.name) }, func() {
				one(h, d, confs)
				for _, w := range ws {
					all := ""
					for gi, t := range ts {
						one(h, d[:t.s]+w+d[t.s:], confs)
						one(h, d[:t.s]+d[t.e:], few) // token missing
						all += w + d[t.s:t.e]
						_ = gi
					}
					one(h, all+w, confs)
					one(h, d+w, confs)
				}
			})
		}
	}
	c.scales(scaleLimit{s: c.Pick(5000, 70000), e: c.Pick(300, 5000), m: c.Pick(130, 1100), f: 20, d: c.Pick(140, 1100)}, func(l leafT) {
		b, err, pan := stdEncode(l.vals[0].Interface(), false)
		if err != nil || pan != nil {
			return
		}
		doc := string(b)
		for i := range hs {
			if len(doc) < 4000 {
				one(&hs[i], doc, confs)
			} else if i%4 == 0 {
				one(&hs[i], doc, few)
			}
		}
		if len(doc) < 400 || c.thorough && len(doc) < 10000 {
			scaleTexts(doc, func(s string) { one(&hs[0], s, few); one(&hs[4], s, few[:3]) })
		}
	})
	c.Bound("%d positions, %d configurations", len(hs), len(confs))
}
