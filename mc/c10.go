package main

import (
	"encoding/json"
	"fmt"

	jc "github.com/neilotoole/jsoncolor"
)

func init() {
	register(&check{
		id:   "C10",
		rule: "exhaustive texts over several alphabets (JSON tokens, number characters, string fragments, literal characters, whitespace and raw bytes at every offset, nesting around the limit, truncations and single-byte edits of documents); Valid is compared with encoding/json.Valid on each",
		run:  runC10,
	})
}

func runC10(c *C) {
	cmp := func(s string) {
		b := []byte(s)
		got, want := jc.Valid(b), json.Valid(b)
		c.State(1)
		c.Trans(1)
		c.Valid(1)
		if want {
			c.Count("valid_texts", 1)
		}
		if got != want {
			c.Fail(fmt.Sprintf("valid:%.200q", s), "Valid(%.300q) = %v, encoding/json says %v", s, got, want)
		}
		if string(b) != s {
			c.Fail(fmt.Sprintf("modified:%.200q", s), "Valid modified its input %.300q", s)
		}
	}
	c.batches("tokens", tokAlphabet[:c.Pick(10, 12)], 0, c.Pick(6, 7), 2, same, cmp)
	num := []string{"-", "+", "0", "1", "9", ".", "e", "E"}
	c.batches("numbers", num, 1, c.Pick(6, 8), 2, same, cmp)
	c.batches("numbers in array", num, 1, c.Pick(4, 6), 2, func(s string) string { return "[" + s + "]" }, cmp)
	c.batches("numbers as member value", num, 1, c.Pick(4, 5), 2, func(s string) string { return `{"a":` + s + ` ,"b":0}` }, cmp)
	str := []string{"a", `\`, "u", `"`, "0", "F", "n", "/", "\x1f", "\x7f", "\xc3", "\xa9", "\xff", "\n", "d8", " ", "x"}
	c.batches("strings", str, 0, c.Pick(4, 5), 2, func(s string) string { return `"` + s + `"` }, cmp)
	c.batches("open strings", str, 0, c.Pick(3, 4), 1, func(s string) string { return `"` + s }, cmp)
	c.batches("keys", str, 0, c.Pick(3, 4), 1, func(s string) string { return `{"` + s + `":1}` }, cmp)
	hexs := []string{"0", "9", "a", "f", "g", "A", "F", "G", "/", ":", "@", "`", `"`, `\`}
	c.batches("unicode escapes", hexs, 0, 4, 1, func(s string) string { return `"\u` + s + `"` }, cmp)
	c.batches("second unicode escape", hexs, 0, c.Pick(3, 4), 1, func(s string) string { return `"\ud83d\u` + s + `"` }, cmp)
	lit := []string{"t", "r", "u", "e", "f", "a", "l", "s", "n", " ", ","}
	c.batches("literals", lit, 1, c.Pick(5, 6), 2, same, cmp)
	c.batches("literals in array", lit, 1, c.Pick(4, 5), 2, func(s string) string { return "[" + s + "]" }, cmp)
	ws := []string{" ", "\t", "\n", "\r", "\v", "\f", "\x00", "\u00a0", "\ufeff", "1", "[", "]", ","}
	c.batches("whitespace", ws, 0, c.Pick(4, 5), 2, same, cmp)

	// Every byte at every offset of strings and documents of every length, so
	// that each lane of word-at-a-time scanning is hit.
	frames := [][2]string{{`"`, `"`}, {`["`, `"]`}, {`{"`, `":0}`}, {`"\n`, `"`}, {`"é`, `"`}, {`[1,"x","`, `"]`}}
	for L := 0; L <= c.Pick(40, 80); L++ {
		for fi, fr := range frames {
			c.Case(func() string {
				return fmt.Sprintf("every byte at every offset of a string of length %d in %s…%s", L, fr[0], fr[1])
			}, func() {
				base := rep("abcdefgh", L/8+1)[:L]
				_ = fi
				for o := 0; o < L; o++ {
					for b := 0; b < 256; b++ {
						cmp(fr[0] + base[:o] + string([]byte{byte(b)}) + base[o+1:] + fr[1])
					}
					cmp(fr[0] + base[:o] + `\"` + base[o+1:] + fr[1])
					cmp(fr[0] + base[:o] + `\` + fr[1])
				}
			})
		}
	}
	c.Bound("all 256 bytes at every offset of strings of 0..%d bytes in %d frames", c.Pick(40, 80), len(frames))
	// one defect at every position of longer strings, numbers and white space
	marks := []string{"\x00", "\x1f", "\x7f", "\x80", "\xff", `"`, `\`, `\x`, `\n`, `\u`, `\u12`, `\u12g4`, `\u1234`, `\ud800`, "\n", "é"}
	for L := 40; L <= c.Pick(300, 600); L += 4 {
		c.Case(func() string { return fmt.Sprintf("one mark at every position of strings of %d.. bytes", L) }, func() {
			for l := L; l < L+4; l++ {
				s := rep("abcdefgh", l/8+1)[:l]
				for o := 0; o <= l; o++ {
					for _, m := range marks {
						cmp(`"` + s[:o] + m + s[o:] + `"`)
					}
					cmp(`"` + s[:o] + "\x01" + s[o:] + `":1`)
					cmp(`{"` + s[:o] + `\u00e` + s[o:] + `":1}`)
				}
			}
		})
		c.Case(func() string { return fmt.Sprintf("one mark at every position of numbers and gaps of %d.. bytes", L) }, func() {
			for l := L; l < L+4; l++ {
				d, w := rep("1234567890", l/10+1)[:l], rep(" \t\n\r", l/4+1)[:l]
				for o := 0; o <= l; o++ {
					for _, m := range []string{".", "e", "-", "a", " ", ".e", "E+", "\x00"} {
						cmp(d[:o] + m + d[o:])
					}
					for _, m := range []string{"\v", "\x00", "1", "\u00a0", ","} {
						cmp(w[:o] + m + w[o:])
						cmp("[" + w[:o] + m + w[o:] + "1]")
					}
				}
			}
		})
	}
	for _, L := range ladder(0, c.Pick(70000, 270000)) {
		if L < 300 {
			continue
		}
		c.Case(func() string { return fmt.Sprintf("one mark at the rungs of strings and gaps of %d bytes", L) }, func() {
			s, w := rep("abcdefgh", L/8+1)[:L], rep(" ", L)
			for _, o := range append(ladder(16, L), L-1, L-2, L-7, L-8, L-9, L-15, L-16, L-17, L/3, L/2) {
				for _, m := range marks {
					cmp(`["` + s[:o] + m + s[o:] + `"]`)
				}
				for _, m := range []string{"\v", "\x00", "1", ","} {
					cmp("[" + w[:o] + m + w[o:] + "1]")
				}
			}
		})
	}
	c.Bound("one of %d marks at every position of strings to %d bytes, at rungs of longer ones", len(marks), c.Pick(300, 600)+3)
	c.scales(scaleLimit{s: 0, e: c.Pick(1100, 20000), m: c.Pick(300, 5000), f: c.Pick(40, 70), d: c.Pick(140, 1100)}, func(l leafT) {
		if b, err, pan := stdEncode(l.vals[0].Interface(), false); err == nil && pan == nil {
			scaleTexts(string(b), cmp)
		}
	})
	c.giants(func(l leafT) {
		if b, err, pan := stdEncode(l.vals[0].Interface(), false); err == nil && pan == nil {
			cmp(string(b))
			cmp(string(b[:len(b)-1]))
			cmp(string(b) + "]")
		}
	})
	docs := []string{
		`{"a":[1,2.5,{"b":null}],"c":"x\n\u00e9\"","d":true,"e":{},"f":[],"g":false}`,
		`[[],[[]],{"":{"":""}},-1e+9,0.0E-1,"\ud83d\ude00\/"]`,
		" \t\r\n{ \"k\" : [ 1 , 2 ] , \"m\" : { } } \n",
		`[123456789012345678901234567890,1e400,-0,"𝄞",""]`,
	}
	for _, d := range docs {
		for k := 0; k < 8; k++ {
			c.Case(func() string { return fmt.Sprintf("single-byte edits (slice %d) of %q", k, d) }, func() {
				i := 0
				all := make([]byte, 256)
				for b := range all {
					all[b] = byte(b)
				}
				edits(d, string(all), func(s string) {
					if i%8 == k {
						cmp(s)
					}
					i++
				})
			})
		}
	}
	if c.thorough {
		for _, d := range docs[:3] {
			for k := 0; k < 64; k++ {
				c.Case(func() string { return fmt.Sprintf("double edits (slice %d) of %q", k, d) }, func() {
					i := 0
					edits(d, "{}[],:\" 0-\\n", func(s string) {
						if i%64 == k {
							edits(s, "}],:\"0e", cmp)
						}
						i++
					})
				})
			}
		}
	}
	for _, n := range []int{1, 2, 100, 9998, 9999, 10000, 10001, 10002, 20000, 400000, 4000000} {
		for k, p := range [][3]string{{"[", "", "]"}, {`{"a":`, "1", "}"}, {`[{"a":`, "1", "}]"}, {"[1,", "2", "]"}, {`{"a":[`, "", "]}"}} {
			if n > 400000 && k > 1 || k == 4 && n > 20000 {
				continue
			}
			c.Case(func() string { return fmt.Sprintf("%d nested %q", n, p[0]) }, func() {
				cmp(rep(p[0], n) + p[1] + rep(p[2], n))
				cmp(rep(p[0], n))
				cmp(rep(p[0], n) + p[1] + rep(p[2], n-1))
				cmp("[" + rep(p[0], n) + p[1] + rep(p[2], n) + "," + rep(p[0], n/2) + p[1] + rep(p[2], n/2) + "]")
			})
		}
	}
	c.Bound("nesting up to 4000000, around the limit of 10000 exactly")
}
