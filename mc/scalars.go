package main

import (
	"encoding/base64"
	"encoding/json"
	"fmt"
	"reflect"
	"time"

	jc "github.com/neilotoole/jsoncolor"
)

// The texts inside strings that have a syntax of their own: times, durations,
// base64, the numbers and booleans of members with the string option, and the
// integers of map keys.

type quotedAll struct {
	I int     `json:",string"`
	U uint8   `json:",string"`
	F float32 `json:",string"`
	B bool    `json:",string"`
	S string  `json:",string"`
	P *int16  `json:",string"`
}

// scalarTexts calls one with destinations and texts.
func (c *C) scalarTexts(one func(key string, t reflect.Type, dur, odd bool, text string)) {
	// times: every text that differs in one or two characters from a valid one
	const ta = "0123456789TtZz+-:., eE"
	bases := []string{"2021-02-03T04:05:06Z", "2021-02-03T04:05:06.789+05:30", "0000-12-31T23:59:59-23:59", "2020-02-29T00:00:00.123456789Z"}
	tt := []reflect.Type{timeT, reflect.TypeOf(new(time.Time)), reflect.TypeOf(map[string]time.Time{}), reflect.TypeOf(EmbTime{})}
	for bi, base := range bases {
		for i := -1; i <= len(base); i++ {
			c.Case(func() string {
				return fmt.Sprintf("time %s: all edits, and second edits after one at %d", base, i)
			}, func() {
				if i < 0 {
					edits(base, ta, func(s string) {
						for _, t := range tt {
							x := string(mustJSON(s))
							if t.Kind() == reflect.Map {
								x = `{"k":` + x + `}`
							}
							one("time", t, false, false, x)
						}
					})
					return
				}
				if bi > 0 && !c.thorough {
					return
				}
				head, rest := base[:i], base[i:]
				second := func(r string) {
					edits(r, ta, func(s string) { one("time", timeT, false, false, string(mustJSON(head+s))) })
				}
				if rest != "" {
					second(rest[1:])
				}
				for j := range ta {
					second(ta[j:j+1] + rest)
					if rest != "" {
						second(ta[j:j+1] + rest[1:])
					}
				}
			})
		}
	}
	c.Bound("times: all texts at one edit from %d times (at two edits from %d) over %q", len(bases), c.Pick(1, len(bases)), ta)

	// base64
	b64 := []string{"A", "w", "+", "/", "=", "-", "_", " ", `\n`, `\r`, `\u0041`, "é", `\/`}
	bt := []reflect.Type{reflect.TypeOf([]byte{}), reflect.TypeOf(NBytes{}), reflect.TypeOf(map[string][]byte{}), reflect.TypeOf([2]byte{})}
	c.batches("base64", b64, 0, c.Pick(5, 6), 2, same, func(s string) {
		s = `"` + s + `"`
		one("base64", bt[0], false, false, s)
		if len(s) < 8 {
			one("base64", bt[1], false, false, s)
			one("base64", bt[2], false, false, `{"k":`+s+`}`)
			one("base64", bt[3], false, false, s)
		}
	})
	for _, n := range []int{1, 2, 3, 7, 8, 12, 48, 100} {
		c.Case(func() string { return fmt.Sprintf("base64 of %d bytes: all edits", n) }, func() {
			b := make([]byte, n)
			for i := range b {
				b[i] = byte(i*71 + 250)
			}
			edits(base64.StdEncoding.EncodeToString(b), "Aw+/=-_ \n", func(s string) { one("base64", bt[0], false, false, string(mustJSON(s))) })
		})
	}

	// members with the string option (encoding/json also takes quoted numbers
	// that are not JSON, such as "01": no model for those)
	q := []string{"1", "0", "2", "-", "+", ".", "e", " ", "true", "false", "null", `\"`, "a", `\u0031`, `\\`, "_", "x", `\n`}
	qt := reflect.TypeOf(quotedAll{})
	c.batches("string option", q, 0, c.Pick(3, 4), 1, same, func(s string) {
		for i := 0; i < qt.NumField(); i++ {
			one("quoted", qt, false, true, `{"`+qt.Field(i).Name+`":"`+s+`"}`)
		}
	})

	// integers as keys
	k := []string{"1", "0", "2", "5", "-", "+", ".", "e", " ", "null", `\"`, "a", `\u0031`, "_", "x", ""}
	var kt []reflect.Type
	for _, m := range []any{map[int8]int{}, map[uint8]int{}, map[int64]string{}, map[NInt]bool{}, map[uintptr]any{}, map[TextOut]int{}} {
		kt = append(kt, reflect.TypeOf(m))
	}
	c.batches("integer keys", k[:len(k)-1], 0, c.Pick(4, 5), 1, same, func(s string) {
		for _, t := range kt[:5] {
			one("key", t, false, false, `{"`+s+`":null}`)
		}
	})

	// durations: numbers as encoding/json does, and what time.ParseDuration takes
	da := []string{"1", "0", "9", ".", "-", "+", "h", "m", "s", "ms", "µs", "us", "μs", "ns", " ", "d", "_", "E"}
	c.batches("durations", da, 0, c.Pick(4, 5), 1, same, func(s string) {
		want, err := time.ParseDuration(s)
		for i, x := range []any{new(time.Duration), new(struct{ D time.Duration })} {
			text := `"` + s + `"`
			if i == 1 {
				text = `{"D":` + text + `}`
			}
			c.State(1)
			c.Trans(1)
			c.Valid(1)
			jerr := jc.Unmarshal([]byte(text), x)
			got := reflect.ValueOf(x).Elem()
			if i == 1 {
				got = got.Field(0)
			}
			if (jerr == nil) != (err == nil) || err == nil && got.Int() != int64(want) {
				c.Fail("duration "+text, "Unmarshal(%s) into %T: %v, %v; time.ParseDuration: %v, %v", text, x, got, jerr, int64(want), err)
			}
		}
		if json.Valid([]byte(s)) {
			one("duration", durT, false, false, s)
		}
	})
	c.Bound("base64: all texts of at most %d symbols; string option: %d; integer keys: %d; durations: %d", c.Pick(5, 6), c.Pick(3, 4), c.Pick(4, 5), c.Pick(4, 5))
}
