package main

import (
	"encoding/json"
	"fmt"

	jc "github.com/neilotoole/jsoncolor"
)

// Methods that modify the value they are part of while it is being encoded.

var mutAt, mutCalls int
var mutDo func()

func mutCall() {
	mutCalls++
	if mutCalls == mutAt && mutDo != nil {
		mutDo()
	}
}

type MutM struct{ N int }
type MutT string
type MutP struct{ N int }

func (m MutM) MarshalJSON() ([]byte, error) {
	mutCall()
	return []byte(fmt.Sprintf(`{"m":%d}`, m.N)), nil
}
func (m MutT) MarshalText() ([]byte, error) { mutCall(); return []byte("t" + string(m)), nil }
func (m *MutP) MarshalJSON() ([]byte, error) {
	mutCall()
	if m == nil {
		return []byte("0"), nil
	}
	return []byte(fmt.Sprint(m.N)), nil
}

// mutMap makes a map of n entries and the ways to modify it.
func mutMap[K comparable, V any](n int, key func(i int) K, val func(i int) V) func() (any, map[string]func()) {
	return func() (any, map[string]func()) {
		m := map[K]V{}
		for i := 0; i < n; i++ {
			m[key(i)] = val(i)
		}
		f := map[string]func(){
			"cleared": func() { clear(m) },
			"grown": func() {
				for i := 0; i < 60; i++ {
					m[key(n+i)] = val(n + i)
				}
			},
			"refilled": func() {
				clear(m)
				for i := n - 1; i >= 0; i-- {
					m[key(i)] = val(i + n)
				}
			},
		}
		for i := 0; i < n; i++ {
			f[fmt.Sprintf("without %d", i)] = func() { delete(m, key(i)) }
			f[fmt.Sprintf("with another %d", i)] = func() { m[key(i)] = val(i + n) }
		}
		return m, f
	}
}

func mutSlice[V any](n int, ptr bool, val func(i int) V) func() (any, map[string]func()) {
	return func() (any, map[string]func()) {
		s := make([]V, n, n+2)
		for i := range s {
			s[i] = val(i)
		}
		f := map[string]func(){"appended to": func() { _ = append(s, val(n)) }}
		for i := range s {
			f[fmt.Sprintf("zero at %d", i)] = func() { var z V; s[i] = z }
			f[fmt.Sprintf("with another %d", i)] = func() { s[i] = val(i + n) }
		}
		if ptr {
			f["grown"] = func() { s = append(s, val(n)) } // in place
			return &s, f
		}
		return s, f
	}
}

func runMutate(c *C) {
	str := func(i int) string { return fmt.Sprintf("k%d", (i*7)%10+i/10*10) }
	mm := func(i int) MutM { return MutM{i} }
	mt := func(i int) MutT { return MutT(str(i)) }
	mp := func(i int) *MutP {
		if i%4 == 3 {
			return nil
		}
		return &MutP{i}
	}
	mixed := func(i int) any {
		return []any{mm(i), mt(i), i, mp(i), "s", []any{mm(i), 1}, map[string]any{"x": mm(i), "y": 2}, map[string]MutM{"z": {i}}}[i%8]
	}
	in := func(i int) int { return i*3 - 4 }
	max := c.Pick(5, 12)
	for n := 1; n <= max; n++ {
		for _, s := range []struct {
			name string
			mk   func() (any, map[string]func())
		}{
			{"map[string]any", mutMap(n, str, mixed)}, {"map[string]MutM", mutMap(n, str, mm)}, {"map[int]MutM", mutMap(n, in, mm)},
			{"map[string]*MutP", mutMap(n, str, mp)}, {"map[uint8]any", mutMap(n, func(i int) uint8 { return uint8(i * 5) }, mixed)},
			{"map[string][]MutM", mutMap(n, str, func(i int) []MutM { return []MutM{{i}, {i + 1}} })},
			{"map[KeyVT]MutM", mutMap(n, func(i int) KeyVT { return KeyVT{i, n - i} }, mm)},
			{"map[string]struct", mutMap(n, str, func(i int) struct {
				A MutM
				B *MutP `json:",omitempty"`
			} {
				return struct {
					A MutM
					B *MutP `json:",omitempty"`
				}{MutM{i}, mp(i)}
			})},
			{"map[MutM2]MutT", mutMap(n, func(i int) ordNamed { return ordNamed(str(i)) }, mt)},
			{"[]MutM", mutSlice(n, false, mm)}, {"*[]MutM", mutSlice(n, true, mm)}, {"[]any", mutSlice(n, false, mixed)}, {"[]*MutP", mutSlice(n, true, mp)},
			{"[]map", mutSlice(n, false, func(i int) map[string]any { return map[string]any{"a": mm(i), "b": mt(i)} })},
			{"[]MutP", mutSlice(n, false, func(i int) MutP { return MutP{i} })},
		} {
			c.Case(func() string { return fmt.Sprintf("%s of %d modified by its elements' methods", s.name, n) }, func() {
				c.mutate(s.name, s.mk)
			})
		}
	}
	c.Bound("maps and slices of up to %d elements modified from within each call of a method of an element", max)
}

func (c *C) mutate(name string, mk func() (any, map[string]func())) {
	x, muts := mk()
	mutAt, mutCalls = 0, 0
	stdEncode(x, true)
	calls := mutCalls
	for mut := range muts {
		for at := 1; at <= calls; at++ {
			fresh := func() any {
				x, f := mk()
				mutAt, mutCalls, mutDo = at, 0, f[mut]
				return x
			}
			for wi, wrap := range []func(x any) any{
				func(x any) any { return x },
				func(x any) any { return []any{x, 1, x} },
				func(x any) any { return map[string]any{"p": x, "q": []any{x}} },
			} {
				want, werr, wpan := stdEncode(wrap(fresh()), true)
				if wpan != nil {
					continue
				}
				for _, k := range []encConf{{html: true}, {html: true, indent: " "}, {html: true, unsorted: true}} {
					c.State(1)
					c.Trans(1)
					y := wrap(fresh())
					out, err, pan := k.append(nil, y)
					desc := func() string {
						return fmt.Sprintf("%v of %s (%d), %s in call %d of its methods", k, name, wi, mut, at)
					}
					if pan != nil || (err == nil) != (werr == nil) {
						c.Fail("modified "+name, "%s: %v %v, encoding/json: %v", desc(), pan, err, werr)
						return
					}
					if err != nil {
						continue
					}
					if k.unsorted { // a map may be read while it changes
						if !json.Valid(out) {
							c.Fail("modified "+name, "%s: %q", desc(), clip(string(out), 400))
							return
						}
						c.Valid(1)
						continue
					}
					if canonDoc(out) != canonDoc(want) {
						c.Fail("modified "+name, "%s:\n got  %q\n want %q", desc(), clip(canonDoc(out), 400), clip(string(want), 400))
						return
					}
					c.Valid(1)
				}
				y := wrap(fresh())
				var got []byte
				var err error
				if pan := catch(func() { got, err = jc.Marshal(y) }); pan != nil || err != nil != (werr != nil) || err == nil && string(got) != string(want) {
					c.Fail("modified "+name, "Marshal of %s (%d), %s in call %d of its methods: %v %v %q, encoding/json %q", name, wi, mut, at, pan, err, got, want)
					return
				}
			}
		}
	}
	mutAt, mutDo = 0, nil
}
