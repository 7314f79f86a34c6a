package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math"
	"sort"
	"strings"

	jc "github.com/neilotoole/jsoncolor"
)

// C29: the order in which the runtime iterates maps. The check is built with an
// overlay of the runtime's maps in which the start of an iteration and the hash
// seed are variables; this enumerates them together with the histories
// (insertions, deletions) a map can have.

func init() {
	register(&check{
		id:     "C29",
		rule:   "every map shape x number of keys x insertion order (with deletions) x start of the runtime's iteration (all rotations of small maps; hash seeds, entry and directory offsets of grown maps) x encoder configuration; sorted output must be the standard library's document and never change; unsorted output must be the sorted document with its members permuted, laid out and colored like any other",
		assume: []string{"the runtime is Go's own with the random choices of its maps replaced by enumerated ones"},
		run:    runC29})
}

type ordKeyT struct{ A, B uint8 }

func (k ordKeyT) MarshalText() ([]byte, error) { return []byte(fmt.Sprintf("%d.%d", k.B, k.A)), nil }
func (k *ordKeyT) UnmarshalText(b []byte) error {
	_, err := fmt.Sscanf(string(b), "%d.%d", &k.B, &k.A)
	return err
}

type ordNamed string

var ordPtrs = func() (a [4096]KeyVT) {
	for i := range a {
		a[i] = KeyVT{i, i}
	}
	return
}()

type ordShape struct {
	name string
	// mk makes the value whose map has the keys with the numbers is, inserted in
	// that order; the keys of del are inserted too and deleted again at the end.
	mk  func(is, del []int) any
	max int  // keys
	std bool // encoding/json's output is the model as it stands
}

var ordStrs = []string{"b", "", "ab", "a", "é", "A", "\x00", "10", "9", "\u2028", "<", "aa", "\xff", "ba", "a\"", "~", "\U0001F600", "null", " a", "aaaaaaaaaaaaaaaab", "aaaaaaaaaaaaaaaaa"}

func ordStr(i int) string {
	if i < len(ordStrs) {
		return ordStrs[i]
	}
	return fmt.Sprintf("k%d", (i*7919)%1000003)
}

func ordMake[K comparable, V any](key func(i int) K, val func(i int) V) func(is, del []int) any {
	return func(is, del []int) any {
		m := map[K]V{}
		for _, i := range is {
			m[key(i)] = val(i)
		}
		var gone []K
		for _, i := range del {
			if k := key(i); k != k {
				continue // cannot be deleted
			}
			if _, ok := m[key(i)]; !ok {
				m[key(i)] = val(i)
				gone = append(gone, key(i))
			}
		}
		for _, k := range gone {
			delete(m, k)
		}
		return m
	}
}

func ordShapes() (o []ordShape) {
	add := func(name string, max int, mk func(is, del []int) any) {
		o = append(o, ordShape{name, mk, max, true})
	}
	num := func(i int) int { return i }
	scal := func(i int) any {
		return []any{i, "s" + ordStr(i), nil, true, 1.5, []any{}, map[string]any{}, []any{1, "x"}, json.Number("1e3"), false}[i%10]
	}
	inner := func(i int) map[string]any {
		return map[string]any{"z": i, "a": "x", "": nil, "m": []any{i}}
	}
	add("map[string]any", 1<<20, ordMake(ordStr, scal))
	add("map[string]any of maps", 40, ordMake(ordStr, func(i int) any { return inner(i) }))
	add("map[string]any of maps of maps", 12, ordMake(ordStr, func(i int) any { return map[string]any{"y": inner(i), "x": map[int]any{i: 1, -1: inner(2)}} }))
	add("map[string]any of other maps", 40, ordMake(ordStr, func(i int) any {
		return []any{map[string]int{"q": 1, "p": 2}, map[int]string{10: "a", 9: "b", -1: "c"}, map[string]json.RawMessage{"w": json.RawMessage("1"), "v": json.RawMessage(`[]`)}}[i%3]
	}))
	add("map[string]RawMessage", 1<<20, ordMake(ordStr, func(i int) json.RawMessage {
		return json.RawMessage([]string{"1", `"x"`, "null", "[1,2]", "{}", "[]", "-1.5e2", " true "}[i%8])
	}))
	add("map[string]int", 1<<20, ordMake(ordStr, num))
	add("map[string]string", 40, ordMake(ordStr, ordStr))
	add("map[string][]any", 40, ordMake(ordStr, func(i int) []any { return []any{i, inner(i), nil} }))
	add("map[named]any", 1<<12, ordMake(func(i int) ordNamed { return ordNamed(ordStr(i)) }, scal))
	add("map[string]map[string]any", 40, ordMake(ordStr, inner))
	add("map[int]int", 1<<20, ordMake(func(i int) int {
		if i < 10 {
			return []int{1, -1, 10, 9, math.MinInt, 0, 100, -10, 11, math.MaxInt}[i]
		}
		return (i*37 + 5) * (i%3*2 - 1)
	}, num))
	add("map[int8]any", 200, ordMake(func(i int) int8 { return int8(i * 37) }, scal))
	add("map[uint64]any", 1<<12, ordMake(func(i int) uint64 {
		if i < 8 {
			return []uint64{1, 10, 9, math.MaxUint64, 1 << 63, 0, 99, 100}[i]
		}
		return uint64(i)*37 + 1000 + uint64(i%2)<<63
	}, scal))
	add("map[text]any", 1<<12, ordMake(func(i int) ordKeyT { return ordKeyT{uint8(i * 11), uint8(i / 16 * 5)} }, scal))
	add("map[float text]int", 40, ordMake(func(i int) KeyF {
		if i%3 == 0 {
			return KeyF(math.Float64frombits(0x7ff8000000000001 + uint64(i)))
		}
		return KeyF(i)
	}, num))
	add("map[interface]any", 40, ordMake(func(i int) IfaceT {
		switch i % 4 {
		case 0:
			return KeyStrT(fmt.Sprint("s", i))
		case 1:
			return KeyIntT(i)
		case 2:
			return KeyF(math.Float64frombits(0x7ff8000000000001 + uint64(i)))
		}
		return &ordPtrs[i%len(ordPtrs)]
	}, scal))
	add("map[string]bool in a struct", 40, func(is, del []int) any {
		m := ordMake(ordStr, func(i int) bool { return i%2 == 0 })(is, del).(map[string]bool)
		return struct {
			A int
			M map[string]bool `json:"m,omitempty"`
			P *map[string]bool
			Z []any
		}{1, m, &m, []any{m, &m}}
	})
	add("map[string]struct with maps", 20, ordMake(ordStr, func(i int) any {
		return struct {
			M map[string]any
			R map[string]json.RawMessage
			I map[int]int
		}{inner(i), map[string]json.RawMessage{"b": json.RawMessage("1"), "a": json.RawMessage("2")}, map[int]int{3: 1, 20: 2}}
	}))
	add("map[string]*pointer", 40, ordMake(ordStr, func(i int) *map[string]any { m := inner(i); return &m }))
	add("[]map", 20, func(is, del []int) any {
		return []any{ordMake(ordStr, num)(is, del), ordMake(ordStr, scal)(is, del), ordMake(func(i int) int { return -i }, num)(is, del)}
	})
	return
}

// ordTree is a document whose members can be compared in any order.
func ordTree(text []byte, ts []tokn, i int, sorted bool, out *bytes.Buffer) int {
	t := ts[i]
	switch t.k {
	case '{':
		var ms []string
		i++
		for ts[i].k != '}' {
			if ts[i].k == ',' {
				i++
			}
			var b bytes.Buffer
			b.Write(text[ts[i].s:ts[i].e])
			b.WriteByte(':')
			i = ordTree(text, ts, i+2, sorted, &b)
			ms = append(ms, b.String())
		}
		if sorted {
			sort.Strings(ms)
		}
		out.WriteString("{" + strings.Join(ms, ",") + "}")
		return i + 1
	case '[':
		out.WriteByte('[')
		i++
		for ts[i].k != ']' {
			if ts[i].k == ',' {
				out.WriteByte(',')
				i++
			}
			i = ordTree(text, ts, i, sorted, out)
		}
		out.WriteByte(']')
		return i + 1
	}
	out.Write(text[t.s:t.e])
	return i + 1
}

func ordDoc(text []byte, sorted bool) (string, []tokn, bool) {
	if !json.Valid(text) {
		return "", nil, false
	}
	ts, err := tokenize(text)
	if err != nil {
		return "", nil, false
	}
	var b bytes.Buffer
	ordTree(text, ts, 0, sorted, &b)
	return b.String(), ts, true
}

// ordConfs are the configurations every order is tried with.
func ordConfs() (o []encConf) {
	full := fullPalette().colors()
	for _, un := range []bool{false, true} {
		for _, cl := range []*jc.Colors{nil, full} {
			for _, in := range []string{"", " "} {
				o = append(o, encConf{html: !un, unsorted: un, colors: cl, indent: in, trust: in != "" && cl == nil})
			}
		}
	}
	return append(o, encConf{html: false}, encConf{html: true, unsorted: true, prefix: "\t"})
}

// ordModel holds what the outputs of a value must be.
type ordModel struct {
	std  map[bool]string // canonical document, by HTML escaping
	bag  map[bool]string // the same with sorted members
	want map[int]string  // sorted output by configuration
}

func (c *C) ordOne(key, how string, x any, confs []encConf, m *ordModel) {
	p := fullPalette()
	for ki, k := range confs {
		out, err, pan := k.append([]byte{}, x)
		c.State(1)
		c.Trans(1)
		if pan != nil || err != nil {
			c.Fail("error "+key, "%v of %s (%s): %v %v", k, show(x), how, err, pan)
			continue
		}
		if m.std == nil {
			m.std, m.bag, m.want = map[bool]string{}, map[bool]string{}, map[int]string{}
			for _, h := range []bool{false, true} {
				b, e, _ := stdEncode(x, h)
				if e != nil {
					panic(fmt.Sprint("encoding/json: ", e))
				}
				m.std[h] = canonDoc(b)
				var ok bool
				if m.bag[h], _, ok = ordDoc([]byte(m.std[h]), true); !ok {
					panic("model")
				}
			}
		}
		if !k.unsorted {
			if w, ok := m.want[ki]; ok {
				if w != string(out) {
					c.Fail("changes "+key, "%v of %s depends on the iteration order (%s):\n got  %q\n else %q", k, show(x), how, out, w)
				} else {
					c.Valid(1)
				}
				continue
			}
		}
		// The members that come out, in whatever order.
		plain := out
		if k.colors != nil {
			plain = stripper(out)
		}
		doc, ts, ok := ordDoc(plain, false)
		if !ok {
			c.Fail("malformed "+key, "%v of %s (%s): %q", k, show(x), how, out)
			continue
		}
		canon := canonDoc([]byte(doc))
		if k.unsorted {
			if bag, _, _ := ordDoc([]byte(canon), true); bag != m.bag[k.html] {
				c.Fail("members "+key, "%v of %s (%s):\n got  %q\n want a permutation of %q", k, show(x), how, out, m.std[k.html])
				continue
			}
		} else if canon != m.std[k.html] {
			c.Fail("sorted "+key, "%v of %s (%s):\n got  %q\n want %q", k, show(x), how, out, m.std[k.html])
			continue
		}
		want := indented([]byte(doc), k.prefix, k.indent)
		if !bytes.Equal(plain, want) {
			c.Fail("layout "+key, "%v of %s (%s):\n got  %q\n want %q", k, show(x), how, plain, want)
			continue
		}
		if k.colors != nil {
			if w := decorate(plain, ts, nil, p); !bytes.Equal(out, w) {
				c.Fail("colors "+key, "%v of %s (%s):\n got  %q\n want %q", k, show(x), how, out, w)
				continue
			}
		}
		if !k.unsorted {
			m.want[ki] = string(out)
		}
		c.Valid(1)
	}
}

// ordPerms calls f with all permutations of is.
func ordPerms(is []int, f func(p []int)) {
	var rec func(k int)
	rec = func(k int) {
		if k == len(is) {
			f(is)
			return
		}
		for j := k; j < len(is); j++ {
			is[k], is[j] = is[j], is[k]
			rec(k + 1)
			is[k], is[j] = is[j], is[k]
		}
	}
	rec(0)
}

func runC29(c *C) {
	if !mapOrderControlled {
		c.Bound("built without the overlay: iteration orders are the runtime's own random ones")
	}
	confs := ordConfs()
	defer mapOrder(0x12345, 0, 0)
	shapes := ordShapes()
	at := func(seed, entry, dir int) string {
		mapOrder(0x12345+uint64(seed)*0x9e3779b97f4a7c15, uint64(entry), uint64(dir))
		return fmt.Sprintf("seed %d entry %d directory %d", seed, entry, dir)
	}
	// small maps: every insertion order, every rotation, every deletion history
	maxPerm := c.Pick(5, 6)
	for si := range shapes {
		s := &shapes[si]
		for n := 0; n <= maxPerm; n++ {
			for base := 0; base+n <= len(ordStrs); base += c.Pick(3, 1) {
				c.Case(func() string { return fmt.Sprintf("%s: all insertion orders of keys %d..%d", s.name, base, base+n) }, func() {
					is := make([]int, n)
					for i := range is {
						is[i] = base + i
					}
					var m ordModel
					ordPerms(is, func(p []int) {
						for d := -1; d < n && d < 4; d++ {
							var del []int
							if d >= 0 {
								del = []int{100, 101, 102, 103}[:d+1]
							}
							step := 1
							if d >= 0 {
								step = 3
							}
							for r := 0; r < 8; r += step {
								how := at(0, r, 0)
								x := s.mk(p, del)
								c.ordOne(s.name, fmt.Sprintf("insertions %v, deletions %d, %s", p, len(del), how), x, confs, &m)
							}
						}
					})
				})
			}
		}
	}
	c.Bound("maps of up to %d keys: all insertion orders and all rotations", maxPerm)
	// maps of any size: insertions forward, backward and interleaved; hash seeds
	sizes := []int{5, 7, 8, 9, 11, 12, 13, 14, 16, 17, 24, 25, 33, 50, 51, 57, 64, 65, 100, 129, 200, 257, 1000, 1025}
	if c.thorough {
		sizes = append(sizes, 2049, 4097, 10000)
		for n := 5; n < 130; n++ {
			sizes = append(sizes, n)
		}
	}
	for si := range shapes {
		s := &shapes[si]
		for _, n := range sizes {
			if n > s.max {
				continue
			}
			seeds, entries := c.Pick(3, 6), c.Pick(5, 16)
			if n > 300 {
				seeds, entries = 2, 2
			}
			if n > 1024 {
				seeds, entries = 1, 2
			}
			for seed := 0; seed < seeds; seed++ {
				c.Case(func() string { return fmt.Sprintf("%s: %d keys, hash seed %d", s.name, n, seed) }, func() {
					var m ordModel
					for ins := 0; ins < 3; ins++ {
						is := make([]int, n)
						for i := range is {
							switch ins {
							case 0:
								is[i] = i
							case 1:
								is[i] = n - 1 - i
							case 2:
								is[i] = (i * 2) % n
								if n%2 == 0 && i >= n/2 {
									is[i]++
								}
							}
						}
						at(seed, 0, 0)
						var del []int
						if ins == 2 {
							for i := 0; i < n/2; i++ {
								del = append(del, 5000+i)
							}
							if s.max <= 200 {
								del = nil
							}
						}
						x := s.mk(is, del)
						for e := 0; e < entries; e++ {
							for d := 0; d < 2; d++ {
								how := at(seed, e*3, d)
								c.ordOne(s.name, fmt.Sprintf("insertion %d, %s", ins, how), x, confs, &m)
							}
						}
					}
				})
			}
		}
	}
	// what is decoded into maps, and encoded again
	c.scales(c.scaleLim(), func(l leafT) {
		if !strings.Contains(l.name, "map") && !strings.Contains(l.name, "key") {
			return
		}
		c.ordRotations(l)
	})
	// every type with a map in it, under every rotation
	c.universe(2, func(leaf int, ws []int) bool { return true }, func(d int) int { return c.Pick(4, 8) }, func(l leafT) {
		if strings.Contains(l.name, "map") || strings.Contains(l.name, "Map") {
			c.ordRotations(l)
		}
	})
}

// ordRotations compares the sorted outputs of the values of a type under all
// rotations of their maps.
func (c *C) ordRotations(l leafT) {
	for i, v := range l.vals {
		x := v.Interface()
		for _, k := range []encConf{{html: true}, {indent: " ", colors: fullPalette().colors()}} {
			var first []byte
			var ferr error
			var fpan any
			for r := 0; r < 8; r++ {
				mapOrder(0x12345, uint64(r), 0)
				out, err, pan := k.append([]byte{}, x)
				c.State(1)
				c.Trans(1)
				if r == 0 {
					first, ferr, fpan = out, err, pan
					continue
				}
				if pan != nil || fpan != nil {
					if !bothPanic(pan, fpan) {
						c.Fail("panic "+typeKey(l, i), "%v of %s panics or not, depending on the iteration order: %v, %v", k, show(x), fpan, pan)
					}
					continue
				}
				if (err == nil) != (ferr == nil) {
					c.Fail("error "+typeKey(l, i), "%v of %s fails or not, depending on the iteration order: %v, %v", k, show(x), ferr, err)
					continue
				}
				if err == nil && !bytes.Equal(out, first) {
					c.Fail("changes "+typeKey(l, i), "%v of %s depends on the iteration order:\n got  %q\n else %q", k, show(x), out, first)
					continue
				}
				c.Valid(1)
			}
		}
	}
}
