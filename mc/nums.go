package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"math"
	"math/big"
	"reflect"
	"strconv"
	"strings"
	"time"

	jc "github.com/neilotoole/jsoncolor"
)

func init() {
	register(&check{id: "C23", rule: "every integer of 8 and 16 bits, every value near a power of 2 or 10 for the wider types, every short number-like text and long literals, in every position that takes a number (top level, element, member, pointer, array, map key, ,string member, interface); every float32/float64 of a mantissa pattern for all exponents, and the exact midpoints between neighbouring floats; encoded and decoded in lock-step with encoding/json", run: runC23})
}

// numPos decodes and encodes a number of type t at some position.
type numPos struct {
	name string
	text func(lit string) string
	mk   func(t reflect.Type) reflect.Type
	get  func(v reflect.Value) reflect.Value // the number in a value of the type; may be absent
	set  func(v reflect.Value, n reflect.Value)
	key  bool // the number is a map key
}

func numPositions() []numPos {
	id := func(v reflect.Value) reflect.Value { return v }
	field := func(name, tag string) numPos {
		return numPos{name: name, text: func(l string) string { return `{"a":` + l + `}` },
			mk: func(t reflect.Type) reflect.Type {
				return reflect.StructOf([]reflect.StructField{sf("B", reflect.TypeOf(uint8(0)), `json:"b"`), sf("A", t, tag), sf("C", reflect.TypeOf(uint64(0)), `json:"c"`)})
			},
			get: func(v reflect.Value) reflect.Value { return v.Field(1) },
			set: func(v, n reflect.Value) { v.Field(1).Set(n) }}
	}
	str := field("string member", `json:"a,string"`)
	str.text = func(l string) string { return `{"a":"` + l + `"}` }
	return []numPos{
		{name: "top", text: same, mk: func(t reflect.Type) reflect.Type { return t }, get: id, set: func(v, n reflect.Value) { v.Set(n) }},
		{name: "element", text: func(l string) string { return `[` + l + `]` }, mk: reflect.SliceOf,
			get: func(v reflect.Value) reflect.Value {
				if v.Len() == 0 {
					return reflect.Value{}
				}
				return v.Index(0)
			},
			set: func(v, n reflect.Value) { v.Set(reflect.Append(v, n)) }},
		{name: "array", text: func(l string) string { return `[` + l + `]` }, mk: func(t reflect.Type) reflect.Type { return reflect.ArrayOf(2, t) },
			get: func(v reflect.Value) reflect.Value { return v.Index(0) }, set: func(v, n reflect.Value) { v.Index(0).Set(n) }},
		field("member", `json:"a"`), str,
		{name: "map value", text: func(l string) string { return `{"k":` + l + `}` }, mk: func(t reflect.Type) reflect.Type { return reflect.MapOf(reflect.TypeOf(""), t) },
			get: func(v reflect.Value) reflect.Value { return v.MapIndex(reflect.ValueOf("k")) },
			set: func(v, n reflect.Value) { v.Set(reflect.MakeMap(v.Type())); v.SetMapIndex(reflect.ValueOf("k"), n) }},
		{name: "pointer", text: same, mk: reflect.PointerTo, get: func(v reflect.Value) reflect.Value { return v.Elem() }, set: func(v, n reflect.Value) { v.Set(ptrTo(n)) }},
		{name: "map key", key: true, text: func(l string) string { return `{"` + l + `":0}` }, mk: func(t reflect.Type) reflect.Type { return reflect.MapOf(t, reflect.TypeOf(0)) },
			get: func(v reflect.Value) reflect.Value {
				if v.Len() == 0 {
					return reflect.Value{}
				}
				return v.MapKeys()[0]
			},
			set: func(v, n reflect.Value) { v.Set(reflect.MakeMap(v.Type())); v.SetMapIndex(n, reflect.ValueOf(0)) }},
	}
}

func numTypes() (ints, floats []reflect.Type) {
	for _, x := range []any{int8(0), int16(0), int32(0), int64(0), int(0), uint8(0), uint16(0), uint32(0), uint64(0), uint(0), uintptr(0), NInt(0), time.Duration(0)} {
		ints = append(ints, reflect.TypeOf(x))
	}
	return ints, []reflect.Type{reflect.TypeOf(float32(0)), reflect.TypeOf(float64(0))}
}

func runC23(c *C) {
	ints, floats := numTypes()
	poss := numPositions()
	sentinel := func(t reflect.Type) reflect.Value {
		v := reflect.New(t).Elem()
		switch {
		case v.CanInt():
			v.SetInt(42)
		case v.CanUint():
			v.SetUint(42)
		case v.CanFloat():
			v.SetFloat(42.5)
		case v.Kind() == reflect.String:
			v.SetString("42")
		}
		return v
	}
	decode := func(p *numPos, t reflect.Type, lit string) {
		c.State(1)
		c.Trans(1)
		text := p.text(lit)
		pt := p.mk(t)
		a, b := reflect.New(pt), reflect.New(pt)
		if !p.key {
			p.set(a.Elem(), sentinel(t))
			p.set(b.Elem(), sentinel(t))
		}
		je, se, jp, _ := unmarshal2(text, a.Interface(), b.Interface())
		if jp != nil {
			c.Fail("panic "+p.name+" "+t.String()+" "+clip(lit, 60), "Unmarshal(%q) into %v: panic %v", clip(text, 200), pt, jp)
			return
		}
		if (je != nil) != (se != nil) {
			if t == durT && je == nil && hasDurString(text) || p.name == "string member" && t == numberT && se == nil {
				return
			}
			c.Fail("error "+p.name+" "+t.String()+" "+clip(lit, 60), "Unmarshal(%q) into %v: %v, encoding/json: %v", clip(text, 200), pt, je, se)
			return
		}
		if je != nil {
			if !stdValid(text) {
				return
			}
			// the number must be as it was
			if p.key && a.Elem().Len() != 0 {
				c.Fail("changed "+p.name+" "+t.String()+" "+clip(lit, 60), "Unmarshal(%q) into %v fails with %v, leaving %s", clip(text, 200), pt, je, dump(a))
			} else if !p.key {
				g := p.get(a.Elem())
				// slices and maps may have been given a new element, which must not hold a part of the number
				if g.IsValid() && !g.Equal(sentinel(t)) && (!g.IsZero() || p.name == "top" || p.name == "member" || p.name == "pointer" || p.name == "string member") {
					c.Fail("changed "+p.name+" "+t.String()+" "+clip(lit, 60), "Unmarshal(%q) into %v fails with %v, leaving %s", clip(text, 200), pt, je, dump(a))
				}
			}
			return
		}
		c.Valid(1)
		if !decSame(a.Elem(), b.Elem()) {
			c.Fail("value "+p.name+" "+t.String()+" "+clip(lit, 60), "Unmarshal(%q) into %v: %s, encoding/json: %s", clip(text, 200), pt, dump(a), dump(b))
		}
	}
	var buf []byte
	encode := func(p *numPos, n reflect.Value) {
		c.State(1)
		c.Trans(1)
		pv := reflect.New(p.mk(n.Type())).Elem()
		p.set(pv, n)
		x := pv.Interface()
		var err error
		pan := catch(func() { buf, err = jc.Append(buf[:0], x, jc.EscapeHTML|jc.SortMapKeys, nil, nil) })
		want, serr := json.Marshal(x)
		if pan != nil || (err != nil) != (serr != nil) || err == nil && !bytes.Equal(buf, want) {
			c.Fail("encode "+p.name+" "+n.Type().String()+" "+string(want), "encoding %#v: %s %v %v, encoding/json: %s %v", x, buf, err, pan, want, serr)
			return
		}
		if err != nil {
			return
		}
		back := reflect.New(pv.Type())
		if err := jc.Unmarshal(buf, back.Interface()); err != nil || !decSame(back.Elem(), pv) {
			c.Fail("back "+p.name+" "+n.Type().String()+" "+string(want), "decoding %s into %v: %s %v, it encodes %#v", buf, pv.Type(), dump(back), err, x)
			return
		}
		c.Valid(1)
	}

	// integers near powers of 2 and 10, repeated digits
	var pool []*big.Int
	poolSeen := map[string]bool{}
	put := func(x *big.Int) {
		for _, y := range []*big.Int{x, new(big.Int).Neg(x)} {
			if s := y.String(); !poolSeen[s] {
				poolSeen[s] = true
				pool = append(pool, y)
			}
		}
	}
	dmax := int64(c.Pick(10, 60))
	for k := uint(0); k <= 66; k++ {
		for d := -dmax; d <= dmax; d++ {
			put(new(big.Int).Add(new(big.Int).Lsh(big.NewInt(1), k), big.NewInt(d)))
		}
	}
	ten := big.NewInt(1)
	for k := 0; k <= 22; k++ {
		for d := -dmax; d <= dmax; d++ {
			put(new(big.Int).Add(ten, big.NewInt(d)))
			for m := int64(2); m <= 9; m++ {
				put(new(big.Int).Add(new(big.Int).Mul(ten, big.NewInt(m)), big.NewInt(d)))
			}
		}
		for dg := int64(1); dg <= 9; dg++ {
			x, _ := new(big.Int).SetString(rep(strconv.FormatInt(dg, 10), k+1), 10)
			put(x)
		}
		ten = new(big.Int).Mul(ten, big.NewInt(10))
	}
	// every digit of the extreme values replaced by every digit, and one more digit
	for _, ext := range []string{"9223372036854775807", "9223372036854775808", "18446744073709551615", "2147483647", "2147483648", "4294967295", "32767", "32768", "65535", "127", "128", "255"} {
		for i := range ext {
			for dg := '0'; dg <= '9'; dg++ {
				x, _ := new(big.Int).SetString(ext[:i]+string(dg)+ext[i+1:], 10)
				put(x)
				x, _ = new(big.Int).SetString(ext[:i]+string(dg)+ext[i:], 10)
				put(x)
			}
		}
		for dg := '0'; dg <= '9'; dg++ {
			x, _ := new(big.Int).SetString(ext+string(dg), 10)
			put(x)
		}
	}
	for lo := 0; lo < len(pool); lo += 200 {
		c.Case(func() string { return fmt.Sprintf("integers near powers from %v", pool[lo]) }, func() {
			for i := lo; i < lo+200 && i < len(pool); i++ {
				s := pool[i].String()
				for pi := range poss {
					p := &poss[pi]
					for _, t := range ints {
						decode(p, t, s)
						n := reflect.New(t).Elem()
						if n.CanInt() && pool[i].IsInt64() && !n.OverflowInt(pool[i].Int64()) {
							n.SetInt(pool[i].Int64())
							encode(p, n)
						} else if n.CanUint() && pool[i].IsUint64() && !n.OverflowUint(pool[i].Uint64()) {
							n.SetUint(pool[i].Uint64())
							encode(p, n)
						}
					}
					if !p.key {
						for _, t := range floats {
							decode(p, t, s)
						}
						decode(p, numberT, s)
						decode(p, anyT, s)
					}
				}
			}
		})
	}
	// every 16-bit and 8-bit integer and what lies just outside
	for lo := -70000; lo < 70000; lo += 2000 {
		c.Case(func() string { return fmt.Sprintf("integers from %d", lo) }, func() {
			for i := lo; i < lo+2000; i++ {
				s := strconv.Itoa(i)
				for ti, t := range ints {
					for pi := range poss {
						if pi > 0 && pi != 7 && (i%7 != 0 || ti > 6) && !c.thorough {
							continue
						}
						if t.Bits() <= 16 || pi == 0 {
							decode(&poss[pi], t, s)
							n := reflect.New(t).Elem()
							if n.CanInt() && !n.OverflowInt(int64(i)) {
								n.SetInt(int64(i))
								encode(&poss[pi], n)
							} else if n.CanUint() && i >= 0 && !n.OverflowUint(uint64(i)) {
								n.SetUint(uint64(i))
								encode(&poss[pi], n)
							}
						}
					}
				}
			}
		})
	}
	// every short number-like text
	alpha := []string{"0", "1", "9", "-", "+", ".", "e", "E", " ", "5", "_", "x", "N"}
	all := append(append([]reflect.Type{}, ints...), floats...)
	c.batches("number-like texts", alpha, 1, c.Pick(4, 5), 1, same, func(s string) {
		for pi := range poss {
			p := &poss[pi]
			for _, t := range all {
				if p.key && (t.Kind() == reflect.Float32 || t.Kind() == reflect.Float64) || pi != 0 && pi != 4 && pi != 7 && len(s) > 3 && !c.thorough {
					continue
				}
				if t.Kind() == reflect.Int16 || t.Kind() == reflect.Uint16 || t.Kind() == reflect.Uint || t.Kind() == reflect.Int32 {
					continue
				}
				decode(p, t, s)
			}
			if !p.key && p.name != "string member" {
				decode(p, numberT, s)
			}
		}
		// the same text as a Number value
		n := json.Number(s)
		for _, x := range []any{n, []json.Number{n}, map[string]any{"k": n}, struct {
			A json.Number `json:"a,omitempty"`
			B *json.Number
		}{n, &n}, struct {
			A json.Number `json:",string"`
		}{n}} {
			c.Trans(1)
			var out []byte
			var err error
			pan := catch(func() { out, err = jc.Append(nil, x, jc.SortMapKeys, nil, nil) })
			want, serr, _ := stdEncode(x, false)
			if pan != nil || (err != nil) != (serr != nil) || err == nil && !bytes.Equal(out, want) {
				c.Fail("Number "+s, "encoding %#v: %s %v %v, encoding/json: %s %v", x, out, err, pan, want, serr)
			}
			c.Valid(1)
		}
	})
	c.batches("digits and dots", []string{"0", "1", "9", "-", ".", "e", "+"}, 5, c.Pick(7, 8), 2, same, func(s string) {
		for _, t := range []reflect.Type{reflect.TypeOf(int8(0)), reflect.TypeOf(uint64(0)), reflect.TypeOf(int(0)), floats[0], floats[1], numberT} {
			decode(&poss[0], t, s)
		}
	})
	// long and extreme literals
	var long []string
	for _, n := range []int{17, 18, 19, 20, 21, 22, 38, 39, 40, 50, 100, 307, 308, 309, 310, 400, 1000} {
		for _, d := range []string{"1", "9", "0"} {
			long = append(long, rep(d, n), "-"+rep(d, n), "1"+rep(d, n-1), "0."+rep(d, n), "0."+rep(d, n)+"1", "1."+rep(d, n)+"e5", "1e"+rep(d, n), "1e-"+rep(d, n), "0e"+rep(d, n), rep(d, n)+"e-"+strconv.Itoa(n), "-0."+rep("0", n)+d+"E+"+strconv.Itoa(n))
		}
	}
	for e := -400; e <= 400; e++ {
		for _, m := range []string{"1", "9.999999999999999", "1.7976931348623157", "1.7976931348623159", "4.9", "2.4703282292062327", "2.4703282292062328", "3.4028235", "3.4028236", "3.40282356779733", "3.40282356779734", "1.4", "0.7", "7.0064923216240853", "7.0064923216240854", "0"} {
			long = append(long, m+"e"+strconv.Itoa(e), "-"+m+"E"+fmt.Sprintf("%+d", e))
		}
	}
	for lo := 0; lo < len(long); lo += 300 {
		c.Case(func() string { return fmt.Sprintf("literals from %s", clip(long[lo], 60)) }, func() {
			for i := lo; i < lo+300 && i < len(long); i++ {
				for pi := range poss {
					for _, t := range []reflect.Type{floats[0], floats[1], ints[3], ints[8], numberT, anyT} {
						if pi == 7 || pi == 4 && (t == anyT || t == numberT) {
							continue
						}
						decode(&poss[pi], t, long[i])
					}
				}
			}
		})
	}
	// floats: all exponents with mantissa patterns
	mant := func(bits uint) (ms []uint64) {
		seen := map[uint64]bool{}
		add := func(m uint64) {
			m &= 1<<bits - 1
			if !seen[m] {
				seen[m] = true
				ms = append(ms, m)
			}
		}
		full := uint64(1)<<bits - 1
		for i := uint(0); i < bits; i++ {
			add(1 << i)
			add(1<<i - 1)
			add(full ^ 1<<i)
			add(full << i)
		}
		for v := uint64(0); v < uint64(c.Pick(16, 64)); v++ {
			add(v)
			add(full - v)
			add(v << (bits - 6))
		}
		add(0x5555555555555555)
		add(0x3333333333333333)
		add(0x9999999999999)
		return ms
	}
	nearMid := func(f, g *big.Float) (lits []string) {
		m := new(big.Float).SetPrec(2000).Add(f, g)
		m.Quo(m, big.NewFloat(2))
		s := m.Text('e', -1)
		// exact decimal expansion of the midpoint, then one more digit either way
		k := strings.IndexByte(s, 'e')
		digits, exp := s[:k], s[k:]
		if !strings.Contains(digits, ".") {
			digits += ".0"
		}
		lits = append(lits, digits+exp, digits+"1"+exp)
		if j := len(digits) - 1; digits[j] > '0' {
			lits = append(lits, digits[:j]+string(digits[j]-1)+"9"+exp)
		}
		return
	}
	m64, m32 := mant(52), mant(23)
	for exp := 0; exp < 2048; exp += 8 {
		c.Case(func() string { return fmt.Sprintf("float64 of exponents from %d", exp) }, func() {
			for e := exp; e < exp+8; e++ {
				for mi, m := range m64 {
					for sign := uint64(0); sign < 2; sign++ {
						f := math.Float64frombits(sign<<63 | uint64(e)<<52 | m)
						encode(&poss[0], reflect.ValueOf(f))
						if mi < 6 {
							for pi := 1; pi < 7; pi++ {
								encode(&poss[pi], reflect.ValueOf(f))
							}
						}
						if sign == 0 && e < 2046 && (mi%16 == 0 || c.thorough && e%4 == 0) {
							a, b := new(big.Float).SetFloat64(f), new(big.Float).SetFloat64(math.Nextafter(f, math.Inf(1)))
							for _, l := range nearMid(a, b) {
								decode(&poss[0], floats[1], l)
							}
						}
					}
				}
			}
		})
	}
	for exp := 0; exp < 256; exp++ {
		c.Case(func() string { return fmt.Sprintf("float32 of exponent %d", exp) }, func() {
			do := func(m uint32, pos bool) {
				for sign := uint32(0); sign < 2; sign++ {
					f := math.Float32frombits(sign<<31 | uint32(exp)<<23 | m)
					encode(&poss[0], reflect.ValueOf(f))
					if pos {
						for pi := 1; pi < 7; pi++ {
							encode(&poss[pi], reflect.ValueOf(f))
						}
						if exp < 254 && sign == 0 {
							a, b := new(big.Float).SetFloat64(float64(f)), new(big.Float).SetFloat64(float64(math.Nextafter32(f, math.MaxFloat32)))
							for _, l := range nearMid(a, b) {
								decode(&poss[0], floats[0], l)
							}
						}
					}
				}
			}
			for _, m := range m32 {
				do(uint32(m), true)
			}
			step := uint32(c.Pick(1<<11, 1<<7))
			for m := uint32(0); m < 1<<23; m += step {
				do(m, false)
			}
		})
	}
	// decimal powers and their neighbours, where the spelling changes between plain and exponent form
	c.Case(func() string { return "floats near powers of ten" }, func() {
		for e := -330; e <= 308; e++ {
			for _, m := range []float64{1, 2, 5, 9, 1.5, 9.99, 1.23456789} {
				f, _ := strconv.ParseFloat(fmt.Sprintf("%ge%d", m, e), 64)
				for _, x := range []float64{f, math.Nextafter(f, 0), math.Nextafter(f, math.Inf(1)), -f} {
					for pi := 0; pi < 7; pi++ {
						encode(&poss[pi], reflect.ValueOf(x))
						y := float32(x)
						encode(&poss[pi], reflect.ValueOf(y))
						encode(&poss[pi], reflect.ValueOf(math.Nextafter32(y, 0)))
					}
				}
			}
		}
	})
	c.Case(func() string { return "NaN and infinities" }, func() {
		type emb struct{ F float64 }
		for _, f := range []float64{math.NaN(), math.Inf(1), math.Inf(-1), math.Float64frombits(0x7ff0000000000001), math.Float64frombits(0xfff8000000000000)} {
			g := float32(f)
			for _, x := range []any{f, g, &f, &g, []float64{1, f}, []float32{g}, [2]float64{f}, map[string]float64{"a": f}, map[string]any{"a": g}, []any{f}, emb{f}, &emb{f}, struct {
				A float64 `json:",string"`
			}{f}, struct {
				A float32 `json:",omitempty"`
				emb
			}{A: g}, map[string][]emb{"x": {{f}}}} {
				for _, clrs := range []*jc.Colors{nil, jc.DefaultColors()} {
					c.Trans(1)
					var out []byte
					var err error
					pan := catch(func() { out, err = jc.Append(nil, x, 0, clrs, nil) })
					var uv *json.UnsupportedValueError
					if pan != nil || err == nil || !errors.As(err, &uv) {
						c.Fail("nan", "encoding %#v: %s %v %v, want an UnsupportedValueError", x, out, err, pan)
					}
				}
			}
		}
	})
	c.Bound("%d integers near powers, all of 16 bits, %d mantissa patterns of float64, %d+%d of float32", len(pool), len(m64), len(m32), 1<<23/c.Pick(1<<11, 1<<7))
}
