package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"reflect"
	"runtime"
	"strings"

	jc "github.com/neilotoole/jsoncolor"
)

// C32: user code that fails, at every point where the package calls it: methods
// of values and destinations, Readers and Writers panic, end their goroutine,
// return an error, use the package themselves, or modify the value they belong to.

func init() {
	register(&check{
		id:   "C32",
		rule: "every type with user methods, under every type constructor x every call of a user method x every way it can fail (panic with a string, an error, a runtime error; runtime.Goexit; error; calls back into the package, some of which fail in turn), in Append, Encoder, Marshal, Unmarshal and Decoder; Readers and Writers that fail in these ways at every offset; encoding/json with the same failures is the model of the outcome, and everything done afterwards, with the same Encoder, Decoder and pools, must come out as if the failure had not been",
		run:  runC32})
}

type faultError struct{ s string }

func (e *faultError) Error() string { return e.s }

var errFault = &faultError{"the fault"}

type faultPanic struct{ n int }

var thePanic = &faultPanic{7}

type faultKind struct {
	name string
	f    func() error
	fine bool // the call succeeds all the same
}

func faultKinds(c *C) []faultKind {
	var nilp *int
	return []faultKind{
		{name: "panic", f: func() error { panic(thePanic) }},
		{name: "error", f: func() error { return errFault }},
		{name: "goexit", f: func() error { runtime.Goexit(); return nil }},
		{name: "panic with an error", f: func() error { panic(error(errFault)) }},
		{name: "runtime error", f: func() error { *nilp = 1; return nil }},
		{name: "use of the package", fine: true, f: func() error { c.faultNested(); return nil }},
		{name: "panic after use of the package", f: func() error { c.faultNested(); panic(thePanic) }},
	}
}

// outcome is how a call ended.
type outcome struct {
	err  error
	pan  any
	gone bool // by Goexit
}

func (o outcome) class() string {
	switch {
	case o.gone:
		return "goroutine ended"
	case o.pan == any(thePanic):
		return "the panic"
	case o.pan == any(error(errFault)):
		return "the panic with an error"
	case o.pan != nil:
		if _, ok := o.pan.(runtime.Error); ok {
			return "runtime error"
		}
		return fmt.Sprintf("another panic: %v", o.pan)
	case o.err == io.EOF:
		return "EOF"
	case o.err != nil:
		return "error"
	}
	return "nil"
}

func ending(f func() error) (o outcome) {
	done := make(chan struct{})
	go func() {
		returned := false
		defer close(done)
		defer func() {
			if !returned {
				if o.pan = recover(); o.pan == nil {
					o.gone = true
				}
			}
		}()
		o.err = f()
		returned = true
	}()
	<-done
	return
}

// canaries are encoded and decoded to see whether anything is left over.
type faultCanary struct {
	x    any
	conf encConf
	want string
}

var canaries []faultCanary
var canaryDocs []struct {
	text string
	t    reflect.Type
	want reflect.Value
}

func faultCanaries() {
	if canaries != nil {
		return
	}
	n := 3
	s := func(s string) *string { return &s }
	full := fullPalette().colors()
	for _, x := range []any{
		map[string]any{"b": 1, "a": []any{"x", nil, map[string]any{"z": 1.5, "y": "<"}}, "c": GcJ{s("m")}},
		map[string]string{"k": "v", "j": "w", "": "empty"},
		map[string]json.RawMessage{"r": json.RawMessage(`[1, {"a":2}]`), "q": json.RawMessage(`null`)},
		map[int]*int{3: &n, 1: nil}, map[GcKS]GcT{{"2"}: {s("x")}, {"1"}: {}},
		gcAround{A: "a", B: s("b"), K: &GcJP{"k", &n}, D: map[string]any{"d": 1}}, []string{rep("long ", 300), "short"}, "<plain>", 12, []any{},
	} {
		for i, k := range []encConf{{html: true}, {indent: "  ", colors: full}, {prefix: ">", indent: "\t"}} {
			out, err, pan := k.append(nil, x)
			if err != nil || pan != nil {
				panic(fmt.Sprint(err, pan))
			}
			if i == 0 {
				if w, _, _ := stdEncode(x, true); canonDoc(w) != canonDoc(out) {
					continue // judged by C01
				}
			}
			canaries = append(canaries, faultCanary{x, k, memFresh(string(out))})
		}
	}
	for _, d := range []struct {
		s string
		x any
	}{
		{`{"a":[1,{"b":"\u00e9"}],"c":null}`, new(any)}, {`{"A":"x","J":{"j":1},"B":"b","T":{"k1":"v"},"D":{"d":[1]}}`, new(gcAround)},
		{`{"b":"2","a":"1"}`, new(map[string]string)}, {`["x","yy","` + rep("z", 300) + `"]`, new([]string)}, {`{"x":{"y":1}}`, new(map[string]json.RawMessage)}, {`12`, new(int)},
	} {
		if json.Unmarshal([]byte(d.s), d.x) != nil {
			panic(d.s)
		}
		canaryDocs = append(canaryDocs, struct {
			text string
			t    reflect.Type
			want reflect.Value
		}{d.s, reflect.TypeOf(d.x).Elem(), reflect.ValueOf(d.x).Elem()})
	}
}

// after checks that nothing is left of a failure.
func (c *C) faultAfter(key string, desc func() string) bool {
	f := memFault
	memFault, memAt = nil, 0
	defer func() { memFault = f }()
	outs := make([][]byte, len(canaries))
	for i, k := range canaries {
		out, err, pan := k.conf.append(nil, k.x)
		if err != nil || pan != nil {
			c.Fail("after "+key, "%s: afterwards %v of %s: %v %v", desc(), k.conf, show(k.x), err, pan)
			return false
		}
		outs[i] = out
	}
	for i, k := range canaries {
		if string(outs[i]) != k.want {
			c.Fail("after "+key, "%s: afterwards %v of %s:\n got  %q\n want %q", desc(), k.conf, show(k.x), clip(string(outs[i]), 600), clip(k.want, 600))
			return false
		}
	}
	for _, d := range canaryDocs {
		x := reflect.New(d.t)
		var err error
		pan := catch(func() { err = jc.Unmarshal([]byte(d.text), x.Interface()) })
		if err != nil || pan != nil || !decSame(x.Elem(), d.want) {
			c.Fail("after "+key, "%s: afterwards Unmarshal(%q) into %v: %v %v %s", desc(), clip(d.text, 300), d.t, err, pan, dump(x))
			return false
		}
	}
	c.Valid(1)
	return true
}

// faultNested is what user methods do with the package when they use it.
func (c *C) faultNested() {
	f, at, calls := memFault, memAt, memCalls
	defer func() { memFault, memAt, memCalls = f, at, calls }()
	memFault, memAt = nil, 0
	c.faultAfter("nested use", func() string { return "inside a user method" })
	// calls that fail, and are recovered from
	bad := GcJ{}
	for _, f := range []func() error{func() error { panic(thePanic) }, func() error { return errFault }} {
		memFault, memAt, memCalls = f, 1, 0
		catch(func() { jc.Marshal(map[string]any{"z": 1, "a": []any{bad}, "b": map[string]string{"x": "y"}}) })
		memCalls = 0
		catch(func() {
			e := jc.NewEncoder(io.Discard)
			e.SetIndent("", " ")
			e.Encode([]any{map[GcKS]int{{"x"}: 1}})
		})
		memCalls = 0
		catch(func() { jc.Unmarshal([]byte(`{"a":[{"b":1}]}`), &map[string][]GcJ{}) })
	}
	memFault, memAt = nil, 0
	c.faultAfter("nested failure", func() string { return "inside a user method, after calls that failed" })
}

// faultEnc encodes with a failure in the at-th call of a user method.
func (c *C) faultEnc(l leafT, kinds []faultKind, points int, confs []encConf) {
	for i, v := range l.vals {
		x := v.Interface()
		memFault = nil
		memArm(0)
		if out, err, pan := stdEncode(x, true); err != nil || pan != nil || out == nil {
			continue
		}
		for _, k := range confs {
			memArm(0)
			cleanB, err, pan := k.append(nil, x)
			if err != nil || pan != nil {
				continue // judged by C01
			}
			clean := string(cleanB) + "\n"
			calls := memCalls
			same := func(out string, n int) bool { return out == strings.Repeat(clean, n) }
			if k.unsorted {
				w, _, _ := ordDoc([]byte(canonDoc(cleanB)), true)
				same = func(out string, n int) bool {
					ls := strings.SplitAfter(out, "\n")
					if len(ls) != n+1 || ls[n] != "" {
						return false
					}
					for _, s := range ls[:n] {
						if g, _, _ := ordDoc([]byte(canonDoc([]byte(s))), true); g != w {
							return false
						}
					}
					return true
				}
			}
			for at := 1; at <= calls && at <= points; at++ {
				for _, fk := range kinds {
					key := fmt.Sprintf("%s %s", fk.name, typeKey(l, i))
					desc := func(op string) func() string {
						return func() string {
							return fmt.Sprintf("%s (%v) of %s with %s in call %d of its methods", op, k, show(x), fk.name, at)
						}
					}
					check := func(op string, o, want outcome) bool {
						c.Trans(1)
						c.State(1)
						if o.class() != want.class() || o.class() == "error" && !strings.Contains(o.err.Error(), "the fault") {
							c.Fail("outcome "+key, "%s: %s (%v), encoding/json %s (%v)", desc(op)(), o.class(), o.err, want.class(), want.err)
							return false
						}
						return true
					}
					arm := func() { memFault = fk.f; memArm(at) }
					want := outcome{}
					if !fk.fine {
						want = ending(fk.f) // how the method's call ends
					}
					var buf bytes.Buffer
					enc := k.encoder(&buf)
					n := 1
					memArm(0)
					o := ending(func() error { return enc.Encode(x) })
					if !check("Encoder", o, outcome{}) {
						return
					}
					arm()
					if !check("Encoder", ending(func() error { return enc.Encode(x) }), want) {
						return
					}
					if fk.fine {
						n++
					}
					memArm(0)
					for j := 0; j < 2; j++ {
						n++
						if !check("Encoder after the fault", ending(func() error { return enc.Encode(x) }), outcome{}) {
							return
						}
					}
					if !same(buf.String(), n) {
						c.Fail("stream "+key, "%s: of %d values with a failure in the second the stream is\n got  %q\n want %d x %q", desc("Encoder")(), n, clip(buf.String(), 900), n, clip(clean, 300))
						return
					}
					if !c.faultAfter(key, desc("Encoder")) {
						return
					}
					dst := append(make([]byte, 0, 4+len(clean)/2), "dst:"...)
					var out []byte
					arm()
					if !check("Append", ending(func() (err error) { out, err = jc.Append(dst, x, k.flags(), k.colors, nil); return }), want) {
						return
					}
					memArm(0)
					if string(dst) != "dst:" || fk.fine && k.indent == "" && k.prefix == "" && !same(strings.TrimPrefix(string(out), "dst:")+"\n", 1) {
						c.Fail("append "+key, "%s: %q, the slice before is now %q", desc("Append")(), out, dst)
						return
					}
					arm()
					if !check("Marshal", ending(func() (err error) { _, err = jc.Marshal(x); return }), want) {
						return
					}
					memArm(0)
					if !c.faultAfter(key, desc("Append and Marshal")) {
						return
					}
				}
			}
		}
	}
	memFault = nil
	memArm(0)
}

// faultDec decodes with a failure in the at-th call of a user method.
func (c *C) faultDec(l leafT, kinds []faultKind, nd, points int) {
	if !decodable(l) {
		return
	}
	odd := mentions(l.t, isDur) || mentions(l.t, quotedOdd)
	for _, d := range append(docsOf(l, nd, 400), `null`) {
		memFault = nil
		memArm(0)
		var se error
		if catch(func() { se = json.Unmarshal([]byte(d), reflect.New(l.t).Interface()) }) != nil || se != nil && odd {
			continue
		}
		calls := memCalls
		if calls == 0 {
			continue
		}
		text := d + " " + d + "\n" + d + ` {"z":1}`
		for at := 1; at <= calls*2 && at <= points; at++ {
			for _, fk := range kinds {
				key := fmt.Sprintf("%s decoding %s", fk.name, l.name)
				desc := func() string {
					return fmt.Sprintf("decoding %q into %v with %s in call %d of its methods", clip(text, 300), l.t, fk.name, at)
				}
				arm := func() { memFault = fk.f; memArm(at) }
				if at <= calls {
					arm()
					a, b := reflect.New(l.t), reflect.New(l.t)
					o := ending(func() error { return jc.Unmarshal([]byte(d), a.Interface()) })
					arm()
					w := ending(func() error { return json.Unmarshal([]byte(d), b.Interface()) })
					memArm(0)
					c.Trans(1)
					c.State(1)
					if o.class() != w.class() || w.err == error(errFault) && !errors.Is(o.err, errFault) {
						c.Fail("outcome "+key, "Unmarshal %s: %s (%v), encoding/json %s (%v)", desc(), o.class(), o.err, w.class(), w.err)
						return
					}
					if w.class() == "nil" && !decSame(a.Elem(), b.Elem()) {
						c.Fail("value "+key, "Unmarshal %s:\n got  %s\n want %s", desc(), dump(a), dump(b))
						return
					}
				}
				jd, sd := jc.NewDecoder(strings.NewReader(text)), json.NewDecoder(strings.NewReader(text))
				arm()
				jn := memCalls
				sn := memCalls
				for i := 0; i < 5; i++ {
					var a, b reflect.Value
					if i == 3 {
						a, b = reflect.New(anyT), reflect.New(anyT)
					} else {
						a, b = reflect.New(l.t), reflect.New(l.t)
					}
					memCalls = jn
					o := ending(func() error { return jd.Decode(a.Interface()) })
					jn, memCalls = memCalls, sn
					w := ending(func() error { return sd.Decode(b.Interface()) })
					sn = memCalls
					c.Trans(1)
					if o.class() != w.class() || w.err == error(errFault) && !errors.Is(o.err, errFault) {
						c.Fail("outcome "+key, "Decode %d %s: %s (%v), encoding/json %s (%v)", i, desc(), o.class(), o.err, w.class(), w.err)
						return
					}
					if w.class() == "nil" && !decSame(a.Elem(), b.Elem()) {
						c.Fail("value "+key, "Decode %d %s:\n got  %s\n want %s", i, desc(), dump(a), dump(b))
						return
					}
					if w.class() == "EOF" {
						continue
					}
					off := int(jd.InputOffset())
					buf, _ := io.ReadAll(jd.Buffered())
					if s := int(sd.InputOffset()); off > len(text) || off < s || strings.Trim(text[s:off], " \n") != "" || text[off:off+len(buf)] != string(buf) || off+len(buf) != len(text) {
						c.Fail("offset "+key, "Decode %d %s: offset %d, buffered %q, encoding/json's offset %d", i, desc(), off, buf, s)
						return
					}
				}
				memArm(0)
				if !c.faultAfter(key, desc) {
					return
				}
			}
		}
	}
	memFault = nil
	memArm(0)
}

// faultReader fails once, when at bytes have been read, having spoilt the buffer.
type faultReader struct {
	text    string
	off, at int
	step    int
	f       func() error
}

func (r *faultReader) Read(p []byte) (int, error) {
	if r.f != nil && r.off == r.at {
		f := r.f
		r.f = nil
		for i := range p {
			p[i] = "]x"[i&1]
		}
		if err := f(); err != nil {
			return 0, err
		}
		return 0, nil
	}
	if r.off == len(r.text) {
		return 0, io.EOF
	}
	n := min(len(p), r.step, len(r.text)-r.off)
	if r.f != nil && r.off < r.at {
		n = min(n, r.at-r.off)
	}
	copy(p, r.text[r.off:r.off+n])
	r.off += n
	return n, nil
}

// faultWriter fails once, after at bytes.
type faultWriter struct {
	buf bytes.Buffer
	at  int
	f   func() error
}

func (w *faultWriter) Write(p []byte) (int, error) {
	if w.f != nil && w.buf.Len()+len(p) > w.at {
		f := w.f
		w.f = nil
		n, _ := w.buf.Write(p[:w.at-w.buf.Len()])
		if err := f(); err != nil {
			return n, err
		}
		m, _ := w.buf.Write(p[n:])
		return n + m, nil
	}
	return w.buf.Write(p)
}

func runC32(c *C) {
	runtime.GOMAXPROCS(1)
	faultCanaries()
	kinds := faultKinds(c)
	full := fullPalette().colors()
	confs := []encConf{{html: true}, {indent: " ", colors: full}, {html: true, unsorted: true}, {prefix: "p", indent: "  ", html: true}}
	c.universeOf(gcLeaves(), 1, nil, func(d int) int { return 3 }, func(l leafT) {
		c.faultEnc(l, kinds, c.Pick(30, 1000), confs)
		c.faultDec(l, kinds, c.Pick(2, 4), c.Pick(30, 1000))
	})
	c.universeOf(gcLeaves(), 2, nil, func(d int) int { return 2 }, func(l leafT) {
		c.faultEnc(l, kinds[:c.Pick(2, 7)], c.Pick(2, 30), confs[:c.Pick(2, 4)])
		c.faultDec(l, kinds[:c.Pick(2, 7)], 1, c.Pick(2, 30))
	})
	// many entries, deep nestings, long outputs before and after the failing call
	for _, n := range []int{0, 1, 2, 3, 7, 8, 9, 16, 17, 40, 100, 300} {
		c.Case(func() string { return fmt.Sprintf("failures among %d others", n) }, func() {
			s := func(s string) *string { return &s }
			m, ms, ks := map[string]any{}, map[string]GcJ{}, map[GcKS]int{}
			var sl []any
			for i := 0; i < n; i++ {
				k := fmt.Sprintf("k%d", i*7%10)
				m[fmt.Sprintf("k%d", i)], ms[fmt.Sprintf("k%d", i)] = map[string]string{k: k}, GcJ{s(k)}
				ks[GcKS{fmt.Sprint(i)}] = i
				sl = append(sl, rep(k, i))
			}
			m["k5x"] = GcJ{s("here")}
			var deep any = GcJ{s("deep")}
			for i := 0; i < n; i++ {
				if i%2 == 0 {
					deep = []any{i, deep, "after"}
				} else {
					deep = map[string]any{"a": i, "k": deep, "z": map[string]string{"y": "x"}}
				}
			}
			sl = append(sl, GcJ{s("last")}, "after", GcT{s("text")})
			for _, l := range []leafT{L(m), L(ms), L(ks), L(sl), L(deep)} {
				c.faultEnc(l, kinds, 12, confs)
				c.faultDec(l, kinds, 1, 12)
			}
		})
	}
	memFault = nil
	runMutate(c)
	// Readers
	texts := []string{`{"a":[1,"x"]} "s\u00e9" 12 null [1,{"k":"v"}]`, ` 1 22 333 `, `"` + rep("x", 50) + `"[]{}`, "[1,\n2]\n\n{\"k\":\n1}\n", `{"a":1}x`, `[1`, ``}
	for _, n := range []int{4090, 28660, 32760} {
		texts = append(texts, `["`+rep("x", n)+`", 1] {"a":2} 3`)
	}
	for _, text := range texts {
		for lo := 0; lo <= min(len(text), 60); lo += 10 {
			c.Case(func() string { return fmt.Sprintf("readers failing at %d.. of %q", lo, clip(text, 80)) }, func() {
				ats := []int{}
				for at := lo; at < lo+10 && at <= len(text); at++ {
					ats = append(ats, at)
					if len(text) > 100 {
						ats = append(ats, len(text)-at)
					}
				}
				for _, at := range ats {
					for _, step := range []int{1, 3, 1 << 20} {
						if len(text) > 100 && step < 100 {
							step = 4096*step - 1
						}
						for _, fk := range kinds {
							c.faultRead(text, at, step, fk)
						}
					}
				}
			})
		}
	}
	// Writers
	for i, x := range []any{1, []any{1, map[string]any{"a": "b", "c": []int{1, 2}}}, rep("long", 30), map[string]string{"k": "v", "j": "w"}, []any{rep("x", 5000)}} {
		c.Case(func() string { return fmt.Sprintf("writers failing, %d", i) }, func() {
			for _, k := range confs {
				cleanB, _, _ := k.append(nil, x)
				clean := string(cleanB) + "\n"
				for at := 0; at < len(clean)*2; at++ {
					if at > 200 && at < len(clean)-50 || at > len(clean)+200 && at < 2*len(clean)-50 {
						continue
					}
					for _, fk := range kinds {
						w := &faultWriter{at: at, f: fk.f}
						e := k.encoder(w)
						var os []string
						for j := 0; j < 4; j++ {
							os = append(os, ending(func() error { return e.Encode(x) }).class())
						}
						// the model: encoding/json, whose outputs are as long as these are
						sw := &faultWriter{at: at, f: fk.f}
						se := json.NewEncoder(sw)
						var ws []string
						for j := 0; j < 4; j++ {
							ws = append(ws, ending(func() error { return se.Encode(rawSame(clean)) }).class())
						}
						c.State(1)
						c.Trans(4)
						key := fmt.Sprintf("writer %s %v %d", fk.name, k, i)
						if fmt.Sprint(os) != fmt.Sprint(ws) {
							c.Fail(key, "Encoder (%v) to a writer with %s after %d bytes: %v, encoding/json %v", k, fk.name, at, os, ws)
							return
						}
						j := at / len(clean)
						want := rep(clean, j) + clean[:at%len(clean)]
						switch {
						case fk.fine:
							want = rep(clean, 4)
						case fk.name != "error":
							want += rep(clean, 3-j)
						}
						if w.buf.String() != want && !k.unsorted {
							c.Fail(key, "Encoder (%v) of %s to a writer with %s after %d bytes: wrote %q, want %q", k, show(x), fk.name, at, clip(w.buf.String(), 500), clip(want, 500))
							return
						}
						c.Valid(1)
						if !c.faultAfter(key, func() string { return fmt.Sprintf("writer with %s after %d bytes", fk.name, at) }) {
							return
						}
					}
				}
			}
		})
	}
	c.Bound("%d kinds of failure, in each of the first %d calls of user methods", len(kinds), c.Pick(30, 1000))
}

// rawSame is a value that encoding/json writes as a line of the length of s.
func rawSame(s string) any { return json.RawMessage(rep("1", len(s)-1)) }

func (c *C) faultRead(text string, at, step int, fk faultKind) {
	key := fmt.Sprintf("reader %s %s", fk.name, clip(text, 40))
	desc := func() string {
		return fmt.Sprintf("Decoder of %q from a reader with %s after %d bytes, otherwise %d bytes at a time", clip(text, 200), fk.name, at, step)
	}
	c.State(1)
	// without the failure
	sd := json.NewDecoder(strings.NewReader(text))
	var want []any
	var ends []int
	last := ""
	for last == "" {
		var b any
		if err := sd.Decode(&b); err == nil {
			want, ends = append(want, b), append(ends, int(sd.InputOffset()))
		} else {
			last = outcome{err: err}.class()
		}
	}
	jr := &faultReader{text: text, at: at, step: step, f: fk.f}
	jd := jc.NewDecoder(jr)
	class := "nil"
	if !fk.fine {
		class = ending(fk.f).class()
	}
	failed, n := 0, 0
	for i := 0; i < len(want)+3; i++ {
		var a any
		o := ending(func() error { return jd.Decode(&a) })
		c.Trans(1)
		bad := func(what string) {
			c.Fail("outcome "+key, "%s, Decode %d: %s (%v, %#v): %s", desc(), i, o.class(), o.err, a, what)
		}
		off := int(jd.InputOffset())
		buf, _ := io.ReadAll(jd.Buffered())
		if off+len(buf) != jr.off || text[off:jr.off] != string(buf) {
			bad(fmt.Sprintf("offset %d, buffered %q, %d bytes read", off, clip(string(buf), 100), jr.off))
			return
		}
		switch {
		case o.class() == "nil":
			if n >= len(want) || !reflect.DeepEqual(a, want[n]) || failed > 0 && class == "error" {
				bad("not the value of the stream")
				return
			}
			n++
			c.Valid(1)
		case class == "error" && jr.f == nil && errors.Is(o.err, errFault):
			if n < len(ends) && ends[n] < at {
				bad("a value before the error is missing")
				return
			}
			failed++
		case class != "error" && o.class() == class && failed == 0 && jr.f == nil:
			failed++
		case n < len(want) || o.class() != last || class == "error" && jr.f == nil:
			bad(fmt.Sprintf("without the failure: %d values and %s", len(want), last))
			return
		}
	}
	if n < len(want) && class != "error" || failed != 1 && !fk.fine && class != "error" && jr.f == nil {
		c.Fail("outcome "+key, "%s: %d values, want %d; %d failures", desc(), n, len(want), failed)
		return
	}
	c.faultAfter(key, desc)
}
