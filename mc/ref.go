package main

import (
	"bytes"
	"encoding"
	"encoding/json"
	"fmt"
	"reflect"
	"sort"
	"strings"
	"sync"
	"time"
	"unicode"

	jc "github.com/neilotoole/jsoncolor"
)

// ---------------------------------------------------------------------------
// Reference model: tokens of a JSON text

type tokn struct {
	s, e int  // text[s:e]
	k    byte // { } [ ] , : or " 0 t n (string, number, bool, null) or K (key)
}

// tokenize splits a text known to be valid JSON. It is written without regard to
// speed or to the package's own tokenizer.
func tokenize(text []byte) ([]tokn, error) {
	var ts []tokn
	var stack []byte // { or [
	expectKey := false
	for i := 0; i < len(text); {
		switch c := text[i]; c {
		case ' ', '\t', '\n', '\r':
			i++
		case '{', '[':
			stack = append(stack, c)
			expectKey = c == '{'
			ts = append(ts, tokn{i, i + 1, c})
			i++
		case '}', ']':
			if len(stack) == 0 {
				return ts, fmt.Errorf("unbalanced at %d", i)
			}
			stack = stack[:len(stack)-1]
			expectKey = false
			ts = append(ts, tokn{i, i + 1, c})
			i++
		case ',':
			expectKey = len(stack) > 0 && stack[len(stack)-1] == '{'
			ts = append(ts, tokn{i, i + 1, c})
			i++
		case ':':
			ts = append(ts, tokn{i, i + 1, c})
			expectKey = false
			i++
		case '"':
			j := i + 1
			for j < len(text) && text[j] != '"' {
				if text[j] == '\\' {
					j++
				}
				j++
			}
			if j >= len(text) {
				return ts, fmt.Errorf("unterminated string at %d", i)
			}
			k := byte('"')
			if expectKey {
				k = 'K'
			}
			ts = append(ts, tokn{i, j + 1, k})
			i = j + 1
		default:
			j := i
			for j < len(text) && !strings.ContainsRune(" \t\n\r{}[],:\"", rune(text[j])) {
				j++
			}
			k := byte('0')
			switch string(text[i:j]) {
			case "true", "false":
				k = 't'
			case "null":
				k = 'n'
			}
			if j == i {
				return ts, fmt.Errorf("bad byte at %d", i)
			}
			ts = append(ts, tokn{i, j, k})
			i = j
		}
	}
	return ts, nil
}

// sameDoc reports whether two compact texts have the same tokens, strings being
// compared by meaning and everything else by spelling.
func sameDoc(a, b []byte) bool {
	if bytes.Equal(a, b) {
		return true
	}
	ta, ea := tokenize(a)
	tb, eb := tokenize(b)
	if ea != nil || eb != nil || len(ta) != len(tb) {
		return false
	}
	for i := range ta {
		x, y := a[ta[i].s:ta[i].e], b[tb[i].s:tb[i].e]
		if ta[i].k != tb[i].k {
			return false
		}
		if bytes.Equal(x, y) {
			continue
		}
		if ta[i].k != '"' && ta[i].k != 'K' {
			return false
		}
		var sx, sy string
		if json.Unmarshal(x, &sx) != nil || json.Unmarshal(y, &sy) != nil || sx != sy {
			return false
		}
	}
	// no whitespace in either
	n := 0
	for _, t := range ta {
		n += t.e - t.s
	}
	return n == len(a)
}

// canonDoc sorts the members of every object (stably), for comparing outputs of
// unsorted maps. The input is compact.
func canonDoc(a []byte) string {
	ts, err := tokenize(a)
	if err != nil {
		return string(a)
	}
	i := 0
	var val func() string
	val = func() string {
		t := ts[i]
		i++
		switch t.k {
		case '[':
			var sb strings.Builder
			sb.WriteByte('[')
			for ts[i].k != ']' {
				if ts[i].k == ',' {
					sb.WriteByte(',')
					i++
					continue
				}
				sb.WriteString(val())
			}
			i++
			sb.WriteByte(']')
			return sb.String()
		case '{':
			type mem struct{ k, v string }
			var ms []mem
			for ts[i].k != '}' {
				if ts[i].k == ',' || ts[i].k == ':' {
					i++
					continue
				}
				k := string(a[ts[i].s:ts[i].e])
				i += 2
				ms = append(ms, mem{k, val()})
			}
			i++
			sort.SliceStable(ms, func(x, y int) bool { return ms[x].k < ms[y].k })
			var sb strings.Builder
			sb.WriteByte('{')
			for j, m := range ms {
				if j > 0 {
					sb.WriteByte(',')
				}
				sb.WriteString(m.k + ":" + m.v)
			}
			sb.WriteByte('}')
			return sb.String()
		}
		return string(a[t.s:t.e])
	}
	if len(ts) == 0 {
		return string(a)
	}
	return val()
}

// ---------------------------------------------------------------------------
// Reference model: colors

const reset = "\x1b[0m"

// classes: indices into a colorset
const (
	clNull = iota
	clBool
	clNumber
	clString
	clKey
	clBytes
	clTime
	clPunc
	clBrackets
	clBraces
	clComma
	clColon
	clText
	nClasses
)

var className = []string{"Null", "Bool", "Number", "String", "Key", "Bytes", "Time", "Punc", "Brackets", "Braces", "Comma", "Colon", "TextMarshaler"}

type palette [nClasses]string

func (p palette) colors() *jc.Colors {
	c := func(i int) jc.Color {
		if p[i] == "" {
			return nil
		}
		// spare capacity: appending to a Color must not go unnoticed
		b := make([]byte, len(p[i]), len(p[i])+8)
		copy(b, p[i])
		return b
	}
	return &jc.Colors{Null: c(0), Bool: c(1), Number: c(2), String: c(3), Key: c(4), Bytes: c(5), Time: c(6), Punc: c(7),
		Brackets: c(8), Braces: c(9), Comma: c(10), Colon: c(11), TextMarshaler: c(12)}
}

// intact reports whether cs still holds the palette, including the spare bytes.
func (p palette) intact(cs *jc.Colors) bool {
	for i, c := range []jc.Color{cs.Null, cs.Bool, cs.Number, cs.String, cs.Key, cs.Bytes, cs.Time, cs.Punc, cs.Brackets, cs.Braces, cs.Comma, cs.Colon, cs.TextMarshaler} {
		if string(c) != p[i] {
			return false
		}
		if p[i] != "" {
			for _, b := range c[len(c):cap(c)] {
				if b != 0 {
					return false
				}
			}
		}
	}
	return true
}

func (p palette) of(class int) string {
	switch class {
	case clBrackets, clBraces, clComma, clColon:
		if p[class] == "" {
			return p[clPunc]
		}
	}
	return p[class]
}

func fullPalette() (p palette) {
	for i := range p {
		p[i] = fmt.Sprintf("\x1b[38;5;%dm", i+100)
	}
	return p
}

// decorate colors the tokens of text; str gives the class of string tokens that
// are not plain strings, by token index.
func decorate(text []byte, ts []tokn, str map[int]int, p palette) []byte {
	var out []byte
	pos := 0
	for i, t := range ts {
		out = append(out, text[pos:t.s]...)
		cl := 0
		switch t.k {
		case '{', '}':
			cl = clBraces
		case '[', ']':
			cl = clBrackets
		case ',':
			cl = clComma
		case ':':
			cl = clColon
		case 'K':
			cl = clKey
		case '0':
			cl = clNumber
		case 't':
			cl = clBool
		case 'n':
			cl = clNull
		case '"':
			cl = clString
			if c, ok := str[i]; ok {
				cl = c
			}
		}
		out = append(out, p.of(cl)...)
		out = append(out, text[t.s:t.e]...)
		out = append(out, reset...)
		pos = t.e
	}
	return append(out, text[pos:]...)
}

var (
	timeT      = reflect.TypeOf(time.Time{})
	durT       = reflect.TypeOf(time.Duration(0))
	numberT    = reflect.TypeOf(json.Number(""))
	rawT       = reflect.TypeOf(json.RawMessage{})
	marshalerT = reflect.TypeOf((*json.Marshaler)(nil)).Elem()
	textT      = reflect.TypeOf((*encoding.TextMarshaler)(nil)).Elem()
	unmarshT   = reflect.TypeOf((*json.Unmarshaler)(nil)).Elem()
	untextT    = reflect.TypeOf((*encoding.TextUnmarshaler)(nil)).Elem()
	anyT       = reflect.TypeOf((*any)(nil)).Elem()
)

// classify walks the value and the tokens of its encoding together and returns
// the classes of its string tokens, as documented on Colors.
func classify(v reflect.Value, text []byte, ts []tokn) (m map[int]int, ok bool) {
	m = map[int]int{}
	i := 0
	ok = true
	skip := func() {
		d := 0
		for i < len(ts) {
			switch ts[i].k {
			case '{', '[':
				d++
			case '}', ']':
				d--
			}
			i++
			if d == 0 {
				return
			}
		}
	}
	var val func(v reflect.Value)
	leaf := func(cl int) {
		if i < len(ts) && ts[i].k == '"' {
			m[i] = cl
		}
		skip()
	}
	expect := func(k byte) bool {
		if i >= len(ts) || ts[i].k != k {
			ok = false
			return false
		}
		i++
		return true
	}
	val = func(v reflect.Value) {
		if !ok {
			return
		}
		if i >= len(ts) {
			ok = false
			return
		}
		if !v.IsValid() || ts[i].k == 'n' {
			skip()
			return
		}
		t := v.Type()
		switch t {
		case timeT:
			leaf(clTime)
			return
		case reflect.PointerTo(timeT):
			leaf(clTime)
			return
		case numberT, rawT, durT:
			skip()
			return
		}
		pt := reflect.PointerTo(t)
		if t.Kind() != reflect.Pointer && v.CanAddr() && pt.Implements(marshalerT) || t.Implements(marshalerT) {
			skip()
			return
		}
		if t.Kind() != reflect.Pointer && v.CanAddr() && pt.Implements(textT) || t.Implements(textT) {
			leaf(clText)
			return
		}
		switch t.Kind() {
		case reflect.Pointer, reflect.Interface:
			val(v.Elem())
		case reflect.Slice, reflect.Array:
			if t.Kind() == reflect.Slice && t.Elem().Kind() == reflect.Uint8 {
				p := reflect.PointerTo(t.Elem())
				if !p.Implements(marshalerT) && !p.Implements(textT) {
					leaf(clBytes)
					return
				}
			}
			if !expect('[') {
				return
			}
			for j := 0; j < v.Len(); j++ {
				if j > 0 && !expect(',') {
					return
				}
				val(v.Index(j))
			}
			expect(']')
		case reflect.Map:
			byText := map[string]reflect.Value{}
			for _, k := range v.MapKeys() {
				s := keyText(k)
				if _, dup := byText[s]; dup {
					ok = false
					return
				}
				byText[s] = v.MapIndex(k)
			}
			if !expect('{') {
				return
			}
			for j := 0; j < v.Len(); j++ {
				if j > 0 && !expect(',') {
					return
				}
				if i >= len(ts) || ts[i].k != 'K' {
					ok = false
					return
				}
				var s string
				json.Unmarshal(text[ts[i].s:ts[i].e], &s)
				e, found := byText[s]
				if !found {
					ok = false
					return
				}
				i++
				if !expect(':') {
					return
				}
				val(e)
			}
			expect('}')
		case reflect.Struct:
			if !expect('{') {
				return
			}
			n := 0
		fields:
			for _, f := range refFields(t) {
				fv := v
				for _, x := range f.index {
					if fv.Kind() == reflect.Pointer {
						if fv.IsNil() {
							continue fields
						}
						fv = fv.Elem()
					}
					fv = fv.Field(x)
				}
				if f.omitempty && refEmpty(fv) {
					continue
				}
				if n > 0 && !expect(',') {
					return
				}
				n++
				if !expect('K') || !expect(':') {
					return
				}
				val(fv)
			}
			expect('}')
		default:
			skip()
		}
	}
	val(v)
	if i != len(ts) {
		ok = false
	}
	return m, ok
}

func keyText(k reflect.Value) string {
	if k.Kind() == reflect.String {
		return strings.ToValidUTF8(k.String(), "\ufffd")
	}
	if tm, ok := k.Interface().(encoding.TextMarshaler); ok {
		if k.Kind() == reflect.Pointer && k.IsNil() {
			return ""
		}
		b, _ := tm.MarshalText()
		return strings.ToValidUTF8(string(b), "\ufffd")
	}
	return fmt.Sprint(k.Interface())
}

func refEmpty(v reflect.Value) bool {
	switch v.Kind() {
	case reflect.Array, reflect.Map, reflect.Slice, reflect.String:
		return v.Len() == 0
	case reflect.Pointer, reflect.Interface:
		return v.IsNil()
	case reflect.Bool, reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64,
		reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr, reflect.Float32, reflect.Float64:
		return v.IsZero()
	}
	return false
}

type refField struct {
	name      string
	index     []int
	tagged    bool
	omitempty bool
	quoted    bool
	typ       reflect.Type
}

// refFields selects the members of a struct the way encoding/json documents it:
// the least nested field of a name wins, tagged ones before untagged ones, and
// an ambiguity drops all of them.
func refFields(t reflect.Type) []refField {
	if f, ok := refFieldCache.Load(t); ok {
		return f.([]refField)
	}
	f := refFieldsOf(t)
	refFieldCache.Store(t, f)
	return f
}

var refFieldCache sync.Map

func refFieldsOf(t reflect.Type) []refField {
	type item struct {
		t     reflect.Type
		index []int
	}
	var all []refField
	seen := map[reflect.Type]bool{}
	level := []item{{t, nil}}
	for len(level) > 0 {
		var next []item
		for _, it := range level {
			if seen[it.t] {
				continue
			}
			for i := 0; i < it.t.NumField(); i++ {
				sf := it.t.Field(i)
				ft := sf.Type
				if sf.Anonymous {
					e := ft
					if e.Kind() == reflect.Pointer {
						e = e.Elem()
					}
					if !sf.IsExported() && e.Kind() != reflect.Struct {
						continue
					}
				} else if !sf.IsExported() {
					continue
				}
				tag := sf.Tag.Get("json")
				if tag == "-" {
					continue
				}
				parts := strings.Split(tag, ",")
				name := parts[0]
				for _, c := range name {
					if !strings.ContainsRune("!#$%&()*+-./:;<=>?@[]^_{|}~ ", c) && !unicode.IsLetter(c) && !unicode.IsDigit(c) {
						name = ""
						break
					}
				}
				idx := append(append([]int{}, it.index...), i)
				if ft.Name() == "" && ft.Kind() == reflect.Pointer {
					ft = ft.Elem()
				}
				f := refField{name: name, index: idx, tagged: name != "", typ: ft}
				for _, o := range parts[1:] {
					f.omitempty = f.omitempty || o == "omitempty"
					f.quoted = f.quoted || o == "string"
				}
				if name != "" || !sf.Anonymous || ft.Kind() != reflect.Struct {
					if name == "" {
						f.name = sf.Name
					}
					all = append(all, f)
					continue
				}
				next = append(next, item{ft, idx})
			}
		}
		for _, it := range level {
			seen[it.t] = true
		}
		level = next
	}
	// dominance
	by := map[string][]refField{}
	for _, f := range all {
		by[f.name] = append(by[f.name], f)
	}
	var out []refField
	for _, fs := range by {
		sort.SliceStable(fs, func(i, j int) bool {
			if len(fs[i].index) != len(fs[j].index) {
				return len(fs[i].index) < len(fs[j].index)
			}
			return fs[i].tagged && !fs[j].tagged
		})
		if len(fs) > 1 && len(fs[0].index) == len(fs[1].index) && fs[0].tagged == fs[1].tagged {
			continue
		}
		out = append(out, fs[0])
	}
	sort.Slice(out, func(i, j int) bool {
		a, b := out[i].index, out[j].index
		for k := 0; k < len(a) && k < len(b); k++ {
			if a[k] != b[k] {
				return a[k] < b[k]
			}
		}
		return len(a) < len(b)
	})
	return out
}
