package main

import (
	"math"
	"reflect"
	"strconv"
)

var math_nan, math_inf = math.NaN(), math.Inf(-1)

// Type constructors. Each takes a type with values and gives a composed type
// with values. max bounds the number of values.

type wrapper struct {
	name string
	f    func(l leafT, max int) (leafT, bool)
}

func add(l *leafT, max int, v reflect.Value) {
	if len(l.vals) < max {
		// make addressability uniform: values live in their own variable
		n := reflect.New(l.t).Elem()
		n.Set(v)
		l.vals = append(l.vals, n)
	}
}

func structWrap(name string, mk func(t reflect.Type) []reflect.StructField, set func(s reflect.Value, vs []reflect.Value, i int)) wrapper {
	return wrapper{name, func(l leafT, max int) (out leafT, ok bool) {
		defer func() {
			if recover() != nil {
				ok = false // reflect cannot build this one
			}
		}()
		t := reflect.StructOf(mk(l.t))
		o := leafT{name: name + "(" + l.name + ")", t: t}
		for i := range l.vals {
			s := reflect.New(t).Elem()
			set(s, l.vals, i)
			add(&o, max, s)
		}
		if len(o.vals) < max {
			add(&o, max, reflect.Zero(t))
		}
		return o, true
	}}
}

func ptrTo(v reflect.Value) reflect.Value {
	q := reflect.New(v.Type())
	q.Elem().Set(v)
	return q
}

func sf(name string, t reflect.Type, tag string) reflect.StructField {
	f := reflect.StructField{Name: name, Type: t}
	if tag != "" {
		f.Tag = reflect.StructTag(`json:` + strconv.Quote(tag))
	}
	return f
}

func wrappers() []wrapper {
	simple := func(name string, mk func(t reflect.Type) reflect.Type, fill func(o *leafT, l leafT, max int)) wrapper {
		return wrapper{name, func(l leafT, max int) (leafT, bool) {
			o := leafT{name: name + "(" + l.name + ")", t: mk(l.t)}
			fill(&o, l, max)
			return o, true
		}}
	}
	anyType := func(reflect.Type) reflect.Type { return anyT }
	mapOf := func(kt reflect.Type) func(reflect.Type) reflect.Type {
		return func(t reflect.Type) reflect.Type { return reflect.MapOf(kt, t) }
	}
	fillMap := func(keys ...any) func(o *leafT, l leafT, max int) {
		return func(o *leafT, l leafT, max int) {
			set := func(m reflect.Value, k any, v reflect.Value) {
				m.SetMapIndex(reflect.ValueOf(k).Convert(o.t.Key()), v)
			}
			for i, v := range l.vals {
				m := reflect.MakeMap(o.t)
				set(m, keys[i%len(keys)], v)
				add(o, max-2, m)
			}
			m := reflect.MakeMap(o.t)
			for i, k := range keys {
				set(m, k, l.vals[i%len(l.vals)])
			}
			add(o, max, m)
			add(o, max, reflect.MakeMap(o.t))
			add(o, max, reflect.Zero(o.t))
		}
	}
	ws := []wrapper{
		simple("ptr", reflect.PointerTo, func(o *leafT, l leafT, max int) {
			for _, v := range l.vals {
				add(o, max-1, ptrTo(v))
			}
			add(o, max, reflect.Zero(o.t))
		}),
		simple("slice", reflect.SliceOf, func(o *leafT, l leafT, max int) {
			for i := range l.vals {
				s := reflect.MakeSlice(o.t, 0, 2)
				s = reflect.Append(s, l.vals[i])
				if i%2 == 1 {
					s = reflect.Append(s, l.vals[0])
				}
				add(o, max-2, s)
			}
			add(o, max, reflect.MakeSlice(o.t, 0, 0))
			add(o, max, reflect.Zero(o.t))
		}),
		simple("any", anyType, func(o *leafT, l leafT, max int) {
			for _, v := range l.vals {
				add(o, max, v)
			}
		}),
		simple("map", mapOf(reflect.TypeOf("")), fillMap("k", "a<", "")),
		structWrap("struct1", func(t reflect.Type) []reflect.StructField { return []reflect.StructField{sf("A", t, "")} },
			func(s reflect.Value, vs []reflect.Value, i int) { s.Field(0).Set(vs[i]) }),
		structWrap("structE", func(t reflect.Type) []reflect.StructField {
			return []reflect.StructField{sf("A", t, "a,omitempty"), sf("B", reflect.TypeOf(0), ""), sf("C", t, ",omitempty")}
		}, func(s reflect.Value, vs []reflect.Value, i int) {
			s.Field(0).Set(vs[i])
			s.Field(1).SetInt(int64(i))
			s.Field(2).Set(vs[(i+1)%len(vs)])
		}),
		simple("array1", func(t reflect.Type) reflect.Type { return reflect.ArrayOf(1, t) }, func(o *leafT, l leafT, max int) {
			for _, v := range l.vals {
				a := reflect.New(o.t).Elem()
				a.Index(0).Set(v)
				add(o, max, a)
			}
		}),
		simple("array2", func(t reflect.Type) reflect.Type { return reflect.ArrayOf(2, t) }, func(o *leafT, l leafT, max int) {
			for i, v := range l.vals {
				a := reflect.New(o.t).Elem()
				a.Index(0).Set(v)
				a.Index(1).Set(l.vals[(i+1)%len(l.vals)])
				add(o, max, a)
			}
		}),
		simple("mapint", mapOf(reflect.TypeOf(0)), fillMap(10, 9, -1)),
		simple("maptext", mapOf(reflect.TypeOf(KeyIntT(0))), fillMap(10, 9, -1)),
		structWrap("structS", func(t reflect.Type) []reflect.StructField {
			return []reflect.StructField{sf("A", t, ",string"), sf("B", reflect.PointerTo(t), "b,string,omitempty")}
		}, func(s reflect.Value, vs []reflect.Value, i int) {
			s.Field(0).Set(vs[i])
			if i%2 == 0 {
				s.Field(1).Set(ptrTo(vs[i]))
			}
		}),
		structWrap("struct3", func(t reflect.Type) []reflect.StructField {
			return []reflect.StructField{sf("X", reflect.PointerTo(t), "<x>"), sf("Y", t, "Y"), sf("Z", anyT, ""), sf("W", reflect.SliceOf(t), "-")}
		}, func(s reflect.Value, vs []reflect.Value, i int) {
			if i%3 != 2 {
				s.Field(0).Set(ptrTo(vs[i]))
			}
			s.Field(1).Set(vs[i])
			if i%3 != 1 {
				s.Field(2).Set(vs[(i+1)%len(vs)])
			}
		}),
		structWrap("embed", func(t reflect.Type) []reflect.StructField {
			return []reflect.StructField{{Name: "E", Type: reflect.StructOf([]reflect.StructField{sf("A", t, ""), sf("B", t, "")}), Anonymous: true}, sf("B", reflect.TypeOf(0), "")}
		}, func(s reflect.Value, vs []reflect.Value, i int) { s.Field(0).Field(0).Set(vs[i]) }),
		structWrap("embedp", func(t reflect.Type) []reflect.StructField {
			return []reflect.StructField{sf("B", reflect.TypeOf(0), ""), {Name: "E", Type: reflect.PointerTo(reflect.StructOf([]reflect.StructField{sf("A", t, ""), sf("C", t, ",omitempty")})), Anonymous: true}}
		}, func(s reflect.Value, vs []reflect.Value, i int) {
			if i%3 == 1 {
				return
			}
			e := reflect.New(s.Field(1).Type().Elem())
			e.Elem().Field(0).Set(vs[i])
			s.Field(1).Set(e)
		}),
		simple("anyslice", func(reflect.Type) reflect.Type { return reflect.SliceOf(anyT) }, func(o *leafT, l leafT, max int) {
			for i, v := range l.vals {
				s := reflect.MakeSlice(o.t, 0, 2)
				s = reflect.Append(s, v)
				if i%2 == 0 {
					s = reflect.Append(s, ptrTo(v))
				}
				add(o, max, s)
			}
		}),
		simple("anymap", func(reflect.Type) reflect.Type { return reflect.MapOf(reflect.TypeOf(""), anyT) }, func(o *leafT, l leafT, max int) {
			for i, v := range l.vals {
				m := reflect.MakeMap(o.t)
				m.SetMapIndex(reflect.ValueOf("z"), v)
				if i%2 == 0 {
					m.SetMapIndex(reflect.ValueOf("p"), ptrTo(v))
				}
				add(o, max, m)
			}
		}),
		simple("array0", func(t reflect.Type) reflect.Type { return reflect.ArrayOf(0, t) }, func(o *leafT, l leafT, max int) {
			add(o, max, reflect.Zero(o.t))
		}),
	}
	return ws
}

// universe enumerates leaves under 0..depth constructors; the case number of a
// type does not depend on whether it can be built. It calls f inside of a case.
func (c *C) universe(depth int, keep func(leaf int, ws []int) bool, max func(d int) int, f func(l leafT)) {
	c.universeOf(leaves(), depth, keep, max, f)
}

func (c *C) universeOf(ls []leafT, depth int, keep func(leaf int, ws []int) bool, max func(d int) int, f func(l leafT)) {
	ws := wrappers()
	for d := 0; d <= depth; d++ {
		for li := range ls {
			seqs(len(ws), d, func(s []int) {
				if keep != nil && !keep(li, s) {
					return
				}
				w := append([]int{}, s...)
				li := li
				c.Case(func() string {
					n := ls[li].name
					for _, x := range w {
						n = ws[x].name + "(" + n + ")"
					}
					return "type " + n
				}, func() {
					l := ls[li]
					ok := true
					for _, x := range w {
						if len(l.vals) == 0 {
							return
						}
						if l, ok = ws[x].f(l, max(d)); !ok {
							c.Count("types_not_constructible_by_reflect", 1)
							return
						}
					}
					c.Count("types", 1)
					f(l)
				})
			})
		}
	}
	c.Bound("%d leaf types under up to %d of %d type constructors", len(ls), depth, len(ws))
}
