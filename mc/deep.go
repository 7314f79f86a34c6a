package main

import (
	"bytes"
	"math"
	"reflect"
	"time"
)

// deepSame is reflect.DeepEqual with two differences: times are compared by
// their instant and offset, and NaN equals itself.
func deepSame(a, b reflect.Value) bool { return (&deepCmp{}).deep(a, b, 0) }

// decSame is deepSame except that a pointer to a nil pointer equals nil.
func decSame(a, b reflect.Value) bool { return (&deepCmp{ptrs: true}).deep(a, b, 0) }

type deepCmp struct{ ptrs bool }

func (x *deepCmp) deep(a, b reflect.Value, d int) bool {
	if d > 200 {
		return true
	}
	if a.IsValid() != b.IsValid() {
		return false
	}
	if !a.IsValid() {
		return true
	}
	if a.Type() != b.Type() {
		return false
	}
	if a.Type() == timeT && a.CanInterface() && b.CanInterface() {
		m, n := a.Interface().(time.Time), b.Interface().(time.Time)
		_, om := m.Zone()
		_, on := n.Zone()
		return m.Equal(n) && om == on
	}
	switch a.Kind() {
	case reflect.Pointer:
		if a.IsNil() || b.IsNil() {
			return x.isNil(a) == x.isNil(b) && x.isNil(a)
		}
		if a.Pointer() == b.Pointer() {
			return true
		}
		return x.deep(a.Elem(), b.Elem(), d+1)
	case reflect.Interface:
		if a.IsNil() || b.IsNil() {
			return a.IsNil() == b.IsNil()
		}
		return x.deep(a.Elem(), b.Elem(), d+1)
	case reflect.Slice:
		if a.IsNil() != b.IsNil() || a.Len() != b.Len() {
			return false
		}
		if a.Type().Elem().Kind() == reflect.Uint8 {
			return bytes.Equal(a.Bytes(), b.Bytes())
		}
		for i := 0; i < a.Len(); i++ {
			if !x.deep(a.Index(i), b.Index(i), d+1) {
				return false
			}
		}
		return true
	case reflect.Array:
		for i := 0; i < a.Len(); i++ {
			if !x.deep(a.Index(i), b.Index(i), d+1) {
				return false
			}
		}
		return true
	case reflect.Map:
		if a.IsNil() != b.IsNil() || a.Len() != b.Len() {
			return false
		}
		var odd [][2]reflect.Value // entries of a whose keys are not found
		for it := a.MapRange(); it.Next(); {
			v := b.MapIndex(it.Key())
			if !v.IsValid() {
				odd = append(odd, [2]reflect.Value{it.Key(), it.Value()})
			} else if !x.deep(it.Value(), v, d+1) {
				return false
			}
		}
		if len(odd) == 0 {
			return true
		}
		// Keys such as NaN equal no other.
		for it := b.MapRange(); it.Next(); {
			for i, o := range odd {
				if x.deep(o[0], it.Key(), d+1) && x.deep(o[1], it.Value(), d+1) {
					odd = append(odd[:i:i], odd[i+1:]...)
					break
				}
			}
		}
		return len(odd) == 0
	case reflect.Struct:
		for i := 0; i < a.NumField(); i++ {
			if !x.deep(a.Field(i), b.Field(i), d+1) {
				return false
			}
		}
		return true
	case reflect.Bool:
		return a.Bool() == b.Bool()
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return a.Int() == b.Int()
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		return a.Uint() == b.Uint()
	case reflect.Float32, reflect.Float64:
		return math.Float64bits(a.Float()) == math.Float64bits(b.Float())
	case reflect.Complex64, reflect.Complex128:
		return a.Complex() == b.Complex()
	case reflect.String:
		return a.String() == b.String()
	case reflect.Func:
		return a.Pointer() == b.Pointer()
	case reflect.Chan, reflect.UnsafePointer:
		return a.Pointer() == b.Pointer()
	}
	return false
}

func (x *deepCmp) isNil(v reflect.Value) bool {
	if v.IsNil() {
		return true
	}
	return x.ptrs && v.Type().Elem().Kind() == reflect.Pointer && x.isNil(v.Elem())
}
