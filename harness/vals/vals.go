// Package vals makes and compares values of any type.
package vals

import (
	"fmt"
	"math"
	"reflect"
	"unsafe"
)

type five struct {
	A uint64
	S string
}

var tick uint64

func Next() uint64 {
	tick++
	return tick*0x9e3779b97f4a7c15 ^ 0x5bd1e995
}

type fail struct{ n uint64 }

func (f *fail) Error() string { return fmt.Sprint(f.n) }

// Fresh makes a value whose parts are all different from those of other values.
func Fresh(t reflect.Type) reflect.Value {
	v := reflect.New(t).Elem()
	Fill(v)
	return v
}

func Fill(v reflect.Value) {
	n := Next()
	switch v.Kind() {
	case reflect.Bool:
		v.SetBool(n&64 != 0)
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		v.SetInt(int64(n) << (64 - v.Type().Bits()) >> (64 - v.Type().Bits()))
	case reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uint, reflect.Uintptr:
		v.SetUint(n >> (64 - v.Type().Bits()))
	case reflect.Float32:
		*(*uint32)(v.Addr().UnsafePointer()) = uint32(n>>40) | 0x7fc00000 // quiet NaN with payload
		if n&3 == 0 {
			v.SetFloat(-float64(n >> 50))
		}
	case reflect.Float64:
		*(*uint64)(v.Addr().UnsafePointer()) = n>>14 | 0x7ff8000000000000
		if n&3 == 0 {
			v.SetFloat(-float64(n >> 50))
		}
	case reflect.Complex64:
		v.SetComplex(complex(float64(float32(n>>45)), -float64(float32(n>>50))))
	case reflect.Complex128:
		v.SetComplex(complex(float64(n>>45), math.Float64frombits(n>>14|0x7ff8000000000000)))
	case reflect.String:
		v.SetString(fmt.Sprint("s", n>>(n&31)))
	case reflect.Slice:
		s := reflect.MakeSlice(v.Type(), int(n%5), int(n%5)+int(n>>8%4))
		for i := 0; i < s.Len(); i++ {
			Fill(s.Index(i))
		}
		v.Set(s)
	case reflect.Ptr:
		p := reflect.New(v.Type().Elem())
		Fill(p.Elem())
		v.Set(p)
	case reflect.UnsafePointer:
		v.SetPointer(unsafe.Pointer(new(uint64)))
	case reflect.Map:
		m := reflect.MakeMap(v.Type())
		v.Set(m)
	case reflect.Chan:
		v.Set(reflect.MakeChan(v.Type(), 1))
	case reflect.Func:
		x := fmt.Sprint(n)
		if f := reflect.ValueOf(func(int) string { return x }); f.Type().AssignableTo(v.Type()) {
			v.Set(f)
			return
		}
		t := v.Type()
		v.Set(reflect.MakeFunc(t, func([]reflect.Value) (r []reflect.Value) {
			for i := 0; i < t.NumOut(); i++ {
				r = append(r, reflect.Zero(t.Out(i)))
			}
			return
		}))
	case reflect.Interface:
		if v.Type().NumMethod() > 0 {
			v.Set(reflect.ValueOf(&fail{n}))
			return
		}
		var x interface{}
		switch n >> 3 % 5 {
		case 0:
			x = int(n)
		case 1:
			x = fmt.Sprint(n)
		case 2:
			x = &n
		case 3:
			x = five{A: n, S: "x"}
		}
		if x != nil {
			v.Set(reflect.ValueOf(x))
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).PkgPath == "" {
				Fill(v.Field(i))
			}
		}
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			Fill(v.Index(i))
		}
	default:
		panic(v.Type())
	}
}

// Bits appends the bits of the value (not of what it points to).
func Bits(dst []byte, v reflect.Value) []byte {
	if !v.CanAddr() {
		a := reflect.New(v.Type()).Elem()
		a.Set(v)
		v = a
	}
	switch v.Kind() {
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).Name == "_" {
				continue
			}
			f := v.Field(i)
			dst = Bits(dst, reflect.NewAt(f.Type(), unsafe.Pointer(f.UnsafeAddr())).Elem())
		}
		return dst
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			dst = Bits(dst, v.Index(i))
		}
		return dst
	case reflect.Interface:
		// the dynamic value may be copied
		if v.IsNil() {
			return append(dst, 0)
		}
		dst = append(dst, v.Elem().Type().String()...)
		return Bits(dst, v.Elem())
	}
	return append(dst, unsafe.Slice((*byte)(unsafe.Pointer(v.UnsafeAddr())), v.Type().Size())...)
}

func Same(a, b []reflect.Value) string {
	if len(a) != len(b) {
		return fmt.Sprintf("%d values, want %d", len(a), len(b))
	}
	for i := range a {
		if a[i].Type() != b[i].Type() {
			return fmt.Sprintf("value %d is a %v, want %v", i, a[i].Type(), b[i].Type())
		}
		if x, y := Bits(nil, a[i]), Bits(nil, b[i]); string(x) != string(y) {
			return fmt.Sprintf("value %d (%v) is %x, want %x", i, a[i].Type(), x, y)
		}
	}
	return ""
}

func FreshAll(ts []reflect.Type) (vs []reflect.Value) {
	for _, t := range ts {
		vs = append(vs, Fresh(t))
	}
	return
}
