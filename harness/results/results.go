// Package results enumerates the values of a Return over the types of results (C02).
package results

import (
	"errors"
	"fmt"
	"os"
	"reflect"
	"strings"
	"time"
	"unsafe"

	"github.com/bytedance/mockey"
	"github.com/bytedance/mockey/zzverif/vals"
	"github.com/bytedance/mockey/zzverif/zz"
)

type (
	nInt   int
	nStr   string
	nBytes []byte
	nAny   []interface{}
	nFunc  func(int) int
	perr   struct{ s string }
	verr   struct{ s, t string }
	rec    struct {
		A int
		b string
	}
	rec2 struct {
		A int
		b string
	}
	gen[T any] struct{ V []T }
)

func (n nInt) String() string { return "n" }
func (p *perr) Error() string { return "p" }
func (v verr) Error() string  { return v.s }

var (
	anInt  = 5
	anErr  = &perr{"e"}
	values = []interface{}{
		nil, true, 3, -3, 0x1_0000_0041, int8(-3), int16(300), int32('x'), int64(-1 << 63), uint(3), uint8(200), uint16(65535), uint64(1<<64 - 1),
		uintptr(3), float32(1.5), -2.75, 1e300, complex64(complex(1, 2)), complex(1e300, -2), "", "s", "some text", nInt(65), nStr("named"),
		nBytes("bytes"), nBytes(nil), []int(nil), []int{}, []int{1}, []int{1, 2}, []int{1, 2, 3}, []byte("ab"), []byte(nil), []rune("ab"), []string{"a", "b"},
		[]interface{}(nil), []interface{}{}, []interface{}{nil}, []interface{}{1}, []interface{}{[]interface{}{2}}, []interface{}{"x", uint8(8)},
		[]interface{}{nil, nil}, []interface{}{3, "s"}, []error{nil}, []error{anErr}, [][]interface{}{{1}}, [][]interface{}{nil, {}}, nAny{1}, nAny{[]int{2}, nil}, [0]int{}, [2]int{4, 5},
		[1]interface{}{nil}, [1]interface{}{[]interface{}{1}}, [40]uint64{39: 1}, &anInt, (*int)(nil), &[2]int{6, 7}, (*[2]int)(nil), &anErr, anErr, (*perr)(nil), perr{"v"}, verr{"a", "b"},
		errors.New("e"), map[string]int{"a": 1}, map[string]int(nil), map[interface{}]interface{}{nil: nil}, make(chan int), (chan int)(nil), make(<-chan int), make(chan<- int),
		func() {}, (func())(nil), func(x int) int { return x + 1 }, nFunc(func(x int) int { return x + 2 }), nFunc(nil), unsafe.Pointer(&anInt), unsafe.Pointer(nil),
		struct{}{}, rec{1, "r"}, rec2{2, "s"}, &rec{3, "t"}, &rec2{4, "u"}, struct {
			A int
			b string
		}{5, "v"}, os.Stdout, (*os.File)(nil), reflect.TypeOf(1), reflect.ValueOf(1), reflect.ValueOf([]interface{}{1}), reflect.Value{}, time.Second, strings.NewReader("x"),
		gen[int]{[]int{1}}, gen[string]{nil}, mockey.Sequence(1), mockey.SequenceOpt(nil),
	}
)

// ways to declare a result
var ways = [...]string{"Return of the builder", "Return of the mocker", "the first value of a sequence", "a later value of a sequence", "behind a condition", "Return of a mock that is undone and applied again"}

func declare(way int, target interface{}, r []interface{}) (m *mockey.Mocker, calls int) {
	b := mockey.Mock(target)
	t := reflect.TypeOf(target)
	other := make([]interface{}, len(r))
	switch way {
	case 0:
		return b.Return(r...).Build(), 1
	case 1:
		return b.Return(other...).Build().Return(r...), 1
	case 2:
		return b.Return(mockey.Sequence(r...).Then(other...)).Build(), 1
	case 3:
		return b.Return(mockey.Sequence(other...).Times(2).Then(r...)).Build(), 3
	case 4:
		in := []reflect.Type{}
		for i := 0; i < t.NumIn(); i++ {
			in = append(in, t.In(i))
		}
		w := reflect.MakeFunc(reflect.FuncOf(in, []reflect.Type{reflect.TypeOf(true)}, t.IsVariadic()), func([]reflect.Value) []reflect.Value {
			return []reflect.Value{reflect.ValueOf(true)}
		}).Interface()
		return b.When(w).Return(r...).Build(), 1
	}
	m = b.Return(r...).Build()
	m.UnPatch()
	return m.Patch(), 1
}

func call(f reflect.Value) []reflect.Value {
	if f.Type().NumIn() == 0 {
		return f.Call(nil)
	}
	if f.Type().IsVariadic() {
		return f.Call([]reflect.Value{reflect.ValueOf("a"), reflect.ValueOf("b")})
	}
	return f.Call([]reflect.Value{reflect.ValueOf(3)})
}

// want gives the value of type t that x stands for, ok is false if there is none
func want(x interface{}, t reflect.Type) (v reflect.Value, ok bool) {
	v = reflect.New(t).Elem()
	if x == nil {
		return v, true
	}
	xv := reflect.ValueOf(x)
	switch {
	case xv.Type().AssignableTo(t):
		v.Set(xv)
	case xv.CanConvert(t):
		v.Set(xv.Convert(t))
	default:
		return v, false
	}
	return v, true
}

// same compares the values, of interfaces the dynamic ones; strings and slices that a conversion makes by their contents
func same(a, b reflect.Value, converted bool) string {
	if converted {
		switch a.Kind() {
		case reflect.String:
			if a.String() != b.String() {
				return fmt.Sprintf("%q, want %q", a, b)
			}
			return ""
		case reflect.Slice:
			if a.IsNil() != b.IsNil() || !reflect.DeepEqual(a.Interface(), b.Interface()) {
				return fmt.Sprintf("%v, want %v", a, b)
			}
			return ""
		}
	}
	return vals.Same([]reflect.Value{a}, []reflect.Value{b})
}

func run(c *zz.Ctx, ti, arity, vi, way int) {
	target := funcs[ti][arity]
	f := reflect.ValueOf(target)
	pos := arity / 2
	t := f.Type().Out(pos)
	x := values[vi]
	r := []interface{}{x}
	if arity == 1 {
		r = []interface{}{x, 9}
	} else if arity == 2 {
		r = []interface{}{"y", x}
	}
	if _, ok := x.(mockey.SequenceOpt); ok && arity == 0 {
		return // this is a sequence
	}
	w, ok := want(x, t)
	var m *mockey.Mocker
	var calls int
	if e := zz.Catch(func() { m, calls = declare(way, target, r) }); e != nil {
		c.Fail("the declaration panics: %v", e)
		return
	}
	defer m.UnPatch()
	for i := 1; i < calls; i++ {
		for _, o := range call(f) {
			if !o.IsZero() {
				c.Fail("call %d gives %v, want the zero value", i, o)
			}
		}
	}
	for n := 0; n < 2 && (n == 0 || way != 2 && way != 3); n++ {
		c.Step()
		var got []reflect.Value
		e := zz.Catch(func() { got = call(f) })
		if !ok {
			if e == nil {
				c.Fail("the call gives %v, want a panic", got)
			}
			continue
		}
		if e != nil {
			c.Fail("the call panics: %v", e)
			return
		}
		if s := same(got[pos], w, x != nil && !reflect.TypeOf(x).AssignableTo(t)); s != "" {
			c.Fail("result %d: %s", pos, s)
		}
		if arity == 1 && got[1].Uint() != 9 || arity == 2 && got[0].String() != "y" {
			c.Fail("the other result is %v", got[1-pos])
		}
	}
	m.UnPatch()
	for i, o := range call(f) {
		if i == pos && !o.IsZero() {
			c.Fail("undone: %v, want the zero value", o)
		}
	}
	c.State(zz.Hash(fmt.Sprint(ti, arity, vi, ok)))
}

func init() {
	zz.Register("C02", zz.Suite{
		Name: "values of Return",
		Bound: func(e *zz.Env) string {
			return fmt.Sprintf("every one of %d result types (alone, with another result before or behind it) x each of %d values x %d ways to declare it", len(funcs), len(values), e.Pick(1, len(ways), len(ways)))
		},
		Gen: func(e *zz.Env, y func(zz.Case) bool) {
			for ti := range funcs {
				for arity := 0; arity < 3; arity++ {
					for vi := range values {
						for way := 0; way < e.Pick(1, len(ways), len(ways)); way++ {
							ti, arity, vi, way := ti, arity, vi, way
							if e.Mini() && (ti+vi)%3 != arity {
								continue
							}
							if !y(zz.Case{
								Text: func() string {
									return fmt.Sprintf("%v returns value %d, a %T, by %s", reflect.TypeOf(funcs[ti][arity]), vi, values[vi], ways[way])
								},
								Run: func(c *zz.Ctx) { run(c, ti, arity, vi, way) },
							}) {
								return
							}
						}
					}
				}
			}
		},
	})
}
