package gensrun

import (
	"fmt"

	"github.com/bytedance/mockey"
	"github.com/bytedance/mockey/zzverif/zz"
)

// Value methods of generic types whose receivers are copied by the runtime when they are called by pointer.

type ptrCase struct {
	name   string
	target interface{}
	method func() interface{} // the method of an instance
	calls  []func() int
	orig   int
	other  func() int // another instantiation
}

var ptrCases []ptrCase

type pv2[T any] struct {
	a [2]T
	k int
}

//go:noinline
func (b pv2[T]) M(x *int) int {
	y := b.k*3 + len(b.a)
	if x != nil {
		y += *x
	}
	return y + 1
}

type em2[T any] struct{ pv2[T] }

func addPv2[T, U any](name string) {
	v, u := &pv2[T]{k: 2}, &pv2[U]{k: 2}
	e := &em2[T]{*v}
	s := func(what string, target interface{}, method func() interface{}) {
		ptrCases = append(ptrCases, ptrCase{
			name: what + " of a receiver with 2 of " + name, target: target, method: method,
			calls: []func() int{
				func() int { return v.M(nil) },
				func() int { return (*v).M(nil) },
				func() int { return e.M(nil) },
				func() int { f := (*pv2[T]).M; return f(v, nil) },
				func() int { f := pv2[T].M; return f(*v, nil) },
				func() int { f := v.M; return f(nil) },
				func() int { var i interface{ M(*int) int } = v; return i.M(nil) },
				func() int { var i interface{ M(*int) int } = *v; return i.M(nil) },
			},
			orig:  2*3 + 2 + 1,
			other: func() int { return u.M(nil) },
		})
	}
	s("method expression", (*pv2[T]).M, nil)
	s("value method expression", pv2[T].M, nil)
	s("GetMethod of a pointer", nil, func() interface{} { return mockey.GetMethod(v, "M") })
	s("GetMethod of a value", nil, func() interface{} { return mockey.GetMethod(*v, "M") })
}

type pv5[T any] struct {
	a [5]T
	k int
}

//go:noinline
func (b pv5[T]) M(x *int) int {
	y := b.k*3 + len(b.a)
	if x != nil {
		y += *x
	}
	return y + 1
}

type em5[T any] struct{ pv5[T] }

func addPv5[T, U any](name string) {
	v, u := &pv5[T]{k: 5}, &pv5[U]{k: 5}
	e := &em5[T]{*v}
	s := func(what string, target interface{}, method func() interface{}) {
		ptrCases = append(ptrCases, ptrCase{
			name: what + " of a receiver with 5 of " + name, target: target, method: method,
			calls: []func() int{
				func() int { return v.M(nil) },
				func() int { return (*v).M(nil) },
				func() int { return e.M(nil) },
				func() int { f := (*pv5[T]).M; return f(v, nil) },
				func() int { f := pv5[T].M; return f(*v, nil) },
				func() int { f := v.M; return f(nil) },
				func() int { var i interface{ M(*int) int } = v; return i.M(nil) },
				func() int { var i interface{ M(*int) int } = *v; return i.M(nil) },
			},
			orig:  5*3 + 5 + 1,
			other: func() int { return u.M(nil) },
		})
	}
	s("method expression", (*pv5[T]).M, nil)
	s("value method expression", pv5[T].M, nil)
	s("GetMethod of a pointer", nil, func() interface{} { return mockey.GetMethod(v, "M") })
	s("GetMethod of a value", nil, func() interface{} { return mockey.GetMethod(*v, "M") })
}

type pv9[T any] struct {
	a [9]T
	k int
}

//go:noinline
func (b pv9[T]) M(x *int) int {
	y := b.k*3 + len(b.a)
	if x != nil {
		y += *x
	}
	return y + 1
}

type em9[T any] struct{ pv9[T] }

func addPv9[T, U any](name string) {
	v, u := &pv9[T]{k: 9}, &pv9[U]{k: 9}
	e := &em9[T]{*v}
	s := func(what string, target interface{}, method func() interface{}) {
		ptrCases = append(ptrCases, ptrCase{
			name: what + " of a receiver with 9 of " + name, target: target, method: method,
			calls: []func() int{
				func() int { return v.M(nil) },
				func() int { return (*v).M(nil) },
				func() int { return e.M(nil) },
				func() int { f := (*pv9[T]).M; return f(v, nil) },
				func() int { f := pv9[T].M; return f(*v, nil) },
				func() int { f := v.M; return f(nil) },
				func() int { var i interface{ M(*int) int } = v; return i.M(nil) },
				func() int { var i interface{ M(*int) int } = *v; return i.M(nil) },
			},
			orig:  9*3 + 9 + 1,
			other: func() int { return u.M(nil) },
		})
	}
	s("method expression", (*pv9[T]).M, nil)
	s("value method expression", pv9[T].M, nil)
	s("GetMethod of a pointer", nil, func() interface{} { return mockey.GetMethod(v, "M") })
	s("GetMethod of a value", nil, func() interface{} { return mockey.GetMethod(*v, "M") })
}

type pv17[T any] struct {
	a [17]T
	k int
}

//go:noinline
func (b pv17[T]) M(x *int) int {
	y := b.k*3 + len(b.a)
	if x != nil {
		y += *x
	}
	return y + 1
}

type em17[T any] struct{ pv17[T] }

func addPv17[T, U any](name string) {
	v, u := &pv17[T]{k: 17}, &pv17[U]{k: 17}
	e := &em17[T]{*v}
	s := func(what string, target interface{}, method func() interface{}) {
		ptrCases = append(ptrCases, ptrCase{
			name: what + " of a receiver with 17 of " + name, target: target, method: method,
			calls: []func() int{
				func() int { return v.M(nil) },
				func() int { return (*v).M(nil) },
				func() int { return e.M(nil) },
				func() int { f := (*pv17[T]).M; return f(v, nil) },
				func() int { f := pv17[T].M; return f(*v, nil) },
				func() int { f := v.M; return f(nil) },
				func() int { var i interface{ M(*int) int } = v; return i.M(nil) },
				func() int { var i interface{ M(*int) int } = *v; return i.M(nil) },
			},
			orig:  17*3 + 17 + 1,
			other: func() int { return u.M(nil) },
		})
	}
	s("method expression", (*pv17[T]).M, nil)
	s("value method expression", pv17[T].M, nil)
	s("GetMethod of a pointer", nil, func() interface{} { return mockey.GetMethod(v, "M") })
	s("GetMethod of a value", nil, func() interface{} { return mockey.GetMethod(*v, "M") })
}

type pv40[T any] struct {
	a [40]T
	k int
}

//go:noinline
func (b pv40[T]) M(x *int) int {
	y := b.k*3 + len(b.a)
	if x != nil {
		y += *x
	}
	return y + 1
}

type em40[T any] struct{ pv40[T] }

func addPv40[T, U any](name string) {
	v, u := &pv40[T]{k: 40}, &pv40[U]{k: 40}
	e := &em40[T]{*v}
	s := func(what string, target interface{}, method func() interface{}) {
		ptrCases = append(ptrCases, ptrCase{
			name: what + " of a receiver with 40 of " + name, target: target, method: method,
			calls: []func() int{
				func() int { return v.M(nil) },
				func() int { return (*v).M(nil) },
				func() int { return e.M(nil) },
				func() int { f := (*pv40[T]).M; return f(v, nil) },
				func() int { f := pv40[T].M; return f(*v, nil) },
				func() int { f := v.M; return f(nil) },
				func() int { var i interface{ M(*int) int } = v; return i.M(nil) },
				func() int { var i interface{ M(*int) int } = *v; return i.M(nil) },
			},
			orig:  40*3 + 40 + 1,
			other: func() int { return u.M(nil) },
		})
	}
	s("method expression", (*pv40[T]).M, nil)
	s("value method expression", pv40[T].M, nil)
	s("GetMethod of a pointer", nil, func() interface{} { return mockey.GetMethod(v, "M") })
	s("GetMethod of a value", nil, func() interface{} { return mockey.GetMethod(*v, "M") })
}

type pv70[T any] struct {
	a [70]T
	k int
}

//go:noinline
func (b pv70[T]) M(x *int) int {
	y := b.k*3 + len(b.a)
	if x != nil {
		y += *x
	}
	return y + 1
}

type em70[T any] struct{ pv70[T] }

func addPv70[T, U any](name string) {
	v, u := &pv70[T]{k: 70}, &pv70[U]{k: 70}
	e := &em70[T]{*v}
	s := func(what string, target interface{}, method func() interface{}) {
		ptrCases = append(ptrCases, ptrCase{
			name: what + " of a receiver with 70 of " + name, target: target, method: method,
			calls: []func() int{
				func() int { return v.M(nil) },
				func() int { return (*v).M(nil) },
				func() int { return e.M(nil) },
				func() int { f := (*pv70[T]).M; return f(v, nil) },
				func() int { f := pv70[T].M; return f(*v, nil) },
				func() int { f := v.M; return f(nil) },
				func() int { var i interface{ M(*int) int } = v; return i.M(nil) },
				func() int { var i interface{ M(*int) int } = *v; return i.M(nil) },
			},
			orig:  70*3 + 70 + 1,
			other: func() int { return u.M(nil) },
		})
	}
	s("method expression", (*pv70[T]).M, nil)
	s("value method expression", pv70[T].M, nil)
	s("GetMethod of a pointer", nil, func() interface{} { return mockey.GetMethod(v, "M") })
	s("GetMethod of a value", nil, func() interface{} { return mockey.GetMethod(*v, "M") })
}

type pv130[T any] struct {
	a [130]T
	k int
}

//go:noinline
func (b pv130[T]) M(x *int) int {
	y := b.k*3 + len(b.a)
	if x != nil {
		y += *x
	}
	return y + 1
}

type em130[T any] struct{ pv130[T] }

func addPv130[T, U any](name string) {
	v, u := &pv130[T]{k: 130}, &pv130[U]{k: 130}
	e := &em130[T]{*v}
	s := func(what string, target interface{}, method func() interface{}) {
		ptrCases = append(ptrCases, ptrCase{
			name: what + " of a receiver with 130 of " + name, target: target, method: method,
			calls: []func() int{
				func() int { return v.M(nil) },
				func() int { return (*v).M(nil) },
				func() int { return e.M(nil) },
				func() int { f := (*pv130[T]).M; return f(v, nil) },
				func() int { f := pv130[T].M; return f(*v, nil) },
				func() int { f := v.M; return f(nil) },
				func() int { var i interface{ M(*int) int } = v; return i.M(nil) },
				func() int { var i interface{ M(*int) int } = *v; return i.M(nil) },
			},
			orig:  130*3 + 130 + 1,
			other: func() int { return u.M(nil) },
		})
	}
	s("method expression", (*pv130[T]).M, nil)
	s("value method expression", pv130[T].M, nil)
	s("GetMethod of a pointer", nil, func() interface{} { return mockey.GetMethod(v, "M") })
	s("GetMethod of a value", nil, func() interface{} { return mockey.GetMethod(*v, "M") })
}

type pv600[T any] struct {
	a [600]T
	k int
}

//go:noinline
func (b pv600[T]) M(x *int) int {
	y := b.k*3 + len(b.a)
	if x != nil {
		y += *x
	}
	return y + 1
}

type em600[T any] struct{ pv600[T] }

func addPv600[T, U any](name string) {
	v, u := &pv600[T]{k: 600}, &pv600[U]{k: 600}
	e := &em600[T]{*v}
	s := func(what string, target interface{}, method func() interface{}) {
		ptrCases = append(ptrCases, ptrCase{
			name: what + " of a receiver with 600 of " + name, target: target, method: method,
			calls: []func() int{
				func() int { return v.M(nil) },
				func() int { return (*v).M(nil) },
				func() int { return e.M(nil) },
				func() int { f := (*pv600[T]).M; return f(v, nil) },
				func() int { f := pv600[T].M; return f(*v, nil) },
				func() int { f := v.M; return f(nil) },
				func() int { var i interface{ M(*int) int } = v; return i.M(nil) },
				func() int { var i interface{ M(*int) int } = *v; return i.M(nil) },
			},
			orig:  600*3 + 600 + 1,
			other: func() int { return u.M(nil) },
		})
	}
	s("method expression", (*pv600[T]).M, nil)
	s("value method expression", pv600[T].M, nil)
	s("GetMethod of a pointer", nil, func() interface{} { return mockey.GetMethod(v, "M") })
	s("GetMethod of a value", nil, func() interface{} { return mockey.GetMethod(*v, "M") })
}

func init() {
	addPv2[int, string]("int")
	addPv2[string, int]("string")
	addPv2[uint8, *int]("uint8")
	addPv2[interface{}, int]("interface{}")
	addPv2[struct {
		A, B uint16
		C    string
	}, uint8]("struct{ A, B uint16; C string }")
	addPv5[int, string]("int")
	addPv5[string, int]("string")
	addPv5[uint8, *int]("uint8")
	addPv5[interface{}, int]("interface{}")
	addPv5[struct {
		A, B uint16
		C    string
	}, uint8]("struct{ A, B uint16; C string }")
	addPv9[int, string]("int")
	addPv9[string, int]("string")
	addPv9[uint8, *int]("uint8")
	addPv9[interface{}, int]("interface{}")
	addPv9[struct {
		A, B uint16
		C    string
	}, uint8]("struct{ A, B uint16; C string }")
	addPv17[int, string]("int")
	addPv17[string, int]("string")
	addPv17[uint8, *int]("uint8")
	addPv17[interface{}, int]("interface{}")
	addPv17[struct {
		A, B uint16
		C    string
	}, uint8]("struct{ A, B uint16; C string }")
	addPv40[int, string]("int")
	addPv40[string, int]("string")
	addPv40[uint8, *int]("uint8")
	addPv40[interface{}, int]("interface{}")
	addPv40[struct {
		A, B uint16
		C    string
	}, uint8]("struct{ A, B uint16; C string }")
	addPv70[int, string]("int")
	addPv70[string, int]("string")
	addPv70[uint8, *int]("uint8")
	addPv70[interface{}, int]("interface{}")
	addPv70[struct {
		A, B uint16
		C    string
	}, uint8]("struct{ A, B uint16; C string }")
	addPv130[int, string]("int")
	addPv130[string, int]("string")
	addPv130[uint8, *int]("uint8")
	addPv130[interface{}, int]("interface{}")
	addPv130[struct {
		A, B uint16
		C    string
	}, uint8]("struct{ A, B uint16; C string }")
	addPv600[int, string]("int")
	addPv600[string, int]("string")
	addPv600[uint8, *int]("uint8")
	addPv600[interface{}, int]("interface{}")
	addPv600[struct {
		A, B uint16
		C    string
	}, uint8]("struct{ A, B uint16; C string }")
	zz.Register("C14", zz.Suite{
		Name: "value methods of large receivers by pointer",
		Bound: func(e *zz.Env) string {
			return fmt.Sprintf("all %d of: 8 receiver sizes, 5 element types (3 outside of generic code), 4 ways to name the method; 8 ways to call it", len(ptrCases))
		},
		Gen: func(e *zz.Env, y func(zz.Case) bool) {
			for _, p := range ptrCases {
				p := p
				for n := 0; n < 2; n++ {
					n := n
					if !y(zz.Case{Text: func() string { return fmt.Sprint(p.name, ", calls first ", n) }, Run: func(c *zz.Ctx) { p.run(c, n == 1) }}) {
						return
					}
				}
			}
		},
	})
}

func (p ptrCase) run(c *zz.Ctx, first bool) {
	check := func(when string, want int) bool {
		for i, f := range p.calls {
			if got := f(); got != want {
				c.Fail("%s: call %d gives %d, want %d", when, i, got, want)
				return false
			}
			c.Step()
		}
		if got := p.other(); got != p.orig {
			c.Fail("%s: another instantiation gives %d, want %d", when, got, p.orig)
			return false
		}
		return true
	}
	if first && !check("before", p.orig) {
		return
	}
	t := p.target
	if t == nil {
		t = p.method()
	}
	// nothing but Return: the receiver the hook gets is that of known finding KF-7
	m := mockey.MockGeneric(t).Return(-5).Build()
	if check("mocked", -5) && m.Times() != len(p.calls) {
		c.Fail("Times %d, want %d", m.Times(), len(p.calls))
	}
	m.UnPatch()
	if !c.Failed() {
		check("undone", p.orig)
	}
	c.State(zz.Hash(p.name))
}
