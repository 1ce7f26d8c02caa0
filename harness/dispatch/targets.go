// Package dispatch enumerates rule chains against calls of targets of every kind (C02) and builder requests (C04).
package dispatch

import (
	"errors"
	"reflect"

	"github.com/bytedance/mockey"
	"github.com/bytedance/mockey/zzverif/tg"
)

type vals = []interface{}

type path struct {
	name string
	call func(a vals) vals
}

type target struct {
	name    string
	mock    func() *mockey.MockBuilder
	typ     reflect.Type
	method  bool // the first argument is a receiver
	generic bool
	args    []vals
	paths   []path
	orig    func(a vals) vals
	rets    []vals // arguments of Return
	want    []vals // what the caller gets for them
}

type MyInt int
type MyStr string

//go:nosplit
func Conv(a int8, s MyStr) MyInt { return MyInt(a)*3 + MyInt(len(s)) + 7 }

//go:nosplit
func Ptr(p *int, q *int) {
	x := *q*3 + 1
	y := *p * 2
	*p = x + y
}

//go:nosplit
func Many(a int, b float64, c string, d []int, e interface{}) (int, string, float64) {
	x := a*7 + len(c) + len(d)
	for i := 0; i < len(d); i++ {
		x += d[i] * (i + 1)
	}
	return x, c, b*2 + 1
}

//go:nosplit
func VarIface(s string, a ...interface{}) int {
	x := len(s) * 100
	for i := 0; i < len(a); i++ {
		if a[i] != nil {
			x += i + 1
		}
	}
	if a == nil {
		x += 50
	}
	return x
}

//go:nosplit
func VarWrite(k int, a ...int) int {
	x := 0
	for i := 0; i < len(a); i++ {
		x += a[i] * (i + 1)
		a[i] += k
	}
	return x*2 + k
}

type priv struct{ K int }

//go:nosplit
func (p *priv) hidden(x int) int { return x*53 + p.K }

//go:nosplit
func (p priv) Shown(x int, s string) (string, int) { return s, x*59 + p.K }

type shower interface {
	Shown(int, string) (string, int)
}

type outer struct {
	*priv
	Z int
}

type large struct {
	A [9]int
	F float64
	S string
}

//go:nosplit
func (l large) Sum(x int, m large) (large, int) {
	l.A[8] += x
	l.F += m.F
	return l, l.A[0]*3 + m.A[8]*5 + x
}

var closure = func(x int, f float64) (float64, int) { return f * 2, x*61 + 9 }

type getter interface{ Get(int) int }

func one(x int) vals { return vals{x} }

func ints(a ...int) []int { return a }

func paths1(f func(int) int) []path {
	v := reflect.ValueOf(f)
	return []path{
		{"function value", func(a vals) vals { return one(f(a[0].(int))) }},
		{"reflect", func(a vals) vals { return one(int(v.Call([]reflect.Value{reflect.ValueOf(a[0])})[0].Int())) }},
		{"deferred", func(a vals) (r vals) {
			defer func(x int) { r = one(f(x)) }(a[0].(int))
			return
		}},
	}
}

var errX = errors.New("x")
var ptrX = new(int)

func targets() []*target {
	t1, t2 := &tg.T{K: 4}, &tg.T{K: 40}
	p1, p2 := &priv{3}, &priv{30}
	b1, b2 := &tg.Box[int]{P: 1, K: 6}, &tg.Box[int]{P: 2, K: 60}
	l1, l2 := large{[9]int{1, 2, 8: 3}, 0.5, "l1"}, large{[9]int{4, 5, 8: 6}, -0.25, "l2"}
	a1, a2 := &tg.A1{V: 1}, &tg.A1{V: 2}
	return []*target{
		{
			name: "F", mock: func() *mockey.MockBuilder { return mockey.Mock(tg.F) }, typ: reflect.TypeOf(tg.F),
			args:  []vals{{5}, {-1 << 62}},
			paths: append(paths1(tg.F), path{"direct", func(a vals) vals { return one(tg.F(a[0].(int))) }}),
			orig:  func(a vals) vals { return one(a[0].(int)*3 + 1) },
			rets:  []vals{{9}, {nil}, {int8(3)}}, want: []vals{{9}, {0}, {3}},
		},
		{
			name: "Two", mock: func() *mockey.MockBuilder { return mockey.Mock(tg.Two) }, typ: reflect.TypeOf(tg.Two),
			args: []vals{{5, "ab"}, {0, ""}},
			paths: []path{{"direct", func(a vals) vals { x, y := tg.Two(a[0].(int), a[1].(string)); return vals{x, y} }},
				{"function value", func(a vals) vals { f := tg.Two; x, y := f(a[0].(int), a[1].(string)); return vals{x, y} }}},
			orig: func(a vals) vals { return vals{a[0].(int) + len(a[1].(string)), a[1]} },
			rets: []vals{{9, "r"}, {nil, nil}}, want: []vals{{9, "r"}, {0, ""}},
		},
		{
			name: "Err", mock: func() *mockey.MockBuilder { return mockey.Mock(tg.Err) }, typ: reflect.TypeOf(tg.Err),
			args:  []vals{{5}, {0}},
			paths: []path{{"direct", func(a vals) vals { x, y := tg.Err(a[0].(int)); return vals{x, y} }}},
			orig:  func(a vals) vals { return vals{(*int)(nil), error(nil)} },
			rets:  []vals{{ptrX, errX}, {nil, nil}, {nil, errX}}, want: []vals{{ptrX, errX}, {(*int)(nil), nil}, {(*int)(nil), errX}},
		},
		{
			name: "Iface", mock: func() *mockey.MockBuilder { return mockey.Mock(tg.Iface) }, typ: reflect.TypeOf(tg.Iface),
			args:  []vals{{ptrX}, {nil}, {"s"}},
			paths: []path{{"direct", func(a vals) vals { return vals{tg.Iface(a[0])} }}},
			orig:  func(a vals) vals { return vals{a[0]} },
			rets:  []vals{{7}, {nil}, {(*int)(nil)}}, want: []vals{{7}, {nil}, {(*int)(nil)}},
		},
		{
			name: "Conv", mock: func() *mockey.MockBuilder { return mockey.Mock(Conv) }, typ: reflect.TypeOf(Conv),
			args:  []vals{{int8(-3), MyStr("q")}, {int8(100), MyStr("")}},
			paths: []path{{"direct", func(a vals) vals { return vals{Conv(a[0].(int8), a[1].(MyStr))} }}},
			orig:  func(a vals) vals { return vals{MyInt(a[0].(int8))*3 + MyInt(len(a[1].(MyStr))) + 7} },
			rets:  []vals{{5}, {MyInt(6)}, {nil}}, want: []vals{{MyInt(5)}, {MyInt(6)}, {MyInt(0)}},
		},
		{
			name: "Ptr", mock: func() *mockey.MockBuilder { return mockey.Mock(Ptr) }, typ: reflect.TypeOf(Ptr),
			args:  []vals{{new(int), ptrX}},
			paths: []path{{"direct", func(a vals) vals { *a[0].(*int) = 4; Ptr(a[0].(*int), a[1].(*int)); return vals{*a[0].(*int)} }}},
			orig:  func(a vals) vals { *a[0].(*int) = 9; return vals{} },
			rets:  []vals{{}}, want: []vals{{}},
		},
		{
			name: "Many", mock: func() *mockey.MockBuilder { return mockey.Mock(Many) }, typ: reflect.TypeOf(Many),
			args: []vals{{1, 2.5, "abc", ints(3, 4), ptrX}, {2, -0.5, "", []int(nil), nil}},
			paths: []path{{"direct", func(a vals) vals {
				x, y, z := Many(a[0].(int), a[1].(float64), a[2].(string), a[3].([]int), a[4])
				return vals{x, y, z}
			}}},
			orig: func(a vals) vals {
				x := a[0].(int)*7 + len(a[2].(string)) + len(a[3].([]int))
				for i, v := range a[3].([]int) {
					x += v * (i + 1)
				}
				return vals{x, a[2], a[1].(float64)*2 + 1}
			},
			rets: []vals{{1, "z", 1.5}, {nil, nil, nil}}, want: []vals{{1, "z", 1.5}, {0, "", 0.0}},
		},
		{
			name: "Variadic", mock: func() *mockey.MockBuilder { return mockey.Mock(tg.Variadic) }, typ: reflect.TypeOf(tg.Variadic),
			args: []vals{{1, []int(nil)}, {2, ints(3, 4)}, {3, []int{}}},
			paths: []path{{"spread", func(a vals) vals { return one(tg.Variadic(a[0].(int), a[1].([]int)...)) }},
				{"function value", func(a vals) vals { f := tg.Variadic; return one(f(a[0].(int), a[1].([]int)...)) }}},
			orig: func(a vals) vals {
				x := a[0].(int) * 100
				for i, v := range a[1].([]int) {
					x += v * (i + 1)
				}
				return one(x)
			},
			rets: []vals{{9}}, want: []vals{{9}},
		},
		{
			name: "VarIface", mock: func() *mockey.MockBuilder { return mockey.Mock(VarIface) }, typ: reflect.TypeOf(VarIface),
			args:  []vals{{"a", vals(nil)}, {"", vals{1, nil, "x"}}, {"b", vals{nil}}},
			paths: []path{{"spread", func(a vals) vals { return one(VarIface(a[0].(string), a[1].(vals)...)) }}},
			orig: func(a vals) vals {
				x := len(a[0].(string)) * 100
				for i, v := range a[1].(vals) {
					if v != nil {
						x += i + 1
					}
				}
				if a[1].(vals) == nil {
					x += 50
				}
				return one(x)
			},
			rets: []vals{{9}}, want: []vals{{9}},
		},
		{
			name: "VarWrite", mock: func() *mockey.MockBuilder { return mockey.Mock(VarWrite) }, typ: reflect.TypeOf(VarWrite),
			args: []vals{{0, ints(3, 4)}, {0, []int(nil)}},
			paths: []path{{"spread", func(a vals) vals {
				// with k=0 the elements stay; a second call shows that writes arrive
				return one(VarWrite(a[0].(int), a[1].([]int)...))
			}}},
			orig: func(a vals) vals {
				x := 0
				for i, v := range a[1].([]int) {
					x += v * (i + 1)
				}
				return one(x * 2)
			},
			rets: []vals{{9}}, want: []vals{{9}},
		},
		{
			name: "VariadicOnly", mock: func() *mockey.MockBuilder { return mockey.Mock(tg.VariadicOnly) }, typ: reflect.TypeOf(tg.VariadicOnly),
			args:  []vals{{[]int(nil)}, {ints(3, 4)}},
			paths: []path{{"spread", func(a vals) vals { return one(tg.VariadicOnly(a[0].([]int)...)) }}},
			orig: func(a vals) vals {
				x := len(a[0].([]int)) * 1000
				for i, v := range a[0].([]int) {
					x += v * (i + 1)
				}
				return one(x)
			},
			rets: []vals{{9}}, want: []vals{{9}},
		},
		{
			name: "(*T).PM", mock: func() *mockey.MockBuilder { return mockey.Mock((*tg.T).PM) }, typ: reflect.TypeOf((*tg.T).PM), method: true,
			args: []vals{{t1, 5}, {t2, 5}, {t1, -6}},
			paths: []path{
				{"direct", func(a vals) vals { return one(a[0].(*tg.T).PM(a[1].(int))) }},
				{"method value", func(a vals) vals { f := a[0].(*tg.T).PM; return one(f(a[1].(int))) }},
				{"method expression", func(a vals) vals { f := (*tg.T).PM; return one(f(a[0].(*tg.T), a[1].(int))) }},
				{"interface", func(a vals) vals { return one(tg.Doer(a[0].(*tg.T)).PM(a[1].(int))) }},
				{"reflect method", func(a vals) vals {
					return one(int(reflect.ValueOf(a[0]).MethodByName("PM").Call([]reflect.Value{reflect.ValueOf(a[1])})[0].Int()))
				}},
			},
			orig: func(a vals) vals { return one(a[1].(int)*11 + a[0].(*tg.T).K) },
			rets: []vals{{9}}, want: []vals{{9}},
		},
		{
			name: "T.VM", mock: func() *mockey.MockBuilder { return mockey.Mock(tg.T.VM) }, typ: reflect.TypeOf(tg.T.VM), method: true,
			args: []vals{{*t1, 5}, {*t2, 5}},
			paths: []path{
				{"direct", func(a vals) vals { return one(a[0].(tg.T).VM(a[1].(int))) }},
				{"method value", func(a vals) vals { f := a[0].(tg.T).VM; return one(f(a[1].(int))) }},
				{"pointer", func(a vals) vals { p := a[0].(tg.T); q := &p; return one(q.VM(a[1].(int))) }},
				{"promoted", func(a vals) vals { e := tg.Emb{T: a[0].(tg.T)}; return one(e.VM(a[1].(int))) }},
			},
			orig: func(a vals) vals { return one(a[1].(int)*13 + a[0].(tg.T).K) },
			rets: []vals{{9}}, want: []vals{{9}},
		},
		{
			name: "(*T).PV", mock: func() *mockey.MockBuilder { return mockey.Mock((*tg.T).PV) }, typ: reflect.TypeOf((*tg.T).PV), method: true,
			args: []vals{{t1, 5, []int(nil)}, {t2, 5, ints(1, 2)}},
			paths: []path{
				{"direct", func(a vals) vals { return one(a[0].(*tg.T).PV(a[1].(int), a[2].([]int)...)) }},
				{"method value", func(a vals) vals { f := a[0].(*tg.T).PV; return one(f(a[1].(int), a[2].([]int)...)) }},
			},
			orig: func(a vals) vals {
				x := a[1].(int)*17 + a[0].(*tg.T).K
				for i, v := range a[2].([]int) {
					x += v * (i + 2)
				}
				return one(x)
			},
			rets: []vals{{9}}, want: []vals{{9}},
		},
		{
			name: "priv.Shown", mock: func() *mockey.MockBuilder { return mockey.Mock(priv.Shown) }, typ: reflect.TypeOf(priv.Shown), method: true,
			args: []vals{{*p1, 5, "u"}, {*p2, 5, "u"}},
			paths: []path{
				{"direct", func(a vals) vals { x, y := a[0].(priv).Shown(a[1].(int), a[2].(string)); return vals{x, y} }},
				{"interface", func(a vals) vals { x, y := shower(a[0].(priv)).Shown(a[1].(int), a[2].(string)); return vals{x, y} }},
				{"interface holding a pointer", func(a vals) vals {
					p := a[0].(priv)
					x, y := shower(&p).Shown(a[1].(int), a[2].(string))
					return vals{x, y}
				}},
				{"promoted from a pointer", func(a vals) vals {
					p := a[0].(priv)
					x, y := (&outer{priv: &p}).Shown(a[1].(int), a[2].(string))
					return vals{x, y}
				}},
			},
			orig: func(a vals) vals { return vals{a[2], a[1].(int)*59 + a[0].(priv).K} },
			rets: []vals{{"z", 9}}, want: []vals{{"z", 9}},
		},
		{
			name: "GetMethod hidden", mock: func() *mockey.MockBuilder { return mockey.Mock(mockey.GetMethod(p1, "hidden")) }, typ: reflect.TypeOf((*priv).hidden), method: true,
			args:  []vals{{p1, 5}, {p2, 5}},
			paths: []path{{"direct", func(a vals) vals { return one(a[0].(*priv).hidden(a[1].(int))) }}},
			orig:  func(a vals) vals { return one(a[1].(int)*53 + a[0].(*priv).K) },
			rets:  []vals{{9}}, want: []vals{{9}},
		},
		{
			name: "large.Sum", mock: func() *mockey.MockBuilder { return mockey.Mock(large.Sum) }, typ: reflect.TypeOf(large.Sum), method: true,
			args: []vals{{l1, 5, l2}, {l2, -5, l1}},
			paths: []path{
				{"direct", func(a vals) vals { x, y := a[0].(large).Sum(a[1].(int), a[2].(large)); return vals{x, y} }},
				{"method value", func(a vals) vals { f := a[0].(large).Sum; x, y := f(a[1].(int), a[2].(large)); return vals{x, y} }},
				{"pointer", func(a vals) vals {
					p := a[0].(large)
					q := &p
					x, y := q.Sum(a[1].(int), a[2].(large))
					return vals{x, y}
				}},
			},
			orig: func(a vals) vals {
				l, m, x := a[0].(large), a[2].(large), a[1].(int)
				l.A[8] += x
				l.F += m.F
				return vals{l, l.A[0]*3 + m.A[8]*5 + x}
			},
			rets: []vals{{l2, 9}, {nil, nil}}, want: []vals{{l2, 9}, {large{}, 0}},
		},
		{
			name: "closure", mock: func() *mockey.MockBuilder { return mockey.Mock(closure) }, typ: reflect.TypeOf(closure),
			args:  []vals{{5, 1.5}, {-5, 0.0}},
			paths: []path{{"variable", func(a vals) vals { x, y := closure(a[0].(int), a[1].(float64)); return vals{x, y} }}},
			orig:  func(a vals) vals { return vals{a[1].(float64) * 2, a[0].(int)*61 + 9} },
			rets:  []vals{{2.5, 9}}, want: []vals{{2.5, 9}},
		},
		{
			name: "G[*A1]", mock: func() *mockey.MockBuilder { return mockey.MockGeneric(tg.G[*tg.A1]) }, typ: reflect.TypeOf(tg.G[*tg.A1]), generic: true,
			args:  []vals{{a1, 5}, {a2, 6}},
			paths: []path{{"direct", func(a vals) vals { return one(tg.G(a[0].(*tg.A1), a[1].(int))) }}, {"function value", func(a vals) vals { f := tg.G[*tg.A1]; return one(f(a[0].(*tg.A1), a[1].(int))) }}},
			orig:  func(a vals) vals { return one(a[1].(int)*31 + 5) },
			rets:  []vals{{9}}, want: []vals{{9}},
		},
		{
			name: "(*Box[int]).Get", mock: func() *mockey.MockBuilder { return mockey.MockGeneric((*tg.Box[int]).Get) }, typ: reflect.TypeOf((*tg.Box[int]).Get), generic: true, method: true,
			args: []vals{{b1, 5}, {b2, 5}},
			paths: []path{
				{"direct", func(a vals) vals { return one(a[0].(*tg.Box[int]).Get(a[1].(int))) }},
				{"method value", func(a vals) vals { f := a[0].(*tg.Box[int]).Get; return one(f(a[1].(int))) }},
				{"interface", func(a vals) vals { return one(getter(a[0].(*tg.Box[int])).Get(a[1].(int))) }},
			},
			orig: func(a vals) vals { return one(a[1].(int)*41 + a[0].(*tg.Box[int]).K) },
			rets: []vals{{9}}, want: []vals{{9}},
		},
	}
}
