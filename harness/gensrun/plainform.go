package gensrun

import "github.com/bytedance/mockey"

// The same methods, named and called in code that is not generic: calls go to the shared code, and function values and
// method tables to an instance wrapper of it, which a mock through the pointer replaces alone (known finding KF-8).

func plainPv2int() {
	v, u := &pv2[int]{k: 2}, &pv2[string]{k: 2}
	e := &em2[int]{*v}
	values := []func() int{
		func() int { f := (*pv2[int]).M; return f(v, nil) },
		func() int { f := pv2[int].M; return f(*v, nil) },
		func() int { f := v.M; return f(nil) },
		func() int { var i interface{ M(*int) int } = v; return i.M(nil) },
		func() int { var i interface{ M(*int) int } = *v; return i.M(nil) },
	}
	all := append([]func() int{
		func() int { return v.M(nil) },
		func() int { return (*v).M(nil) },
		func() int { return e.M(nil) },
	}, values...)
	s := func(what string, target interface{}, method func() interface{}, calls []func() int) {
		ptrCases = append(ptrCases, ptrCase{
			name: what + " of a receiver with 2 of int, outside of generic code", target: target, method: method,
			calls: calls,
			orig:  2*3 + 2 + 1,
			other: func() int { return u.M(nil) },
		})
	}
	s("method expression", (*pv2[int]).M, nil, values)
	s("value method expression", pv2[int].M, nil, all)
	s("GetMethod of a pointer", nil, func() interface{} { return mockey.GetMethod(v, "M") }, all)
	s("GetMethod of a value", nil, func() interface{} { return mockey.GetMethod(*v, "M") }, all)
}

func plainPv2string() {
	v, u := &pv2[string]{k: 2}, &pv2[int]{k: 2}
	e := &em2[string]{*v}
	values := []func() int{
		func() int { f := (*pv2[string]).M; return f(v, nil) },
		func() int { f := pv2[string].M; return f(*v, nil) },
		func() int { f := v.M; return f(nil) },
		func() int { var i interface{ M(*int) int } = v; return i.M(nil) },
		func() int { var i interface{ M(*int) int } = *v; return i.M(nil) },
	}
	all := append([]func() int{
		func() int { return v.M(nil) },
		func() int { return (*v).M(nil) },
		func() int { return e.M(nil) },
	}, values...)
	s := func(what string, target interface{}, method func() interface{}, calls []func() int) {
		ptrCases = append(ptrCases, ptrCase{
			name: what + " of a receiver with 2 of string, outside of generic code", target: target, method: method,
			calls: calls,
			orig:  2*3 + 2 + 1,
			other: func() int { return u.M(nil) },
		})
	}
	s("method expression", (*pv2[string]).M, nil, values)
	s("value method expression", pv2[string].M, nil, all)
	s("GetMethod of a pointer", nil, func() interface{} { return mockey.GetMethod(v, "M") }, all)
	s("GetMethod of a value", nil, func() interface{} { return mockey.GetMethod(*v, "M") }, all)
}

func plainPv2interface() {
	v, u := &pv2[interface{}]{k: 2}, &pv2[int]{k: 2}
	e := &em2[interface{}]{*v}
	values := []func() int{
		func() int { f := (*pv2[interface{}]).M; return f(v, nil) },
		func() int { f := pv2[interface{}].M; return f(*v, nil) },
		func() int { f := v.M; return f(nil) },
		func() int { var i interface{ M(*int) int } = v; return i.M(nil) },
		func() int { var i interface{ M(*int) int } = *v; return i.M(nil) },
	}
	all := append([]func() int{
		func() int { return v.M(nil) },
		func() int { return (*v).M(nil) },
		func() int { return e.M(nil) },
	}, values...)
	s := func(what string, target interface{}, method func() interface{}, calls []func() int) {
		ptrCases = append(ptrCases, ptrCase{
			name: what + " of a receiver with 2 of interface{}, outside of generic code", target: target, method: method,
			calls: calls,
			orig:  2*3 + 2 + 1,
			other: func() int { return u.M(nil) },
		})
	}
	s("method expression", (*pv2[interface{}]).M, nil, values)
	s("value method expression", pv2[interface{}].M, nil, all)
	s("GetMethod of a pointer", nil, func() interface{} { return mockey.GetMethod(v, "M") }, all)
	s("GetMethod of a value", nil, func() interface{} { return mockey.GetMethod(*v, "M") }, all)
}

func plainPv5int() {
	v, u := &pv5[int]{k: 5}, &pv5[string]{k: 5}
	e := &em5[int]{*v}
	values := []func() int{
		func() int { f := (*pv5[int]).M; return f(v, nil) },
		func() int { f := pv5[int].M; return f(*v, nil) },
		func() int { f := v.M; return f(nil) },
		func() int { var i interface{ M(*int) int } = v; return i.M(nil) },
		func() int { var i interface{ M(*int) int } = *v; return i.M(nil) },
	}
	all := append([]func() int{
		func() int { return v.M(nil) },
		func() int { return (*v).M(nil) },
		func() int { return e.M(nil) },
	}, values...)
	s := func(what string, target interface{}, method func() interface{}, calls []func() int) {
		ptrCases = append(ptrCases, ptrCase{
			name: what + " of a receiver with 5 of int, outside of generic code", target: target, method: method,
			calls: calls,
			orig:  5*3 + 5 + 1,
			other: func() int { return u.M(nil) },
		})
	}
	s("method expression", (*pv5[int]).M, nil, values)
	s("value method expression", pv5[int].M, nil, all)
	s("GetMethod of a pointer", nil, func() interface{} { return mockey.GetMethod(v, "M") }, all)
	s("GetMethod of a value", nil, func() interface{} { return mockey.GetMethod(*v, "M") }, all)
}

func plainPv5string() {
	v, u := &pv5[string]{k: 5}, &pv5[int]{k: 5}
	e := &em5[string]{*v}
	values := []func() int{
		func() int { f := (*pv5[string]).M; return f(v, nil) },
		func() int { f := pv5[string].M; return f(*v, nil) },
		func() int { f := v.M; return f(nil) },
		func() int { var i interface{ M(*int) int } = v; return i.M(nil) },
		func() int { var i interface{ M(*int) int } = *v; return i.M(nil) },
	}
	all := append([]func() int{
		func() int { return v.M(nil) },
		func() int { return (*v).M(nil) },
		func() int { return e.M(nil) },
	}, values...)
	s := func(what string, target interface{}, method func() interface{}, calls []func() int) {
		ptrCases = append(ptrCases, ptrCase{
			name: what + " of a receiver with 5 of string, outside of generic code", target: target, method: method,
			calls: calls,
			orig:  5*3 + 5 + 1,
			other: func() int { return u.M(nil) },
		})
	}
	s("method expression", (*pv5[string]).M, nil, values)
	s("value method expression", pv5[string].M, nil, all)
	s("GetMethod of a pointer", nil, func() interface{} { return mockey.GetMethod(v, "M") }, all)
	s("GetMethod of a value", nil, func() interface{} { return mockey.GetMethod(*v, "M") }, all)
}

func plainPv5interface() {
	v, u := &pv5[interface{}]{k: 5}, &pv5[int]{k: 5}
	e := &em5[interface{}]{*v}
	values := []func() int{
		func() int { f := (*pv5[interface{}]).M; return f(v, nil) },
		func() int { f := pv5[interface{}].M; return f(*v, nil) },
		func() int { f := v.M; return f(nil) },
		func() int { var i interface{ M(*int) int } = v; return i.M(nil) },
		func() int { var i interface{ M(*int) int } = *v; return i.M(nil) },
	}
	all := append([]func() int{
		func() int { return v.M(nil) },
		func() int { return (*v).M(nil) },
		func() int { return e.M(nil) },
	}, values...)
	s := func(what string, target interface{}, method func() interface{}, calls []func() int) {
		ptrCases = append(ptrCases, ptrCase{
			name: what + " of a receiver with 5 of interface{}, outside of generic code", target: target, method: method,
			calls: calls,
			orig:  5*3 + 5 + 1,
			other: func() int { return u.M(nil) },
		})
	}
	s("method expression", (*pv5[interface{}]).M, nil, values)
	s("value method expression", pv5[interface{}].M, nil, all)
	s("GetMethod of a pointer", nil, func() interface{} { return mockey.GetMethod(v, "M") }, all)
	s("GetMethod of a value", nil, func() interface{} { return mockey.GetMethod(*v, "M") }, all)
}

func plainPv9int() {
	v, u := &pv9[int]{k: 9}, &pv9[string]{k: 9}
	e := &em9[int]{*v}
	values := []func() int{
		func() int { f := (*pv9[int]).M; return f(v, nil) },
		func() int { f := pv9[int].M; return f(*v, nil) },
		func() int { f := v.M; return f(nil) },
		func() int { var i interface{ M(*int) int } = v; return i.M(nil) },
		func() int { var i interface{ M(*int) int } = *v; return i.M(nil) },
	}
	all := append([]func() int{
		func() int { return v.M(nil) },
		func() int { return (*v).M(nil) },
		func() int { return e.M(nil) },
	}, values...)
	s := func(what string, target interface{}, method func() interface{}, calls []func() int) {
		ptrCases = append(ptrCases, ptrCase{
			name: what + " of a receiver with 9 of int, outside of generic code", target: target, method: method,
			calls: calls,
			orig:  9*3 + 9 + 1,
			other: func() int { return u.M(nil) },
		})
	}
	s("method expression", (*pv9[int]).M, nil, values)
	s("value method expression", pv9[int].M, nil, all)
	s("GetMethod of a pointer", nil, func() interface{} { return mockey.GetMethod(v, "M") }, all)
	s("GetMethod of a value", nil, func() interface{} { return mockey.GetMethod(*v, "M") }, all)
}

func plainPv9string() {
	v, u := &pv9[string]{k: 9}, &pv9[int]{k: 9}
	e := &em9[string]{*v}
	values := []func() int{
		func() int { f := (*pv9[string]).M; return f(v, nil) },
		func() int { f := pv9[string].M; return f(*v, nil) },
		func() int { f := v.M; return f(nil) },
		func() int { var i interface{ M(*int) int } = v; return i.M(nil) },
		func() int { var i interface{ M(*int) int } = *v; return i.M(nil) },
	}
	all := append([]func() int{
		func() int { return v.M(nil) },
		func() int { return (*v).M(nil) },
		func() int { return e.M(nil) },
	}, values...)
	s := func(what string, target interface{}, method func() interface{}, calls []func() int) {
		ptrCases = append(ptrCases, ptrCase{
			name: what + " of a receiver with 9 of string, outside of generic code", target: target, method: method,
			calls: calls,
			orig:  9*3 + 9 + 1,
			other: func() int { return u.M(nil) },
		})
	}
	s("method expression", (*pv9[string]).M, nil, values)
	s("value method expression", pv9[string].M, nil, all)
	s("GetMethod of a pointer", nil, func() interface{} { return mockey.GetMethod(v, "M") }, all)
	s("GetMethod of a value", nil, func() interface{} { return mockey.GetMethod(*v, "M") }, all)
}

func plainPv9interface() {
	v, u := &pv9[interface{}]{k: 9}, &pv9[int]{k: 9}
	e := &em9[interface{}]{*v}
	values := []func() int{
		func() int { f := (*pv9[interface{}]).M; return f(v, nil) },
		func() int { f := pv9[interface{}].M; return f(*v, nil) },
		func() int { f := v.M; return f(nil) },
		func() int { var i interface{ M(*int) int } = v; return i.M(nil) },
		func() int { var i interface{ M(*int) int } = *v; return i.M(nil) },
	}
	all := append([]func() int{
		func() int { return v.M(nil) },
		func() int { return (*v).M(nil) },
		func() int { return e.M(nil) },
	}, values...)
	s := func(what string, target interface{}, method func() interface{}, calls []func() int) {
		ptrCases = append(ptrCases, ptrCase{
			name: what + " of a receiver with 9 of interface{}, outside of generic code", target: target, method: method,
			calls: calls,
			orig:  9*3 + 9 + 1,
			other: func() int { return u.M(nil) },
		})
	}
	s("method expression", (*pv9[interface{}]).M, nil, values)
	s("value method expression", pv9[interface{}].M, nil, all)
	s("GetMethod of a pointer", nil, func() interface{} { return mockey.GetMethod(v, "M") }, all)
	s("GetMethod of a value", nil, func() interface{} { return mockey.GetMethod(*v, "M") }, all)
}

func plainPv17int() {
	v, u := &pv17[int]{k: 17}, &pv17[string]{k: 17}
	e := &em17[int]{*v}
	values := []func() int{
		func() int { f := (*pv17[int]).M; return f(v, nil) },
		func() int { f := pv17[int].M; return f(*v, nil) },
		func() int { f := v.M; return f(nil) },
		func() int { var i interface{ M(*int) int } = v; return i.M(nil) },
		func() int { var i interface{ M(*int) int } = *v; return i.M(nil) },
	}
	all := append([]func() int{
		func() int { return v.M(nil) },
		func() int { return (*v).M(nil) },
		func() int { return e.M(nil) },
	}, values...)
	s := func(what string, target interface{}, method func() interface{}, calls []func() int) {
		ptrCases = append(ptrCases, ptrCase{
			name: what + " of a receiver with 17 of int, outside of generic code", target: target, method: method,
			calls: calls,
			orig:  17*3 + 17 + 1,
			other: func() int { return u.M(nil) },
		})
	}
	s("method expression", (*pv17[int]).M, nil, values)
	s("value method expression", pv17[int].M, nil, all)
	s("GetMethod of a pointer", nil, func() interface{} { return mockey.GetMethod(v, "M") }, all)
	s("GetMethod of a value", nil, func() interface{} { return mockey.GetMethod(*v, "M") }, all)
}

func plainPv17string() {
	v, u := &pv17[string]{k: 17}, &pv17[int]{k: 17}
	e := &em17[string]{*v}
	values := []func() int{
		func() int { f := (*pv17[string]).M; return f(v, nil) },
		func() int { f := pv17[string].M; return f(*v, nil) },
		func() int { f := v.M; return f(nil) },
		func() int { var i interface{ M(*int) int } = v; return i.M(nil) },
		func() int { var i interface{ M(*int) int } = *v; return i.M(nil) },
	}
	all := append([]func() int{
		func() int { return v.M(nil) },
		func() int { return (*v).M(nil) },
		func() int { return e.M(nil) },
	}, values...)
	s := func(what string, target interface{}, method func() interface{}, calls []func() int) {
		ptrCases = append(ptrCases, ptrCase{
			name: what + " of a receiver with 17 of string, outside of generic code", target: target, method: method,
			calls: calls,
			orig:  17*3 + 17 + 1,
			other: func() int { return u.M(nil) },
		})
	}
	s("method expression", (*pv17[string]).M, nil, values)
	s("value method expression", pv17[string].M, nil, all)
	s("GetMethod of a pointer", nil, func() interface{} { return mockey.GetMethod(v, "M") }, all)
	s("GetMethod of a value", nil, func() interface{} { return mockey.GetMethod(*v, "M") }, all)
}

func plainPv17interface() {
	v, u := &pv17[interface{}]{k: 17}, &pv17[int]{k: 17}
	e := &em17[interface{}]{*v}
	values := []func() int{
		func() int { f := (*pv17[interface{}]).M; return f(v, nil) },
		func() int { f := pv17[interface{}].M; return f(*v, nil) },
		func() int { f := v.M; return f(nil) },
		func() int { var i interface{ M(*int) int } = v; return i.M(nil) },
		func() int { var i interface{ M(*int) int } = *v; return i.M(nil) },
	}
	all := append([]func() int{
		func() int { return v.M(nil) },
		func() int { return (*v).M(nil) },
		func() int { return e.M(nil) },
	}, values...)
	s := func(what string, target interface{}, method func() interface{}, calls []func() int) {
		ptrCases = append(ptrCases, ptrCase{
			name: what + " of a receiver with 17 of interface{}, outside of generic code", target: target, method: method,
			calls: calls,
			orig:  17*3 + 17 + 1,
			other: func() int { return u.M(nil) },
		})
	}
	s("method expression", (*pv17[interface{}]).M, nil, values)
	s("value method expression", pv17[interface{}].M, nil, all)
	s("GetMethod of a pointer", nil, func() interface{} { return mockey.GetMethod(v, "M") }, all)
	s("GetMethod of a value", nil, func() interface{} { return mockey.GetMethod(*v, "M") }, all)
}

func plainPv40int() {
	v, u := &pv40[int]{k: 40}, &pv40[string]{k: 40}
	e := &em40[int]{*v}
	values := []func() int{
		func() int { f := (*pv40[int]).M; return f(v, nil) },
		func() int { f := pv40[int].M; return f(*v, nil) },
		func() int { f := v.M; return f(nil) },
		func() int { var i interface{ M(*int) int } = v; return i.M(nil) },
		func() int { var i interface{ M(*int) int } = *v; return i.M(nil) },
	}
	all := append([]func() int{
		func() int { return v.M(nil) },
		func() int { return (*v).M(nil) },
		func() int { return e.M(nil) },
	}, values...)
	s := func(what string, target interface{}, method func() interface{}, calls []func() int) {
		ptrCases = append(ptrCases, ptrCase{
			name: what + " of a receiver with 40 of int, outside of generic code", target: target, method: method,
			calls: calls,
			orig:  40*3 + 40 + 1,
			other: func() int { return u.M(nil) },
		})
	}
	s("method expression", (*pv40[int]).M, nil, values)
	s("value method expression", pv40[int].M, nil, all)
	s("GetMethod of a pointer", nil, func() interface{} { return mockey.GetMethod(v, "M") }, all)
	s("GetMethod of a value", nil, func() interface{} { return mockey.GetMethod(*v, "M") }, all)
}

func plainPv40string() {
	v, u := &pv40[string]{k: 40}, &pv40[int]{k: 40}
	e := &em40[string]{*v}
	values := []func() int{
		func() int { f := (*pv40[string]).M; return f(v, nil) },
		func() int { f := pv40[string].M; return f(*v, nil) },
		func() int { f := v.M; return f(nil) },
		func() int { var i interface{ M(*int) int } = v; return i.M(nil) },
		func() int { var i interface{ M(*int) int } = *v; return i.M(nil) },
	}
	all := append([]func() int{
		func() int { return v.M(nil) },
		func() int { return (*v).M(nil) },
		func() int { return e.M(nil) },
	}, values...)
	s := func(what string, target interface{}, method func() interface{}, calls []func() int) {
		ptrCases = append(ptrCases, ptrCase{
			name: what + " of a receiver with 40 of string, outside of generic code", target: target, method: method,
			calls: calls,
			orig:  40*3 + 40 + 1,
			other: func() int { return u.M(nil) },
		})
	}
	s("method expression", (*pv40[string]).M, nil, values)
	s("value method expression", pv40[string].M, nil, all)
	s("GetMethod of a pointer", nil, func() interface{} { return mockey.GetMethod(v, "M") }, all)
	s("GetMethod of a value", nil, func() interface{} { return mockey.GetMethod(*v, "M") }, all)
}

func plainPv40interface() {
	v, u := &pv40[interface{}]{k: 40}, &pv40[int]{k: 40}
	e := &em40[interface{}]{*v}
	values := []func() int{
		func() int { f := (*pv40[interface{}]).M; return f(v, nil) },
		func() int { f := pv40[interface{}].M; return f(*v, nil) },
		func() int { f := v.M; return f(nil) },
		func() int { var i interface{ M(*int) int } = v; return i.M(nil) },
		func() int { var i interface{ M(*int) int } = *v; return i.M(nil) },
	}
	all := append([]func() int{
		func() int { return v.M(nil) },
		func() int { return (*v).M(nil) },
		func() int { return e.M(nil) },
	}, values...)
	s := func(what string, target interface{}, method func() interface{}, calls []func() int) {
		ptrCases = append(ptrCases, ptrCase{
			name: what + " of a receiver with 40 of interface{}, outside of generic code", target: target, method: method,
			calls: calls,
			orig:  40*3 + 40 + 1,
			other: func() int { return u.M(nil) },
		})
	}
	s("method expression", (*pv40[interface{}]).M, nil, values)
	s("value method expression", pv40[interface{}].M, nil, all)
	s("GetMethod of a pointer", nil, func() interface{} { return mockey.GetMethod(v, "M") }, all)
	s("GetMethod of a value", nil, func() interface{} { return mockey.GetMethod(*v, "M") }, all)
}

func plainPv70int() {
	v, u := &pv70[int]{k: 70}, &pv70[string]{k: 70}
	e := &em70[int]{*v}
	values := []func() int{
		func() int { f := (*pv70[int]).M; return f(v, nil) },
		func() int { f := pv70[int].M; return f(*v, nil) },
		func() int { f := v.M; return f(nil) },
		func() int { var i interface{ M(*int) int } = v; return i.M(nil) },
		func() int { var i interface{ M(*int) int } = *v; return i.M(nil) },
	}
	all := append([]func() int{
		func() int { return v.M(nil) },
		func() int { return (*v).M(nil) },
		func() int { return e.M(nil) },
	}, values...)
	s := func(what string, target interface{}, method func() interface{}, calls []func() int) {
		ptrCases = append(ptrCases, ptrCase{
			name: what + " of a receiver with 70 of int, outside of generic code", target: target, method: method,
			calls: calls,
			orig:  70*3 + 70 + 1,
			other: func() int { return u.M(nil) },
		})
	}
	s("method expression", (*pv70[int]).M, nil, values)
	s("value method expression", pv70[int].M, nil, all)
	s("GetMethod of a pointer", nil, func() interface{} { return mockey.GetMethod(v, "M") }, all)
	s("GetMethod of a value", nil, func() interface{} { return mockey.GetMethod(*v, "M") }, all)
}

func plainPv70string() {
	v, u := &pv70[string]{k: 70}, &pv70[int]{k: 70}
	e := &em70[string]{*v}
	values := []func() int{
		func() int { f := (*pv70[string]).M; return f(v, nil) },
		func() int { f := pv70[string].M; return f(*v, nil) },
		func() int { f := v.M; return f(nil) },
		func() int { var i interface{ M(*int) int } = v; return i.M(nil) },
		func() int { var i interface{ M(*int) int } = *v; return i.M(nil) },
	}
	all := append([]func() int{
		func() int { return v.M(nil) },
		func() int { return (*v).M(nil) },
		func() int { return e.M(nil) },
	}, values...)
	s := func(what string, target interface{}, method func() interface{}, calls []func() int) {
		ptrCases = append(ptrCases, ptrCase{
			name: what + " of a receiver with 70 of string, outside of generic code", target: target, method: method,
			calls: calls,
			orig:  70*3 + 70 + 1,
			other: func() int { return u.M(nil) },
		})
	}
	s("method expression", (*pv70[string]).M, nil, values)
	s("value method expression", pv70[string].M, nil, all)
	s("GetMethod of a pointer", nil, func() interface{} { return mockey.GetMethod(v, "M") }, all)
	s("GetMethod of a value", nil, func() interface{} { return mockey.GetMethod(*v, "M") }, all)
}

func plainPv70interface() {
	v, u := &pv70[interface{}]{k: 70}, &pv70[int]{k: 70}
	e := &em70[interface{}]{*v}
	values := []func() int{
		func() int { f := (*pv70[interface{}]).M; return f(v, nil) },
		func() int { f := pv70[interface{}].M; return f(*v, nil) },
		func() int { f := v.M; return f(nil) },
		func() int { var i interface{ M(*int) int } = v; return i.M(nil) },
		func() int { var i interface{ M(*int) int } = *v; return i.M(nil) },
	}
	all := append([]func() int{
		func() int { return v.M(nil) },
		func() int { return (*v).M(nil) },
		func() int { return e.M(nil) },
	}, values...)
	s := func(what string, target interface{}, method func() interface{}, calls []func() int) {
		ptrCases = append(ptrCases, ptrCase{
			name: what + " of a receiver with 70 of interface{}, outside of generic code", target: target, method: method,
			calls: calls,
			orig:  70*3 + 70 + 1,
			other: func() int { return u.M(nil) },
		})
	}
	s("method expression", (*pv70[interface{}]).M, nil, values)
	s("value method expression", pv70[interface{}].M, nil, all)
	s("GetMethod of a pointer", nil, func() interface{} { return mockey.GetMethod(v, "M") }, all)
	s("GetMethod of a value", nil, func() interface{} { return mockey.GetMethod(*v, "M") }, all)
}

func plainPv130int() {
	v, u := &pv130[int]{k: 130}, &pv130[string]{k: 130}
	e := &em130[int]{*v}
	values := []func() int{
		func() int { f := (*pv130[int]).M; return f(v, nil) },
		func() int { f := pv130[int].M; return f(*v, nil) },
		func() int { f := v.M; return f(nil) },
		func() int { var i interface{ M(*int) int } = v; return i.M(nil) },
		func() int { var i interface{ M(*int) int } = *v; return i.M(nil) },
	}
	all := append([]func() int{
		func() int { return v.M(nil) },
		func() int { return (*v).M(nil) },
		func() int { return e.M(nil) },
	}, values...)
	s := func(what string, target interface{}, method func() interface{}, calls []func() int) {
		ptrCases = append(ptrCases, ptrCase{
			name: what + " of a receiver with 130 of int, outside of generic code", target: target, method: method,
			calls: calls,
			orig:  130*3 + 130 + 1,
			other: func() int { return u.M(nil) },
		})
	}
	s("method expression", (*pv130[int]).M, nil, values)
	s("value method expression", pv130[int].M, nil, all)
	s("GetMethod of a pointer", nil, func() interface{} { return mockey.GetMethod(v, "M") }, all)
	s("GetMethod of a value", nil, func() interface{} { return mockey.GetMethod(*v, "M") }, all)
}

func plainPv130string() {
	v, u := &pv130[string]{k: 130}, &pv130[int]{k: 130}
	e := &em130[string]{*v}
	values := []func() int{
		func() int { f := (*pv130[string]).M; return f(v, nil) },
		func() int { f := pv130[string].M; return f(*v, nil) },
		func() int { f := v.M; return f(nil) },
		func() int { var i interface{ M(*int) int } = v; return i.M(nil) },
		func() int { var i interface{ M(*int) int } = *v; return i.M(nil) },
	}
	all := append([]func() int{
		func() int { return v.M(nil) },
		func() int { return (*v).M(nil) },
		func() int { return e.M(nil) },
	}, values...)
	s := func(what string, target interface{}, method func() interface{}, calls []func() int) {
		ptrCases = append(ptrCases, ptrCase{
			name: what + " of a receiver with 130 of string, outside of generic code", target: target, method: method,
			calls: calls,
			orig:  130*3 + 130 + 1,
			other: func() int { return u.M(nil) },
		})
	}
	s("method expression", (*pv130[string]).M, nil, values)
	s("value method expression", pv130[string].M, nil, all)
	s("GetMethod of a pointer", nil, func() interface{} { return mockey.GetMethod(v, "M") }, all)
	s("GetMethod of a value", nil, func() interface{} { return mockey.GetMethod(*v, "M") }, all)
}

func plainPv130interface() {
	v, u := &pv130[interface{}]{k: 130}, &pv130[int]{k: 130}
	e := &em130[interface{}]{*v}
	values := []func() int{
		func() int { f := (*pv130[interface{}]).M; return f(v, nil) },
		func() int { f := pv130[interface{}].M; return f(*v, nil) },
		func() int { f := v.M; return f(nil) },
		func() int { var i interface{ M(*int) int } = v; return i.M(nil) },
		func() int { var i interface{ M(*int) int } = *v; return i.M(nil) },
	}
	all := append([]func() int{
		func() int { return v.M(nil) },
		func() int { return (*v).M(nil) },
		func() int { return e.M(nil) },
	}, values...)
	s := func(what string, target interface{}, method func() interface{}, calls []func() int) {
		ptrCases = append(ptrCases, ptrCase{
			name: what + " of a receiver with 130 of interface{}, outside of generic code", target: target, method: method,
			calls: calls,
			orig:  130*3 + 130 + 1,
			other: func() int { return u.M(nil) },
		})
	}
	s("method expression", (*pv130[interface{}]).M, nil, values)
	s("value method expression", pv130[interface{}].M, nil, all)
	s("GetMethod of a pointer", nil, func() interface{} { return mockey.GetMethod(v, "M") }, all)
	s("GetMethod of a value", nil, func() interface{} { return mockey.GetMethod(*v, "M") }, all)
}

func plainPv600int() {
	v, u := &pv600[int]{k: 600}, &pv600[string]{k: 600}
	e := &em600[int]{*v}
	values := []func() int{
		func() int { f := (*pv600[int]).M; return f(v, nil) },
		func() int { f := pv600[int].M; return f(*v, nil) },
		func() int { f := v.M; return f(nil) },
		func() int { var i interface{ M(*int) int } = v; return i.M(nil) },
		func() int { var i interface{ M(*int) int } = *v; return i.M(nil) },
	}
	all := append([]func() int{
		func() int { return v.M(nil) },
		func() int { return (*v).M(nil) },
		func() int { return e.M(nil) },
	}, values...)
	s := func(what string, target interface{}, method func() interface{}, calls []func() int) {
		ptrCases = append(ptrCases, ptrCase{
			name: what + " of a receiver with 600 of int, outside of generic code", target: target, method: method,
			calls: calls,
			orig:  600*3 + 600 + 1,
			other: func() int { return u.M(nil) },
		})
	}
	s("method expression", (*pv600[int]).M, nil, values)
	s("value method expression", pv600[int].M, nil, all)
	s("GetMethod of a pointer", nil, func() interface{} { return mockey.GetMethod(v, "M") }, all)
	s("GetMethod of a value", nil, func() interface{} { return mockey.GetMethod(*v, "M") }, all)
}

func plainPv600string() {
	v, u := &pv600[string]{k: 600}, &pv600[int]{k: 600}
	e := &em600[string]{*v}
	values := []func() int{
		func() int { f := (*pv600[string]).M; return f(v, nil) },
		func() int { f := pv600[string].M; return f(*v, nil) },
		func() int { f := v.M; return f(nil) },
		func() int { var i interface{ M(*int) int } = v; return i.M(nil) },
		func() int { var i interface{ M(*int) int } = *v; return i.M(nil) },
	}
	all := append([]func() int{
		func() int { return v.M(nil) },
		func() int { return (*v).M(nil) },
		func() int { return e.M(nil) },
	}, values...)
	s := func(what string, target interface{}, method func() interface{}, calls []func() int) {
		ptrCases = append(ptrCases, ptrCase{
			name: what + " of a receiver with 600 of string, outside of generic code", target: target, method: method,
			calls: calls,
			orig:  600*3 + 600 + 1,
			other: func() int { return u.M(nil) },
		})
	}
	s("method expression", (*pv600[string]).M, nil, values)
	s("value method expression", pv600[string].M, nil, all)
	s("GetMethod of a pointer", nil, func() interface{} { return mockey.GetMethod(v, "M") }, all)
	s("GetMethod of a value", nil, func() interface{} { return mockey.GetMethod(*v, "M") }, all)
}

func plainPv600interface() {
	v, u := &pv600[interface{}]{k: 600}, &pv600[int]{k: 600}
	e := &em600[interface{}]{*v}
	values := []func() int{
		func() int { f := (*pv600[interface{}]).M; return f(v, nil) },
		func() int { f := pv600[interface{}].M; return f(*v, nil) },
		func() int { f := v.M; return f(nil) },
		func() int { var i interface{ M(*int) int } = v; return i.M(nil) },
		func() int { var i interface{ M(*int) int } = *v; return i.M(nil) },
	}
	all := append([]func() int{
		func() int { return v.M(nil) },
		func() int { return (*v).M(nil) },
		func() int { return e.M(nil) },
	}, values...)
	s := func(what string, target interface{}, method func() interface{}, calls []func() int) {
		ptrCases = append(ptrCases, ptrCase{
			name: what + " of a receiver with 600 of interface{}, outside of generic code", target: target, method: method,
			calls: calls,
			orig:  600*3 + 600 + 1,
			other: func() int { return u.M(nil) },
		})
	}
	s("method expression", (*pv600[interface{}]).M, nil, values)
	s("value method expression", pv600[interface{}].M, nil, all)
	s("GetMethod of a pointer", nil, func() interface{} { return mockey.GetMethod(v, "M") }, all)
	s("GetMethod of a value", nil, func() interface{} { return mockey.GetMethod(*v, "M") }, all)
}

func init() {
	plainPv2int()
	plainPv2string()
	plainPv2interface()
	plainPv5int()
	plainPv5string()
	plainPv5interface()
	plainPv9int()
	plainPv9string()
	plainPv9interface()
	plainPv17int()
	plainPv17string()
	plainPv17interface()
	plainPv40int()
	plainPv40string()
	plainPv40interface()
	plainPv70int()
	plainPv70string()
	plainPv70interface()
	plainPv130int()
	plainPv130string()
	plainPv130interface()
	plainPv600int()
	plainPv600string()
	plainPv600interface()
}
