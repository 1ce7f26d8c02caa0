package alike

import (
	"github.com/bytedance/mockey/zzverif/alike/p1/thing"
	thing2 "github.com/bytedance/mockey/zzverif/alike/p2/thing"
)

var n = 9

var sink []interface{}

func gf[T any](x T, n int) (T, int) {
	var z T
	if n > 1000 {
		sink = append(sink, z)
	}
	return x, n*3 + 1
}

func init() {
	types0()
	types1()
	types2()
	types3()
	types4()
	types5()
	types6()
	types7()
	types8()
	types9()
	types10()
	const g = 100
	function("function of p1 thing.T", g, false, func(x thing.T, n int) (thing.T, int) { return x, n*3 + 1 }, thing.T{N: 1}, thing.T{N: 2})
	function("function of p2 thing.T", g+1, false, func(x thing2.T, n int) (thing2.T, int) { return x, n*3 + 1 }, thing2.T{N: 1}, thing2.T{N: 2})
	function("function of p1 *thing.T", g+2, false, func(x *thing.T, n int) (*thing.T, int) { return x, n*3 + 1 }, &thing.T{N: 1}, &thing.T{N: 2})
	function("function of p2 *thing.T", g+3, false, func(x *thing2.T, n int) (*thing2.T, int) { return x, n*3 + 1 }, &thing2.T{N: 1}, &thing2.T{N: 2})
	function("function of p1 map[thing.C]thing.I", g+4, false, func(x map[thing.C]thing.I, n int) (map[thing.C]thing.I, int) { return x, n*3 + 1 }, map[thing.C]thing.I{1: thing.C(1)}, nil)
	function("function of p2 map[thing.C]thing.I", g+5, false, func(x map[thing2.C]thing2.I, n int) (map[thing2.C]thing2.I, int) { return x, n*3 + 1 }, map[thing2.C]thing2.I{1: thing2.C(1)}, nil)
	function("generic function of p1 [4]thing.T", g+6, true, gf[[4]thing.T], [4]thing.T{}, [4]thing.T{3: {N: 1}})
	function("generic function of p2 *[]thing.T", g+7, true, gf[[]thing2.T], nil, []thing2.T{{N: 3}})
	variable("variable of p1 thing.T", g, &v1, thing.T{N: 1}, thing.T{N: 2})
	variable("variable of p2 thing.T", g+1, &v2, thing2.T{N: 1}, thing2.T{N: 2})
}

var (
	v1 thing.T
	v2 thing2.T
)

func types0() {
	type T int
	var v T
	function("function of T, int", 0, false, func(x T, n int) (T, int) { return x, n*3 + 1 }, T(3), T(4))
	function("generic function of T, int", 0, true, gf[T], T(3), T(4))
	variable("variable of T, int", 0, &v, T(3), T(4))
}

func types1() {
	type T string
	var v T
	function("function of T, string", 1, false, func(x T, n int) (T, int) { return x, n*3 + 1 }, "a", "b")
	function("generic function of T, string", 1, true, gf[T], "a", "b")
	variable("variable of T, string", 1, &v, "a", "b")
}

func types2() {
	type T int
	var v T
	function("function of T, int", 2, false, func(x T, n int) (T, int) { return x, n*3 + 1 }, T(3), T(4))
	variable("variable of T, int", 2, &v, T(3), T(4))
}

func types3() {
	type T struct {
		A int
		B string
	}
	var v T
	function("function of T, struct{ A int; B string }", 3, false, func(x T, n int) (T, int) { return x, n*3 + 1 }, T{1, "x"}, T{2, "y"})
	function("generic function of T, struct{ A int; B string }", 3, true, gf[T], T{1, "x"}, T{2, "y"})
	variable("variable of T, struct{ A int; B string }", 3, &v, T{1, "x"}, T{2, "y"})
}

func types4() {
	type T struct {
		A [9]uint64
		B *int
	}
	var v T
	function("function of T, struct{ A [9]uint64; B *int }", 4, false, func(x T, n int) (T, int) { return x, n*3 + 1 }, T{B: &n}, T{A: [9]uint64{8: 1}})
	function("generic function of T, struct{ A [9]uint64; B *int }", 4, true, gf[T], T{B: &n}, T{A: [9]uint64{8: 1}})
	variable("variable of T, struct{ A [9]uint64; B *int }", 4, &v, T{B: &n}, T{A: [9]uint64{8: 1}})
}

func types5() {
	type T []int
	var v T
	function("function of T, []int", 5, false, func(x T, n int) (T, int) { return x, n*3 + 1 }, T{1}, T{1, 2})
	function("generic function of T, []int", 5, true, gf[T], T{1}, T{1, 2})
	variable("variable of T, []int", 5, &v, T{1}, T{1, 2})
}

func types6() {
	type T *int
	var v T
	function("function of T, *int", 6, false, func(x T, n int) (T, int) { return x, n*3 + 1 }, T(&n), T(nil))
	function("generic function of T, *int", 6, true, gf[T], T(&n), T(nil))
	variable("variable of T, *int", 6, &v, T(&n), T(nil))
}

func types7() {
	type T float64
	var v T
	function("function of T, float64", 7, false, func(x T, n int) (T, int) { return x, n*3 + 1 }, 1.5, -2.5)
	function("generic function of T, float64", 7, true, gf[T], 1.5, -2.5)
	variable("variable of T, float64", 7, &v, 1.5, -2.5)
}

func types8() {
	type T uint8
	var v T
	function("function of T, uint8", 8, false, func(x T, n int) (T, int) { return x, n*3 + 1 }, T(200), T(7))
	function("generic function of T, uint8", 8, true, gf[T], T(200), T(7))
	variable("variable of T, uint8", 8, &v, T(200), T(7))
}

func types9() {
	type T [2]string
	var v T
	function("function of T, [2]string", 9, false, func(x T, n int) (T, int) { return x, n*3 + 1 }, T{"p"}, T{1: "q"})
	function("generic function of T, [2]string", 9, true, gf[T], T{"p"}, T{1: "q"})
	variable("variable of T, [2]string", 9, &v, T{"p"}, T{1: "q"})
}

func types10() {
	type T map[string]int
	var v T
	function("function of T, map[string]int", 10, false, func(x T, n int) (T, int) { return x, n*3 + 1 }, T(nil), T{"k": 1})
	function("generic function of T, map[string]int", 10, true, gf[T], T(nil), T{"k": 1})
	variable("variable of T, map[string]int", 10, &v, T(nil), T{"k": 1})
}
