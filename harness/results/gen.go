// Code generated by tools/gen_results.py. DO NOT EDIT.
package results

import (
	"fmt"
	"reflect"
	"time"
	"unsafe"

	"github.com/bytedance/mockey"
)

var sink int

var _ = fmt.Sprint

//go:noinline
func one0() (r bool) { sink++; sink += 0; return }

//go:noinline
func two0(x int) (r bool, n uint8) { sink += x; sink += 0; return r, 7 }

//go:noinline
func pre0(s ...string) (n string, r bool) { sink += len(s); sink += 0; return "x", r }

//go:noinline
func one1() (r int) { sink++; sink += 1; return }

//go:noinline
func two1(x int) (r int, n uint8) { sink += x; sink += 1; return r, 7 }

//go:noinline
func pre1(s ...string) (n string, r int) { sink += len(s); sink += 1; return "x", r }

//go:noinline
func one2() (r int8) { sink++; sink += 2; return }

//go:noinline
func two2(x int) (r int8, n uint8) { sink += x; sink += 2; return r, 7 }

//go:noinline
func pre2(s ...string) (n string, r int8) { sink += len(s); sink += 2; return "x", r }

//go:noinline
func one3() (r int16) { sink++; sink += 3; return }

//go:noinline
func two3(x int) (r int16, n uint8) { sink += x; sink += 3; return r, 7 }

//go:noinline
func pre3(s ...string) (n string, r int16) { sink += len(s); sink += 3; return "x", r }

//go:noinline
func one4() (r int32) { sink++; sink += 4; return }

//go:noinline
func two4(x int) (r int32, n uint8) { sink += x; sink += 4; return r, 7 }

//go:noinline
func pre4(s ...string) (n string, r int32) { sink += len(s); sink += 4; return "x", r }

//go:noinline
func one5() (r int64) { sink++; sink += 5; return }

//go:noinline
func two5(x int) (r int64, n uint8) { sink += x; sink += 5; return r, 7 }

//go:noinline
func pre5(s ...string) (n string, r int64) { sink += len(s); sink += 5; return "x", r }

//go:noinline
func one6() (r uint) { sink++; sink += 6; return }

//go:noinline
func two6(x int) (r uint, n uint8) { sink += x; sink += 6; return r, 7 }

//go:noinline
func pre6(s ...string) (n string, r uint) { sink += len(s); sink += 6; return "x", r }

//go:noinline
func one7() (r uint8) { sink++; sink += 7; return }

//go:noinline
func two7(x int) (r uint8, n uint8) { sink += x; sink += 7; return r, 7 }

//go:noinline
func pre7(s ...string) (n string, r uint8) { sink += len(s); sink += 7; return "x", r }

//go:noinline
func one8() (r uint16) { sink++; sink += 8; return }

//go:noinline
func two8(x int) (r uint16, n uint8) { sink += x; sink += 8; return r, 7 }

//go:noinline
func pre8(s ...string) (n string, r uint16) { sink += len(s); sink += 8; return "x", r }

//go:noinline
func one9() (r uint64) { sink++; sink += 9; return }

//go:noinline
func two9(x int) (r uint64, n uint8) { sink += x; sink += 9; return r, 7 }

//go:noinline
func pre9(s ...string) (n string, r uint64) { sink += len(s); sink += 9; return "x", r }

//go:noinline
func one10() (r uintptr) { sink++; sink += 10; return }

//go:noinline
func two10(x int) (r uintptr, n uint8) { sink += x; sink += 10; return r, 7 }

//go:noinline
func pre10(s ...string) (n string, r uintptr) { sink += len(s); sink += 10; return "x", r }

//go:noinline
func one11() (r float32) { sink++; sink += 11; return }

//go:noinline
func two11(x int) (r float32, n uint8) { sink += x; sink += 11; return r, 7 }

//go:noinline
func pre11(s ...string) (n string, r float32) { sink += len(s); sink += 11; return "x", r }

//go:noinline
func one12() (r float64) { sink++; sink += 12; return }

//go:noinline
func two12(x int) (r float64, n uint8) { sink += x; sink += 12; return r, 7 }

//go:noinline
func pre12(s ...string) (n string, r float64) { sink += len(s); sink += 12; return "x", r }

//go:noinline
func one13() (r complex64) { sink++; sink += 13; return }

//go:noinline
func two13(x int) (r complex64, n uint8) { sink += x; sink += 13; return r, 7 }

//go:noinline
func pre13(s ...string) (n string, r complex64) { sink += len(s); sink += 13; return "x", r }

//go:noinline
func one14() (r complex128) { sink++; sink += 14; return }

//go:noinline
func two14(x int) (r complex128, n uint8) { sink += x; sink += 14; return r, 7 }

//go:noinline
func pre14(s ...string) (n string, r complex128) { sink += len(s); sink += 14; return "x", r }

//go:noinline
func one15() (r string) { sink++; sink += 15; return }

//go:noinline
func two15(x int) (r string, n uint8) { sink += x; sink += 15; return r, 7 }

//go:noinline
func pre15(s ...string) (n string, r string) { sink += len(s); sink += 15; return "x", r }

//go:noinline
func one16() (r nInt) { sink++; sink += 16; return }

//go:noinline
func two16(x int) (r nInt, n uint8) { sink += x; sink += 16; return r, 7 }

//go:noinline
func pre16(s ...string) (n string, r nInt) { sink += len(s); sink += 16; return "x", r }

//go:noinline
func one17() (r nStr) { sink++; sink += 17; return }

//go:noinline
func two17(x int) (r nStr, n uint8) { sink += x; sink += 17; return r, 7 }

//go:noinline
func pre17(s ...string) (n string, r nStr) { sink += len(s); sink += 17; return "x", r }

//go:noinline
func one18() (r nBytes) { sink++; sink += 18; return }

//go:noinline
func two18(x int) (r nBytes, n uint8) { sink += x; sink += 18; return r, 7 }

//go:noinline
func pre18(s ...string) (n string, r nBytes) { sink += len(s); sink += 18; return "x", r }

//go:noinline
func one19() (r []int) { sink++; sink += 19; return }

//go:noinline
func two19(x int) (r []int, n uint8) { sink += x; sink += 19; return r, 7 }

//go:noinline
func pre19(s ...string) (n string, r []int) { sink += len(s); sink += 19; return "x", r }

//go:noinline
func one20() (r []byte) { sink++; sink += 20; return }

//go:noinline
func two20(x int) (r []byte, n uint8) { sink += x; sink += 20; return r, 7 }

//go:noinline
func pre20(s ...string) (n string, r []byte) { sink += len(s); sink += 20; return "x", r }

//go:noinline
func one21() (r []rune) { sink++; sink += 21; return }

//go:noinline
func two21(x int) (r []rune, n uint8) { sink += x; sink += 21; return r, 7 }

//go:noinline
func pre21(s ...string) (n string, r []rune) { sink += len(s); sink += 21; return "x", r }

//go:noinline
func one22() (r []string) { sink++; sink += 22; return }

//go:noinline
func two22(x int) (r []string, n uint8) { sink += x; sink += 22; return r, 7 }

//go:noinline
func pre22(s ...string) (n string, r []string) { sink += len(s); sink += 22; return "x", r }

//go:noinline
func one23() (r []interface{}) { sink++; sink += 23; return }

//go:noinline
func two23(x int) (r []interface{}, n uint8) { sink += x; sink += 23; return r, 7 }

//go:noinline
func pre23(s ...string) (n string, r []interface{}) { sink += len(s); sink += 23; return "x", r }

//go:noinline
func one24() (r []error) { sink++; sink += 24; return }

//go:noinline
func two24(x int) (r []error, n uint8) { sink += x; sink += 24; return r, 7 }

//go:noinline
func pre24(s ...string) (n string, r []error) { sink += len(s); sink += 24; return "x", r }

//go:noinline
func one25() (r [][]interface{}) { sink++; sink += 25; return }

//go:noinline
func two25(x int) (r [][]interface{}, n uint8) { sink += x; sink += 25; return r, 7 }

//go:noinline
func pre25(s ...string) (n string, r [][]interface{}) { sink += len(s); sink += 25; return "x", r }

//go:noinline
func one26() (r nAny) { sink++; sink += 26; return }

//go:noinline
func two26(x int) (r nAny, n uint8) { sink += x; sink += 26; return r, 7 }

//go:noinline
func pre26(s ...string) (n string, r nAny) { sink += len(s); sink += 26; return "x", r }

//go:noinline
func one27() (r [0]int) { sink++; sink += 27; return }

//go:noinline
func two27(x int) (r [0]int, n uint8) { sink += x; sink += 27; return r, 7 }

//go:noinline
func pre27(s ...string) (n string, r [0]int) { sink += len(s); sink += 27; return "x", r }

//go:noinline
func one28() (r [2]int) { sink++; sink += 28; return }

//go:noinline
func two28(x int) (r [2]int, n uint8) { sink += x; sink += 28; return r, 7 }

//go:noinline
func pre28(s ...string) (n string, r [2]int) { sink += len(s); sink += 28; return "x", r }

//go:noinline
func one29() (r [1]interface{}) { sink++; sink += 29; return }

//go:noinline
func two29(x int) (r [1]interface{}, n uint8) { sink += x; sink += 29; return r, 7 }

//go:noinline
func pre29(s ...string) (n string, r [1]interface{}) { sink += len(s); sink += 29; return "x", r }

//go:noinline
func one30() (r [40]uint64) { sink++; sink += 30; return }

//go:noinline
func two30(x int) (r [40]uint64, n uint8) { sink += x; sink += 30; return r, 7 }

//go:noinline
func pre30(s ...string) (n string, r [40]uint64) { sink += len(s); sink += 30; return "x", r }

//go:noinline
func one31() (r *int) { sink++; sink += 31; return }

//go:noinline
func two31(x int) (r *int, n uint8) { sink += x; sink += 31; return r, 7 }

//go:noinline
func pre31(s ...string) (n string, r *int) { sink += len(s); sink += 31; return "x", r }

//go:noinline
func one32() (r *[2]int) { sink++; sink += 32; return }

//go:noinline
func two32(x int) (r *[2]int, n uint8) { sink += x; sink += 32; return r, 7 }

//go:noinline
func pre32(s ...string) (n string, r *[2]int) { sink += len(s); sink += 32; return "x", r }

//go:noinline
func one33() (r **perr) { sink++; sink += 33; return }

//go:noinline
func two33(x int) (r **perr, n uint8) { sink += x; sink += 33; return r, 7 }

//go:noinline
func pre33(s ...string) (n string, r **perr) { sink += len(s); sink += 33; return "x", r }

//go:noinline
func one34() (r *perr) { sink++; sink += 34; return }

//go:noinline
func two34(x int) (r *perr, n uint8) { sink += x; sink += 34; return r, 7 }

//go:noinline
func pre34(s ...string) (n string, r *perr) { sink += len(s); sink += 34; return "x", r }

//go:noinline
func one35() (r map[string]int) { sink++; sink += 35; return }

//go:noinline
func two35(x int) (r map[string]int, n uint8) { sink += x; sink += 35; return r, 7 }

//go:noinline
func pre35(s ...string) (n string, r map[string]int) { sink += len(s); sink += 35; return "x", r }

//go:noinline
func one36() (r map[interface{}]interface{}) { sink++; sink += 36; return }

//go:noinline
func two36(x int) (r map[interface{}]interface{}, n uint8) { sink += x; sink += 36; return r, 7 }

//go:noinline
func pre36(s ...string) (n string, r map[interface{}]interface{}) {
	sink += len(s)
	sink += 36
	return "x", r
}

//go:noinline
func one37() (r chan int) { sink++; sink += 37; return }

//go:noinline
func two37(x int) (r chan int, n uint8) { sink += x; sink += 37; return r, 7 }

//go:noinline
func pre37(s ...string) (n string, r chan int) { sink += len(s); sink += 37; return "x", r }

//go:noinline
func one38() (r <-chan int) { sink++; sink += 38; return }

//go:noinline
func two38(x int) (r <-chan int, n uint8) { sink += x; sink += 38; return r, 7 }

//go:noinline
func pre38(s ...string) (n string, r <-chan int) { sink += len(s); sink += 38; return "x", r }

//go:noinline
func one39() (r func()) { sink++; sink += 39; return }

//go:noinline
func two39(x int) (r func(), n uint8) { sink += x; sink += 39; return r, 7 }

//go:noinline
func pre39(s ...string) (n string, r func()) { sink += len(s); sink += 39; return "x", r }

//go:noinline
func one40() (r func(int) int) { sink++; sink += 40; return }

//go:noinline
func two40(x int) (r func(int) int, n uint8) { sink += x; sink += 40; return r, 7 }

//go:noinline
func pre40(s ...string) (n string, r func(int) int) { sink += len(s); sink += 40; return "x", r }

//go:noinline
func one41() (r nFunc) { sink++; sink += 41; return }

//go:noinline
func two41(x int) (r nFunc, n uint8) { sink += x; sink += 41; return r, 7 }

//go:noinline
func pre41(s ...string) (n string, r nFunc) { sink += len(s); sink += 41; return "x", r }

//go:noinline
func one42() (r unsafe.Pointer) { sink++; sink += 42; return }

//go:noinline
func two42(x int) (r unsafe.Pointer, n uint8) { sink += x; sink += 42; return r, 7 }

//go:noinline
func pre42(s ...string) (n string, r unsafe.Pointer) { sink += len(s); sink += 42; return "x", r }

//go:noinline
func one43() (r struct{}) { sink++; sink += 43; return }

//go:noinline
func two43(x int) (r struct{}, n uint8) { sink += x; sink += 43; return r, 7 }

//go:noinline
func pre43(s ...string) (n string, r struct{}) { sink += len(s); sink += 43; return "x", r }

//go:noinline
func one44() (r rec) { sink++; sink += 44; return }

//go:noinline
func two44(x int) (r rec, n uint8) { sink += x; sink += 44; return r, 7 }

//go:noinline
func pre44(s ...string) (n string, r rec) { sink += len(s); sink += 44; return "x", r }

//go:noinline
func one45() (r rec2) { sink++; sink += 45; return }

//go:noinline
func two45(x int) (r rec2, n uint8) { sink += x; sink += 45; return r, 7 }

//go:noinline
func pre45(s ...string) (n string, r rec2) { sink += len(s); sink += 45; return "x", r }

//go:noinline
func one46() (r *rec) { sink++; sink += 46; return }

//go:noinline
func two46(x int) (r *rec, n uint8) { sink += x; sink += 46; return r, 7 }

//go:noinline
func pre46(s ...string) (n string, r *rec) { sink += len(s); sink += 46; return "x", r }

//go:noinline
func one47() (r interface{}) { sink++; sink += 47; return }

//go:noinline
func two47(x int) (r interface{}, n uint8) { sink += x; sink += 47; return r, 7 }

//go:noinline
func pre47(s ...string) (n string, r interface{}) { sink += len(s); sink += 47; return "x", r }

//go:noinline
func one48() (r error) { sink++; sink += 48; return }

//go:noinline
func two48(x int) (r error, n uint8) { sink += x; sink += 48; return r, 7 }

//go:noinline
func pre48(s ...string) (n string, r error) { sink += len(s); sink += 48; return "x", r }

//go:noinline
func one49() (r fmt.Stringer) { sink++; sink += 49; return }

//go:noinline
func two49(x int) (r fmt.Stringer, n uint8) { sink += x; sink += 49; return r, 7 }

//go:noinline
func pre49(s ...string) (n string, r fmt.Stringer) { sink += len(s); sink += 49; return "x", r }

//go:noinline
func one50() (r reflect.Type) { sink++; sink += 50; return }

//go:noinline
func two50(x int) (r reflect.Type, n uint8) { sink += x; sink += 50; return r, 7 }

//go:noinline
func pre50(s ...string) (n string, r reflect.Type) { sink += len(s); sink += 50; return "x", r }

//go:noinline
func one51() (r reflect.Value) { sink++; sink += 51; return }

//go:noinline
func two51(x int) (r reflect.Value, n uint8) { sink += x; sink += 51; return r, 7 }

//go:noinline
func pre51(s ...string) (n string, r reflect.Value) { sink += len(s); sink += 51; return "x", r }

//go:noinline
func one52() (r mockey.SequenceOpt) { sink++; sink += 52; return }

//go:noinline
func two52(x int) (r mockey.SequenceOpt, n uint8) { sink += x; sink += 52; return r, 7 }

//go:noinline
func pre52(s ...string) (n string, r mockey.SequenceOpt) { sink += len(s); sink += 52; return "x", r }

//go:noinline
func one53() (r time.Duration) { sink++; sink += 53; return }

//go:noinline
func two53(x int) (r time.Duration, n uint8) { sink += x; sink += 53; return r, 7 }

//go:noinline
func pre53(s ...string) (n string, r time.Duration) { sink += len(s); sink += 53; return "x", r }

//go:noinline
func one54() (r gen[int]) { sink++; sink += 54; return }

//go:noinline
func two54(x int) (r gen[int], n uint8) { sink += x; sink += 54; return r, 7 }

//go:noinline
func pre54(s ...string) (n string, r gen[int]) { sink += len(s); sink += 54; return "x", r }

//go:noinline
func one55() (r gen[string]) { sink++; sink += 55; return }

//go:noinline
func two55(x int) (r gen[string], n uint8) { sink += x; sink += 55; return r, 7 }

//go:noinline
func pre55(s ...string) (n string, r gen[string]) { sink += len(s); sink += 55; return "x", r }

var _ reflect.Type
var _ time.Duration
var _ unsafe.Pointer
var _ mockey.SequenceOpt

var funcs = [][3]interface{}{
	{one0, two0, pre0},
	{one1, two1, pre1},
	{one2, two2, pre2},
	{one3, two3, pre3},
	{one4, two4, pre4},
	{one5, two5, pre5},
	{one6, two6, pre6},
	{one7, two7, pre7},
	{one8, two8, pre8},
	{one9, two9, pre9},
	{one10, two10, pre10},
	{one11, two11, pre11},
	{one12, two12, pre12},
	{one13, two13, pre13},
	{one14, two14, pre14},
	{one15, two15, pre15},
	{one16, two16, pre16},
	{one17, two17, pre17},
	{one18, two18, pre18},
	{one19, two19, pre19},
	{one20, two20, pre20},
	{one21, two21, pre21},
	{one22, two22, pre22},
	{one23, two23, pre23},
	{one24, two24, pre24},
	{one25, two25, pre25},
	{one26, two26, pre26},
	{one27, two27, pre27},
	{one28, two28, pre28},
	{one29, two29, pre29},
	{one30, two30, pre30},
	{one31, two31, pre31},
	{one32, two32, pre32},
	{one33, two33, pre33},
	{one34, two34, pre34},
	{one35, two35, pre35},
	{one36, two36, pre36},
	{one37, two37, pre37},
	{one38, two38, pre38},
	{one39, two39, pre39},
	{one40, two40, pre40},
	{one41, two41, pre41},
	{one42, two42, pre42},
	{one43, two43, pre43},
	{one44, two44, pre44},
	{one45, two45, pre45},
	{one46, two46, pre46},
	{one47, two47, pre47},
	{one48, two48, pre48},
	{one49, two49, pre49},
	{one50, two50, pre50},
	{one51, two51, pre51},
	{one52, two52, pre52},
	{one53, two53, pre53},
	{one54, two54, pre54},
	{one55, two55, pre55},
}
