// Command kf runs the histories of the known findings: it ends with status 0 when the finding does not fail any more.
package main

import (
	"fmt"
	"os"

	"github.com/bytedance/mockey"
)

//go:noinline
func use(p *byte) { *p++ }

// Big has a frame that does not fit into a fresh stack.
//
//go:noinline
func Big(x int) int {
	var a [64 << 10]byte
	for i := range a {
		a[i] = byte(x + i)
	}
	use(&a[x&15])
	return int(a[x&15])
}

var c1, c2 int

//go:nosplit
func Inc2() {
	c1++
	c2++
}

//go:noinline
func T(x int) int {
	if x > 1000 {
		return T(x - 1)
	}
	return x * 3
}

//go:noinline
func Fill(x []int) {
	for i := range x {
		x[i] = i
	}
}

// Adder returns a closure that uses a variable of its maker.
//
//go:nosplit
func Adder(n, m int) func(x int) int {
	return func(x int) int {
		r := n*10 + x
		if x > 100 {
			r += m
		}
		return r
	}
}

type ft struct{}

func (ft) Fail() {}

type table map[string]int

func (t table) size(x int) int { return x + len(t) }

type Gv[T any] struct{ A [5]T }

//go:noinline
func (b Gv[T]) Val(x *int) T { return b.A[3] }

//go:noinline
func grow(n int) int {
	var a [1024]byte
	a[n&1023] = byte(n)
	if n == 0 {
		return int(a[7])
	}
	return grow(n-1) + int(a[n&1023])
}

func fail(f string, a ...interface{}) {
	fmt.Printf(f+"\n", a...)
	os.Exit(3)
}

func main() {
	switch os.Args[1] {
	case "KF-1":
		want := Big(5)
		m := mockey.Mock(Big).When(func(x int) bool { return x < 0 }).Return(1).Build()
		ch := make(chan int)
		go func() { ch <- Big(5) }()
		if got := <-ch; got != want {
			fail("the original gives %d, want %d", got, want)
		}
		if m.Times() != 1 {
			fail("one call is counted %d times", m.Times())
		}
	case "KF-2":
		m := mockey.Mock(Inc2).When(func() bool { return false }).To(func() {}).Build()
		Inc2()
		if c1 != 1 || c2 != 1 {
			fail("the original leaves %d %d, want 1 1", c1, c2)
		}
		m.UnPatch()
	case "KF-3":
		m1 := mockey.Mock(T).Return(1).Build()
		mockey.PatchConvey("x", ft{}, func() {
			m2 := mockey.Mock(T).Return(2).Build()
			m1.UnPatch()
			m2.UnPatch()
		})
		if got := T(5); got != 15 {
			fail("after both mocks are undone the target gives %d, want 15", got)
		}
	case "KF-5":
		t := table{"a": 1}
		mockey.Mock(mockey.GetMethod(t, "size")).To(func(t table, x int) int { return -1 }).Build()
		if got := t.size(5); got != -1 {
			fail("the mock of size has no effect: %d", got)
		}
	case "KF-6":
		f := Adder(5, 6)
		mockey.Mock(f).When(func(x int) bool { return x < 0 }).Return(1).Build()
		if got := f(1); got != 51 {
			fail("the original gives %d, want 51", got)
		}
	case "KF-7":
		b := &Gv[int]{A: [5]int{1, 2, 3, 4, 5}}
		var got *Gv[int]
		mockey.MockGeneric((*Gv[int]).Val).To(func(p *Gv[int], x *int) int { got = p; return -1 }).Build()
		f := (*Gv[int]).Val
		f(b, nil)
		if got != b {
			fail("the hook gets receiver %p, want %p", got, b)
		}
	case "KF-8":
		b := &Gv[int]{A: [5]int{1, 2, 3, 4, 5}}
		mockey.MockGeneric((*Gv[int]).Val).Return(-1).Build()
		if got := b.Val(nil); got != -1 {
			fail("the call gives %d, want -1", got)
		}
	case "KF-4":
		mockey.Mock(Fill).When(func(x []int) bool { grow(64); return true }).To(func(x []int) { x[0] = 42 }).Build()
		ch := make(chan int)
		go func() {
			var x [4]int
			Fill(x[:])
			ch <- x[0]
		}()
		if got := <-ch; got != 42 {
			fail("the hook set the caller's slice element to 42, the caller has %d", got)
		}
	}
}
