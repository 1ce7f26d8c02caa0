// Package scale takes the numbers that other suites keep small - depth of scopes and of recursion, number of mocks, of
// cycles, of parameters - through every value up to a bound that no table, ring or cut-off is likely to exceed.
package scale

import (
	"fmt"
	"reflect"
	"runtime"
	"unsafe"

	"github.com/bytedance/mockey"
	"github.com/bytedance/mockey/zzverif/tg"
	"github.com/bytedance/mockey/zzverif/zz"
)

type fakeT struct{}

func (fakeT) Fail() {}

// ways a scope ends
const (
	endReturn = iota
	endPanic
	endGoexit
)

var endNames = [...]string{"returns", "panics", "ends the goroutine"}

var counted [8]int

// nest runs n scopes in each other. Every scope mocks one of three functions and one of eight variables; the innermost
// one ends in one of the ways. After the end of each, what the enclosing ones did must be in force.
func nest(c *zz.Ctx, n, ending int) {
	fs := []struct {
		mock func() *mockey.MockBuilder
		call func(int) int
		orig int
	}{
		{func() *mockey.MockBuilder { return mockey.Mock(tg.F) }, tg.F, tg.F(1)},
		{func() *mockey.MockBuilder { return mockey.Mock(tg.F2) }, tg.F2, tg.F2(1)},
		{func() *mockey.MockBuilder { return mockey.Mock(tg.F3) }, tg.F3, tg.F3(1)},
	}
	for i := range counted {
		counted[i] = -i
	}
	check := func(depth int, when string) {
		if c.Failed() {
			return
		}
		for i, f := range fs {
			want := f.orig
			for d := 1; d <= depth; d++ {
				if d%3 == i {
					want = 1000 + d
				}
			}
			if got := f.call(1); got != want {
				c.Fail("%s scope %d of %d: function %d gives %d, want %d", when, depth, n, i, got, want)
				return
			}
		}
		for i := range counted {
			want := -i
			for d := 1; d <= depth; d++ {
				if d%8 == i {
					want = 2000 + d
				}
			}
			if counted[i] != want {
				c.Fail("%s scope %d of %d: variable %d holds %d, want %d", when, depth, n, i, counted[i], want)
				return
			}
		}
		c.Step()
	}
	var scope func(d int)
	scope = func(d int) {
		defer check(d-1, "after the scope in")
		items := []interface{}{fmt.Sprint(d)}
		if d == 1 {
			items = append(items, fakeT{})
		}
		mockey.PatchConvey(append(items, func() {
			fs[d%3].mock().Return(1000 + d).Build()
			mockey.MockValue(&counted[d%8]).To(2000 + d)
			check(d, "in")
			if d < n {
				scope(d + 1)
				check(d, "back in")
				return
			}
			switch ending {
			case endPanic:
				panic("the innermost scope panics")
			case endGoexit:
				runtime.Goexit()
			}
		})...)
	}
	if n > 0 {
		done := make(chan bool)
		go func() {
			defer close(done)
			defer func() { recover() }()
			scope(1)
		}()
		<-done
	}
	check(0, "after")
	mockey.UnPatchAll()
}

// overlapping variables: suffixes of one array, whose addresses and types differ.
var whole [4096]int

func suffix(i, n int) interface{} {
	return reflect.NewAt(reflect.ArrayOf(n-i, reflect.TypeOf(0)), unsafe.Pointer(&whole[i])).Interface()
}

const (
	undoScope = iota
	undoAll
	undoOwn   // latest first, one by one
	undoInner // UnPatchAll in a scope within that of the mocks, then the end of that of the mocks
	nUndo
)

var undoNames = [...]string{"the end of the scope", "UnPatchAll", "UnPatch of each", "UnPatchAll in an inner scope, then the end of the scope"}

// crowd applies n mocks in one scope: variables side by side, or overlapping ones.
func crowd(c *zz.Ctx, n int, overlap bool, undo int) {
	for i := range whole[:n] {
		whole[i] = i + 1
	}
	var ms []*mockey.MockerVar
	var fm *mockey.Mocker
	after := func(at string, kept bool) {
		for i := 0; i < n; i++ {
			want := i + 1
			if kept {
				want = -7 - i
			}
			if whole[i] != want {
				c.Fail("%d mocks, %s: element %d holds %d, want %d", n, at, i, whole[i], want)
				return
			}
		}
		if kept != (tg.F(1) == -1) {
			c.Fail("%d mocks, %s: the function mocked last gives %d", n, at, tg.F(1))
		}
		c.Step()
	}
	apply := func() {
		for i := 0; i < n; i++ {
			if overlap {
				// suffix i becomes all -7-i, ..: the last mock of an element decides
				v := reflect.New(reflect.ArrayOf(n-i, reflect.TypeOf(0))).Elem()
				for j := 0; j < n-i; j++ {
					v.Index(j).SetInt(int64(-7 - i))
				}
				ms = append(ms, mockey.MockValue(suffix(i, n)).To(v.Interface()))
			} else {
				ms = append(ms, mockey.MockValue(&whole[i]).To(-7-i))
			}
		}
		fm = mockey.Mock(tg.F).Return(-1).Build()
		after("all applied", true)
	}
	switch undo {
	case undoScope:
		mockey.PatchConvey("crowd", fakeT{}, apply)
	case undoAll:
		apply()
		mockey.UnPatchAll()
	case undoOwn:
		apply()
		fm.UnPatch()
		for i := n - 1; i >= 0; i-- {
			ms[i].UnPatch()
		}
	case undoInner:
		mockey.PatchConvey("crowd", fakeT{}, func() {
			apply()
			mockey.PatchConvey("inner", func() {
				mockey.UnPatchAll()
				after("UnPatchAll in an inner scope", true)
			})
			after("end of an inner scope", true)
		})
	}
	after(undoNames[undo], false)
	mockey.UnPatchAll()
	// the variables may be mocked again
	for i := 0; i < n && !c.Failed(); i++ {
		if msg := zz.PanicText(func() { mockey.MockValue(&whole[i]).To(0).UnPatch() }); msg != "" {
			c.Fail("%d mocks, all undone by %s, but variable %d cannot be mocked: %s", n, undoNames[undo], i, zz.Short(msg))
		}
	}
	c.State(zz.Hash(fmt.Sprint("crowd", n, overlap, undo)))
}

// cycles takes one mocker through n cycles of Patch and UnPatch, with a new setting in each of some.
func cycles(c *zz.Ctx, n, mode int) {
	want, origin := -1, (func(int) int)(nil)
	m := mockey.Mock(tg.F).Return(-1).Build()
	defer func() { m.UnPatch() }()
	for k := 0; k < n; k++ {
		switch mode {
		case 0:
			m.Patch()
		case 1:
			want = -10 - k
			m.Return(want)
		case 2:
			k := k
			want = -20 - k
			m.To(func(int) int { return -20 - k })
		case 3:
			m.When(func(x int) bool { return x == k }).Patch()
		case 4:
			m = m.Release().Return(-30 - k).Build()
			want = -30 - k
		case 5:
			m.Origin(&origin).To(func(x int) int { return origin(x) + 100000 })
			want = k*3 + 1 + 100000
		case 6:
			m.FilterGoRoutine(mockey.FilterGoroutineType(k%2), 1<<40)
			if want = -1; k%2 == 1 {
				want = k*3 + 1
			}
		}
		if got := tg.F(k); got != want {
			c.Fail("cycle %d: the mocked function gives %d, want %d", k, got, want)
			return
		}
		if mode != 6 && (m.Times() != 1 || m.MockTimes() != 1) {
			c.Fail("cycle %d: Times %d MockTimes %d after a single call", k, m.Times(), m.MockTimes())
			return
		}
		if mode != 4 || k%2 == 0 { // Release undoes the mock as well
			m.UnPatch()
			if got := tg.F(k); got != k*3+1 {
				c.Fail("cycle %d: after UnPatch the function gives %d, want %d", k, got, k*3+1)
				return
			}
		}
		c.Steps(1)
		if !c.Beat() {
			return
		}
	}
}

func init() {
	nested := zz.Suite{
		Name: "towers of scopes",
		Bound: func(e *zz.Env) string {
			return fmt.Sprintf("every depth of scopes up to %d, the innermost one returning, panicking, ending its goroutine; a function and a variable mocked in each", e.Pick(20, 40, 130))
		},
		Gen: func(e *zz.Env, y func(zz.Case) bool) {
			for n := 0; n <= e.Pick(20, 40, 130); n++ {
				for ending := 0; ending < 3; ending++ {
					n, ending := n, ending
					if !y(zz.Case{Text: func() string { return fmt.Sprint(n, " scopes in each other, the innermost one ", endNames[ending]) }, Run: func(c *zz.Ctx) { nest(c, n, ending) }}) {
						return
					}
				}
			}
		},
	}
	crowds := zz.Suite{
		Name: "many mocks",
		Bound: func(e *zz.Env) string {
			return fmt.Sprintf("every number of variables mocked at a time up to %d (and some up to %d), beside or over each other, undone in %d ways", e.Pick(40, 140, 300), e.Pick(0, 1100, 4096), nUndo)
		},
		Gen: func(e *zz.Env, y func(zz.Case) bool) {
			var ns []int
			for n := 0; n <= e.Pick(40, 140, 300); n++ {
				ns = append(ns, n)
			}
			for _, n := range []int{200, 255, 256, 257, 258, 511, 512, 513, 1000, 1023, 1024, 1025, 1026, 4095, 4096} {
				if n <= e.Pick(0, 1100, 4096) {
					ns = append(ns, n)
				}
			}
			for _, n := range ns {
				for k := 0; k < 2*nUndo; k++ {
					n, k := n, k
					if n > 600 && k&1 == 1 {
						continue // new array types and quadratic work
					}
					if !y(zz.Case{
						Text: func() string {
							return fmt.Sprintf("%d variables %s each other, undone by %s", n, [...]string{"beside", "over"}[k&1], undoNames[k>>1])
						},
						Run: func(c *zz.Ctx) { crowd(c, n, k&1 == 1, k>>1) },
					}) {
						return
					}
				}
			}
		},
	}
	zz.Register("C01", nested, crowds)
	zz.Register("C18", crowds)
	zz.Register("C03", zz.Suite{
		Name: "many cycles",
		Bound: func(e *zz.Env) string {
			return fmt.Sprintf("%d cycles of one mocker, 7 kinds", e.Pick(300, 3000, 30000))
		},
		Gen: func(e *zz.Env, y func(zz.Case) bool) {
			for mode := 0; mode < 7; mode++ {
				mode := mode
				if !y(zz.Case{
					Text: func() string {
						return "cycles of " + [...]string{"Patch", "Return", "To", "When and Patch", "Release and Build", "Origin and To", "FilterGoRoutine"}[mode]
					},
					Run: func(c *zz.Ctx) { cycles(c, e.Pick(300, 3000, 30000), mode) },
				}) {
					return
				}
			}
		},
	})
}
