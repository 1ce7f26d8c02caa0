package conc

import (
	"fmt"

	"github.com/bytedance/mockey/zzverif/zz"
)

// scripts of length 1..max over an alphabet
func scripts(alpha []int, max int) (out [][]int) {
	var walk func(s []int)
	walk = func(s []int) {
		if len(s) > 0 {
			out = append(out, append([]int{}, s...))
		}
		if len(s) < max {
			for _, a := range alpha {
				walk(append(s, a))
			}
		}
	}
	walk(nil)
	return
}

func emit(y func(zz.Case) bool, ok *bool, p prog) {
	if *ok {
		*ok = y(zz.Case{Text: p.String, Run: p.run})
	}
}

// one thread operates the mock, the others call
func genOperate(e *zz.Env, y func(zz.Case) bool) {
	if raceOn {
		return // the code exchange orders these accesses, which the race detector cannot see
	}
	ok := true
	pre, n := e.Pick(1, 2, 3), e.Pick(1, 2, 3)
	state := []int{oPatch, oUnPatch, oTo, oWhen, oReturn, oTimes}
	calls := [][]int{{oCall}, {oCall, oCall}, {oCallN}}
	for _, applied := range []bool{true, false} {
		for _, origin := range []bool{false, true} {
			for _, s := range scripts(state, n) {
				if !hasState(s) || origin && len(s) > 1 && !e.Thorough() {
					continue
				}
				for _, c := range calls {
					if len(s)+len(c) > e.Pick(2, 3, 4) {
						continue
					}
					emit(y, &ok, prog{[][]int{c, s}, applied, pre, origin})
				}
			}
		}
	}
	// two calling threads
	for _, applied := range []bool{true, false} {
		for _, s := range scripts(state, e.Pick(1, 2, 2)) {
			if hasState(s) {
				emit(y, &ok, prog{[][]int{{oCall}, {oCall}, s}, applied, e.Pick(1, 1, 2), false})
			}
		}
		for _, s := range scripts([]int{oUnPatch, oTo, oReturn}, 1) {
			emit(y, &ok, prog{[][]int{{oCall}, {oTimes, oMockTimes}, s}, applied, e.Pick(1, 2, 2), false})
			emit(y, &ok, prog{[][]int{{oCall}, {oCallN}, s}, applied, e.Pick(1, 1, 2), true})
		}
	}
}

func hasState(s []int) bool {
	for _, o := range s {
		if isState(o) {
			return true
		}
	}
	return false
}

// several threads patch and unpatch
func genPatchers(e *zz.Env, y func(zz.Case) bool) {
	ok := true
	pu := []int{oPatch, oUnPatch}
	pre := e.Pick(2, 2, 3)
	if raceOn {
		pre = e.Pick(1, 2, 2)
	}
	for _, applied := range []bool{true, false} {
		for _, a := range scripts(pu, e.Pick(2, 2, 3)) {
			for _, b := range scripts(pu, e.Pick(1, 2, 2)) {
				emit(y, &ok, prog{[][]int{a, b}, applied, pre, false})
			}
		}
		for _, a := range scripts(pu, 1) {
			for _, b := range scripts(pu, 1) {
				for _, d := range scripts(pu, e.Pick(1, 1, 2)) {
					emit(y, &ok, prog{[][]int{a, b, d}, applied, pre, false})
				}
			}
		}
		if raceOn {
			continue
		}
		// with a caller and a reader
		for _, a := range scripts(pu, 2) {
			for _, b := range scripts(pu, 1) {
				emit(y, &ok, prog{[][]int{{oCall}, a, b}, applied, e.Pick(1, 1, 2), false})
			}
		}
		for _, a := range scripts(pu, 1) {
			for _, b := range scripts(pu, 1) {
				emit(y, &ok, prog{[][]int{{oTimes, oMockTimes}, a, b}, applied, e.Pick(1, 2, 2), false})
				emit(y, &ok, prog{[][]int{{oCall}, a, b}, applied, e.Pick(1, 1, 2), true})
			}
		}
	}
}

// only calls and readers
func genCounters(e *zz.Env, y func(zz.Case) bool) {
	ok := true
	lim := e.Pick(1, 2, 2)
	for _, origin := range []bool{false, true} {
		for _, a := range scripts([]int{oCall, oCallN}, 2) {
			for _, b := range scripts([]int{oCall, oCallN, oTimes, oMockTimes}, lim) {
				emit(y, &ok, prog{[][]int{a, b}, true, e.Pick(1, 2, 3), origin})
			}
		}
		for _, a := range scripts([]int{oCall, oCallN}, 1) {
			for _, b := range scripts([]int{oCall, oCallN}, 1) {
				for _, d := range scripts([]int{oCall, oCallN, oTimes, oMockTimes}, e.Pick(1, 1, 2)) {
					emit(y, &ok, prog{[][]int{a, b, d}, true, e.Pick(1, 1, 2), origin})
				}
			}
		}
		emit(y, &ok, prog{[][]int{{oCall, oCallN}, {oCall}, {oCallN}, {oCall}}, true, 1, origin})
	}
}

func bound(what string) func(e *zz.Env) string {
	return func(e *zz.Env) string {
		return fmt.Sprintf("%s; per program all schedules of the instrumented code up to the preemption bound in its text", what)
	}
}

func init() {
	zz.Register("C15",
		zz.Suite{Name: "sched-operate", Bound: bound("1-2 calling threads and one operating thread"), Gen: genOperate},
		zz.Suite{Name: "sched-patchers", Bound: bound("2-3 threads of Patch/UnPatch, optionally one caller or reader"), Gen: genPatchers},
		zz.Suite{Name: "sched-calls", Bound: bound("2-4 calling and reading threads"), Gen: genCounters})
	zz.Register("C05",
		zz.Suite{Name: "sched-calls", Bound: bound("2-4 calling and reading threads"), Gen: genCounters})
}
