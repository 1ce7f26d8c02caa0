package world

import (
	"fmt"
	"runtime"

	"github.com/bytedance/mockey"
	"github.com/bytedance/mockey/zzverif/tg"
	"github.com/bytedance/mockey/zzverif/zz"
	"github.com/smartystreets/goconvey/convey"
)

type fakeT struct{}

func (fakeT) Fail() {}

// fnset gives access to one function target.
type fnset struct {
	mock      func() *mockey.MockBuilder
	when      func(w, form int) interface{}
	to        func(c, form int) interface{}
	newOrigin func(form int) interface{}
	toOrigin  func(c, form int, origin *originRef) interface{}
	call      func(x int) int
}

var theT = &tg.T{K: 4}
var a1, b1 = &tg.A1{V: 1}, &tg.B1{V: 2}

func plain(target func(int) int) fnset {
	return fnset{
		mock:      func() *mockey.MockBuilder { return mockey.Mock(target) },
		when:      func(w, form int) interface{} { return func(x int) bool { return holds(w, x) } },
		to:        func(c, form int) interface{} { return func(x int) int { return x*2 + c } },
		newOrigin: func(form int) interface{} { return new(func(int) int) },
		toOrigin: func(c, form int, o *originRef) interface{} {
			return func(x int) int { return (*o.v.(*func(int) int))(x+10) + c }
		},
		call: target,
	}
}

// rec: an origin call with a changed argument would not end
func rec() fnset {
	fs := plain(tg.Rec)
	fs.toOrigin = func(c, form int, o *originRef) interface{} {
		return func(x int) int { return (*o.v.(*func(int) int))(x) + c }
	}
	return fs
}

func generic[P any](p P, f func(P, int) int) fnset {
	return fnset{
		mock: func() *mockey.MockBuilder { return mockey.MockGeneric(f) },
		when: func(w, form int) interface{} {
			if form%2 == 0 {
				return func(p P, x int) bool { return holds(w, x) }
			}
			return func(_ mockey.GenericInfo, p P, x int) bool { return holds(w, x) }
		},
		to: func(c, form int) interface{} {
			if form%2 == 0 {
				return func(p P, x int) int { return x*2 + c }
			}
			return func(_ mockey.GenericInfo, p P, x int) int { return x*2 + c }
		},
		newOrigin: func(form int) interface{} { return new(func(P, int) int) },
		toOrigin: func(c, form int, o *originRef) interface{} {
			return func(p P, x int) int { return (*o.v.(*func(P, int) int))(p, x+10) + c }
		},
		call: func(x int) int { return f(p, x) },
	}
}

var fnsets = map[int]fnset{
	tF:  plain(tg.F),
	tF2: plain(tg.F2),
	tR:  rec(),
	tM: {
		mock: func() *mockey.MockBuilder { return mockey.Mock((*tg.T).PM) },
		when: func(w, form int) interface{} {
			if form%2 == 0 {
				return func(t *tg.T, x int) bool { return holds(w, x) && t == theT }
			}
			return func(x int) bool { return holds(w, x) }
		},
		to: func(c, form int) interface{} {
			if form%2 == 0 {
				return func(t *tg.T, x int) int { return x*2 + c + t.K - 4 }
			}
			return func(x int) int { return x*2 + c }
		},
		newOrigin: func(form int) interface{} {
			if form%2 == 0 {
				return new(func(int) int)
			}
			return new(func(*tg.T, int) int)
		},
		toOrigin: func(c, form int, o *originRef) interface{} {
			if _, ok := o.v.(*func(int) int); ok {
				return func(t *tg.T, x int) int { return (*o.v.(*func(int) int))(x+10) + c }
			}
			return func(t *tg.T, x int) int { return (*o.v.(*func(*tg.T, int) int))(t, x+10) + c }
		},
		call: func(x int) int { return theT.PM(x) },
	},
	tG1: generic(a1, tg.G[*tg.A1]),
	tG2: generic(b1, tg.G[*tg.B1]),
	tGi: generic(3, tg.G[int]),
}

type handle struct {
	m      *mockey.Mocker
	v      *mockey.MockerVar
	origin *originRef
}

// originRef is the origin handle in use: hooks follow it when it is set anew.
type originRef struct {
	v    interface{}
	form int
}

type interp struct {
	c      *zz.Ctx
	p      []Op
	match  []int
	m      *model
	h      map[int]*handle
	obs    []int
	xs     []int
	extra  func(in *interp) // extra requests/observations after each operation
	states bool
	mode   int
	bare   bool // no calls between operations, only at the end
}

func newInterp(c *zz.Ctx, p []Op, obs []int) *interp {
	in := &interp{c: c, p: p, m: newModel(), h: map[int]*handle{}, obs: obs, xs: []int{-2, 1, 7}, states: true}
	in.match = make([]int, len(p))
	var st []int
	for i, o := range p {
		switch o.K {
		case oEnter:
			st = append(st, i)
		case oExit:
			in.match[st[len(st)-1]] = i
			st = st[:len(st)-1]
		}
	}
	for _, i := range st {
		in.match[i] = len(p)
	}
	return in
}

// main runs the whole program, then closes everything and looks for residue.
func (in *interp) main() {
	in.body()
	in.finish()
}

func (in *interp) finish() {
	if in.c.Failed() {
		return
	}
	in.m.undoScope()
	mockey.UnPatchAll()
	in.observe("final UnPatchAll")
	used := map[int]bool{}
	for _, o := range in.p {
		if o.K == oMock {
			used[o.T] = true
		}
	}
	// no residue: everything can be mocked afresh
	for t := 0; t < nTargets; t++ {
		if !used[t] || in.c.Failed() {
			continue
		}
		t := t
		if msg := zz.PanicText(func() {
			if isVar(t) {
				mv := in.mockVar(t, 55)
				if in.readVar(t) != 55 {
					in.c.Fail("after the program: mocking %s again has no effect", tNames[t])
				}
				mv.UnPatch()
			} else {
				mk := fnsets[t].mock().Return(55).Build()
				if fnsets[t].call(1) != 55 {
					in.c.Fail("after the program: mocking %s again has no effect", tNames[t])
				}
				mk.UnPatch()
			}
		}); msg != "" {
			in.c.Fail("after the program everything is undone, but mocking %s again is refused: %s", tNames[t], zz.Short(msg))
		}
	}
	in.observe("after the program")
}

func (in *interp) mockVar(t, c int) *mockey.MockerVar {
	switch t {
	case tV:
		return mockey.MockValue(&tg.V).To(c)
	case tVS:
		return mockey.MockValue(&tg.VS).To(tg.S{A: c, B: c + 1})
	}
	return mockey.MockValue(&tg.VS.B).To(c)
}

func (in *interp) readVar(t int) int {
	switch t {
	case tV:
		return tg.V
	case tVS:
		return tg.VS.A
	}
	return tg.VS.B
}

// run executes operations from i to the end of the block.
func (in *interp) run(i int) {
	for i < len(in.p) {
		if in.c.Failed() {
			return
		}
		o := in.p[i]
		switch o.K {
		case oExit:
			return
		case oEnter:
			j := in.match[i]
			in.scope(i, j)
			in.observe(fmt.Sprintf("#%d end of scope", j))
			i = j + 1
			continue
		}
		in.op(i, o)
		i++
	}
}

func (in *interp) scope(i, j int) {
	items := []interface{}{fmt.Sprintf("scope %d", i)}
	if in.m.cur() == 0 {
		items = append(items, fakeT{})
	}
	end := xReturn
	if j < len(in.p) {
		end = in.p[j].R
	}
	// every form of item that goconvey takes
	if i%3 == 1 {
		items = append(items, convey.FailureContinues)
	}
	body := func(so func(interface{}, convey.Assertion, ...interface{})) {
		in.m.enter()
		defer in.m.exit()
		in.observe(fmt.Sprintf("#%d scope begins", i))
		in.run(i + 1)
		if in.c.Failed() {
			return
		}
		switch end {
		case xPanic:
			panic("scope body panics")
		case xFail:
			so(1, convey.ShouldEqual, 2)
		case xGoexit:
			runtime.Goexit()
		}
	}
	if i%2 == 1 {
		items = append(items, func(c convey.C) {
			body(func(x interface{}, a convey.Assertion, e ...interface{}) { c.So(x, a, e...) })
		})
	} else {
		items = append(items, func() {
			body(func(x interface{}, a convey.Assertion, e ...interface{}) { convey.So(x, a, e...) })
		})
	}
	mockey.PatchConvey(items...)
}

func (in *interp) op(i int, o Op) {
	if !in.m.legal(o) {
		return
	}
	refused := in.m.step(o)
	msg := in.perform(o)
	in.c.Log("#%d %v -> %s", i, o, zz.Short(msg))
	if (msg != "") != refused {
		if refused {
			in.c.Fail("#%d %v must be refused but was accepted", i, o)
		} else {
			in.c.Fail("#%d %v panics: %s", i, o, zz.Short(msg))
		}
		return
	}
	in.c.Step()
	if in.bare && i != len(in.p)-1 {
		return
	}
	in.observe(fmt.Sprintf("#%d %v", i, o))
}

func (in *interp) rules(b *mockey.MockBuilder, t, n, seq int, rs []rule, h *handle) *mockey.MockBuilder {
	fs := fnsets[t]
	for _, r := range rs {
		if r.when != wNone {
			b = b.When(fs.when(r.when, n))
		}
		c := r.c + constFor(n, seq, 0)
		switch r.hook {
		case hRet:
			b = b.Return(c)
		case hTo:
			b = b.To(fs.to(c, n))
		case hOrigin:
			if h.origin == nil {
				h.origin = &originRef{fs.newOrigin(n), n}
				b = b.Origin(h.origin.v)
			}
			b = b.To(fs.toOrigin(c, n, h.origin))
		case hSeq:
			b = b.Return(mockey.Sequence(c).Times(2).Then(c + 1))
		}
	}
	return b
}

func (in *interp) do(o Op) {
	switch o.K {
	case oMock:
		h := &handle{}
		if isVar(o.T) {
			h.v = in.mockVar(o.T, constFor(o.N, 0, 0))
		} else {
			h.m = in.rules(fnsets[o.T].mock(), o.T, o.N, 0, ruleSets[o.R], h).Build()
		}
		in.h[o.N] = h
		return
	case oUnpatchAll:
		mockey.UnPatchAll()
		return
	case oAssign:
		switch o.T {
		case tV:
			tg.V = 70 + o.R
		case tVS:
			tg.VS = tg.S{A: 80 + o.R, B: 90 + o.R}
		case tVB:
			tg.VS.B = 95 + o.R
		}
		return
	}
	h := in.h[o.H]
	t := in.m.mocks[o.H].target
	switch o.K {
	case oUnpatch:
		if h.v != nil {
			h.v.UnPatch()
		} else {
			h.m.UnPatch()
		}
	case oPatch:
		if h.v != nil {
			h.v.Patch()
		} else {
			h.m.Patch()
		}
	case oReRet:
		h.m.Return(constFor(o.H, o.T, 0))
	case oReTo:
		h.m.To(fnsets[t].to(constFor(o.H, o.T, 1), o.H))
	case oReWhen:
		h.m.When(fnsets[t].when(o.R, o.H))
	case oReOrigin:
		// another variable becomes the origin handle; the one in use stays usable
		if h.origin == nil {
			h.origin = &originRef{form: o.H}
		}
		n := fnsets[t].newOrigin(h.origin.form)
		h.m.Origin(n)
		h.origin.v = n
	case oReIncl:
		h.m.IncludeCurrentGoRoutine()
	case oReExcl:
		h.m.ExcludeCurrentGoRoutine()
	case oReOff:
		h.m.FilterGoRoutine(mockey.Disable, 0)
	case oRelease:
		n := &handle{}
		if h.origin != nil && h.origin.v != nil {
			n.origin = h.origin
		}
		n.m = in.rules(h.m.Release(), t, o.N, 0, ruleSets[o.R], n).Build()
		in.h[o.N] = n
	case oVarTo:
		c := constFor(o.H, o.T, 0)
		if t == tVS {
			h.v.To(tg.S{A: c, B: c + 1})
		} else {
			h.v.To(c)
		}
	}
}

// observe compares everything visible with the model.
func (in *interp) observe(at string) {
	if in.c.Failed() {
		return
	}
	in.counters(at)
	in.vars(at)
	for _, t := range in.obs {
		for _, x := range in.xs {
			want := in.m.call(t, x)
			var got int
			if msg := zz.PanicText(func() { got = fnsets[t].call(x) }); msg != "" {
				in.c.Fail("%s: %s(%d) panics: %s", at, tNames[t], x, zz.Short(msg))
				return
			}
			if got != want {
				in.c.Fail("%s: %s(%d) = %d, want %d", at, tNames[t], x, got, want)
				return
			}
		}
	}
	in.counters(at + ", after calls")
	in.vars(at + ", after calls")
	if in.extra != nil && !in.c.Failed() {
		in.extra(in)
	}
	if in.states {
		in.c.State(zz.Hash(in.m.key()))
	}
}

func (in *interp) counters(at string) {
	if in.c.Failed() {
		return
	}
	for id, k := range in.m.mocks {
		h := in.h[id]
		if h == nil || h.m == nil {
			continue
		}
		if k.dead {
			continue
		}
		if h.m.Times() != k.times || h.m.MockTimes() != k.mtimes {
			in.c.Fail("%s: m%d on %s: Times %d MockTimes %d, want %d %d", at, id, tNames[k.target], h.m.Times(), h.m.MockTimes(), k.times, k.mtimes)
			return
		}
	}
}

func (in *interp) vars(at string) {
	if in.c.Failed() {
		return
	}
	if tg.V != in.m.v || tg.VS != (tg.S{A: in.m.vs[0], B: in.m.vs[1]}) || tg.V2 != 8 || tg.VI != nil {
		in.c.Fail("%s: V=%d VS=%v V2=%d VI=%v, want V=%d VS=%v V2=8 VI=nil", at, tg.V, tg.VS, tg.V2, tg.VI, in.m.v, in.m.vs)
	}
}

// where operations take place
const (
	here      = iota
	elsewhere // on a goroutine of its own
	inHook    // in the hook of another mock
	inCond    // in a condition of another mock
	inOrigin  // in the original of another mock, run by its origin handle
	inDefer   // in a deferred function of a panicking one
)

var modeNames = [...]string{"", " (operations on other goroutines)", " (operations in a hook of another mock)", " (operations in a condition of another mock)",
	" (operations in the original of another mock)", " (operations while panicking)"}

func (in *interp) perform(o Op) (msg string) {
	do := func() { msg = zz.PanicText(func() { in.do(o) }) }
	mode := in.mode
	if o.K == oReIncl || o.K == oReExcl {
		mode = here // these are about the goroutine
	}
	switch mode {
	case here:
		do()
	case elsewhere:
		done := make(chan bool)
		go func() {
			defer close(done)
			zz.Grow()
			do()
		}()
		<-done
	case inHook:
		m := mockey.Mock(tg.Drive).To(func(f func()) int { f(); return 2 }).Build()
		if got := tg.Drive(do); got != 2 {
			in.c.Fail("a hook that operates on other mocks gives %d, want 2", got)
		}
		m.UnPatch()
	case inCond:
		m := mockey.Mock(tg.Drive).When(func(f func()) bool { f(); return true }).Return(3).Build()
		if got := tg.Drive(do); got != 3 {
			in.c.Fail("a mock whose condition operates on other mocks gives %d, want 3", got)
		}
		m.UnPatch()
	case inOrigin:
		var origin func(func()) int
		m := mockey.Mock(tg.Drive).Origin(&origin).To(func(f func()) int { return origin(f) + 3 }).Build()
		if got := tg.Drive(do); got != 4 {
			in.c.Fail("a hook whose origin operates on other mocks gives %d, want 4", got)
		}
		m.UnPatch()
	case inDefer:
		func() {
			defer func() { recover() }()
			defer do()
			panic("operations are deferred")
		}()
	}
	return
}
