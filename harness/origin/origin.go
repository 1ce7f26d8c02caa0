// Package origin enumerates what can be done with the original of a mocked target (C08).
package origin

import (
	"errors"
	"fmt"
	"runtime"
	"strings"

	"github.com/bytedance/mockey"
	"github.com/bytedance/mockey/zzverif/tg"
	"github.com/bytedance/mockey/zzverif/zz"
)

// Targets. The originals are nosplit, see tg.

type R struct {
	K int
	n *R
}

var recvFn func(r *R, x int) int

//go:nosplit
func (r *R) Rec(x int) int {
	if x <= 0 {
		return r.K
	}
	return x*10 + recvFn(r, x-1)
}

//go:nosplit
func (r R) Val(x int) int { return x*7 + r.K }

//go:nosplit
func (r *R) Var(x int, y ...int) int {
	s := x*17 + r.K
	for i := 0; i < len(y); i++ {
		s += y[i] * (i + 2)
	}
	return s
}

//go:nosplit
func (r *R) Back(f func(), x int) int {
	y := x*3 + r.K
	f()
	return y*2 + x
}

//go:nosplit
func Back(f func(), x int) int {
	y := x*3 + 1
	f()
	return y*2 + x
}

// Pan panics for negative arguments.
//
//go:nosplit
func Pan(x int) int {
	y := x*3 + 1
	if x < -10 {
		panic(errP)
	}
	return y * 2
}

var errP = errors.New("the original panics")

func init() { recvFn = (*R).Rec }

type target struct {
	name   string
	recv   bool // two receivers
	gen    bool // generic: a handle may be called once the target was called (it lacks the generic info)
	mock   func() *mockey.MockBuilder
	call   func(r, x int) int
	hook   func(f func(r, x int) int) interface{}
	cond   func(f func(r, x int)) interface{}
	handle func(form int) (ptr interface{}, call func(r, x int) int) // form 1: without receiver
	orig   func(r, x int, again func(r, x int) int) int
}

var rs = [2]*R{{K: 3}, {K: 300}}

func rid(r *R) int {
	if r == rs[1] {
		return 1
	}
	if r == rs[0] {
		return 0
	}
	return 9
}

func vid(r R) int {
	switch r.K {
	case 3:
		return 0
	case 300:
		return 1
	}
	return 9
}

var boxes = [2]*tg.Box[int]{{P: 1, K: 6}, {P: 2, K: 600}}

func bid(b *tg.Box[int]) int {
	switch b {
	case boxes[0]:
		return 0
	case boxes[1]:
		return 1
	}
	return 9
}

func plain(name string, f func(int) int, orig func(r, x int, again func(r, x int) int) int) *target {
	return &target{
		name: name,
		mock: func() *mockey.MockBuilder { return mockey.Mock(f) },
		call: func(r, x int) int { return f(x) },
		hook: func(h func(r, x int) int) interface{} { return func(x int) int { return h(0, x) } },
		cond: func(h func(r, x int)) interface{} { return func(x int) bool { h(0, x); return true } },
		handle: func(form int) (interface{}, func(r, x int) int) {
			p := new(func(int) int)
			return p, func(r, x int) int { return (*p)(x) }
		},
		orig: orig,
	}
}

var ga = &tg.A1{V: 1}

func targets() []*target {
	return []*target{
		plain("F", tg.F, func(r, x int, again func(r, x int) int) int { return x*3 + 1 }),
		plain("Rec", tg.Rec, func(r, x int, again func(r, x int) int) int {
			if x <= 0 {
				return 1
			}
			return x*10 + again(r, x-1)
		}),
		{
			name: "(*R).Rec", recv: true,
			mock: func() *mockey.MockBuilder { return mockey.Mock((*R).Rec) },
			call: func(r, x int) int { return rs[r].Rec(x) },
			hook: func(h func(r, x int) int) interface{} { return func(r *R, x int) int { return h(rid(r), x) } },
			cond: func(h func(r, x int)) interface{} { return func(r *R, x int) bool { h(rid(r), x); return true } },
			handle: func(form int) (interface{}, func(r, x int) int) {
				if form == 1 {
					p := new(func(int) int)
					return p, func(r, x int) int { return (*p)(x) }
				}
				p := new(func(*R, int) int)
				return p, func(r, x int) int { return (*p)(rs[r], x) }
			},
			orig: func(r, x int, again func(r, x int) int) int {
				if x <= 0 {
					return rs[r].K
				}
				return x*10 + again(r, x-1)
			},
		},
		{
			name: "R.Val", recv: true,
			mock: func() *mockey.MockBuilder { return mockey.Mock(R.Val) },
			call: func(r, x int) int { return rs[r].Val(x) },
			hook: func(h func(r, x int) int) interface{} { return func(r R, x int) int { return h(vid(r), x) } },
			cond: func(h func(r, x int)) interface{} { return func(r R, x int) bool { h(vid(r), x); return true } },
			handle: func(form int) (interface{}, func(r, x int) int) {
				if form == 1 {
					p := new(func(int) int)
					return p, func(r, x int) int { return (*p)(x) }
				}
				p := new(func(R, int) int)
				return p, func(r, x int) int { return (*p)(*rs[r], x) }
			},
			orig: func(r, x int, again func(r, x int) int) int { return x*7 + rs[r].K },
		},
		{
			name: "(*R).Var", recv: true,
			mock: func() *mockey.MockBuilder { return mockey.Mock((*R).Var) },
			call: func(r, x int) int { return rs[r].Var(x, x+1, x+2) },
			hook: func(h func(r, x int) int) interface{} {
				return func(r *R, x int, y ...int) int {
					if len(y) != 2 || y[0] != x+1 || y[1] != x+2 {
						return -1
					}
					return h(rid(r), x)
				}
			},
			cond: func(h func(r, x int)) interface{} {
				return func(r *R, x int, y ...int) bool { h(rid(r), x); return true }
			},
			handle: func(form int) (interface{}, func(r, x int) int) {
				if form == 1 {
					p := new(func(int, ...int) int)
					return p, func(r, x int) int { return (*p)(x, x+1, x+2) }
				}
				p := new(func(*R, int, ...int) int)
				return p, func(r, x int) int { return (*p)(rs[r], x, []int{x + 1, x + 2}...) }
			},
			orig: func(r, x int, again func(r, x int) int) int { return x*17 + rs[r].K + (x+1)*2 + (x+2)*3 },
		},
		{
			name: "G[*A1]", gen: true,
			mock: func() *mockey.MockBuilder { return mockey.MockGeneric(tg.G[*tg.A1]) },
			call: func(r, x int) int { return tg.G(ga, x) },
			hook: func(h func(r, x int) int) interface{} { return func(p *tg.A1, x int) int { return h(0, x) } },
			cond: func(h func(r, x int)) interface{} { return func(p *tg.A1, x int) bool { h(0, x); return true } },
			handle: func(form int) (interface{}, func(r, x int) int) {
				p := new(func(*tg.A1, int) int)
				return p, func(r, x int) int { return (*p)(ga, x) }
			},
			orig: func(r, x int, again func(r, x int) int) int { return x*31 + 5 },
		},
		{
			name: "(*Box[int]).Get", recv: true, gen: true,
			mock: func() *mockey.MockBuilder { return mockey.MockGeneric((*tg.Box[int]).Get) },
			call: func(r, x int) int { return boxes[r].Get(x) },
			hook: func(h func(r, x int) int) interface{} { return func(b *tg.Box[int], x int) int { return h(bid(b), x) } },
			cond: func(h func(r, x int)) interface{} {
				return func(b *tg.Box[int], x int) bool { h(bid(b), x); return true }
			},
			handle: func(form int) (interface{}, func(r, x int) int) {
				if form == 1 {
					p := new(func(int) int)
					return p, func(r, x int) int { return (*p)(x) }
				}
				p := new(func(*tg.Box[int], int) int)
				return p, func(r, x int) int { return (*p)(boxes[r], x) }
			},
			orig: func(r, x int, again func(r, x int) int) int { return x*41 + boxes[r].K },
		},
	}
}

// Oth is a second target with receivers of its own, whose origin handle lacks the receiver as well.
type Oth struct{ K int }

//go:nosplit
func (o *Oth) M(x int) int {
	y := x * 60
	if x > 1<<20 {
		y++
	}
	return y + x*7 + o.K
}

var others = [2]*Oth{{K: 17}, {K: 1700}}

// Actions of a hook or condition.
const (
	aO     = iota // origin with the call's arguments
	aO7           // origin with a changed argument
	aOr2          // origin on the other receiver (full handle)
	aNest         // call the target again
	aNest2        // call the target on the other receiver
	aGo2          // another goroutine calls the target on the other receiver
	aHold         // another goroutine is inside a call on the other receiver until the end
	aUn           // undo
	aPa           // apply again
	aRet          // reconfigure: Return
	aGC           // garbage collections
	aCross        // call another mocked method, whose hook runs this origin and its own one
	aCrossGo      // the same on another goroutine
	nActions
)

var aNames = [...]string{"origin(x)", "origin(x+7)", "origin(other receiver)", "target(x-1)", "target(other receiver)", "target from another goroutine", "a call of another goroutine in progress",
	"UnPatch", "Patch", "Return", "GC", "another mock whose hook runs origin(x+3)", "another mock, called by another goroutine"}

func progText(p []int) string {
	var s []string
	for _, a := range p {
		s = append(s, aNames[a])
	}
	return "[" + strings.Join(s, ", ") + "]"
}

type spec struct {
	t     *target
	form  int
	cond  []int // actions of a condition that then holds
	hook  []int
	layer bool // the mock hides one of an enclosing scope
}

func (s spec) String() string {
	return fmt.Sprintf("%s handle form %d condition %s hook %s layered %v", s.t.name, s.form, progText(s.cond), progText(s.hook), s.layer)
}

func (s spec) uses(a int) bool {
	for _, p := range [][]int{s.cond, s.hook} {
		for _, b := range p {
			if a == b {
				return true
			}
		}
	}
	return false
}

// model of the same
type model struct {
	s       spec
	applied bool
	ret     int // 0: the hook, otherwise Return(ret)
	out     []int
	saved   []int
	held    bool
	life    bool
}

func (m *model) below(r, x int) int {
	if m.s.layer {
		// the outer mock: hook origin'(x)+50000
		return m.s.t.orig(r, x, m.call) + 50000
	}
	return m.s.t.orig(r, x, m.call)
}

// call is a nested call: the hook just runs the origin.
func (m *model) call(r, x int) int {
	if !m.applied {
		return m.below(r, x)
	}
	if m.ret != 0 {
		return m.ret
	}
	return m.below(r, x) + 1
}

func (m *model) action(a, r, x int) {
	v := 0
	switch a {
	case aO:
		v = m.below(r, x)
	case aO7:
		v = m.below(r, x+7)
	case aOr2:
		v = m.below(1-r, x)
	case aNest:
		v = m.call(r, x-1)
	case aNest2:
		v = m.call(1-r, x-1)
	case aGo2:
		v = m.call(1-r, x+1)
	case aHold:
		if m.held {
			return
		}
		m.held = true
		if m.applied && m.ret == 0 {
			m.saved = append(m.saved, -1) // evaluated at the end
		} else {
			m.saved = append(m.saved, m.call(1-r, x+2))
		}
	case aUn:
		m.applied, m.life = false, true
	case aPa:
		m.applied, m.life = true, true
	case aRet:
		m.applied, m.ret, m.life = true, 4242, true
	case aCross:
		v = m.below(r, x+3)*2 + (x+1)*67 + others[1].K
	case aCrossGo:
		v = (x+1)*67 + others[1].K
	}
	m.out = append(m.out, v)
}

func (m *model) top(r, x int) int {
	for _, a := range m.s.cond {
		m.action(a, r, x)
	}
	for _, a := range m.s.hook {
		m.action(a, r, x)
	}
	sum := 9
	for i, v := range m.out {
		sum += v * (i + 1)
	}
	if m.held && m.saved[0] == -1 {
		m.saved[0] = m.below(1-r, x+2) + 1
	}
	return sum
}

func (s spec) run(c *zz.Ctx) {
	if s.layer {
		var msg string
		outerHandle, outer := s.t.handle(s.form)
		m0 := s.t.mock().Origin(outerHandle).To(s.t.hook(func(r, x int) int { return outer(r, x) + 50000 })).Build()
		mockey.PatchConvey("inner", fakeT{}, func() {
			msg = zz.PanicText(func() { s.inner(c) })
		})
		if msg != "" {
			c.Fail("panic: %s", msg)
		}
		want := s.t.orig(0, 5, func(r, x int) int { return s.outerCall(r, x) }) + 50000
		if got := s.t.call(0, 5); got != want && !c.Failed() {
			c.Fail("after the inner mock is undone the outer one gives %d, want %d", got, want)
		}
		m0.UnPatch()
	} else {
		s.inner(c)
	}
	if c.Failed() {
		return
	}
	if got, want := s.t.call(0, 5), s.pure(0, 5); got != want {
		c.Fail("after everything is undone the target gives %d, want %d", got, want)
	}
}

func (s spec) outerCall(r, x int) int { return s.t.orig(r, x, s.outerCall) + 50000 }

func (s spec) pure(r, x int) int { return s.t.orig(r, x, s.pure) }

type fakeT struct{}

func (fakeT) Fail() {}

func (s spec) inner(c *zz.Ctx) {
	t := s.t
	ptr, o := t.handle(s.form)
	var m *mockey.Mocker
	var out []int
	depth := 0
	var held chan int
	var release chan bool
	inHold := false
	entered := make(chan bool, 1)
	var cross func(r, x int) int
	if s.uses(aCross) || s.uses(aCrossGo) {
		var oth func(int) int
		m2 := mockey.Mock((*Oth).M).Origin(&oth).To(func(p *Oth, y int) int {
			v := 0
			if cross != nil {
				f := cross
				cross = nil
				depth++
				v = f(0, y-1+3)
				depth--
			}
			return v*2 + oth(y)
		}).Build()
		defer m2.UnPatch()
		if got, want := others[0].M(2), 2*67+others[0].K; got != want {
			c.Fail("the other mock gives %d, want %d", got, want)
			return
		}
	}
	var action func(a, r, x int)
	action = func(a, r, x int) {
		zz.Point()
		v := 0
		switch a {
		case aO:
			v = o(r, x)
		case aO7:
			v = o(r, x+7)
		case aOr2:
			v = o(1-r, x)
		case aNest:
			v = t.call(r, x-1)
		case aNest2:
			v = t.call(1-r, x-1)
		case aGo2:
			ch := make(chan int)
			go func() { zz.Grow(); ch <- t.call(1-r, x+1) }()
			v = <-ch
		case aHold:
			if held != nil {
				return
			}
			held, release = make(chan int, 1), make(chan bool)
			inHold = true
			go func() {
				zz.Grow()
				held <- t.call(1-r, x+2)
				select {
				case entered <- true:
				default:
				}
			}()
			<-entered
		case aUn:
			m.UnPatch()
		case aPa:
			m.Patch()
		case aRet:
			m.Return(4242)
		case aGC:
			runtime.GC()
			runtime.GC()
		case aCross:
			cross = func(_, y int) int { return o(r, y) }
			v = others[1].M(x + 1)
		case aCrossGo:
			ch := make(chan int)
			go func() { zz.Grow(); ch <- others[1].M(x + 1) }()
			v = <-ch
		}
		out = append(out, v)
	}
	b := t.mock().Origin(ptr)
	if s.cond != nil {
		b = b.When(t.cond(func(r, x int) {
			if depth > 0 || inHold {
				return
			}
			depth++
			for _, a := range s.cond {
				action(a, r, x)
			}
			depth--
		}))
	}
	b = b.To(t.hook(func(r, x int) int {
		if inHold {
			// the call of the other goroutine
			inHold = false
			rel := release
			entered <- true
			<-rel
			return o(r, x) + 1
		}
		if depth > 0 {
			return o(r, x) + 1
		}
		depth++
		for _, a := range s.hook {
			action(a, r, x)
		}
		sum := 9
		for i, v := range out {
			sum += v * (i + 1)
		}
		return sum
	}))
	m = b.Build()
	defer m.UnPatch()
	mo := &model{s: s, applied: true}
	// outside of a call
	if (s.form == 0 || !t.recv) && !t.gen {
		depth = 1
		if got, want := o(0, 6), mo.below(0, 6); got != want {
			c.Fail("origin called before any call gives %d, want %d", got, want)
			return
		}
		depth = 0
	}
	const x = 4
	want := mo.top(0, x)
	got := t.call(0, x)
	for i := range mo.out {
		if i >= len(out) || out[i] != mo.out[i] {
			c.Fail("action %d (%s) gives %v, want %d", i, aNames[append(append([]int{}, s.cond...), s.hook...)[i]], out, mo.out[i])
			return
		}
		c.Step()
	}
	if got != want {
		c.Fail("the call gives %d, want %d", got, want)
		return
	}
	if held != nil {
		close(release)
		if v := <-held; v != mo.saved[0] {
			c.Fail("the call in progress on another goroutine gives %d, want %d", v, mo.saved[0])
			return
		}
	}
	depth = 1
	if got, want := t.call(0, 3), mo.call(0, 3); got != want {
		c.Fail("the next call gives %d, want %d", got, want)
		return
	}
	if t.recv {
		if got, want := t.call(1, 3), mo.call(1, 3); got != want {
			c.Fail("the next call on the other receiver gives %d, want %d", got, want)
			return
		}
	}
	if s.form == 0 || !t.recv {
		if got, want := o(0, 8), mo.below(0, 8); got != want {
			c.Fail("origin called after the call gives %d, want %d", got, want)
			return
		}
	}
	c.State(zz.Hash(fmt.Sprint(t.name, mo.applied, mo.ret, mo.out)))
	m.UnPatch()
	mo.applied = false
	if s.form == 0 || !t.recv {
		if got, want := o(0, 9), mo.below(0, 9); got != want {
			c.Fail("origin kept after UnPatch gives %d, want %d", got, want)
		}
	}
	if got, want := t.call(0, 3), mo.call(0, 3); got != want {
		c.Fail("after UnPatch the target gives %d, want %d", got, want)
	}
}

func gen(e *zz.Env, y func(zz.Case) bool) { genIf(e, y, func(spec) bool { return true }) }

func genIf(e *zz.Env, y func(zz.Case) bool, keep func(s spec) bool) {
	max := e.Pick(1, 3, 4)
	ok := true
	conds := [][]int{nil, {aO7}, {aO, aNest2}, {aUn}, {aNest, aO7}, {aUn, aPa}, {aCross}}
	for _, t := range targets() {
		for form := 0; form < 2; form++ {
			if form == 1 && !t.recv {
				continue
			}
			for _, layer := range []bool{false, true} {
				for ci, cond := range conds {
					for n := 1; n <= max && ok; n++ {
						if ci > 1 && n == max && n > 2 && !e.Thorough() {
							continue
						}
						if layer && n > 2 && !e.Thorough() {
							continue
						}
						if n == 4 && (layer || ci > 0) {
							continue
						}
						p := make([]int, n)
						var rec func(i int)
						rec = func(i int) {
							if !ok {
								return
							}
							if i == n {
								s := spec{t, form, cond, append([]int(nil), p...), layer}
								ok = !keep(s) || y(zz.Case{Text: s.String, Run: s.run})
								return
							}
							for a := 0; a < nActions && ok; a++ {
								if a == aOr2 && (form == 1 || !t.recv) || a == aNest2 && !t.recv {
									continue
								}
								p[i] = a
								rec(i + 1)
							}
						}
						rec(0)
					}
				}
			}
		}
	}
}

func init() {
	zz.Register("C16", zz.Suite{Name: "origin handles of two mocks", Gen: func(e *zz.Env, y func(zz.Case) bool) {
		genIf(e, y, func(s spec) bool { return !s.layer && (s.uses(aCross) || s.uses(aCrossGo)) })
	}, Bound: func(e *zz.Env) string {
		return fmt.Sprintf("all hook programs of up to %d of %d actions, 7 condition programs, that call another mock which runs the origins of both", e.Pick(1, 3, 4), nActions)
	}})
	zz.Register("C08", zz.Suite{Name: "hook programs", Gen: gen, Bound: func(e *zz.Env) string {
		return fmt.Sprintf("all hook programs of up to %d of %d actions, 7 condition programs, %d targets, handles with and without receiver, with and without an enclosing mock", e.Pick(1, 3, 4), nActions, len(targets()))
	}})
}
