// Package alike mocks, one after the other or at the same time, functions and variables whose types have the same name:
// what holds for one of them must not depend on what has been done with another.
package alike

import (
	"fmt"
	"reflect"

	"github.com/bytedance/mockey"
	"github.com/bytedance/mockey/zzverif/zz"
)

// one is a function or variable whose type mentions a type called T.
type one struct {
	name  string
	kind  byte // 'F' function, 'G' generic function, 'V' variable
	group int  // those of the same group are about the same T
	mock  func(c *zz.Ctx, way, tag int) mocked
	get   func() interface{} // the tag returned, 0 for the original, or something else
	hook  interface{}        // of the type that the target takes
	value interface{}
}

type mocked struct {
	undo  func()
	times func() int
}

var ways = [...]string{"Return", "To", "When", "To with Origin", "hooks without the first parameter", "a sequence", "To after the hook of a namesake is refused", "Return of the builder again after Release"}

const arg = 5

var things []one

func eq(a, b interface{}) bool { return reflect.DeepEqual(a, b) }

func function[T any](name string, group int, generic bool, f func(T, int) (T, int), a, b T) {
	mock := func() *mockey.MockBuilder { return mockey.Mock(f) }
	kind := byte('F')
	if generic {
		mock, kind = func() *mockey.MockBuilder { return mockey.MockGeneric(f) }, 'G'
	}
	t := one{name: name, group: group, kind: kind, value: b}
	t.get = func() interface{} {
		x, n := f(a, arg)
		switch {
		case eq(x, a) && n == arg*3+1:
			return 0
		case eq(x, b) && n >= 1000:
			return n
		}
		return fmt.Sprint(x, n)
	}
	t.hook = func(T, int) (x T, n int) { return b, 77 }
	t.mock = func(c *zz.Ctx, way, tag int) mocked {
		bu := mock()
		var m *mockey.Mocker
		info := func(i mockey.GenericInfo) {
			if got := i.UsedParamType(0); got != reflect.TypeOf(&a).Elem() {
				c.Fail("the generic info of %s says %v, want %v", name, got, reflect.TypeOf(&a).Elem())
			}
		}
		in := func(x T, n int) {
			if !eq(x, a) || n != arg {
				c.Fail("%s is called with (%v, %d), want (%v, %d)", name, x, n, a, arg)
			}
		}
		to := interface{}(func(x T, n int) (T, int) { in(x, n); return b, tag })
		if generic {
			to = func(i mockey.GenericInfo, x T, n int) (T, int) { info(i); in(x, n); return b, tag }
		}
		switch way {
		case 0:
			m = bu.Return(b, tag).Build()
		case 1:
			m = bu.To(to).Build()
		case 2:
			m = bu.When(func(x T, n int) bool { return !eq(x, a) || n != arg }).Return(b, 1).
				When(func(x T, n int) bool { return eq(x, a) && n == arg }).Return(b, tag).Build()
		case 3:
			var o func(T, int) (T, int)
			m = bu.Origin(&o).To(func(x T, n int) (T, int) {
				in(x, n)
				if y, k := o(x, n); !eq(y, a) || k != arg*3+1 {
					c.Fail("the original of %s gives (%v, %d)", name, y, k)
				}
				return b, tag
			}).Build()
		case 4:
			m = bu.When(func(n int) bool { return n == arg }).To(func(n int) (T, int) { return b, tag }).Build()
		case 5:
			m = bu.Return(mockey.Sequence(b, tag)).Build()
		case 6:
			for i := range things {
				if o := &things[i]; o.group != group && o.kind != 'V' {
					if zz.PanicText(func() { bu.To(o.hook) }) == "" {
						c.Fail("%s accepts the hook of %s", name, o.name)
						break
					}
				}
			}
			m = bu.To(to).Build()
		case 7:
			m = bu.Return(b, 1).Build()
			m = m.Release().Return(b, tag).Build()
		}
		return mocked{func() { m.UnPatch() }, m.Times}
	}
	things = append(things, t)
}

func variable[T any](name string, group int, p *T, a, b T) {
	*p = a
	t := one{name: name, group: group, kind: 'V', value: b}
	t.get = func() interface{} {
		switch {
		case eq(*p, a):
			return 0
		case eq(*p, b):
			return 1
		}
		return fmt.Sprint(*p)
	}
	t.mock = func(c *zz.Ctx, way, tag int) mocked {
		m := mockey.MockValue(p)
		switch way {
		case 6:
			for i := range things {
				if o := &things[i]; o.group != group {
					if zz.PanicText(func() { m.To(o.value) }) == "" {
						c.Fail("%s accepts the value of %s", name, o.name)
						break
					}
				}
			}
		case 5:
			m.To(a)
		case 7:
			m.To(b).UnPatch()
		}
		m.To(b)
		return mocked{undo: func() { m.UnPatch() }}
	}
	things = append(things, t)
}

type program struct {
	a, b, wa, wb int
	order        int
}

var orders = [...]string{"the first undone before", "both, the first undone first", "both, the last undone first", "the first undone and mocked again"}

func (p program) text() string {
	return fmt.Sprintf("%s mocked by %s, then %s by %s; %s", things[p.a].name, ways[p.wa], things[p.b].name, ways[p.wb], orders[p.order])
}

func (p program) run(c *zz.Ctx) {
	const ta, tb = 1001, 1002
	on := map[int]int{}
	check := func(when string) {
		c.Step()
		for i := range things {
			want := on[i]
			if want != 0 && things[i].kind == 'V' {
				want = 1
			}
			if got := things[i].get(); got != want {
				c.Fail("%s: %s gives %v, want %v", when, things[i].name, got, want)
			}
		}
	}
	set := func(i, way, tag int) (m mocked) {
		if e := zz.Catch(func() { m = things[i].mock(c, way, tag) }); e != nil {
			c.Fail("mocking %s by %s panics: %v", things[i].name, ways[way], e)
			return mocked{undo: func() {}}
		}
		on[i] = tag
		check("after mocking " + things[i].name)
		if m.times != nil && m.times() != 1 && !c.Failed() {
			c.Fail("the mock of %s counts %d calls, want 1", things[i].name, m.times())
		}
		return m
	}
	undo := func(i int, m mocked) {
		m.undo()
		delete(on, i)
		check("after undoing " + things[i].name)
	}
	a := set(p.a, p.wa, ta)
	if c.Failed() {
		a.undo()
		return
	}
	if p.order == 0 || p.order == 3 {
		undo(p.a, a)
	}
	if p.order == 3 {
		a = set(p.a, p.wa, ta)
	}
	b := set(p.b, p.wb, tb)
	switch p.order {
	case 0:
		undo(p.b, b)
	case 1, 3:
		undo(p.a, a)
		undo(p.b, b)
	case 2:
		undo(p.b, b)
		undo(p.a, a)
	}
	c.State(zz.Hash(fmt.Sprint(p)))
}

// Suite lists the pairs of which one is of the kind (any if 0).
func Suite(kind byte) zz.Suite {
	return zz.Suite{
		Name: "namesakes",
		Bound: func(e *zz.Env) string {
			return fmt.Sprintf("%d functions, generic functions and variables of types called T, mocked in pairs in each of %d ways and %d orders", len(things), len(ways), len(orders))
		},
		Gen: func(e *zz.Env, y func(zz.Case) bool) {
			for a := range things {
				for b := range things {
					if a == b || kind != 0 && things[a].kind != kind && things[b].kind != kind {
						continue
					}
					for wa := range ways {
						for wb := range ways {
							for o := range orders {
								if e.Mini() && (wa != wb || o != 2 || e.Prop != "C02" && (a+b+wa)%4 != 0) || !e.Thorough() && o > 0 && (wa+wb+a+b)%4 != o {
									continue
								}
								p := program{a, b, wa, wb, o}
								if !y(zz.Case{Text: p.text, Run: p.run}) {
									return
								}
							}
						}
					}
				}
			}
		},
	}
}

func init() {
	for _, p := range []string{"C02", "C04", "C10", "C16"} {
		zz.Register(p, Suite(0))
	}
	zz.Register("C09", Suite('V'))
	zz.Register("C14", Suite('G'))
}
