package gensrun

import (
	"fmt"
	"reflect"
	"runtime"
	"runtime/debug"

	"github.com/bytedance/mockey"
	"github.com/bytedance/mockey/zzverif/gens"
	"github.com/bytedance/mockey/zzverif/zz"
)

type failer struct{ failed bool }

func (f *failer) Fail() { f.failed = true }

type scenario struct {
	name string
	ok   func(d *gens.Decl, i int) bool
	run  func(w *world, i int)
}

func always(*gens.Decl, int) bool     { return true }
func method(d *gens.Decl, _ int) bool { return d.Method != "" }

func form(info, recv bool) string {
	return map[bool]string{true: "with generic info", false: "without generic info"}[info] + map[bool]string{true: "", false: ", without receiver"}[recv]
}

func (w *world) values(n int) []reflect.Value {
	out := outs(w.ft(w.mocks[n].inst))
	return freshAll(len(out), func(i int) reflect.Type { return out[i] })
}

// target is one of the function values of an instance.
func (w *world) target(inst, kind int) interface{} {
	in := &w.d.Insts[inst]
	switch kind {
	case 0:
		return in.Target
	case 1:
		return in.Alts[0].F
	}
	t := reflect.TypeOf(in.Target).In(0)
	v := reflect.Zero(t)
	if w.d.Ptr {
		v = reflect.New(t.Elem())
	}
	return mockey.GetMethod(v.Interface(), w.d.Method)
}

// targets is the number of function values of an instance.
func targets(d *gens.Decl, inst int) int {
	if d.Method == "" {
		return 2
	}
	if t := reflect.TypeOf(d.Insts[inst].Target).In(0); d.Method[0] == 'm' && (t.Kind() == reflect.Map || t.Kind() == reflect.Ptr && t.Elem().Kind() == reflect.Map) {
		return 2 // KF-5
	}
	return 3
}

func scenarios() (ss []scenario) {
	add := func(name string, ok func(*gens.Decl, int) bool, f func(w *world, i int)) {
		ss = append(ss, scenario{name, ok, f})
	}
	for k := 0; k < 4; k++ {
		info, recv := k&1 == 0, k&2 == 0
		ok := always
		if !recv {
			ok = method
		}
		add("To, "+form(info, recv), ok, func(w *world, i int) {
			n, b := w.builder(i, w.target(i, 0))
			w.apply(n, func() *mockey.Mocker { return b.To(w.hook(n, info, recv)).Build() })
			w.all(i)
			w.undo(n)
			w.all(i)
		})
		add("When, "+form(info, recv), ok, func(w *world, i int) {
			n, b := w.builder(i, w.target(i, 0))
			m := w.mocks[n]
			m.silent, m.returns = true, w.values(n)
			w.apply(n, func() *mockey.Mocker { return b.When(w.cond(n, info, recv)).Return(faces(m.returns)...).Build() })
			w.all(i)
			w.truth = false
			w.all(i)
			w.undo(n)
			w.truth = true
			w.all(i)
		})
		add("When and To, "+form(info, recv), ok, func(w *world, i int) {
			n, b := w.builder(i, w.target(i, 0))
			w.apply(n, func() *mockey.Mocker {
				return b.When(w.cond(n, info, recv)).To(w.hook(n, !info, recv || w.d.Method == "")).Build()
			})
			w.all(i)
			w.truth = false
			w.others(i)
			w.undo(n)
			w.all(i)
		})
		for _, hr := range []bool{true, false} {
			hr := hr
			if hr && !recv {
				continue
			}
			ok2 := ok
			if !hr {
				ok2 = method
			}
			add("origin"+map[bool]string{true: "", false: " without receiver"}[hr]+" from a hook "+form(info, recv), ok2, func(w *world, i int) {
				n, b := w.builder(i, w.target(i, 0))
				w.apply(n, func() *mockey.Mocker { return b.To(w.hook(n, info, recv)).Origin(w.handle(n, hr)).Build() })
				w.all(i)
				w.undo(n)
				w.others(i)
			})
		}
	}
	add("Return", always, func(w *world, i int) {
		n, b := w.builder(i, w.target(i, 0))
		m := w.mocks[n]
		m.silent, m.returns = true, w.values(n)
		w.apply(n, func() *mockey.Mocker { return b.Return(faces(m.returns)...).Build() })
		w.all(i)
		w.undo(n)
		w.all(i)
	})
	add("Sequence", func(d *gens.Decl, i int) bool { return reflect.TypeOf(d.Insts[i].Target).NumOut() > 0 }, func(w *world, i int) {
		n, b := w.builder(i, w.target(i, 0))
		m := w.mocks[n]
		x, y := w.values(n), w.values(n)
		m.silent, m.seq = true, [][]reflect.Value{x, x, y}
		w.apply(n, func() *mockey.Mocker {
			return b.Return(mockey.Sequence(faces(x)...).Times(2).Then(faces(y)...)).Build()
		})
		w.all(i)
		w.undo(n)
		w.others(i)
	})
	add("filter", always, func(w *world, i int) {
		n, b := w.builder(i, w.target(i, 0))
		m := w.mocks[n]
		m.skip = true
		w.apply(n, func() *mockey.Mocker { return b.To(w.hook(n, true, true)).ExcludeCurrentGoRoutine().Build() })
		ways := w.d.Insts[i].Ways
		for _, way := range ways {
			if way.Name != "from a goroutine" {
				w.run(i, way)
			}
		}
		if w.c.Failed() {
			return
		}
		w.mocks[n].skip = false
		w.apply(n, func() *mockey.Mocker { return m.m.IncludeCurrentGoRoutine() })
		m.calls, m.hooked = 0, 0
		for _, way := range ways {
			if m.skip = way.Name == "from a goroutine"; !w.c.Failed() {
				w.run(i, way)
			}
		}
		m.skip = false
		w.undo(n)
		w.all(i)
	})
	add("reconfigured", always, func(w *world, i int) {
		n, b := w.builder(i, w.target(i, 0))
		m := w.mocks[n]
		w.apply(n, func() *mockey.Mocker { return b.To(w.hook(n, true, true)).Build() })
		w.others(i)
		m.silent, m.returns = true, w.values(n)
		w.apply(n, func() *mockey.Mocker { return m.m.Return(faces(m.returns)...) })
		m.calls, m.hooked = 0, 0
		w.others(i)
		m.silent, m.cond = false, false
		w.apply(n, func() *mockey.Mocker { return m.m.To(w.hook(n, false, w.d.Method == "")) })
		m.calls, m.hooked = 0, 0
		w.all(i)
		w.apply(n, func() *mockey.Mocker {
			return m.m.Release().When(w.cond(n, true, true)).To(w.hook(n, true, true)).Build()
		})
		m.calls, m.hooked = 0, 0
		w.all(i)
		w.undo(n)
		w.all(i)
	})
	add("applied again", always, func(w *world, i int) {
		n, b := w.builder(i, w.target(i, 0))
		w.apply(n, func() *mockey.Mocker { return b.To(w.hook(n, true, true)).Build() })
		for k := 0; k < 3 && !w.c.Failed(); k++ {
			w.others(i)
			w.undo(n)
			w.others(i)
			w.apply(n, func() *mockey.Mocker { return w.mocks[n].m.Patch() })
		}
		w.all(i)
		w.undo(n)
		w.all(i)
	})
	add("re-mocked", always, func(w *world, i int) {
		for kind := 0; kind < targets(w.d, i) && !w.c.Failed(); kind++ {
			n, b := w.builder(i, w.target(i, kind))
			w.apply(n, func() *mockey.Mocker { return b.To(w.hook(n, true, true)).Build() })
			for j := range w.d.Insts {
				for k2 := 0; k2 < targets(w.d, j); k2++ {
					if w.code(j) != w.code(i) || w.c.Failed() {
						continue
					}
					n2, b2 := w.builder(j, w.target(j, k2))
					if p := try(func() { b2.To(w.hook(n2, true, true)).Build() }); p == nil {
						w.c.Fail("%s is mocked while %s, which runs the same code, is (function values %d, %d)", w.d.Insts[j].Name, w.d.Insts[i].Name, k2, kind)
					}
				}
			}
			w.all(i)
			w.undo(n)
			w.all(i)
		}
	})
	add("all instances at once", func(d *gens.Decl, i int) bool { return i < 2 }, func(w *world, i int) {
		var ns []int
		for j := range w.d.Insts {
			if w.code(j) != j {
				continue
			}
			n, b := w.builder(j, w.target(j, (i+j)%2))
			ns = append(ns, n)
			w.apply(n, func() *mockey.Mocker { return b.To(w.hook(n, true, true)).Build() })
			if w.c.Failed() {
				return
			}
		}
		w.others(i)
		w.others(i + 1)
		for k := range ns {
			if i == 0 {
				k = len(ns) - 1 - k
			}
			w.undo(ns[k])
			if w.c.Failed() {
				return
			}
			if k%3 == 0 {
				w.others(i)
			}
		}
		w.all(i)
	})
	add("scopes", always, func(w *world, i int) {
		old := map[int]int{}
		f := &failer{}
		mockey.PatchConvey("outer", f, func() {
			n, b := w.builder(i, w.target(i, 0))
			w.apply(n, func() *mockey.Mocker { return b.To(w.hook(n, true, true)).Build() })
			w.others(i)
			old = map[int]int{w.code(i): n}
			mockey.PatchConvey("inner", func() {
				n2, b2 := w.builder(i, w.target(i, 0))
				w.apply(n2, func() *mockey.Mocker { return b2.To(w.hook(n2, true, true)).Build() })
				w.others(i)
				for j := range w.d.Insts {
					if w.code(j) == j && w.code(i) != j {
						n3, b3 := w.builder(j, w.target(j, 0))
						m3 := w.mocks[n3]
						m3.silent, m3.returns = true, w.values(n3)
						w.apply(n3, func() *mockey.Mocker { return b3.Return(faces(m3.returns)...).Build() })
						w.others(i)
						break
					}
				}
			})
			w.answer = old
			w.all(i)
			mockey.UnPatchAll()
			w.answer = map[int]int{}
			w.all(i)
			n4, b4 := w.builder(i, w.target(i, 0))
			w.apply(n4, func() *mockey.Mocker { return b4.To(w.hook(n4, true, true)).Build() })
			w.others(i)
		})
		if f.failed && !w.c.Failed() {
			w.c.Fail("the scope fails")
		}
		w.answer = map[int]int{}
		w.all(i)
	})
	add("other declarations", always, func(w *world, i int) {
		n, b := w.builder(i, w.target(i, 0))
		w.apply(n, func() *mockey.Mocker { return b.To(w.hook(n, true, true)).Build() })
		for k, d := range gens.Decls {
			if d == w.d || i > 0 && (k+i)%8 != 0 || w.c.Failed() {
				continue
			}
			o := &world{c: w.c, d: d, refs: map[int]mockey.GenericInfo{}, answer: map[int]int{}}
			j := (i + k) % len(d.Insts)
			o.run(j, d.Insts[j].Ways[(i+k)%len(d.Insts[j].Ways)])
		}
		w.others(i)
		w.undo(n)
	})
	for kind := 1; kind < 3; kind++ {
		kind := kind
		add([]string{"", "a function value made in a generic function", "GetMethod"}[kind], func(d *gens.Decl, i int) bool { return kind < targets(d, i) }, func(w *world, i int) {
			n, b := w.builder(i, w.target(i, kind))
			w.apply(n, func() *mockey.Mocker { return b.To(w.hook(n, true, true)).Build() })
			w.all(i)
			w.undo(n)
			w.all(i)
		})
	}
	return
}

var cases int

// collect keeps garbage collections and preemptions, which make stack checks fire (KF-1), out of the calls.
func collect() {
	if cases++; cases%64 == 0 {
		runtime.GC()
	}
}

func gen(e *zz.Env, yield func(zz.Case) bool) {
	ss := scenarios()
	for _, d := range gens.Decls {
		for i := range d.Insts {
			for si := range ss {
				d, i, s := d, i, &ss[si]
				if !s.ok(d, i) || e.Mini() && (d.ID+i+si)%5 != 0 {
					continue
				}
				if !yield(zz.Case{
					Text: func() string { return fmt.Sprintf("%s with %s: %s", d.Desc, d.Insts[i].Name, s.name) },
					Run: func(c *zz.Ctx) {
						collect()
						w := newWorld(c, d)
						if !c.Failed() {
							s.run(w, i)
						}
						c.Outcome(s.name)
						for _, m := range w.mocks {
							if m.m != nil {
								m.m.UnPatch()
							}
						}
					},
				}) {
					return
				}
			}
		}
	}
}

func Main() {
	gens.Grow = zz.Grow
	debug.SetGCPercent(-1)
	zz.Register("C14", zz.Suite{Name: "generic functions", Bound: func(e *zz.Env) string {
		n := 0
		for _, d := range gens.Decls {
			n += len(d.Insts)
		}
		return fmt.Sprintf("%d declarations, %d instances, %d scenarios%s, every way of calling", len(gens.Decls), n, len(scenarios()), map[bool]string{true: " (a fifth of the combinations)"}[e.Mini()])
	}, Gen: gen})
	zz.Main()
}
