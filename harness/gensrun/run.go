// Package gensrun mocks every instance of the generated generic functions and methods in every way (C14).
package gensrun

import (
	"fmt"
	"reflect"
	"runtime"

	"github.com/bytedance/mockey"
	"github.com/bytedance/mockey/zzverif/gens"
	"github.com/bytedance/mockey/zzverif/vals"
	"github.com/bytedance/mockey/zzverif/zz"
)

const original = -1

// world is the state of the mocks on one declaration and of the call in progress.
type world struct {
	c    *zz.Ctx
	d    *gens.Decl
	refs map[int]mockey.GenericInfo // per instance

	answer  map[int]int // code of the instance -> mock that answers its calls
	mocks   []*mock
	hookRes []interface{}
	hooks   []hookRun
	conds   []hookRun
	origRes []interface{}
	truth   bool // what conditions say
}

type mock struct {
	inst    int
	m       *mockey.Mocker
	calls   int
	hooked  int
	origin  reflect.Value // calls the original from the hook
	recv    bool          // the origin handle takes the receiver
	cond    bool          // there is a condition
	returns []reflect.Value
	seq     [][]reflect.Value
	silent  bool // no hook function
	skip    bool // filtered
}

type hookRun struct {
	mock int
	info *mockey.GenericInfo
	args []reflect.Value
	recv bool
}

var (
	entries  = map[*gens.Decl][]uintptr{}
	infos    = map[*gens.Decl]map[int]mockey.GenericInfo{}
	infoType = reflect.TypeOf(mockey.GenericInfo(0))
)

func newWorld(c *zz.Ctx, d *gens.Decl) *world {
	if infos[d] == nil {
		infos[d] = map[int]mockey.GenericInfo{}
	}
	w := &world{c: c, d: d, refs: infos[d], answer: map[int]int{}, truth: true}
	if entries[d] == nil {
		var es []uintptr
		for i := range d.Insts {
			es = append(es, 0)
			for j := range d.Insts[i].Ways {
				w.run(i, d.Insts[i].Ways[j])
				if c.Failed() {
					return w
				}
				if e := gens.Log[0].Entry; j == 0 {
					es[i] = e
				} else if e != es[i] {
					c.Fail("%s of %s does not run the code of the others", d.Insts[i].Ways[j].Name, d.Insts[i].Name)
				}
			}
		}
		entries[d] = es
	}
	return w
}

// code numbers the compiled code of an instance: instances that share it have the same number.
func (w *world) code(inst int) int {
	if entries[w.d] == nil {
		return inst
	}
	for j, e := range entries[w.d] {
		if e == entries[w.d][inst] {
			return j
		}
	}
	panic("?")
}

func (w *world) ft(inst int) reflect.Type { return reflect.TypeOf(w.d.Insts[inst].Target) }

func call(f reflect.Value, args []reflect.Value) []reflect.Value {
	if f.Type().IsVariadic() {
		return f.CallSlice(args)
	}
	return f.Call(args)
}

func bits(a, b []reflect.Value) string {
	if len(a) != len(b) {
		return fmt.Sprintf("%d values, want %d", len(a), len(b))
	}
	for i := range a {
		if x, y := vals.Bits(nil, a[i]), vals.Bits(nil, b[i]); string(x) != string(y) {
			return fmt.Sprintf("value %d (%v) is %x, want %x (%v)", i, a[i].Type(), x, y, b[i].Type())
		}
	}
	return ""
}

// wrap puts values into interfaces, as originals record them.
func wrap(vs []reflect.Value) (r []reflect.Value) {
	for _, v := range vs {
		x := v.Interface()
		r = append(r, reflect.ValueOf(&x).Elem())
	}
	return
}

func faces(vs []reflect.Value) (r []interface{}) {
	for _, v := range vs {
		r = append(r, v.Interface())
	}
	return
}

func freshAll(n int, t func(int) reflect.Type) (vs []reflect.Value) {
	for i := 0; i < n; i++ {
		vs = append(vs, vals.Fresh(t(i)))
	}
	return
}

// run calls an instance and checks that the right mock, or the original, answers.
func (w *world) run(inst int, way gens.Way) {
	f := reflect.ValueOf(way.F)
	ft := f.Type()
	args := freshAll(ft.NumIn(), ft.In)
	if ft.IsVariadic() && vals.Next()%5 == 0 {
		args[len(args)-1] = reflect.Zero(ft.In(len(args) - 1))
	}
	orig := freshAll(ft.NumOut(), ft.Out)
	gens.Log, gens.Out, gens.Outs, gens.Types = nil, faces(orig), nil, nil
	for _, o := range orig {
		gens.Outs = append(gens.Outs, o.Addr().UnsafePointer())
	}
	for i := 0; i < ft.NumIn(); i++ {
		gens.Types = append(gens.Types, ft.In(i))
	}
	w.hooks, w.conds, w.hookRes = nil, nil, nil
	runtime.Gosched() // a new time slice: no preemption is due
	res := func() []reflect.Value {
		defer func() {
			if e := recover(); e != nil {
				w.c.Fail("%s of %s: the call panics: %v", way.Name, w.d.Insts[inst].Name, e)
			}
		}()
		return call(f, args)
	}()
	w.c.Step()
	if w.c.Failed() {
		return
	}
	fail := func(format string, a ...interface{}) {
		w.c.Fail("%s of %s: %s", way.Name, w.d.Insts[inst].Name, fmt.Sprintf(format, a...))
	}
	who, mocked := w.answer[w.code(inst)]
	if !mocked {
		who = original
	}
	origCalls, hookCalls, condCalls := 1, 0, 0
	want := orig
	if who != original {
		m := w.mocks[who]
		m.calls++
		if m.cond && !m.skip {
			condCalls = 1
		}
		if !m.skip && (!m.cond || w.truth) {
			m.hooked++
			if !m.silent {
				hookCalls = 1
			}
			if !m.origin.IsValid() {
				origCalls = 0
				want = m.returns
				if m.seq != nil {
					want = m.seq[(m.hooked-1)%len(m.seq)]
				}
				if hookCalls > 0 {
					want = nil
					for i, x := range w.hookRes {
						v := reflect.New(w.ft(m.inst).Out(i)).Elem()
						if x != nil {
							v.Set(reflect.ValueOf(x))
						}
						want = append(want, v)
					}
				}
			}
		}
	}
	if len(gens.Log) != origCalls || len(w.hooks) != hookCalls || len(w.conds) != condCalls {
		fail("original ran %d times, want %d; hook %d, want %d; condition %d, want %d", len(gens.Log), origCalls, len(w.hooks), hookCalls, len(w.conds), condCalls)
		return
	}
	if s := bits(res, want); s != "" {
		fail("result %s", s)
		return
	}
	for _, r := range gens.Log {
		if r.Decl != w.d.ID {
			fail("original of declaration %d ran", r.Decl)
		}
		var got []reflect.Value
		for i := range r.Args {
			got = append(got, reflect.ValueOf(&r.Args[i]).Elem())
		}
		if s := bits(got, wrap(args)); s != "" {
			fail("original got argument %s", s)
		}
	}
	for _, h := range append(w.hooks, w.conds...) {
		if h.mock != who {
			fail("mock %d answers, want %d", h.mock, who)
		}
		a := args
		if !h.recv {
			a = a[1:]
		}
		if s := bits(h.args, a); s != "" {
			fail("hook got argument %s", s)
		}
		if h.info != nil {
			w.checkInfo(inst, *h.info, fail)
		}
	}
}

func (w *world) checkInfo(inst int, info mockey.GenericInfo, fail func(string, ...interface{})) {
	for j, ref := range w.refs {
		if j == inst && !ref.Equal(info) {
			fail("generic info differs from that of another call of the same instance")
		}
		if j != inst && ref.Equal(info) && !w.d.Blank {
			fail("generic info equals that of %s", w.d.Insts[j].Name)
		}
	}
	w.refs[inst] = info
	for n, u := range w.d.Used {
		if t := info.UsedParamType(uintptr(n)); t != w.d.Insts[inst].Types[u] {
			fail("used parameter type %d is %v, want %v", n, t, w.d.Insts[inst].Types[u])
		}
	}
}

func (w *world) fn(inst int, info, recv bool, out []reflect.Type, f func(h hookRun) []reflect.Value) interface{} {
	ft := w.ft(inst)
	var in []reflect.Type
	if info {
		in = append(in, infoType)
	}
	for i := 0; i < ft.NumIn(); i++ {
		if i > 0 || recv {
			in = append(in, ft.In(i))
		}
	}
	return reflect.MakeFunc(reflect.FuncOf(in, out, ft.IsVariadic()), func(a []reflect.Value) []reflect.Value {
		h := hookRun{args: a, recv: recv}
		if info {
			x := mockey.GenericInfo(a[0].Uint())
			h.info, h.args = &x, a[1:]
		}
		return f(h)
	}).Interface()
}

func outs(t reflect.Type) (r []reflect.Type) {
	for i := 0; i < t.NumOut(); i++ {
		r = append(r, t.Out(i))
	}
	return
}

// hook makes the hook function of mock n.
func (w *world) hook(n int, info, recv bool) interface{} {
	m := w.mocks[n]
	out := outs(w.ft(m.inst))
	return w.fn(m.inst, info, recv, out, func(h hookRun) (res []reflect.Value) {
		h.mock = n
		w.hooks = append(w.hooks, h)
		if m.origin.IsValid() {
			a := h.args
			if h.recv && !m.recv {
				a = a[1:]
			}
			return call(m.origin.Elem(), a)
		}
		res = freshAll(len(out), func(i int) reflect.Type { return out[i] })
		w.hookRes = faces(res)
		return
	})
}

func (w *world) cond(n int, info, recv bool) interface{} {
	m := w.mocks[n]
	m.cond = true
	return w.fn(m.inst, info, recv, []reflect.Type{reflect.TypeOf(true)}, func(h hookRun) []reflect.Value {
		h.mock = n
		w.conds = append(w.conds, h)
		return []reflect.Value{reflect.ValueOf(w.truth)}
	})
}

func (w *world) handle(n int, recv bool) interface{} {
	m := w.mocks[n]
	ft := w.ft(m.inst)
	var in []reflect.Type
	for i := 0; i < ft.NumIn(); i++ {
		if i > 0 || recv {
			in = append(in, ft.In(i))
		}
	}
	m.recv = recv
	m.origin = reflect.New(reflect.FuncOf(in, outs(ft), ft.IsVariadic()))
	return m.origin.Interface()
}

func try(f func()) (p interface{}) {
	defer func() { p = recover() }()
	f()
	return nil
}

// builder starts a mock.
func (w *world) builder(inst int, target interface{}) (int, *mockey.MockBuilder) {
	w.mocks = append(w.mocks, &mock{inst: inst})
	n := len(w.mocks) - 1
	switch (inst + n + w.d.ID) % 3 {
	case 0:
		return n, mockey.Mock(target, mockey.OptGeneric)
	case 1:
		return n, mockey.Mock(target, mockey.OptGeneric, mockey.OptUnsafe)
	}
	return n, mockey.MockGeneric(target)
}

// apply runs an operation that applies mock n.
func (w *world) apply(n int, f func() *mockey.Mocker) {
	m := w.mocks[n]
	if p := try(func() { m.m = f() }); p != nil {
		w.c.Fail("the mock of %s is refused: %v", w.d.Insts[m.inst].Name, p)
		return
	}
	w.answer[w.code(m.inst)] = n
}

func (w *world) undo(n int) {
	m := w.mocks[n]
	w.counters(n)
	m.m.UnPatch()
	m.calls, m.hooked = 0, 0
	delete(w.answer, w.code(m.inst))
}

func (w *world) counters(n int) {
	m := w.mocks[n]
	if t, mt := m.m.Times(), m.m.MockTimes(); t != m.calls || mt != m.hooked {
		w.c.Fail("Times is %d, MockTimes %d, want %d, %d", t, mt, m.calls, m.hooked)
	}
}

// all calls the instance in every way and the others of the declaration in some.
func (w *world) all(inst int) {
	for _, way := range w.d.Insts[inst].Ways {
		if w.run(inst, way); w.c.Failed() {
			return
		}
	}
	w.others(inst)
}

func (w *world) others(inst int) {
	for j := range w.d.Insts {
		if j == inst {
			continue
		}
		ways := w.d.Insts[j].Ways
		if w.code(j) != w.code(inst) {
			ways = ways[(inst+j)%len(ways):][:1]
		}
		for _, way := range ways {
			if w.run(j, way); w.c.Failed() {
				return
			}
		}
	}
}
