package dispatch

import (
	"fmt"
	"reflect"
	"strings"

	"github.com/bytedance/mockey"
	"github.com/bytedance/mockey/zzverif/zz"
)

// Histories of one mock of a target of every kind, with every combination of settings.

// operations
const (
	pWhen = iota // a: mask, f: form
	pTo          // f: form
	pToOrigin
	pRet // a: which
	pSeq
	pOrigin // f: form
	pFilter // a: filter
	pUnpatch
	pPatch
	pRelease // and Build again: To
	pReleaseWhen
	pRelease0 // and Build again without rules
)

type pop struct{ k, a, f int }

var popNames = [...]string{"When", "To", "To(origin)", "Return", "Return(Sequence)", "Origin", "FilterGoRoutine", "UnPatch", "Patch", "Release.To.Build", "Release.When.Build", "Release.Build"}

// environments
const (
	envPlain = iota
	envScope
	envOuter // a scope, with another mock of the target outside
	nEnv
)

type pconf struct {
	t            *target
	mask, wf     int
	hook, hf     int // hNone, hRet0, hTo, hOrigin or hSeq
	oform        int // -1: no origin handle
	filter       int
	env          int
	swap, oafter bool
	ops          []pop
}

const hSeq = 100

func (s pconf) String() string {
	var b strings.Builder
	fmt.Fprintf(&b, "Mock(%s)", s.t.name)
	if s.oform >= 0 {
		fmt.Fprintf(&b, ".Origin[form %d]", s.oform)
	}
	fmt.Fprintf(&b, " filter %d", s.filter)
	if s.mask >= 0 {
		fmt.Fprintf(&b, ".When[holds for argument sets %b, form %d]", s.mask, s.wf)
	}
	fmt.Fprintf(&b, "%s[form %d]", map[int]string{hNone: "", hRet0: ".Return", hTo: ".To", hOrigin: ".To(origin)", hSeq: ".Return(Sequence)"}[s.hook], s.hf)
	fmt.Fprintf(&b, " swap %v; %s", s.swap, [...]string{"", "in a scope; ", "in a scope, another mock outside; "}[s.env])
	for _, o := range s.ops {
		fmt.Fprintf(&b, " %s(%d, form %d)", popNames[o.k], o.a, o.f)
	}
	return b.String()
}

type prun struct {
	pconf
	c             *zz.Ctx
	m             *mockey.Mocker
	tag           int // of the hook set last
	handle        reflect.Value
	hoform        int
	applied       bool
	times, mtimes int
	pos           int
	cur           vals
	curI          int
	log           []string
	bad           string
	where         string
	outer         *mockey.Mocker
	otimes        int
	work          chan func()
}

func (r *prun) check(what string, got vals, drop bool) {
	want := r.cur
	if drop {
		want = want[1:]
	}
	if !sameAll(got, want) && r.bad == "" {
		r.bad = fmt.Sprintf("%s receives %v, the call's arguments are %v", what, got, want)
	}
}

func (r *prun) cond(mask, f int) interface{} {
	ft, skip := r.t.ftype(f, []reflect.Type{reflect.TypeOf(true)})
	drop, _ := r.t.form(f)
	return reflect.MakeFunc(ft, func(a []reflect.Value) []reflect.Value {
		r.log = append(r.log, fmt.Sprint("c", mask))
		r.check("the condition", ifaces(a[skip:]), drop)
		return []reflect.Value{reflect.ValueOf(mask>>uint(r.curI)&1 == 1)}
	}).Interface()
}

func (r *prun) to(tag, f int, origin bool) interface{} {
	t := r.t
	ft, skip := t.ftype(f, t.outs())
	drop, _ := t.form(f)
	return reflect.MakeFunc(ft, func(a []reflect.Value) []reflect.Value {
		r.log = append(r.log, fmt.Sprint("h", tag))
		r.check("the hook", ifaces(a[skip:]), drop)
		if !origin || !r.handle.IsValid() {
			return t.values(t.toResult(tag), t.typ.Out)
		}
		args := a[skip:]
		odrop := r.hoform == 1
		if drop && !odrop {
			args = append([]reflect.Value{t.values(r.cur[:1], t.typ.In)[0]}, args...)
		} else if !drop && odrop {
			args = args[1:]
		}
		if t.typ.IsVariadic() {
			return r.handle.Elem().CallSlice(args)
		}
		return r.handle.Elem().Call(args)
	}).Interface()
}

func (r *prun) newHandle(of int) interface{} {
	ot, _ := r.t.ftype(of, r.t.outs())
	r.handle, r.hoform = reflect.New(ot), of
	return r.handle.Interface()
}

func (r *prun) seq() interface{} {
	r.pos = 0
	return mockey.Sequence(r.t.rets[0]...).Times(2).Then(r.t.toResult(3)...)
}

func (r *prun) build() {
	b := r.t.mock()
	if r.oform >= 0 && !r.oafter {
		b = b.Origin(r.newHandle(r.oform))
	}
	switch r.filter {
	case 1:
		b = b.IncludeCurrentGoRoutine()
	case 2:
		b = b.ExcludeCurrentGoRoutine()
	case 3:
		b = b.FilterGoRoutine(mockey.Include, 1<<40)
	case 4:
		b = b.FilterGoRoutine(mockey.Exclude, 1<<40)
	}
	when := func() {
		if r.mask >= 0 {
			b = b.When(r.cond(r.mask, r.wf))
		}
	}
	hook := func() {
		switch r.hook {
		case hRet0:
			b = b.Return(r.t.rets[0]...)
		case hTo, hOrigin:
			b = b.To(r.to(r.tag, r.hf, r.hook == hOrigin))
		case hSeq:
			b = b.Return(r.seq())
		}
	}
	if r.swap {
		hook()
		when()
	} else {
		when()
		hook()
	}
	if r.oform >= 0 && r.oafter {
		b = b.Origin(r.newHandle(r.oform))
	}
	r.m = b.Build()
	r.applied, r.times, r.mtimes = true, 0, 0
}

// under is what the call does without the mock.
func (r *prun) under(a vals) (want vals, ran bool) {
	if r.outer != nil {
		r.otimes++
		return r.t.want[0], false
	}
	return r.t.orig(a), true
}

// expect is what a call on the goroutine of the program, or another one, does.
func (r *prun) expect(ai int, a vals, elsewhere bool) (want vals, ran bool, log []string) {
	if !r.applied {
		want, ran = r.under(a)
		return want, ran, nil
	}
	r.times++
	active := r.filter == 0 || r.filter == 1 && !elsewhere || r.filter == 2 && elsewhere || r.filter == 4
	if !active {
		want, ran = r.under(a)
		return want, ran, nil
	}
	if r.mask >= 0 {
		log = append(log, fmt.Sprint("c", r.mask))
		if r.mask>>uint(ai)&1 == 0 {
			want, ran = r.under(a)
			return want, ran, log
		}
	}
	switch r.hook {
	case hNone:
		want, ran = r.under(a)
		return want, ran, log
	case hRet0, hRet1, hRet2:
		r.mtimes++
		return r.t.want[r.hook-hRet0], false, log
	case hSeq:
		r.mtimes++
		r.pos++
		if r.pos%3 == 0 {
			return r.t.toResult(3), false, log
		}
		return r.t.want[0], false, log
	}
	r.mtimes++
	log = append(log, fmt.Sprint("h", r.tag))
	if r.hook == hOrigin && r.handle.IsValid() {
		want, ran = r.under(a)
		return want, ran, log
	}
	return r.t.toResult(r.tag), false, log
}

func (r *prun) one(ai int, p path, elsewhere bool) {
	t, a, c := r.t, r.t.args[ai], r.c
	r.cur, r.curI, r.log, r.bad = a, ai, nil, ""
	var got vals
	var msg interface{}
	call := func() { msg = zz.Catch(func() { got = p.call(append(vals{}, a...)) }) }
	if elsewhere {
		done := make(chan bool)
		r.work <- func() { call(); close(done) }
		<-done
	} else {
		call()
	}
	want, ran, log := r.expect(ai, a, elsewhere)
	if t.name == "Ptr" {
		want = vals{4}
		if ran {
			want = vals{12}
		}
	}
	where := fmt.Sprintf("after %s: %s call with argument set %d", r.where, p.name, ai)
	if elsewhere {
		where += " on another goroutine"
	}
	switch {
	case r.bad != "":
		c.Fail("%s: %s", where, r.bad)
	case msg != nil:
		c.Fail("%s: panics: %v", where, zz.Short(fmt.Sprint(msg)))
	case strings.Join(r.log, " ") != strings.Join(log, " "):
		c.Fail("%s: conditions and hooks run are %v, want %v", where, r.log, log)
	case !sameAll(got, want):
		c.Fail("%s: result %v, want %v", where, got, want)
	case r.m.Times() != r.times || r.m.MockTimes() != r.mtimes:
		c.Fail("%s: Times %d MockTimes %d, want %d %d", where, r.m.Times(), r.m.MockTimes(), r.times, r.mtimes)
	case r.outer != nil && r.outer.Times() != r.otimes:
		c.Fail("%s: Times of the outer mock %d, want %d", where, r.outer.Times(), r.otimes)
	}
	c.Steps(1)
}

func (r *prun) probe(where string) {
	r.where = where
	if r.m.Times() != r.times || r.m.MockTimes() != r.mtimes {
		r.c.Fail("after %s: Times %d MockTimes %d, want %d %d", where, r.m.Times(), r.m.MockTimes(), r.times, r.mtimes)
	}
	for ai := range r.t.args {
		for pi, p := range r.t.paths {
			if r.one(ai, p, false); r.c.Failed() {
				return
			}
			if pi == 0 {
				if r.one(ai, p, true); r.c.Failed() {
					return
				}
			}
		}
	}
	// the handle outside of a call, with a receiver
	if r.applied && r.handle.IsValid() && r.hoform == 0 && !r.t.generic && r.t.name != "Ptr" {
		a := r.t.args[0]
		r.cur, r.curI, r.log = a, 0, nil
		args := r.t.values(a, r.t.typ.In)
		var got vals
		if r.t.typ.IsVariadic() {
			got = ifaces(r.handle.Elem().CallSlice(args))
		} else {
			got = ifaces(r.handle.Elem().Call(args))
		}
		if want, _ := r.under(a); !sameAll(got, want) || len(r.log) > 0 || r.m.Times() != r.times {
			r.c.Fail("after %s: the origin handle returns %v, want %v (hooks run: %v, Times %d)", where, got, want, r.log, r.m.Times())
		}
	}
	r.c.State(zz.Hash(fmt.Sprint(r.t.name, r.mask, r.hook, r.hoform, r.filter, r.applied, r.env, r.pos%3)))
}

func (r *prun) do(o pop) {
	fresh := func() { r.applied, r.times, r.mtimes = true, 0, 0 }
	switch o.k {
	case pWhen:
		r.m.When(r.cond(o.a, o.f))
		r.mask = o.a
		fresh()
	case pTo, pToOrigin:
		r.tag++
		r.hook = hTo
		if o.k == pToOrigin {
			r.hook = hOrigin
		}
		r.m.To(r.to(r.tag, o.f, o.k == pToOrigin))
		fresh()
	case pRet:
		r.m.Return(r.t.rets[o.a]...)
		r.hook = hRet0 + o.a
		fresh()
	case pSeq:
		r.m.Return(r.seq())
		r.hook = hSeq
		fresh()
	case pOrigin:
		r.m.Origin(r.newHandle(o.f))
		fresh()
	case pFilter:
		switch o.a {
		case 0:
			r.m.FilterGoRoutine(mockey.Disable, 0)
		case 1:
			r.m.IncludeCurrentGoRoutine()
		case 2:
			r.m.ExcludeCurrentGoRoutine()
		case 3:
			r.m.FilterGoRoutine(mockey.Include, 1<<40)
		case 4:
			r.m.FilterGoRoutine(mockey.Exclude, 1<<40)
		}
		r.filter = o.a
		fresh()
	case pUnpatch:
		r.m.UnPatch()
		r.applied, r.times, r.mtimes = false, 0, 0
	case pPatch:
		r.m.Patch()
		if !r.applied {
			fresh()
		}
	case pRelease, pReleaseWhen, pRelease0:
		b := r.m.Release()
		r.applied, r.times, r.mtimes = false, 0, 0
		r.probe("Release")
		r.mask, r.hook = -1, hNone
		if o.k == pReleaseWhen {
			r.mask = 1
			b = b.When(r.cond(1, o.f))
		}
		if o.k != pRelease0 {
			r.tag++
			r.hook = hOrigin
			b = b.To(r.to(r.tag, o.f, true))
		}
		r.m = b.Build()
		fresh()
	}
}

func (r *prun) body() {
	if r.outer != nil {
		r.otimes = 0
	}
	defer func() {
		if msg := recover(); msg != nil {
			r.c.Fail("after %s: panics: %v", r.where, zz.Short(fmt.Sprint(msg)))
		}
		if r.m != nil && r.env == envPlain {
			r.m.UnPatch()
		}
	}()
	r.where = "the beginning"
	r.build()
	r.probe("Build")
	for _, o := range r.ops {
		if r.c.Failed() {
			return
		}
		r.where = popNames[o.k]
		r.do(o)
		r.probe(popNames[o.k])
	}
}

type noT struct{}

func (noT) Fail() {}

func (s pconf) run(c *zz.Ctx) {
	*ptrX = 1
	r := &prun{pconf: s, c: c, tag: 1, work: make(chan func())}
	go func() {
		for f := range r.work {
			f()
		}
	}()
	defer close(r.work)
	switch s.env {
	case envOuter:
		r.outer = s.t.mock().Return(s.t.rets[0]...).Build()
		defer r.outer.UnPatch()
		fallthrough
	case envScope:
		mockey.PatchConvey("scope", noT{}, func() { r.body() })
	default:
		r.body()
	}
	if c.Failed() {
		return
	}
	if r.where == "" {
		c.Fail("the body of the scope does not run")
		return
	}
	r.applied, r.times, r.mtimes = false, 0, 0
	r.handle = reflect.Value{}
	r.probe("the end")
	if r.outer != nil && !c.Failed() {
		r.outer.UnPatch()
		r.outer = nil
		r.probe("the end of the outer mock")
	}
}

// the settings a mock may begin with
func (t *target) starts(y func(pconf) bool) bool {
	seq := 0
	for mask := -1; mask <= 1; mask++ {
		for _, h := range []int{hNone, hRet0, hTo, hOrigin, hSeq} {
			if h == hSeq && t.typ.NumOut() == 0 {
				continue
			}
			for o := -1; o < 1+b2i(t.method); o++ {
				for f := 0; f <= 4; f++ {
					seq++
					if !y(pconf{t: t, mask: mask, wf: seq % t.forms(), hook: h, hf: (seq / 3) % t.forms(), oform: o, filter: f, swap: seq%2 == 0 && mask >= 0 && h != hNone, oafter: seq%3 == 0}) {
						return false
					}
				}
			}
		}
	}
	return true
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

func (t *target) pops() []pop {
	var r []pop
	n := t.forms()
	r = append(r, pop{pWhen, 0, 0}, pop{pWhen, 1, n - 1}, pop{pTo, 0, 0}, pop{pTo, 0, n - 1}, pop{pToOrigin, 0, 0}, pop{pToOrigin, 0, n - 1}, pop{pRet, len(t.rets) - 1, 0})
	if t.typ.NumOut() > 0 {
		r = append(r, pop{pSeq, 0, 0})
	}
	for o := 0; o < 1+b2i(t.method); o++ {
		r = append(r, pop{pOrigin, 0, o})
	}
	for f := 0; f <= 4; f++ {
		r = append(r, pop{pFilter, f, 0})
	}
	return append(r, pop{pUnpatch, 0, 0}, pop{pPatch, 0, 0}, pop{pRelease, 0, 0}, pop{pReleaseWhen, 0, n - 1}, pop{pRelease0, 0, 0})
}

// genProduct: every beginning with up to one operation in every environment; up to deep operations after some.
func genProduct(deep int, use func(s pconf) bool, e *zz.Env, y func(zz.Case) bool) {
	ok := true
	emit := func(s pconf) bool {
		if use != nil && !use(s) {
			return true
		}
		s.ops = append([]pop(nil), s.ops...)
		ok = y(zz.Case{Text: s.String, Run: s.run})
		return ok
	}
	for ti, t := range targets() {
		ops := t.pops()
		k := 0
		t.starts(func(s pconf) bool {
			k++
			if e.Mini() && (e.Prop != "C03" || (k+ti)%5 != 0) { // the cases of C07 and C08 are among those of C03
				return true
			}
			for env := 0; env < nEnv; env++ {
				s.env = env
				s.ops = nil
				if !emit(s) {
					return false
				}
				for _, o := range ops {
					if e.Mini() && env > 0 {
						break
					}
					s.ops = []pop{o}
					if !emit(s) {
						return false
					}
				}
			}
			// some beginnings: longer histories
			if k%11 != ti%11 && !e.Thorough() {
				return true
			}
			s.env = envPlain
			var rec func(n int) bool
			rec = func(n int) bool {
				if len(s.ops) > 1 && !emit(s) {
					return false
				}
				if n == 0 {
					return true
				}
				for _, o := range ops {
					s.ops = append(s.ops, o)
					if !rec(n - 1) {
						return false
					}
					s.ops = s.ops[:len(s.ops)-1]
				}
				return true
			}
			s.ops = nil
			if deep > 1 {
				return rec(deep)
			}
			return true
		})
		if !ok {
			return
		}
	}
}

func init() {
	suite := func(what string, use func(s pconf) bool) zz.Suite {
		return zz.Suite{
			Name: "all settings of all kinds of targets",
			Bound: func(e *zz.Env) string {
				return fmt.Sprintf("%d kinds of targets x every combination of condition, rule, origin handle and filter%s x (one operation x outside, in a scope, over another mock; up to %d operations after some)", len(targets()), what, e.Pick(1, 2, 2))
			},
			Gen: func(e *zz.Env, y func(zz.Case) bool) { genProduct(e.Pick(1, 2, 2), use, e, y) },
		}
	}
	has := func(s pconf, k ...int) bool {
		for _, o := range s.ops {
			for _, x := range k {
				if o.k == x {
					return true
				}
			}
		}
		return false
	}
	zz.Register("C03", suite("", nil))
	zz.Register("C07", suite(" that has a filter", func(s pconf) bool { return s.filter > 0 || has(s, pFilter) }))
	zz.Register("C08", suite(" that has a handle", func(s pconf) bool { return s.oform >= 0 || has(s, pOrigin) }))
}
