package dispatch

import (
	"fmt"
	"reflect"
	"strings"
	"unsafe"

	"github.com/bytedance/mockey"
	"github.com/bytedance/mockey/zzverif/zz"
)

// hook kinds
const (
	hNone = iota
	hRet0 // Return(rets[0]); hRet0+i: Return(rets[i])
	hRet1
	hRet2
	hTo
	hOrigin
	hPanic
)

// a rule: mask < 0 means no condition, otherwise bit j says whether it holds for argument set j
type rule struct {
	mask, hook int
	wform      int // argument form of the condition
	hform      int
	swap       bool // hook declared before the condition
}

type spec struct {
	t      *target
	rules  []rule
	oform  int // form of the origin handle
	filter int // 0 none, 1 include current, 2 exclude current, 3 include another, 4 exclude another
}

func (s spec) String() string {
	var b strings.Builder
	fmt.Fprintf(&b, "Mock(%s)", s.t.name)
	for _, r := range s.rules {
		w := ""
		if r.mask >= 0 {
			w = fmt.Sprintf(".When[holds for argument sets %b, form %d]", r.mask, r.wform)
		}
		h := [...]string{"", ".Return#0", ".Return#1", ".Return#2", ".To", ".To(origin)", ".To(panic)"}[r.hook]
		if r.hook >= hTo {
			h += fmt.Sprintf("[form %d]", r.hform)
		}
		if r.swap {
			w, h = h, w
		}
		b.WriteString(w + h)
	}
	fmt.Fprintf(&b, " origin form %d filter %d", s.oform, s.filter)
	return b.String()
}

// forms of a hook: bit 0 drops the receiver, bit 1 takes the generic info
func (t *target) forms() int {
	n := 1
	if t.method {
		n *= 2
	}
	if t.generic {
		n *= 2
	}
	return n
}

func (t *target) form(f int) (drop, info bool) {
	if t.method {
		drop = f%2 == 1
		f /= 2
	}
	return drop, t.generic && f%2 == 1
}

// ftype is the type of a hook in a form.
func (t *target) ftype(f int, out []reflect.Type) (reflect.Type, int) {
	drop, info := t.form(f)
	var in []reflect.Type
	skip := 0
	if info {
		in = append(in, reflect.TypeOf(mockey.GenericInfo(0)))
		skip = 1
	}
	for i := 0; i < t.typ.NumIn(); i++ {
		if i == 0 && drop {
			continue
		}
		in = append(in, t.typ.In(i))
	}
	return reflect.FuncOf(in, out, t.typ.IsVariadic()), skip
}

func (t *target) outs() []reflect.Type {
	var out []reflect.Type
	for i := 0; i < t.typ.NumOut(); i++ {
		out = append(out, t.typ.Out(i))
	}
	return out
}

func same(a, b interface{}) bool {
	if a == nil || b == nil {
		return a == nil && b == nil
	}
	x, y := reflect.ValueOf(a), reflect.ValueOf(b)
	if x.Type() != y.Type() {
		return false
	}
	if x.Kind() == reflect.Slice {
		return x.Len() == y.Len() && x.Cap() == y.Cap() && x.IsNil() == y.IsNil() && x.Pointer() == y.Pointer()
	}
	return a == b
}

func sameAll(a, b vals) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !same(a[i], b[i]) {
			return false
		}
	}
	return true
}

func ifaces(v []reflect.Value) vals {
	r := vals{}
	for _, x := range v {
		if x.Kind() == reflect.Interface && x.IsNil() {
			r = append(r, nil)
			continue
		}
		r = append(r, x.Interface())
	}
	return r
}

func (t *target) values(v vals, typ func(int) reflect.Type) []reflect.Value {
	var r []reflect.Value
	for i, x := range v {
		if x == nil {
			r = append(r, reflect.Zero(typ(i)))
			continue
		}
		y := reflect.New(typ(i)).Elem()
		y.Set(reflect.ValueOf(x))
		r = append(r, y)
	}
	return r
}

// Answer is what a condition of the user may return.
type Answer bool

type run struct {
	c    *zz.Ctx
	s    spec
	cur  vals // arguments of the call in progress
	curI int
	log  []string
	bad  string

	m             *mockey.Mocker
	times, mtimes int // calls and hook runs so far, the current ones included
}

func (r *run) counts(what string) {
	if (r.m.Times() != r.times || r.m.MockTimes() != r.mtimes) && r.bad == "" {
		r.bad = fmt.Sprintf("%s reads Times %d MockTimes %d, want %d %d", what, r.m.Times(), r.m.MockTimes(), r.times, r.mtimes)
	}
}

func (r *run) check(what string, got vals, drop bool) {
	want := r.cur
	if drop {
		want = want[1:]
	}
	if !sameAll(got, want) && r.bad == "" {
		r.bad = fmt.Sprintf("%s receives %v, the call's arguments are %v", what, got, want)
	}
}

// result of a To hook: distinct per rule
func (t *target) toResult(i int) vals {
	r := vals{}
	for j := 0; j < t.typ.NumOut(); j++ {
		o := t.typ.Out(j)
		switch o.Kind() {
		case reflect.Int:
			r = append(r, reflect.ValueOf(700+i).Convert(o).Interface())
		case reflect.String:
			r = append(r, fmt.Sprint("to", i))
		case reflect.Float64:
			r = append(r, float64(i)+0.25)
		case reflect.Ptr:
			r = append(r, ptrX)
		case reflect.Struct:
			r = append(r, large{A: [9]int{i, 8: i}, S: "to"})
		case reflect.Interface:
			if i%2 == 0 {
				r = append(r, nil)
			} else {
				r = append(r, errX)
			}
		}
	}
	return r
}

func (r *run) build() *mockey.Mocker {
	t := r.s.t
	b := t.mock()
	var origin reflect.Value
	odrop := false
	for _, x := range r.s.rules {
		if x.hook == hOrigin && !origin.IsValid() {
			of := 0
			if t.method {
				of = r.s.oform % 2
			}
			ot, _ := t.ftype(of, t.outs())
			odrop = of == 1
			origin = reflect.New(ot)
			b = b.Origin(origin.Interface())
		}
	}
	switch r.s.filter {
	case 1:
		b = b.IncludeCurrentGoRoutine()
	case 2:
		b = b.ExcludeCurrentGoRoutine()
	case 3:
		b = b.FilterGoRoutine(mockey.Include, 1<<40)
	case 4:
		b = b.FilterGoRoutine(mockey.Exclude, 1<<40)
	}
	for i, x := range r.s.rules {
		i, x := i, x
		when := func() {
			if x.mask < 0 {
				return
			}
			// the result of a condition may be of a type of its own
			bt := [...]reflect.Type{reflect.TypeOf(true), reflect.TypeOf(Answer(true))}[(i+x.mask)%2]
			ft, skip := t.ftype(x.wform, []reflect.Type{bt})
			drop, _ := t.form(x.wform)
			b = b.When(reflect.MakeFunc(ft, func(a []reflect.Value) []reflect.Value {
				if r.curI == 0 {
					zz.Point()
				}
				r.log = append(r.log, fmt.Sprint("c", i))
				r.check(fmt.Sprintf("condition %d", i), ifaces(a[skip:]), drop)
				r.counts(fmt.Sprintf("condition %d", i))
				return []reflect.Value{reflect.ValueOf(x.mask>>uint(r.curI)&1 == 1).Convert(bt)}
			}).Interface())
		}
		hook := func() {
			switch x.hook {
			case hNone:
				return
			case hRet0, hRet1, hRet2:
				b = b.Return(t.rets[x.hook-hRet0]...)
				return
			}
			ft, skip := t.ftype(x.hform, t.outs())
			drop, _ := t.form(x.hform)
			b = b.To(reflect.MakeFunc(ft, func(a []reflect.Value) []reflect.Value {
				if r.curI == 0 {
					zz.Point()
				}
				r.log = append(r.log, fmt.Sprint("h", i))
				r.check(fmt.Sprintf("hook %d", i), ifaces(a[skip:]), drop)
				r.mtimes++
				r.counts(fmt.Sprintf("hook %d", i))
				switch x.hook {
				case hPanic:
					panic(errX)
				case hOrigin:
					args := a[skip:]
					if drop && !odrop {
						args = append([]reflect.Value{t.values(r.cur[:1], t.typ.In)[0]}, args...)
					} else if !drop && odrop {
						args = args[1:]
					}
					if t.typ.IsVariadic() {
						return origin.Elem().CallSlice(args)
					}
					return origin.Elem().Call(args)
				}
				return t.values(t.toResult(i), t.typ.Out)
			}).Interface())
		}
		if x.swap {
			hook()
			when()
		} else {
			when()
			hook()
		}
	}
	return b.Build()
}

func (s spec) active() bool { return s.filter == 0 || s.filter == 1 || s.filter == 4 }

func (s spec) run(c *zz.Ctx) {
	t := s.t
	*ptrX = 1
	r := &run{c: c, s: s}
	m := r.build()
	defer m.UnPatch()
	r.m = m
	times, mtimes := 0, 0
	for round := 0; round < 2; round++ {
		for ai, a := range t.args {
			for _, p := range t.paths {
				r.cur, r.curI, r.log, r.bad = a, ai, nil, ""
				r.times, r.mtimes = times+1, mtimes
				var got vals
				msg := zz.Catch(func() { got = p.call(append(vals{}, a...)) })
				// the model
				var log []string
				var want vals
				pan := false
				hit := -1
				times++
				if s.active() {
					for i, x := range s.rules {
						if x.mask >= 0 {
							log = append(log, fmt.Sprint("c", i))
							if x.mask>>uint(ai)&1 == 0 {
								continue
							}
						}
						hit = i
						break
					}
				}
				k := hNone
				if hit >= 0 {
					k = s.rules[hit].hook
				}
				ran := true
				switch k {
				case hNone:
					want = t.orig(a)
				case hRet0, hRet1, hRet2:
					want, ran = t.want[k-hRet0], false
					mtimes++
				case hTo:
					want, ran = t.toResult(hit), false
					log = append(log, fmt.Sprint("h", hit))
					mtimes++
				case hPanic:
					pan, ran = true, false
					log = append(log, fmt.Sprint("h", hit))
					mtimes++
				case hOrigin:
					want = t.orig(a)
					log = append(log, fmt.Sprint("h", hit))
					mtimes++
				}
				if t.name == "Ptr" {
					want = vals{4}
					if ran {
						want = vals{12}
					}
				}
				where := fmt.Sprintf("%s call with argument set %d", p.name, ai)
				switch {
				case r.bad != "":
					c.Fail("%s: %s", where, r.bad)
				case pan:
					if msg != interface{}(errX) {
						c.Fail("%s: panics with %v, the hook's own panic is expected", where, msg)
					}
				case msg != nil:
					c.Fail("%s: panics: %v", where, zz.Short(fmt.Sprint(msg)))
				case strings.Join(r.log, " ") != strings.Join(log, " "):
					c.Fail("%s: conditions and hooks run are %v, want %v", where, r.log, log)
				case !sameAll(got, want):
					c.Fail("%s: result %v, want %v", where, got, want)
				}
				if c.Failed() {
					return
				}
				if m.Times() != times || m.MockTimes() != mtimes {
					c.Fail("%s: Times %d MockTimes %d, want %d %d", where, m.Times(), m.MockTimes(), times, mtimes)
					return
				}
				c.Steps(1)
				c.State(zz.Hash(fmt.Sprint(t.name, ai, p.name, log, k)))
			}
		}
	}
	m.UnPatch()
	for _, a := range t.args {
		for _, p := range t.paths {
			want := t.orig(a)
			if t.name == "Ptr" {
				want = vals{12}
			}
			if got := p.call(append(vals{}, a...)); !sameAll(got, want) {
				c.Fail("after UnPatch: %s call gives %v, want %v", p.name, got, want)
				return
			}
		}
	}
}

func (s spec) yield(y func(zz.Case) bool) bool {
	s.rules = append([]rule(nil), s.rules...)
	return y(zz.Case{Text: s.String, Run: s.run})
}

var _ = unsafe.Pointer(nil)

func genChains(e *zz.Env, y func(zz.Case) bool) { genChainsTo(e, e.Pick(2, 3, 4), y) }

func genChainsTo(e *zz.Env, max int, y func(zz.Case) bool) {
	ok := true
	for _, t := range targets() {
		full := 1<<uint(len(t.args)) - 1
		nf := t.forms()
		for n := 0; n <= max && ok; n++ {
			if n == 4 && len(t.args) > 2 {
				continue
			}
			var rules []rule
			seq := 0
			var rec func(i int)
			rec = func(i int) {
				if !ok {
					return
				}
				if i == n {
					// forms: all combinations for short chains, rotated for longer ones
					filters := []int{0}
					if n <= 1 || (n == 2 && !e.Mini()) {
						filters = []int{0, 1, 2, 3, 4}
					}
					for _, f := range filters {
						of := 1
						if t.method && n <= 2 {
							of = 2
						}
						for o := 0; o < of; o++ {
							seq++
							s := spec{t: t, rules: rules, oform: o, filter: f}
							if of == 1 {
								s.oform = seq
							}
							if ok = s.yield(y); !ok {
								return
							}
						}
					}
					return
				}
				last := i == n-1
				for mask := -1; mask <= full && ok; mask++ {
					if mask < 0 && !last {
						continue
					}
					for h := hNone; h <= hPanic && ok; h++ {
						if h == hNone && (mask < 0 || !last) {
							continue
						}
						if h >= hRet0 && h <= hRet2 && h-hRet0 >= len(t.rets) {
							continue
						}
						if (n > 2 || n == 2 && e.Mini()) && (h == hRet1 || h == hRet2 || h == hPanic) {
							continue
						}
						if n == 1 {
							for wf := 0; wf < nf && ok; wf++ {
								for hf := 0; hf < nf && ok; hf++ {
									for sw := 0; sw < 2; sw++ {
										if mask < 0 && (wf > 0 || sw > 0) || h < hTo && hf > 0 || h == hNone && sw > 0 {
											continue
										}
										rules = append(rules[:i], rule{mask, h, wf, hf, sw == 1})
										rec(i + 1)
									}
								}
							}
							continue
						}
						seq++
						rules = append(rules[:i], rule{mask, h, seq % nf, (seq / nf) % nf, seq%3 == 0 && mask >= 0 && h != hNone})
						rec(i + 1)
					}
				}
			}
			rec(0)
		}
	}
}

func init() {
	zz.Register("C02", zz.Suite{
		Name: "rule chains",
		Bound: func(e *zz.Env) string {
			return fmt.Sprintf("all chains of up to %d rules (every truth assignment of each condition over the argument sets, every hook kind, every argument form for chains of 1) for %d targets, every call path", e.Pick(2, 3, 4), len(targets()))
		},
		Gen: genChains,
	})
	zz.Register("C05", zz.Suite{
		Name: "counters of rule chains",
		Bound: func(e *zz.Env) string {
			return fmt.Sprintf("all chains of up to %d rules, hooks that panic and counters read in conditions and hooks included", e.Pick(0, 1, 2))
		},
		Gen: func(e *zz.Env, y func(zz.Case) bool) { genChainsTo(e, e.Pick(0, 1, 2), y) },
	})
}
