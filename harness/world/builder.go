package world

import (
	"fmt"
	"reflect"
	"strings"

	"github.com/bytedance/mockey"
	"github.com/bytedance/mockey/zzverif/zz"
)

// Every sequence of builder requests, fitting and unfitting: the unfitting ones must be refused without effect.

const (
	bWhenPos = iota
	bWhenBig
	bRet
	bTo
	bSeq
	bOrigin
	bToOrigin
	bIncl
	bExcl
	bOther
	bOff
	bRetBad // accepted, panics when used
	bBadWhen
	bBadTo
	bBadOrigin
	nBuilder
)

var bNames = [...]string{"When(>0)", "When(>5)", "Return", "To", "Return(Sequence)", "Origin", "To(calling the origin)", "IncludeCurrent", "ExcludeCurrent",
	"Filter(Include,other)", "Filter(Disable)", "Return(unfitting)", "When(unfitting)", "To(unfitting)", "Origin(unfitting)"}

const hBad = 99

func builderText(t int, ops []int) string {
	s := []string{"Mock(" + tNames[t] + ")"}
	for _, o := range ops {
		s = append(s, bNames[o])
	}
	return strings.Join(s, ".") + ".Build"
}

type bmodel struct {
	rules  []rule
	whens  []bool
	hooks  []bool
	origin bool
	filter int
	other  bool
}

func (m *bmodel) last() (i int, fresh bool) {
	n := len(m.rules)
	if n == 0 || (m.whens[n-1] && m.hooks[n-1]) {
		return n, true
	}
	return n - 1, false
}

func (m *bmodel) part(hook bool, set func(r *rule)) bool {
	i, fresh := m.last()
	if !fresh && (hook && m.hooks[i] || !hook && m.whens[i]) {
		return false
	}
	if fresh {
		m.rules, m.whens, m.hooks = append(m.rules, rule{}), append(m.whens, false), append(m.hooks, false)
	}
	if hook {
		m.hooks[i] = true
	} else {
		m.whens[i] = true
	}
	set(&m.rules[i])
	return true
}

// step gives whether the request is accepted.
func (m *bmodel) step(o, pos int) bool {
	c := 1000 * (pos + 1)
	switch o {
	case bWhenPos:
		return m.part(false, func(r *rule) { r.when = wPos })
	case bWhenBig:
		return m.part(false, func(r *rule) { r.when = wBig })
	case bRet:
		return m.part(true, func(r *rule) { r.hook, r.c = hRet, c })
	case bTo:
		return m.part(true, func(r *rule) { r.hook, r.c = hTo, c })
	case bSeq:
		return m.part(true, func(r *rule) { r.hook, r.c = hSeq, c })
	case bToOrigin:
		return m.part(true, func(r *rule) { r.hook, r.c = hOrigin, c })
	case bRetBad:
		return m.part(true, func(r *rule) { r.hook = hBad })
	case bOrigin:
		if m.origin {
			return false
		}
		m.origin = true
		return true
	case bIncl:
		m.filter = fIncl
		m.other = false
		return true
	case bExcl:
		m.filter = fExcl
		m.other = false
		return true
	case bOther:
		m.filter = fExcl // for this goroutine: the original
		return true
	case bOff:
		m.filter = fOff
		return true
	}
	return false
}

func runBuilder(c *zz.Ctx, t int, ops []int) {
	fs := fnsets[t]
	resetVars()
	b := fs.mock()
	bm := &bmodel{}
	var org originRef
	org.v = fs.newOrigin(1)
	// requests of a builder have to be made one by one: each may be refused
	for i, o := range ops {
		if o == bToOrigin && !bm.origin {
			// a hook using a handle that is never set is the user's own mistake
			return
		}
		ok := bm.step(o, i)
		cc := 1000 * (i + 1)
		var reqs []func()
		switch o {
		case bWhenPos:
			reqs = append(reqs, func() { b.When(fs.when(wPos, i)) })
		case bWhenBig:
			reqs = append(reqs, func() { b.When(fs.when(wBig, i)) })
		case bRet:
			reqs = append(reqs, func() { b.Return(cc) })
		case bTo:
			reqs = append(reqs, func() { b.To(fs.to(cc, i)) })
		case bSeq:
			reqs = append(reqs, func() { b.Return(mockey.Sequence(cc).Times(2).Then(cc + 1)) })
		case bToOrigin:
			reqs = append(reqs, func() { b.To(fs.toOrigin(cc, i, &org)) })
		case bOrigin:
			reqs = append(reqs, func() { b.Origin(org.v) })
		case bIncl:
			reqs = append(reqs, func() { b.IncludeCurrentGoRoutine() })
		case bExcl:
			reqs = append(reqs, func() { b.ExcludeCurrentGoRoutine() })
		case bOther:
			reqs = append(reqs, func() { b.FilterGoRoutine(mockey.Include, 1<<50) })
		case bOff:
			reqs = append(reqs, func() { b.FilterGoRoutine(mockey.Disable, 0) })
		case bRetBad:
			bad := [][]interface{}{{"x"}, {1, 2}, {}, {struct{}{}}}[i%4]
			reqs = append(reqs, func() { b.Return(bad...) })
		case bBadWhen:
			for _, x := range badWhens(t) {
				x := x
				reqs = append(reqs, func() { b.When(x) })
			}
		case bBadTo:
			for _, x := range badHooks(t) {
				x := x
				reqs = append(reqs, func() { b.To(x) })
			}
		case bBadOrigin:
			for _, x := range badOrigins(t) {
				x := x
				reqs = append(reqs, func() { b.Origin(x) })
			}
		}
		for j, r := range reqs {
			if msg := zz.PanicText(r); (msg == "") != ok {
				if ok {
					c.Fail("request %d (%s) panics: %s", i, bNames[o], zz.Short(msg))
				} else {
					c.Fail("request %d (%s, variant %d) is not refused", i, bNames[o], j)
				}
				return
			}
			c.Step()
		}
	}
	m := newModel()
	k := &mock{target: t, filter: bm.filter}
	for i, r := range bm.rules {
		if !bm.whens[i] {
			r.when = wNone
		}
		k.rules = append(k.rules, r)
	}
	var mk *mockey.Mocker
	blocker := fs.mock().Return(8).Build()
	if zz.PanicText(func() { mk = b.Build() }) == "" {
		c.Fail("Build for a target that is mocked is not refused")
		mk.UnPatch()
	}
	if p := reflect.ValueOf(org.v).Elem(); !p.IsNil() {
		c.Fail("a refused Build sets the origin handle")
	}
	if got := fs.call(1); got != 8 || blocker.Times() != 1 || blocker.MockTimes() != 1 {
		c.Fail("after a refused Build the mock of the target gives %d and counts %d and %d calls", got, blocker.Times(), blocker.MockTimes())
	}
	blocker.UnPatch()
	if got, want := fs.call(1), newModel().orig(t, 1); got != want {
		c.Fail("after a refused Build and the end of the earlier mock: %s(1) = %d, want %d", tNames[t], got, want)
	}
	if c.Failed() {
		return
	}
	if msg := zz.PanicText(func() { mk = b.Build() }); msg != "" {
		c.Fail("Build panics: %s", zz.Short(msg))
		return
	}
	defer mk.UnPatch()
	m.mocks[0] = k
	m.apply(0)
	badUsed := false
	for round := 0; round < 2; round++ {
		for _, x := range []int{-2, 1, 7} {
			bad := false
			if k.filter != fExcl {
				for _, r := range k.rules {
					if holds(r.when, x) {
						bad = r.hook == hBad
						break
					}
				}
			}
			var got int
			msg := zz.PanicText(func() { got = fs.call(x) })
			if bad {
				badUsed = true
				k.times++
				if msg == "" {
					c.Fail("a Return that does not fit the target does not panic when it is used: %s(%d) = %d", tNames[t], x, got)
					return
				}
				continue
			}
			want := m.call(t, x)
			if msg != "" {
				c.Fail("%s(%d) panics: %s", tNames[t], x, zz.Short(msg))
				return
			}
			if got != want {
				c.Fail("%s(%d) = %d, want %d", tNames[t], x, got, want)
				return
			}
			c.State(zz.Hash(fmt.Sprint(t, k.rules, k.filter, x)))
		}
	}
	if mk.Times() != k.times || !badUsed && mk.MockTimes() != k.mtimes {
		c.Fail("Times %d MockTimes %d, want %d %d", mk.Times(), mk.MockTimes(), k.times, k.mtimes)
		return
	}
	// a single rule can be corrected afterwards
	if len(k.rules) <= 1 {
		mk.FilterGoRoutine(mockey.Disable, 0)
		mk.Return(4321)
		for _, x := range []int{-2, 1, 7} {
			want := 4321
			if len(k.rules) == 1 && !holds(k.rules[0].when, x) {
				want = newModel().orig(t, x)
			}
			if got := fs.call(x); got != want {
				c.Fail("after a corrected Return: %s(%d) = %d, want %d", tNames[t], x, got, want)
				return
			}
		}
	} else {
		if zz.PanicText(func() { mk.Return(1) }) == "" || zz.PanicText(func() { mk.To(fs.to(1, 0)) }) == "" || zz.PanicText(func() { mk.When(fs.when(wPos, 0)) }) == "" {
			c.Fail("reconfiguring a mock with %d rules is not refused", len(k.rules))
			return
		}
	}
	if zz.PanicText(func() { fs.mock().Return(5).Build() }) == "" {
		c.Fail("mocking the target again in the same scope is not refused")
		return
	}
	mk.UnPatch()
	for _, x := range []int{-2, 1, 7} {
		if got, want := fs.call(x), newModel().orig(t, x); got != want {
			c.Fail("after UnPatch: %s(%d) = %d, want %d", tNames[t], x, got, want)
			return
		}
	}
}

func builderSuite() zz.Suite {
	depthOf := func(e *zz.Env) int { return e.Pick(2, 4, 5) }
	ts := []int{tF, tM, tG1}
	return zz.Suite{
		Name: "builder requests",
		Bound: func(e *zz.Env) string {
			return fmt.Sprintf("all sequences of up to %d of %d builder requests on %d targets", depthOf(e), nBuilder, len(ts))
		},
		Gen: func(e *zz.Env, y func(zz.Case) bool) {
			ok := true
			for _, t := range ts {
				t := t
				for d := 0; d <= depthOf(e) && ok; d++ {
					ops := make([]int, d)
					var rec func(i int)
					rec = func(i int) {
						if !ok {
							return
						}
						if i == d {
							p := append([]int(nil), ops...)
							ok = y(zz.Case{Text: func() string { return builderText(t, p) }, Run: func(c *zz.Ctx) { runBuilder(c, t, p) }})
							return
						}
						for o := 0; o < nBuilder && ok; o++ {
							ops[i] = o
							rec(i + 1)
						}
					}
					rec(0)
				}
			}
		},
	}
}
