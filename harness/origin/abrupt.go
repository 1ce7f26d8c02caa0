package origin

import (
	"fmt"
	"runtime"
	"strings"

	"github.com/bytedance/mockey"
	"github.com/bytedance/mockey/zzverif/zz"
)

// Calls that end abruptly: the original, the condition or the hook panics or ends the goroutine.

type PR struct{ K int }

//go:nosplit
func (p *PR) Do(x int) int {
	y := x*7 + p.K
	if x == 1 {
		panic(errP)
	}
	if x == 2 {
		runtime.Goexit()
	}
	return y*3 + 1
}

var prs = [2]*PR{{K: 30}, {K: 500}}

func prid(p *PR) int {
	if p == prs[1] {
		return 1
	}
	return 0
}

// what the mock does in a call
const (
	bNone      = iota // no rule matches
	bOrigin           // the hook is the origin
	bRecover          // the hook runs the origin and recovers
	bPanic            // the hook runs the origin, then panics
	bExit             // the hook runs the origin, then ends the goroutine
	bCond             // the condition panics
	bNested           // the hook calls the target on the other receiver, which panics, recovers, then runs the origin
	bCondExit         // the condition ends the goroutine
	nBehaviors
)

var bNames = [...]string{"no rule matches", "origin", "origin and recover", "origin, panic", "origin, Goexit", "condition panics", "nested call that panics, origin", "condition ends the goroutine"}

type acall struct{ b, r, x int }

type aspec struct {
	form int
	p    []acall
}

func (s aspec) String() string {
	var l []string
	for _, a := range s.p {
		l = append(l, fmt.Sprintf("call(receiver %d, %d: original %s) with %s", a.r, a.x, [...]string{"returns", "panics", "ends the goroutine"}[a.x], bNames[a.b]))
	}
	return fmt.Sprintf("handle form %d: %s", s.form, strings.Join(l, "; "))
}

const (
	eValue = iota
	ePanic
	eExit
)

type end struct {
	kind, v int
	p       interface{}
}

func (e end) String() string {
	switch e.kind {
	case ePanic:
		return fmt.Sprint("panic ", e.p)
	case eExit:
		return "goroutine ended"
	}
	return fmt.Sprint(e.v)
}

// ends runs f and tells how it ends; it is not deferred, so that a Goexit really ends the goroutine.
func ends(f func() int, done func(end)) {
	normal := false
	defer func() {
		if normal {
			return
		}
		if p := recover(); p != nil {
			done(end{kind: ePanic, p: p})
			return
		}
		done(end{kind: eExit})
	}()
	v := f()
	normal = true
	done(end{kind: eValue, v: v})
}

const hookPanic = "the hook panics"

func aOrig(r, x int) end {
	switch x {
	case 1:
		return end{kind: ePanic, p: errP}
	case 2:
		return end{kind: eExit}
	}
	return end{kind: eValue, v: (x*7+prs[r].K)*3 + 1}
}

func (a acall) want() (end, int, int) {
	o := aOrig(a.r, a.x)
	switch a.b {
	case bNone:
		return o, 1, 0
	case bCond:
		return end{kind: ePanic, p: hookPanic}, 1, 0
	case bCondExit:
		return end{kind: eExit}, 1, 0
	case bRecover:
		if o.kind == ePanic {
			return end{v: -8}, 1, 1
		}
	case bPanic:
		if o.kind == eValue {
			return end{kind: ePanic, p: hookPanic}, 1, 1
		}
	case bExit:
		if o.kind == eValue {
			return end{kind: eExit}, 1, 1
		}
	case bNested:
		return o, 2, 2
	}
	return o, 1, 1
}

func (s aspec) run(c *zz.Ctx) {
	var full func(*PR, int) int
	var short func(int) int
	var ptr interface{} = &full
	o := func(r, x int) int { return full(prs[r], x) }
	if s.form == 1 {
		ptr = &short
		o = func(r, x int) int { return short(x) }
	}
	var cur acall
	nested := false
	m := mockey.Mock((*PR).Do).Origin(ptr).When(func(p *PR, x int) bool {
		switch {
		case nested:
		case cur.b == bCond:
			panic(hookPanic)
		case cur.b == bCondExit:
			runtime.Goexit()
		}
		return cur.b != bNone
	}).To(func(p *PR, x int) (v int) {
		r := prid(p)
		if nested {
			return o(r, x)
		}
		switch cur.b {
		case bRecover:
			defer func() {
				if recover() != nil {
					v = -8
				}
			}()
		case bPanic:
			o(r, x)
			panic(hookPanic)
		case bExit:
			o(r, x)
			runtime.Goexit()
		case bNested:
			nested = true
			if zz.Catch(func() { prs[1-r].Do(1) }) != interface{}(errP) {
				c.Fail("the nested call does not panic as the original")
			}
			nested = false
		}
		return o(r, x)
	}).Build()
	defer m.UnPatch()
	times, mtimes := 0, 0
	for i := 0; i < len(s.p); {
		done := make(chan bool)
		go func() {
			defer close(done)
			zz.Grow()
			for i < len(s.p) {
				a := s.p[i]
				i++
				cur = a
				want, t, mt := a.want()
				times += t
				mtimes += mt
				ends(func() int { return prs[a.r].Do(a.x) }, func(got end) {
					nested = false
					if got != want && !c.Failed() {
						c.Fail("call %d: %v, want %v", i-1, got, want)
					}
					if (m.Times() != times || m.MockTimes() != mtimes) && !c.Failed() {
						c.Fail("call %d: Times %d MockTimes %d, want %d %d", i-1, m.Times(), m.MockTimes(), times, mtimes)
					}
				})
				c.Step()
			}
		}()
		<-done
		if c.Failed() {
			return
		}
	}
	c.State(zz.Hash(s.String()))
	m.UnPatch()
	if got, want := prs[1].Do(0), aOrig(1, 0).v; got != want {
		c.Fail("after UnPatch the target gives %d, want %d", got, want)
	}
}

func genAbrupt(e *zz.Env, y func(zz.Case) bool) {
	max := e.Pick(1, 3, 4)
	for form := 0; form < 2; form++ {
		for n := 1; n <= max; n++ {
			p := make([]acall, n)
			var rec func(i int) bool
			rec = func(i int) bool {
				if i == n {
					s := aspec{form, append([]acall(nil), p...)}
					return y(zz.Case{Text: s.String, Run: s.run})
				}
				for b := 0; b < nBehaviors; b++ {
					for r := 0; r < 2; r++ {
						if i == 0 && r == 1 || (i == n-1) != (r == 1) && n > 3 {
							continue
						}
						for x := 0; x < 3; x++ {
							if (b == bCond || b == bCondExit) && x > 0 {
								continue
							}
							p[i] = acall{b, r, x}
							if !rec(i + 1) {
								return false
							}
						}
					}
				}
				return true
			}
			if !rec(0) {
				return
			}
		}
	}
}

func init() {
	zz.Register("C08", zz.Suite{Name: "calls that end abruptly", Gen: genAbrupt, Bound: func(e *zz.Env) string {
		return fmt.Sprintf("all sequences of up to %d calls of %d behaviours on 2 receivers with an original that returns, panics or ends the goroutine, handles with and without receiver", e.Pick(1, 3, 4), nBehaviors)
	}})
}
