package seqfil

import (
	"bytes"
	"fmt"
	"runtime"
	"strconv"
	"strings"

	"github.com/bytedance/mockey"
	"github.com/bytedance/mockey/zzverif/tg"
	"github.com/bytedance/mockey/zzverif/zz"
)

// worker goroutines that live for the whole run
type gor struct {
	do chan func()
	ok chan bool
	id int64
}

// headerID is the runtime's own id of the calling goroutine, from the header of its stack dump.
func headerID() int64 {
	buf := make([]byte, 64)
	buf = buf[:runtime.Stack(buf, false)]
	f := bytes.Fields(buf)
	n, err := strconv.ParseInt(string(f[1]), 10, 64)
	zz.Must(err)
	return n
}

func newGor() *gor {
	g := &gor{make(chan func()), make(chan bool), 0}
	go func() {
		zz.Grow()
		for f := range g.do {
			f()
			g.ok <- true
		}
		g.ok <- true
	}()
	g.run(func() { g.id = headerID() })
	return g
}

func (g *gor) run(f func()) { g.do <- f; <-g.ok }
func (g *gor) end()         { close(g.do); <-g.ok }

const nG = 3

var gors []*gor

func workers() []*gor {
	for len(gors) < nG {
		gors = append(gors, newGor())
	}
	return gors
}

// A filter request made on goroutine g.
const (
	fInclCur = iota
	fExclCur
	fIncl // FilterGoRoutine(Include, id of goroutine o)
	fExcl
	fOff
)

// g or o may be nG: a goroutine that only makes the request. The id is changed by mask, so that it is nobody's.
type freq struct {
	kind, g, o int
	mask       int64
}

func gname(g int) string {
	if g == nG {
		return "a goroutine that ends then"
	}
	return fmt.Sprintf("g%d", g)
}

func (r freq) String() string {
	x := ""
	if r.mask != 0 {
		x = fmt.Sprintf("^%#x", uint64(r.mask))
	}
	switch r.kind {
	case fInclCur:
		return "IncludeCurrent on " + gname(r.g)
	case fExclCur:
		return "ExcludeCurrent on " + gname(r.g)
	case fIncl:
		return fmt.Sprintf("Filter(Include, id of %s%s) on %s", gname(r.o), x, gname(r.g))
	case fExcl:
		return fmt.Sprintf("Filter(Exclude, id of %s%s) on %s", gname(r.o), x, gname(r.g))
	}
	return "Filter(Disable) on " + gname(r.g)
}

type filterer interface {
	set(kind int, id int64)
}

type onBuilder struct{ b *mockey.MockBuilder }

func (x onBuilder) set(kind int, id int64) {
	switch kind {
	case fInclCur:
		x.b.IncludeCurrentGoRoutine()
	case fExclCur:
		x.b.ExcludeCurrentGoRoutine()
	case fIncl:
		x.b.FilterGoRoutine(mockey.Include, id)
	case fExcl:
		x.b.FilterGoRoutine(mockey.Exclude, id)
	case fOff:
		x.b.FilterGoRoutine(mockey.Disable, id)
	}
}

type onMock struct{ m *mockey.Mocker }

func (x onMock) set(kind int, id int64) {
	switch kind {
	case fInclCur:
		x.m.IncludeCurrentGoRoutine()
	case fExclCur:
		x.m.ExcludeCurrentGoRoutine()
	case fIncl:
		x.m.FilterGoRoutine(mockey.Include, id)
	case fExcl:
		x.m.FilterGoRoutine(mockey.Exclude, id)
	case fOff:
		x.m.FilterGoRoutine(mockey.Disable, id)
	}
}

// do makes the request and returns the id that the filter is about.
func (r freq) do(gs []*gor, x filterer) int64 {
	var tmp *gor
	get := func(i int) *gor {
		if i < nG {
			return gs[i]
		}
		if tmp == nil {
			tmp = newGor()
		}
		return tmp
	}
	id := get(r.o).id ^ r.mask
	if r.kind == fInclCur || r.kind == fExclCur {
		id = get(r.g).id
	}
	get(r.g).run(func() { x.set(r.kind, id) })
	if tmp != nil {
		tmp.end()
	}
	return id
}

func allFreqs() []freq {
	var l []freq
	for g := 0; g < nG; g++ {
		l = append(l, freq{fInclCur, g, g, 0}, freq{fExclCur, g, g, 0})
	}
	for o := 0; o < nG; o++ {
		l = append(l, freq{fIncl, (o + 1) % nG, o, 0}, freq{fExcl, (o + 1) % nG, o, 0})
	}
	return append(l, freq{fInclCur, nG, nG, 0}, freq{fExclCur, nG, nG, 0}, freq{fIncl, 1, nG, 0}, freq{fOff, 0, 0, 0}, freq{fOff, 1, 2, 0})
}

type fcase struct {
	build  []freq // on the builder
	re     []freq // on the applied mock
	rule   int    // 0 Return, 1 When(>0).Return, 2 To(origin), 3 no rule, 4 generic
	buildG int    // goroutine that builds
}

var fRules = [...]string{"Return", "When(>0).Return", "To(origin)", "no rule", "method"}

func (s fcase) String() string {
	return fmt.Sprintf("%s; builder: %v; Build on g%d; mock: %v", fRules[s.rule], s.build, s.buildG, s.re)
}

func (s fcase) run(c *zz.Ctx) {
	gs := workers()
	var b *mockey.MockBuilder
	var origin func(int) int
	th := &tg.T{K: 4}
	call := func(x int) int { return tg.F(x) }
	orig := func(x int) int { return x*3 + 1 }
	switch s.rule {
	case 0:
		b = mockey.Mock(tg.F).Return(500)
	case 1:
		b = mockey.Mock(tg.F).When(func(x int) bool { return x > 0 }).Return(500)
	case 2:
		b = mockey.Mock(tg.F).Origin(&origin).To(func(x int) int { return origin(x+10) + 500 })
	case 3:
		b = mockey.Mock(tg.F)
	case 4:
		b = mockey.Mock((*tg.T).PM).To(func(x int) int { return x + 500 })
		call = func(x int) int { return th.PM(x) }
		orig = func(x int) int { return x*11 + 4 }
	}
	last, lastID := freq{fOff, 0, 0, 0}, int64(0)
	for _, r := range s.build {
		last, lastID = r, r.do(gs, onBuilder{b})
	}
	var m *mockey.Mocker
	gs[s.buildG].run(func() { m = b.Build() })
	defer m.UnPatch()
	check := func(at string) {
		times, mtimes := 0, 0
		for g := 0; g <= nG; g++ {
			caller := (*gor)(nil)
			if g < nG {
				caller = gs[g]
			} else {
				caller = newGor() // born after the filter was set
			}
			in := true
			switch last.kind {
			case fInclCur, fIncl:
				in = caller.id == lastID
			case fExclCur, fExcl:
				in = caller.id != lastID
			}
			for _, x := range []int{-2, 3} {
				want := orig(x)
				times++
				if in {
					switch s.rule {
					case 0:
						want = 500
						mtimes++
					case 1:
						if x > 0 {
							want = 500
							mtimes++
						}
					case 2:
						want = orig(x+10) + 500
						mtimes++
					case 4:
						want = x + 500
						mtimes++
					}
				}
				var got int
				caller.run(func() { got = call(x) })
				if got != want {
					c.Fail("%s, filter in force: %v: call with %d on goroutine %d gives %d, want %d", at, last, x, g, got, want)
					return
				}
				if m.Times() != times || m.MockTimes() != mtimes {
					c.Fail("%s: Times %d MockTimes %d, want %d %d", at, m.Times(), m.MockTimes(), times, mtimes)
					return
				}
				c.Step()
			}
			if g == nG {
				caller.end()
			}
			c.State(zz.Hash(fmt.Sprint(last, s.rule, g)))
		}
	}
	check("after Build")
	for i, r := range s.re {
		if c.Failed() {
			return
		}
		last, lastID = r, r.do(gs, onMock{m})
		check(fmt.Sprintf("after request %d on the mock", i))
	}
	if c.Failed() {
		return
	}
	// other reconfigurations on other goroutines keep the filter
	gs[(s.buildG+1)%nG].run(func() { m.UnPatch(); m.Patch() })
	check("after UnPatch and Patch on another goroutine")
	if s.rule < 2 && !c.Failed() {
		gs[(s.buildG+2)%nG].run(func() { m.Return(500) })
		check("after Return on another goroutine")
	}
}

func genFilter(e *zz.Env, y func(zz.Case) bool) {
	fs := allFreqs()
	ok := true
	emit := func(s fcase) {
		if ok {
			ok = y(zz.Case{Text: s.String, Run: s.run})
		}
	}
	for rule := range fRules {
		// ids that are nobody's: each bit of the id of a goroutine changed, by each kind of request
		for bit := 0; bit < 64; bit++ {
			for o := 0; o < nG; o++ {
				for _, k := range []int{fIncl, fExcl} {
					r := freq{k, (o + 1) % nG, o, int64(uint64(1) << bit)}
					emit(fcase{[]freq{r}, nil, rule, 0})
					emit(fcase{[]freq{{fInclCur, o, o, 0}}, []freq{r}, rule, 1})
				}
			}
		}
		for g := 0; g < nG; g++ {
			emit(fcase{nil, nil, rule, g})
			for _, a := range fs {
				emit(fcase{[]freq{a}, nil, rule, g})
				emit(fcase{nil, []freq{a}, rule, g})
				for _, b := range fs {
					if e.Mini() && rule > 0 {
						continue
					}
					emit(fcase{[]freq{a, b}, nil, rule, g})
					emit(fcase{[]freq{a}, []freq{b}, rule, g})
					emit(fcase{nil, []freq{a, b}, rule, g})
					if e.Thorough() {
						for _, d := range fs {
							emit(fcase{[]freq{a}, []freq{b, d}, rule, g})
							emit(fcase{nil, []freq{a, b, d}, rule, g})
						}
					}
				}
			}
		}
	}
}

// Goroutine ids.

//go:noinline
func deepID(n int, out *[]int64) byte {
	var pad [2000]byte
	if n == 0 {
		*out = append(*out, mockey.GetGoroutineId())
		return pad[0]
	}
	pad[n%2000] = 1
	return deepID(n-1, out) + pad[(n+7)%2000]
}

var idSteps = []struct {
	name string
	f    func(out *[]int64)
}{
	{"plain", func(out *[]int64) { *out = append(*out, mockey.GetGoroutineId()) }},
	{"after growing the stack", func(out *[]int64) { deepID(300, out) }},
	{"after a garbage collection", func(out *[]int64) { runtime.GC(); *out = append(*out, mockey.GetGoroutineId()) }},
	{"after yielding", func(out *[]int64) {
		for i := 0; i < 20; i++ {
			runtime.Gosched()
		}
		*out = append(*out, mockey.GetGoroutineId())
	}},
	{"locked to a thread", func(out *[]int64) {
		runtime.LockOSThread()
		defer runtime.UnlockOSThread()
		*out = append(*out, mockey.GetGoroutineId())
	}},
	{"in a deferred call during a panic", func(out *[]int64) {
		defer func() { recover() }()
		defer func() { *out = append(*out, mockey.GetGoroutineId()) }()
		panic("x")
	}},
	{"after blocking on a channel", func(out *[]int64) {
		ch := make(chan bool)
		go func() { ch <- true }()
		<-ch
		*out = append(*out, mockey.GetGoroutineId())
	}},
	{"in a callback from a mocked call", func(out *[]int64) {
		m := mockey.Mock(tg.F2).To(func(x int) int { *out = append(*out, mockey.GetGoroutineId()); return 0 }).Build()
		tg.F2(1)
		m.UnPatch()
	}},
}

func genIDs(e *zz.Env, y func(zz.Case) bool) {
	n := e.Pick(2, 3, 4)
	ok := true
	idx := make([]int, n)
	var rec func(i int)
	rec = func(i int) {
		if !ok {
			return
		}
		if i < n {
			for k := range idSteps {
				idx[i] = k
				rec(i + 1)
			}
			return
		}
		p := append([]int(nil), idx...)
		text := func() string {
			var s []string
			for _, k := range p {
				s = append(s, idSteps[k].name)
			}
			return "ids " + strings.Join(s, ", ")
		}
		ok = y(zz.Case{Text: text, Run: func(c *zz.Ctx) {
			seen := map[int64]string{}
			all := append([]*gor{}, workers()...)
			fresh := newGor()
			all = append(all, fresh)
			for i, g := range all {
				var out []int64
				var want int64
				g.run(func() {
					want = headerID()
					for _, k := range p {
						idSteps[k].f(&out)
					}
				})
				for j, id := range out {
					if id != want {
						c.Fail("goroutine %d: id %d %s, the runtime's id is %d", i, id, idSteps[p[j]].name, want)
					}
					c.Step()
				}
				if len(out) != len(p) {
					c.Fail("%d ids read, want %d", len(out), len(p))
				}
				if o, dup := seen[want]; dup {
					c.Fail("id %d is that of goroutines %s and %d", want, o, i)
				}
				seen[want] = fmt.Sprint(i)
			}
			fresh.end()
			c.State(zz.Hash(fmt.Sprint(p)))
		}})
	}
	rec(0)
}

func init() {
	zz.Register("C07",
		zz.Suite{Name: "filters", Gen: genFilter, Bound: func(e *zz.Env) string {
			return fmt.Sprintf("all sequences of up to %d filter requests (%d requests over %d goroutines, on builder and mock), %d kinds of rules, calls on every goroutine and on new ones; requests for ids with any one bit changed, and from goroutines that end", e.Pick(2, 2, 3), len(allFreqs()), nG, len(fRules))
		}},
		zz.Suite{Name: "goroutine ids", Gen: genIDs, Bound: func(e *zz.Env) string {
			return fmt.Sprintf("all sequences of %d of %d runtime situations on %d goroutines", e.Pick(2, 3, 4), len(idSteps), nG+1)
		}},
	)
}
