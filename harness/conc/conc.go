// Package conc explores schedules of goroutines that call mocked targets and operate mocks, with the controlled
// scheduler: C15 and the concurrent parts of C05, C06, C07 and C08.
package conc

import (
	"fmt"
	"reflect"
	"runtime"
	"strings"

	"github.com/bytedance/mockey"
	"github.com/bytedance/mockey/zzverif/vsched"
	"github.com/bytedance/mockey/zzverif/zz"
)

func init() { vsched.Stack = zz.Grow }

//go:noinline
//go:nosplit
//go:norace
func F(x int) int { vsched.Point(); return x*3 + 1 }

type T struct{ K int }

//go:noinline
//go:nosplit
//go:norace
func (t *T) M(x int) int { vsched.Point(); return x*11 + t.K }

//go:noinline
//go:nosplit
//go:norace
func Rec(x int) int {
	vsched.Point()
	if x <= 0 {
		return 1
	}
	return x*10 + Rec(x-1)
}

// operations of a thread
const (
	oCall  = iota // call with a positive argument
	oCallN        // call with a negative one
	oPatch
	oUnPatch
	oTo
	oWhen
	oReturn
	oTimes
	oMockTimes
	nOps
)

var opName = [...]string{"call", "call(-)", "Patch", "UnPatch", "To", "When", "Return", "Times", "MockTimes"}

type prog struct {
	threads [][]int
	applied bool
	pre     int  // preemptions
	origin  bool // hooks run the original through the handle
}

func (p prog) String() string {
	s := "undone"
	if p.applied {
		s = "applied"
	}
	if p.origin {
		s += ", hooks call the origin"
	}
	for i, t := range p.threads {
		l := []string{}
		for _, o := range t {
			l = append(l, opName[o])
		}
		s += fmt.Sprintf("; g%d: %s", i, strings.Join(l, " "))
	}
	return fmt.Sprintf("%s; all schedules with at most %d preemptions", s, p.pre)
}

// what happened, in the order of the schedule
type event struct {
	op         int
	thread     int
	start, end int64
	res        int
	cond       int // -1 none evaluated
	hook       int // -1 none run
	conds      int // conditions evaluated
	hooks      int
	panicked   string
}

const maxEv = 8

type log struct {
	ev [5][maxEv]event
	n  [5]int
}

var lg log

//go:norace
func curEv() *event {
	t := vsched.Here()
	if t < 0 || lg.n[t] == 0 {
		return &event{}
	}
	return &lg.ev[t][lg.n[t]-1]
}

//go:norace
func sawCond(id int) {
	vsched.Point()
	e := curEv()
	e.cond = id
	e.conds++
	vsched.Point()
}

//go:norace
func sawHook(id int) {
	vsched.Point()
	e := curEv()
	e.hook = id
	e.hooks++
	vsched.Point()
}

//go:norace
func beginEv(t, op int) *event {
	e := &lg.ev[t][lg.n[t]]
	*e = event{op: op, thread: t, start: vsched.Now(), cond: -1, hook: -1}
	lg.n[t]++
	return e
}

//go:norace
func endEv(e *event, res int) { e.res = res; e.end = vsched.Now() }

// a setting is the pair of the condition and the answer in force
type setting struct {
	applied    bool
	cond, hook int
}

type machine struct {
	m      *mockey.Mocker
	origin func(int) int
	next   int
	p      prog
	code   [24]byte
}

func (mc *machine) condFn(id int) func(int) bool {
	return func(x int) bool { sawCond(id); return x > 0 }
}

func (mc *machine) hookFn(id int) func(int) int {
	if mc.p.origin {
		return func(x int) int { sawHook(id); return mc.origin(x+100*id) + 100000 }
	}
	return func(x int) int { sawHook(id); return 1000*id + x }
}

func answer(p prog, id int, isReturn bool, x int) int {
	if isReturn {
		return 1000*id + 7
	}
	if p.origin {
		return (x+100*id)*3 + 1 + 100000
	}
	return 1000*id + x
}

func arg(thread, k int, op int) int {
	if op == oCallN {
		return -(thread*10 + k + 1)
	}
	return thread*10 + k + 1
}

func setup(p prog) *machine {
	mc := &machine{p: p}
	mc.next = 1
	b := mockey.Mock(F).When(mc.condFn(1)).To(mc.hookFn(1))
	if p.origin {
		b.Origin(&mc.origin)
	}
	mc.m = b.Build()
	if !p.applied {
		mc.m.UnPatch()
	}
	return mc
}

func (mc *machine) do(t, k, op int) {
	e := beginEv(t, op)
	res := 0
	ok := false
	defer func() {
		if !ok {
			e.panicked = fmt.Sprint(recover())
			endEv(e, res)
		}
	}()
	switch op {
	case oCall, oCallN:
		res = F(arg(t, k, op))
	case oPatch:
		mc.m.Patch()
	case oUnPatch:
		mc.m.UnPatch()
	case oTo:
		mc.next++
		mc.m.To(mc.hookFn(mc.next))
	case oWhen:
		mc.next++
		mc.m.When(mc.condFn(mc.next))
	case oReturn:
		mc.next++
		mc.m.Return(1000*mc.next + 7)
	case oTimes:
		res = mc.m.Times()
	case oMockTimes:
		res = mc.m.MockTimes()
	}
	ok = true
	endEv(e, res)
}

func isReconf(op int) bool { return op == oTo || op == oWhen || op == oReturn }
func isState(op int) bool  { return op == oPatch || op == oUnPatch || isReconf(op) }
func isCall(op int) bool   { return op == oCall || op == oCallN }

func textOf(f interface{}) [24]byte {
	var b [24]byte
	p := reflect.ValueOf(f).Pointer()
	for i := range b {
		b[i] = *(*byte)(ptr(p + uintptr(i)))
	}
	return b
}

var schedules int64

func explore(c *zz.Ctx, pre int, set func() []func(), judge func() string) {
	r := vsched.Explore(pre, 0, set, func() bool {
		schedules++
		if schedules%1500 == 0 {
			runtime.GC()
		}
		if schedules%100 == 0 && !c.Beat() {
			return false
		}
		if msg := judge(); msg != "" {
			c.Fail("%s; schedule %s", msg, vsched.Schedule())
			return false
		}
		return true
	})
	c.Steps(int(r.Steps))
	c.Schedules(r.Schedules)
	if r.Diverged > 0 {
		c.Outcome("diverged schedules")
	}
	c.Outcome("programs")
}

func (p prog) run(c *zz.Ctx) {
	clean := textOf(F)
	var mc *machine
	explore(c, p.pre, func() []func() {
		mc = setup(p)
		lg = log{}
		var bodies []func()
		for t := range p.threads {
			t := t
			bodies = append(bodies, func() {
				for k, op := range p.threads[t] {
					mc.do(t, k, op)
				}
			})
		}
		return bodies
	}, func() string {
		msg := mc.judge(c)
		if msg == "" {
			msg = mc.final(clean)
		}
		if msg != "" {
			msg += "; " + history()
		}
		return msg
	})
}

func history() string {
	s := "history:"
	for t := range lg.ev {
		for i := 0; i < lg.n[t]; i++ {
			e := lg.ev[t][i]
			s += fmt.Sprintf(" g%d:%s[%d,%d]=%d", t, opName[e.op], e.start, e.end, e.res)
			if isCall(e.op) {
				s += fmt.Sprintf("(cond %d hook %d)", e.cond, e.hook)
			}
			if e.panicked != "" {
				s += " panic " + e.panicked
			}
		}
	}
	return s
}

func (mc *machine) opThreads() (ts []int) {
	for t, s := range mc.p.threads {
		for _, op := range s {
			if isState(op) {
				ts = append(ts, t)
				break
			}
		}
	}
	return
}

// judge compares the history with what the property allows.
func (mc *machine) judge(c *zz.Ctx) string {
	p := mc.p
	for t := range p.threads {
		if lg.n[t] != len(p.threads[t]) {
			return fmt.Sprintf("g%d did not finish", t)
		}
		for i := 0; i < lg.n[t]; i++ {
			if e := lg.ev[t][i]; e.panicked != "" {
				return fmt.Sprintf("%s on g%d panicked: %s", opName[e.op], t, e.panicked)
			}
		}
	}
	ops := mc.opThreads()
	// the settings after each operation of the operating thread (one thread, or any order of Patch and UnPatch)
	type span struct {
		s          setting
		ret        bool
		start, end int64 // of the operation that made it
		reconf     bool
		reset      bool
	}
	cur := span{s: setting{p.applied, 1, 1}}
	spans := []span{cur}
	if len(ops) == 1 {
		id := 1
		for i := 0; i < lg.n[ops[0]]; i++ {
			e := lg.ev[ops[0]][i]
			if !isState(e.op) {
				continue
			}
			nx := spans[len(spans)-1]
			nx.start, nx.end, nx.reconf, nx.reset = e.start, e.end, false, false
			switch e.op {
			case oPatch:
				nx.reset = false
				nx.s.applied = true
			case oUnPatch:
				nx.reset = nx.s.applied
				nx.s.applied = false
			default:
				id++
				nx.reconf, nx.reset = true, true
				nx.s.applied = true
				if e.op == oWhen {
					nx.s.cond = id
				} else {
					nx.s.hook, nx.ret = id, e.op == oReturn
				}
			}
			spans = append(spans, nx)
		}
	}
	reached, mocked := []event{}, []event{}
	for t := range p.threads {
		for i := 0; i < lg.n[t]; i++ {
			e := lg.ev[t][i]
			if !isCall(e.op) {
				continue
			}
			x := arg(t, i, e.op)
			if e.cond >= 0 {
				reached = append(reached, e)
			}
			if e.cond >= 0 && x > 0 {
				mocked = append(mocked, e)
			}
			if e.conds > 1 || e.hooks > 1 {
				return fmt.Sprintf("call on g%d evaluated %d conditions and ran %d hooks", t, e.conds, e.hooks)
			}
			ok, saw := false, ""
			allow := func(s setting, ret bool) {
				switch {
				case !s.applied:
					ok = ok || e.cond == -1 && e.hook == -1 && e.res == x*3+1
				case x < 0:
					ok = ok || e.cond == s.cond && e.hook == -1 && e.res == x*3+1
				default:
					hook := s.hook
					if ret {
						hook = -1
					}
					ok = ok || e.cond == s.cond && e.hook == hook && e.res == answer(p, s.hook, ret, x)
				}
				saw += fmt.Sprintf(" %v", s)
			}
			if len(ops) <= 1 {
				for k, sp := range spans {
					// in force from the start of its operation to the end of the next one
					if k > 0 && sp.start > e.end {
						continue
					}
					if k+1 < len(spans) && spans[k+1].end < e.start {
						continue
					}
					allow(sp.s, sp.ret)
					if sp.reconf && sp.end > e.start {
						allow(setting{}, false)
					}
				}
			} else {
				allow(setting{true, 1, 1}, false)
				// the original is possible unless the mock was in force all the time
				started := p.applied
				safe := started
				for _, o := range ops {
					for j := 0; j < lg.n[o]; j++ {
						if y := lg.ev[o][j]; y.op == oUnPatch && y.start < e.end {
							safe = false
						}
					}
				}
				if !safe {
					allow(setting{}, false)
				}
			}
			if !ok {
				return fmt.Sprintf("call %d on g%d with %d gave %d (condition %d, hook %d); settings in force during it:%s", i, t, x, e.res, e.cond, e.hook, saw)
			}
			switch {
			case e.cond < 0:
				c.Outcome("original")
			case x < 0:
				c.Outcome("fell through")
			default:
				c.Outcome("mocked")
			}
		}
	}
	if len(ops) <= 1 {
		for t := range p.threads {
			last := -1
			for i := 0; i < lg.n[t]; i++ {
				e := lg.ev[t][i]
				if e.op != oTimes && e.op != oMockTimes {
					continue
				}
				l := reached
				if e.op == oMockTimes {
					l = mocked
				}
				var surely, maybe int64 // the last reset that may have happened; the last one that surely has
				for _, sp := range spans {
					if sp.reset && sp.start < e.end {
						surely = sp.end
					}
					if sp.reset && sp.end < e.start {
						maybe = sp.start
					}
				}
				lo, hi := 0, 0
				for _, x := range l {
					if x.start > surely && x.end < e.start {
						lo++
					}
					if x.end > maybe && x.start < e.end {
						hi++
					}
				}
				if e.res < lo || e.res > hi {
					return fmt.Sprintf("%s on g%d gave %d, possible are %d to %d", opName[e.op], t, e.res, lo, hi)
				}
				if len(ops) == 0 && e.op == oTimes && e.res < last {
					return fmt.Sprintf("Times went back from %d to %d", last, e.res)
				}
				if e.op == oTimes {
					last = e.res
				}
			}
		}
		if len(ops) == 0 && p.applied {
			if mc.m.Times() != len(reached) || mc.m.MockTimes() != len(mocked) {
				return fmt.Sprintf("after %d calls, %d of them answered, Times is %d and MockTimes %d", len(reached), len(mocked), mc.m.Times(), mc.m.MockTimes())
			}
		}
	}
	c.State(zz.Hash(fmt.Sprint(p.threads, p.applied, outcomeKey())))
	return ""
}

func outcomeKey() string {
	s := ""
	for t := range lg.ev {
		for i := 0; i < lg.n[t]; i++ {
			e := lg.ev[t][i]
			s += fmt.Sprint(e.res, e.cond, e.hook, ";")
		}
	}
	return s
}

// finals are the states (applied or not) that the orders of the operations lead to.
func (p prog) finals() map[bool]bool {
	res := map[bool]bool{}
	var idx [5]int
	var walk func(a bool)
	walk = func(a bool) {
		more := false
		for t, s := range p.threads {
			if idx[t] < len(s) {
				more = true
				op := s[idx[t]]
				idx[t]++
				n := a
				switch {
				case op == oUnPatch:
					n = false
				case op == oPatch || isReconf(op):
					n = true
				}
				walk(n)
				idx[t]--
			}
		}
		if !more {
			res[a] = true
		}
	}
	walk(p.applied)
	return res
}

// final probes mock, target and scope after all threads ended, and leaves them clean.
func (mc *machine) final(clean [24]byte) string {
	p := mc.p
	m := mc.m
	lg.n = [5]int{}
	t0, mt0 := m.Times(), m.MockTimes()
	isMocked := textOf(F) != clean
	if !p.finals()[isMocked] {
		return fmt.Sprintf("in the end the target is mocked: %v, which no order of the operations gives", isMocked)
	}
	x := 5
	got := F(x)
	if isMocked == (got == x*3+1) && !(p.origin) {
		return fmt.Sprintf("the target's code is mocked: %v, but a call gives %d", isMocked, got)
	}
	if isMocked && (m.Times() != t0+1 || m.MockTimes() != mt0+1) || !isMocked && (m.Times() != t0 || m.MockTimes() != mt0) {
		return fmt.Sprintf("a call after the end takes the counters from %d %d to %d %d (mocked: %v)", t0, mt0, m.Times(), m.MockTimes(), isMocked)
	}
	// its scope knows it
	var other *mockey.Mocker
	refused := zz.PanicText(func() { other = mockey.Mock(F).Return(1).Build() }) != ""
	if other != nil {
		other.UnPatch()
	}
	if refused != isMocked {
		return fmt.Sprintf("the target is mocked: %v, mocking it again is refused: %v", isMocked, refused)
	}
	// both operations still work
	m.Patch()
	if F(x) == x*3+1 || textOf(F) == clean {
		return "Patch after the end does not mock the target"
	}
	m.UnPatch()
	if textOf(F) != clean {
		return "UnPatch after the end does not restore the target"
	}
	m.Patch()
	mockey.UnPatchAll()
	if textOf(F) != clean || F(x) != x*3+1 {
		return "UnPatchAll after the end does not restore the target"
	}
	if m.Times() != 0 || m.MockTimes() != 0 {
		return "the counters are not 0 after UnPatchAll"
	}
	return ""
}
