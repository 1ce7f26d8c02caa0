package conc

import (
	"bytes"
	"fmt"
	"runtime"
	"strconv"

	"github.com/bytedance/mockey"
	"github.com/bytedance/mockey/zzverif/vsched"
	"github.com/bytedance/mockey/zzverif/zz"
)

// ---- sequences under concurrent calls (C06)

type seqProg struct {
	counts []int    // repeat counts of the elements
	calls  [][]bool // per thread, whether the call matches
	pre    int
}

func (p seqProg) String() string {
	return fmt.Sprintf("Sequence with repeat counts %v, matching calls per goroutine %v; all schedules with at most %d preemptions", p.counts, p.calls, p.pre)
}

func (p seqProg) run(c *zz.Ctx) {
	var list []int
	for i, n := range p.counts {
		for k := 0; k < n; k++ {
			list = append(list, 500+i)
		}
	}
	var m *mockey.Mocker
	total := 0
	for _, t := range p.calls {
		for _, x := range t {
			if x {
				total++
			}
		}
	}
	explore(c, p.pre, func() []func() {
		s := mockey.Sequence(500).Times(p.counts[0])
		for i, n := range p.counts[1:] {
			s.Then(501 + i).Times(n)
		}
		m = mockey.Mock(F).When(func(x int) bool { vsched.Point(); return x > 0 }).Return(s).Build()
		lg = log{}
		var bodies []func()
		for t := range p.calls {
			t := t
			bodies = append(bodies, func() {
				for k, match := range p.calls[t] {
					op := oCall
					if !match {
						op = oCallN
					}
					e := beginEv(t, op)
					endEv(e, F(arg(t, k, op)))
				}
			})
		}
		return bodies
	}, func() string {
		defer m.UnPatch()
		var evs []event
		for t := range p.calls {
			for i := 0; i < lg.n[t]; i++ {
				e := lg.ev[t][i]
				if e.op == oCallN {
					if x := arg(t, i, oCallN); e.res != x*3+1 {
						return "a call that does not match gave " + strconv.Itoa(e.res) + "; " + history()
					}
					continue
				}
				evs = append(evs, e)
			}
		}
		if len(evs) != total {
			return "a call did not finish; " + history()
		}
		// some order of the calls that respects which ended before which began
		used := make([]bool, len(evs))
		var place func(k int) bool
		place = func(k int) bool {
			if k == len(evs) {
				return true
			}
			for i, e := range evs {
				if used[i] || e.res != list[k%len(list)] {
					continue
				}
				ok := true
				for j, o := range evs {
					if !used[j] && j != i && o.end < e.start {
						ok = false
					}
				}
				if !ok {
					continue
				}
				used[i] = true
				if place(k + 1) {
					return true
				}
				used[i] = false
			}
			return false
		}
		if !place(0) {
			return fmt.Sprintf("the calls did not get the next elements of %v in an order they could have happened in; %s", list, history())
		}
		for k := 0; k < len(list)+1; k++ {
			if got := F(1); got != list[(total+k)%len(list)] {
				return fmt.Sprintf("call %d after them got %d, want %d; %s", k, got, list[(total+k)%len(list)], history())
			}
		}
		if n := total + len(list) + 1; m.MockTimes() != n {
			return fmt.Sprintf("MockTimes %d after %d calls that match", m.MockTimes(), n)
		}
		c.State(zz.Hash(fmt.Sprint(p.counts, outcomeKey())))
		return ""
	})
}

func genSeq(e *zz.Env, y func(zz.Case) bool) {
	ok := true
	counts := [][]int{{1, 1}, {2, 1}, {1, 2}, {1, 1, 1}, {2, 2}, {1, 3}, {3, 1, 1}}
	t, f := true, false
	calls := [][][]bool{{{t}, {t}}, {{t, t}, {t}}, {{t, t}, {t, t}}, {{t}, {t}, {t}}, {{t, f, t}, {t}}, {{t, t}, {f}}, {{t, t, t}, {t}}}
	if !e.Mini() {
		calls = append(calls, [][]bool{{t, t}, {t}, {t}}, [][]bool{{t}, {f}, {t}}, [][]bool{{t, t, t}, {t, t}})
	}
	if e.Thorough() {
		calls = append(calls, [][]bool{{t}, {t}, {t}, {t}}, [][]bool{{t, t}, {t, t}, {t}}, [][]bool{{t, t, t}, {t, t, t}})
	}
	for _, cl := range calls {
		for _, ct := range counts {
			if !ok {
				return
			}
			pre := e.Pick(1, 2, 3)
			if len(cl) > 2 {
				pre = e.Pick(1, 1, 2)
			}
			p := seqProg{ct, cl, pre}
			ok = y(zz.Case{Text: p.String, Run: p.run})
		}
	}
}

// ---- origin handles from several goroutines (C08)

// what a thread does
const (
	xCall   = iota // t.M(x)
	xNested        // t.M(x) whose hook first calls another receiver's M
	xUnPatch
	xPatch
	xTo
	xRelease
	xGC
	xHandle // the handle called from outside (with the receiver)
)

var xName = [...]string{"call", "call with a nested one", "UnPatch", "Patch", "To", "Release", "GC", "handle"}

type oriProg struct {
	recv    bool // handle and hook take the receiver
	when    bool // negative arguments fall through
	threads [][]int
	pre     int
}

func (p oriProg) String() string {
	s := "handle without receiver"
	if p.recv {
		s = "handle with receiver"
	}
	if p.when {
		s += ", a condition"
	}
	for i, t := range p.threads {
		s += fmt.Sprintf("; g%d:", i)
		for _, o := range t {
			s += " " + xName[o]
		}
	}
	return fmt.Sprintf("%s; all schedules with at most %d preemptions", s, p.pre)
}

func cleanM(k, x int) int { return x*11 + k }

func (p oriProg) run(c *zz.Ctx) {
	clean := textOf((*T).M)
	var m *mockey.Mocker
	var oNo func(int) int
	var oRe func(*T, int) int
	recs := [4]*T{{K: 1000}, {K: 2000}, {K: 3000}, {K: 9000}}
	hook := func(add int) interface{} {
		// a nested call of another receiver goes through the mock
		nest := func(x int) int {
			if x >= 50 && x < 100 {
				return recs[3].M(x-45) * 1000000
			}
			return 0
		}
		if p.recv {
			return func(t *T, x int) int {
				vsched.Point()
				n := nest(x)
				vsched.Point()
				return oRe(t, x+100) + add + n
			}
		}
		return func(x int) int {
			vsched.Point()
			n := nest(x)
			vsched.Point()
			return oNo(x+100) + add + n
		}
	}
	build := func() *mockey.MockBuilder {
		b := mockey.Mock((*T).M)
		if p.recv {
			b.Origin(&oRe)
		} else {
			b.Origin(&oNo)
		}
		if p.when {
			b.When(func(x int) bool { vsched.Point(); return x > 0 })
		}
		return b.To(hook(100000))
	}
	ops, tos := false, []int{100000}
	for _, t := range p.threads {
		for _, o := range t {
			if o >= xUnPatch && o <= xRelease {
				ops = true
			}
			if o == xTo {
				tos = append(tos, 200000)
			}
		}
	}
	type rec struct{ kind, x, res int }
	var got [4][]rec
	explore(c, p.pre, func() []func() {
		oNo, oRe = nil, nil
		m = build().Build()
		var bodies []func()
		for t := range p.threads {
			t := t
			got[t] = make([]rec, 0, 8)
			bodies = append(bodies, func() {
				for k, o := range p.threads[t] {
					x := k + 1
					switch o {
					case xCall:
						if p.when && k%2 == 1 {
							x = -x
						}
						got[t] = append(got[t], rec{o, x, recs[t].M(x)})
					case xNested:
						got[t] = append(got[t], rec{o, 50 + x, recs[t].M(50 + x)})
					case xUnPatch:
						m.UnPatch()
					case xPatch:
						m.Patch()
					case xTo:
						m.To(hook(200000))
					case xRelease:
						m.Release()
					case xGC:
						runtime.GC()
						runtime.GC()
					case xHandle:
						if p.recv {
							got[t] = append(got[t], rec{o, x, oRe(recs[t], x)})
						} else if len(got[t]) > 0 {
							// after an own call: with the receiver of the latest one of any goroutine
							got[t] = append(got[t], rec{o, x, oNo(x)})
						}
					}
				}
			})
		}
		return bodies
	}, func() string {
		defer m.UnPatch()
		for t := range p.threads {
			for _, r := range got[t] {
				want := map[int]bool{}
				k := recs[t].K
				answers := func(k, x int) []int { // what a call of M may give without nesting
					if x < 0 && p.when {
						return []int{cleanM(k, x)}
					}
					l := []int{}
					for _, a := range tos {
						l = append(l, cleanM(k, x+100)+a)
					}
					if ops {
						l = append(l, cleanM(k, x))
					}
					return l
				}
				switch r.kind {
				case xHandle:
					want[cleanM(k, r.x)] = true
					for u := range recs {
						if !p.recv && (u < len(p.threads) || u == 3) {
							want[cleanM(recs[u].K, r.x)] = true
						}
					}
				case xCall:
					for _, v := range answers(k, r.x) {
						want[v] = true
					}
				case xNested:
					for _, a := range tos {
						for _, v := range answers(recs[3].K, r.x-45) {
							want[cleanM(k, r.x+100)+a+v*1000000] = true
						}
					}
					if ops {
						want[cleanM(k, r.x)] = true
					}
				}
				if !want[r.res] {
					return fmt.Sprintf("%s on g%d with receiver %d and %d gave %d, possible are %v", xName[r.kind], t, k, r.x, r.res, want)
				}
				c.Outcome(xName[r.kind])
			}
		}
		m.UnPatch()
		if textOf((*T).M) != clean || recs[0].M(3) != cleanM(1000, 3) {
			return "the target is not restored"
		}
		c.State(zz.Hash(fmt.Sprint(p.threads, p.recv, p.when, got)))
		return ""
	})
}

func genOrigin(e *zz.Env, y func(zz.Case) bool) {
	ok := true
	progs := [][][]int{
		{{xCall}, {xCall}}, {{xCall, xCall}, {xCall}}, {{xNested}, {xCall}}, {{xNested}, {xNested}}, {{xCall}, {xCall}, {xCall}},
		{{xCall}, {xHandle}}, {{xCall, xHandle}, {xCall}}, {{xNested}, {xCall}, {xHandle}},
		{{xCall, xHandle}, {xCall, xHandle}}, {{xCall, xHandle, xHandle}, {xNested}}, {{xCall, xHandle}, {xCall}, {xCall}},
	}
	if !raceOn {
		progs = append(progs, [][][]int{
			{{xCall}, {xUnPatch}}, {{xCall}, {xUnPatch, xPatch}}, {{xCall}, {xTo}}, {{xNested}, {xUnPatch}}, {{xNested}, {xTo}},
			{{xCall}, {xRelease}}, {{xCall}, {xCall}, {xUnPatch}}, {{xCall}, {xNested}, {xTo}}, {{xCall}, {xHandle}, {xUnPatch}},
			{{xCall}, {xTo, xTo}}, {{xCall, xCall}, {xTo}}, {{xNested}, {xUnPatch, xPatch}},
		}...)
	}
	for _, th := range progs {
		for _, recv := range []bool{false, true} {
			for _, when := range []bool{false, true} {
				if !ok {
					return
				}
				pre := e.Pick(1, 2, 3)
				if len(th) > 2 {
					pre = e.Pick(1, 1, 2)
				}
				p := oriProg{recv, when, th, pre}
				ok = y(zz.Case{Text: p.String, Run: p.run})
			}
		}
	}
	if e.Mini() || raceOn {
		return
	}
	// garbage collections while a call is past an undone mock
	for _, th := range [][][]int{{{xCall}, {xUnPatch, xGC}}, {{xNested}, {xTo, xGC}}, {{xCall}, {xRelease, xGC}}, {{xNested}, {xUnPatch, xGC}}, {{xCall}, {xTo, xGC}}} {
		for _, recv := range []bool{false, true} {
			if !ok {
				return
			}
			p := oriProg{recv, false, th, e.Pick(1, 1, 2)}
			ok = y(zz.Case{Text: p.String, Run: p.run})
		}
	}
}

// ---- filters with concurrent calls (C07)

func headerID() int64 {
	buf := make([]byte, 64)
	buf = buf[:runtime.Stack(buf, false)]
	n, err := strconv.ParseInt(string(bytes.Fields(buf)[1]), 10, 64)
	zz.Must(err)
	return n
}

type filProg struct {
	kind  mockey.FilterGoroutineType
	who   int
	rule  int // 0 Return, 1 When.Return, 2 To(origin)
	calls []int
	pre   int
}

func (p filProg) String() string {
	return fmt.Sprintf("filter %d on g%d, rule %d, calls per goroutine %v; all schedules with at most %d preemptions", p.kind, p.who, p.rule, p.calls, p.pre)
}

func (p filProg) run(c *zz.Ctx) {
	ids := make([]int64, len(p.calls))
	var get []func()
	for t := range p.calls {
		t := t
		get = append(get, func() { ids[t] = headerID() })
	}
	vsched.RunWith(get)
	var m *mockey.Mocker
	var origin func(int) int
	explore(c, p.pre, func() []func() {
		b := mockey.Mock(F).FilterGoRoutine(p.kind, ids[p.who])
		switch p.rule {
		case 0:
			b.Return(500)
		case 1:
			b.When(func(x int) bool { vsched.Point(); return x > 0 }).Return(500)
		case 2:
			b.Origin(&origin).To(func(x int) int { return origin(x+100) + 500 })
		}
		m = b.Build()
		lg = log{}
		var bodies []func()
		for t := range p.calls {
			t := t
			bodies = append(bodies, func() {
				for k := 0; k < p.calls[t]; k++ {
					e := beginEv(t, oCall)
					endEv(e, F(arg(t, k, oCall)))
				}
			})
		}
		return bodies
	}, func() string {
		defer m.UnPatch()
		n, mn := 0, 0
		for t := range p.calls {
			in := p.kind == mockey.Disable || (p.kind == mockey.Include) == (t == p.who)
			for k := 0; k < p.calls[t]; k++ {
				x := arg(t, k, oCall)
				want := x*3 + 1
				n++
				if in {
					mn++
					want = 500
					if p.rule == 2 {
						want = (x+100)*3 + 1 + 500
					}
				}
				if k >= lg.n[t] || lg.ev[t][k].res != want {
					return fmt.Sprintf("call %d on g%d gave %d, want %d; %s", k, t, lg.ev[t][k].res, want, history())
				}
			}
		}
		if m.Times() != n || m.MockTimes() != mn {
			return fmt.Sprintf("Times %d MockTimes %d, want %d %d", m.Times(), m.MockTimes(), n, mn)
		}
		c.State(zz.Hash(fmt.Sprint(p)))
		return ""
	})
}

func genFilter(e *zz.Env, y func(zz.Case) bool) {
	ok := true
	for _, kind := range []mockey.FilterGoroutineType{mockey.Include, mockey.Exclude, mockey.Disable} {
		for rule := 0; rule < 3; rule++ {
			for who := 0; who < 2; who++ {
				for _, calls := range [][]int{{1, 1}, {2, 1}, {1, 1, 1}, {2, 2}} {
					if !ok {
						return
					}
					pre := e.Pick(1, 2, 3)
					if len(calls) > 2 {
						pre = e.Pick(1, 1, 2)
					}
					p := filProg{kind, who, rule, calls, pre}
					ok = y(zz.Case{Text: p.String, Run: p.run})
				}
			}
		}
	}
}

func init() {
	zz.Register("C06", zz.Suite{Name: "sched-sequence", Bound: bound("2-4 goroutines with up to 3 calls of a target that returns a Sequence"), Gen: genSeq})
	zz.Register("C07", zz.Suite{Name: "sched-filter", Bound: bound("2-3 goroutines with up to 2 calls of a filtered mock"), Gen: genFilter})
	zz.Register("C08", zz.Suite{Name: "sched-origin", Bound: bound("2-3 goroutines calling a method whose hook calls the origin, with nested calls, handle calls, and an operating goroutine"), Gen: genOrigin})
}
