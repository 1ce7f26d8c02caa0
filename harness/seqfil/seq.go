// Package seqfil enumerates sequences (C06) and goroutine filters (C07).
package seqfil

import (
	"errors"
	"fmt"
	"strings"

	"github.com/bytedance/mockey"
	"github.com/bytedance/mockey/zzverif/tg"
	"github.com/bytedance/mockey/zzverif/zz"
)

// Declarations of a sequence: the first value, then operations.
const (
	sThen = iota
	sTimes1
	sTimes2
	sTimes3
	sTimes5
	sTimes0   // refused
	sTimesNeg // refused
	nSeqOps
)

var sNames = [...]string{".Then", ".Times(1)", ".Times(2)", ".Times(3)", ".Times(5)", ".Times(0)", ".Times(-1)"}
var sTimes = [...]int{0, 1, 2, 3, 5, 0, -1}

type decl []int

func (d decl) String() string {
	s := "Sequence(v)"
	for _, o := range d {
		s += sNames[o]
	}
	return s
}

// expand is the list of element indices of one period.
func (d decl) expand() []int {
	counts := []int{1}
	for _, o := range d {
		switch {
		case o == sThen:
			counts = append(counts, 1)
		case sTimes[o] > 0:
			counts[len(counts)-1] = sTimes[o]
		}
	}
	var l []int
	for i, n := range counts {
		for ; n > 0; n-- {
			l = append(l, i)
		}
	}
	return l
}

type seqI interface {
	mockey.SequenceOpt
}

// build makes the sequence; val gives the i-th value.
func (d decl) build(c *zz.Ctx, val func(i int) []interface{}) mockey.SequenceOpt {
	n := 0
	s := mockey.Sequence(val(0)...)
	for _, o := range d {
		switch {
		case o == sThen:
			n++
			s = s.Then(val(n)...)
		case sTimes[o] > 0:
			s = s.Times(sTimes[o])
		default:
			if zz.PanicText(func() { s.Times(sTimes[o]) }) == "" {
				c.Fail("Times(%d) is not refused", sTimes[o])
			}
		}
		c.Step()
	}
	return s
}

var errs [8]error

func init() {
	for i := range errs {
		errs[i] = errors.New(fmt.Sprint("e", i))
	}
}

var nums [8]int

// seqCase runs one declaration under a pattern of calls.
//
//	kind 0: int results; 1: (*int, error) results with nils; 2: no results observable (values of another convertible type)
//	pattern: how calls that must not consume elements are interleaved
type seqCase struct {
	d       decl
	kind    int
	pattern int
}

var patterns = [...]string{"only matching calls", "with calls that do not match", "with filtered calls", "with origin calls and Times", "with UnPatch and Patch between"}

func (s seqCase) String() string {
	return fmt.Sprintf("%v, results of kind %d, %s", s.d, s.kind, patterns[s.pattern])
}

func (s seqCase) run(c *zz.Ctx) {
	list := s.d.expand()
	val := func(i int) []interface{} {
		switch s.kind {
		case 1:
			if i%2 == 0 {
				return []interface{}{&nums[i], nil}
			}
			return []interface{}{nil, errs[i]}
		case 2:
			return []interface{}{int16(100 + i)}
		}
		return []interface{}{100 + i}
	}
	seq := s.d.build(c, val)
	if c.Failed() {
		return
	}
	var b *mockey.MockBuilder
	origin := func(int) int { return 0 }
	if s.kind == 1 {
		b = mockey.Mock(tg.Err).When(func(a int) bool { return a > 0 }).Return(seq)
	} else {
		b = mockey.Mock(tg.F).When(func(a int) bool { return a > 0 }).Return(seq)
		if s.pattern == 3 {
			b = b.Origin(&origin)
		}
	}
	m := b.Build()
	defer m.UnPatch()
	k := 0
	take := func() {
		want := list[k%len(list)]
		if s.kind == 1 {
			p, e := tg.Err(1)
			var wp *int
			var we error
			if want%2 == 0 {
				wp = &nums[want]
			} else {
				we = errs[want]
			}
			if p != wp || e != we {
				c.Fail("call %d of the sequence gives (%p, %v), want element %d: (%p, %v)", k, p, e, want, wp, we)
			}
		} else if got := tg.F(1); got != 100+want {
			c.Fail("call %d of the sequence gives %d, want element %d: %d", k, got, want, 100+want)
		}
		c.State(zz.Hash(fmt.Sprint(list, k%len(list))))
		c.Steps(1)
		if k == 1 {
			zz.Point()
		}
		k++
	}
	miss := func() {
		if s.kind == 1 {
			if p, e := tg.Err(-1); p != nil || e != nil {
				c.Fail("a call that does not match gives (%p, %v)", p, e)
			}
		} else if got := tg.F(-1); got != -2 {
			c.Fail("a call that does not match gives %d", got)
		}
	}
	total := 3*len(list) + 1
	for k < total && !c.Failed() {
		take()
		switch s.pattern {
		case 1:
			for i := 0; i <= k%3; i++ {
				miss()
			}
		case 2:
			done := make(chan bool)
			if k%2 == 0 {
				m.FilterGoRoutine(mockey.Exclude, mockey.GetGoroutineId())
				if s.kind == 1 {
					tg.Err(1)
				} else if got := tg.F(1); got != 4 {
					c.Fail("a filtered call gives %d", got)
				}
				m.FilterGoRoutine(mockey.Disable, 0)
			} else {
				// the element handed out to another goroutine is consumed as well
				go func() { defer close(done); zz.Grow(); take() }()
				<-done
			}
		case 3:
			if s.kind != 1 {
				if got := origin(1); got != 4 {
					c.Fail("origin gives %d", got)
				}
			}
			m.Times()
			m.MockTimes()
			miss()
		case 4:
			m.UnPatch()
			if s.kind == 1 {
				tg.Err(1)
			} else if got := tg.F(1); got != 4 {
				c.Fail("undone mock: call gives %d", got)
			}
			m.Patch()
		}
	}
}

func genSeq(e *zz.Env, y func(zz.Case) bool) {
	max := e.Pick(3, 4, 5)
	ok := true
	for n := 0; n <= max && ok; n++ {
		d := make(decl, n)
		var rec func(i int)
		rec = func(i int) {
			if !ok {
				return
			}
			if i == n {
				for kind := 0; kind < 3; kind++ {
					for p := range patterns {
						s := seqCase{append(decl(nil), d...), kind, p}
						if ok = y(zz.Case{Text: s.String, Run: s.run}); !ok {
							return
						}
					}
				}
				return
			}
			for o := 0; o < nSeqOps && ok; o++ {
				d[i] = o
				rec(i + 1)
			}
		}
		rec(0)
	}
}

// Several sequences in one mock: every rule has its own, each consumed by its own calls only.
type multi struct {
	a, b  decl
	calls []int // which rule each call selects: 0 first, 1 second, 2 neither
	kind  int   // 1: the sequences are those of two mocks
}

func (s multi) String() string {
	where := "rules of one mock"
	if s.kind == 1 {
		where = "two mocks"
	}
	return fmt.Sprintf("%s: A=%v B=%v, calls %s", where, s.a, s.b, strings.Trim(fmt.Sprint(s.calls), "[]"))
}

func (s multi) run(c *zz.Ctx) {
	la, lb := s.a.expand(), s.b.expand()
	sa := s.a.build(c, func(i int) []interface{} { return []interface{}{100 + i} })
	sb := s.b.build(c, func(i int) []interface{} { return []interface{}{200 + i} })
	var ms []*mockey.Mocker
	if s.kind == 0 {
		ms = append(ms, mockey.Mock(tg.F).When(func(x int) bool { return x == 0 }).Return(sa).When(func(x int) bool { return x == 1 }).Return(sb).Build())
	} else {
		ms = append(ms, mockey.Mock(tg.F).When(func(x int) bool { return x == 0 }).Return(sa).Build(), mockey.Mock(tg.F2).Return(sb).Build())
	}
	ka, kb := 0, 0
	for _, w := range s.calls {
		var got, want int
		switch w {
		case 0:
			got, want = tg.F(0), 100+la[ka%len(la)]
			ka++
		case 1:
			want = 200 + lb[kb%len(lb)]
			kb++
			if s.kind == 0 {
				got = tg.F(1)
			} else {
				got = tg.F2(1)
			}
		default:
			got, want = tg.F(5), 16
		}
		c.Steps(1)
		if ka+kb == 2 {
			zz.Point()
		}
		if got != want {
			c.Fail("a call of kind %d gives %d, want %d (after %d calls of A and %d of B)", w, got, want, ka, kb)
			break
		}
	}
	for _, m := range ms {
		m.UnPatch()
	}
}

func genMulti(e *zz.Env, y func(zz.Case) bool) {
	ds := []decl{{}, {sTimes2}, {sThen}, {sTimes2, sThen}, {sThen, sTimes2, sThen}}
	n := e.Pick(4, 7, 9)
	ok := true
	for kind := 0; kind < 2; kind++ {
		for _, a := range ds {
			for _, b := range ds {
				calls := make([]int, n)
				var rec func(i int)
				rec = func(i int) {
					if !ok {
						return
					}
					if i == n {
						s := multi{a, b, append([]int(nil), calls...), kind}
						ok = y(zz.Case{Text: s.String, Run: s.run})
						return
					}
					for w := 0; w < 3 && ok; w++ {
						calls[i] = w
						rec(i + 1)
					}
				}
				rec(0)
			}
		}
	}
}

func init() {
	zz.Register("C06",
		zz.Suite{Name: "declarations", Gen: genSeq, Bound: func(e *zz.Env) string {
			return fmt.Sprintf("all sequences of up to %d Then/Times operations (Times of 1, 2, 3, 5 and refused 0, -1), 3 kinds of results, %d call patterns over 3 periods", e.Pick(3, 4, 5), len(patterns))
		}},
		zz.Suite{Name: "several sequences", Gen: genMulti, Bound: func(e *zz.Env) string {
			return fmt.Sprintf("all call orders of length %d over two sequences, in one mock and in two", e.Pick(4, 7, 9))
		}},
	)
}
