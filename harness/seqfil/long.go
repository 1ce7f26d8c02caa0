package seqfil

import (
	"fmt"

	"github.com/bytedance/mockey"
	"github.com/bytedance/mockey/zzverif/tg"
	"github.com/bytedance/mockey/zzverif/zz"
)

// chain: n rules whose conditions hold for one argument each, then maybe a hook for all others.
func chain(c *zz.Ctx, n int, rest, to bool) {
	b := mockey.Mock(tg.F)
	runs := 0
	for i := 0; i < n; i++ {
		i := i
		b = b.When(func(x int) bool { runs++; return x == i })
		if to && i%2 == 0 {
			b = b.To(func(x int) int { return 5000 + i })
		} else {
			b = b.Return(5000 + i)
		}
	}
	if rest {
		b = b.Return(9999)
	}
	m := b.Build()
	defer m.UnPatch()
	for x := 0; x <= n; x++ {
		want, wr := 5000+x, x+1
		if x == n {
			wr = n
			if want = 9999; !rest {
				want = x*3 + 1
			}
		}
		runs = 0
		if got := tg.F(x); got != want || runs != wr {
			c.Fail("the call whose condition %d of %d holds first gives %d after %d conditions, want %d after %d", x, n, got, runs, want, wr)
			return
		}
		c.Step()
	}
	c.State(zz.Hash(fmt.Sprint("chain", n, rest)))
}

// many: Times and MockTimes over n calls, a part of which is answered.
func many(c *zz.Ctx, n, part int) {
	m := mockey.Mock(tg.F).When(func(x int) bool { return x%part == 0 }).Return(-1).Build()
	defer m.UnPatch()
	hits := 0
	for i := 0; i < n; i++ {
		want := i*3 + 1
		if i%part == 0 {
			want = -1
			hits++
		}
		if got := tg.F(i); got != want {
			c.Fail("call %d gives %d, want %d", i, got, want)
			return
		}
		if m.Times() != i+1 || m.MockTimes() != hits {
			c.Fail("after %d calls: Times %d MockTimes %d, want %d %d", i+1, m.Times(), m.MockTimes(), i+1, hits)
			return
		}
		c.Steps(1)
		c.Beat()
	}
	m.UnPatch()
	if m.Times() != 0 || m.MockTimes() != 0 {
		c.Fail("after UnPatch: Times %d MockTimes %d", m.Times(), m.MockTimes())
	}
}

// repeated: a value with repetition n between two others, over the end of the sequence.
func repeated(c *zz.Ctx, n int) {
	m := mockey.Mock(tg.F).Return(mockey.Sequence(-1).Then(-2).Times(n).Then(-3)).Build()
	defer m.UnPatch()
	rounds := 2
	if n > 5000 {
		rounds = 1
	}
	k := 0
	for r := 0; r < rounds; r++ {
		for i := 0; i < n+2; i++ {
			want := -2
			if i == 0 {
				want = -1
			} else if i == n+1 {
				want = -3
			}
			if got := tg.F(k); got != want {
				c.Fail("Sequence(-1).Then(-2).Times(%d).Then(-3): call %d gives %d, want %d", n, k, got, want)
				return
			}
			k++
			c.Steps(1)
			c.Beat()
		}
	}
	if got := tg.F(k); got != -1 {
		c.Fail("Sequence(-1).Then(-2).Times(%d).Then(-3): call %d gives %d, want -1", n, k, got)
	}
	c.State(zz.Hash(fmt.Sprint("rep", n)))
}

// values: a sequence of n values.
func values(c *zz.Ctx, n int) {
	s := mockey.Sequence(-1)
	for i := 1; i < n; i++ {
		s.Then(-1 - i)
	}
	m := mockey.Mock(tg.F).Return(s).Build()
	defer m.UnPatch()
	for k := 0; k < 2*n+1; k++ {
		if got, want := tg.F(k), -1-k%n; got != want {
			c.Fail("a sequence of %d values: call %d gives %d, want %d", n, k, got, want)
			return
		}
		c.Steps(1)
	}
}

func init() {
	zz.Register("C02", zz.Suite{
		Name: "long chains",
		Bound: func(e *zz.Env) string {
			return fmt.Sprintf("chains of every length up to %d, every condition the first to hold", e.Pick(20, 80, 300))
		},
		Gen: func(e *zz.Env, y func(zz.Case) bool) {
			for n := 0; n <= e.Pick(20, 80, 300); n++ {
				for k := 0; k < 4; k++ {
					n, k := n, k
					if n == 0 && k&1 == 0 {
						continue
					}
					if !y(zz.Case{Text: func() string { return fmt.Sprint("chain of ", n, " rules, variant ", k) }, Run: func(c *zz.Ctx) { chain(c, n, k&1 != 0, k&2 != 0) }}) {
						return
					}
				}
			}
		},
	})
	zz.Register("C05", zz.Suite{
		Name: "many calls",
		Bound: func(e *zz.Env) string {
			return fmt.Sprintf("counters after each of %d calls", e.Pick(1000, 140000, 600000))
		},
		Gen: func(e *zz.Env, y func(zz.Case) bool) {
			for part := 1; part <= 4; part++ {
				part := part
				if !y(zz.Case{Text: func() string { return fmt.Sprint("every call of ", part, " is answered") }, Run: func(c *zz.Ctx) { many(c, e.Pick(1000, 140000, 600000), part) }}) {
					return
				}
			}
		},
	})
	zz.Register("C06", zz.Suite{
		Name: "long sequences",
		Bound: func(e *zz.Env) string {
			return fmt.Sprintf("every repetition count up to %d and around 32768 and 65536, every number of values up to %d", e.Pick(40, 700, 3000), e.Pick(40, 700, 3000))
		},
		Gen: func(e *zz.Env, y func(zz.Case) bool) {
			var ns []int
			for n := 1; n <= e.Pick(40, 700, 3000); n++ {
				ns = append(ns, n)
			}
			if !e.Mini() {
				ns = append(ns, 32767, 32768, 32769, 65535, 65536, 65537)
			}
			for _, n := range ns {
				n := n
				if !y(zz.Case{Text: func() string { return fmt.Sprint("repetition ", n) }, Run: func(c *zz.Ctx) { repeated(c, n) }}) {
					return
				}
				if n < 5000 && !y(zz.Case{Text: func() string { return fmt.Sprint(n, " values") }, Run: func(c *zz.Ctx) { values(c, n) }}) {
					return
				}
			}
		},
	})
}
