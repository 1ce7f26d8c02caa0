package scale

import (
	"fmt"
	"unsafe"

	"github.com/bytedance/mockey"
	"github.com/bytedance/mockey/zzverif/zz"
)

// Deep recursion through a mock and its origin handle, every level on a receiver of its own.

type link struct {
	k    int
	next *link
}

var downFn func(*link, int) int

func init() { downFn = (*link).down }

//go:nosplit
func (l *link) down(x int) int {
	if x <= 0 {
		return l.k
	}
	return x*10 + downFn(l.next, x-1)
}

type glink[T any] struct {
	k    int
	v    T
	next *glink[T]
}

var gdownFn func(*glink[string], int) int

func init() { gdownFn = func(l *glink[string], x int) int { return l.down(x) } }

//go:nosplit
func (l *glink[T]) down(x int) int {
	if x <= 0 {
		return l.k
	}
	return x*10 + gdownFn(ptr(l.next), x-1)
}

const nForms = 6

var formNames = [nForms]string{"handle and hook with receiver", "handle without receiver", "handle and hook without receiver", "every other level answered, handle without receiver",
	"generic, handle without receiver", "generic, handle and hook without receiver"}

// recurse calls a method that is mocked and calls itself, depth levels deep. Each hook runs the original, which recurs,
// and then the original again, which must still be that of the receiver of this level.
func recurse(c *zz.Ctx, depth, form int) {
	links := make([]link, depth+1)
	glinks := make([]glink[string], depth+1)
	for i := range links {
		links[i].k, glinks[i].k = 3*i+5, 3*i+5
		if i > 0 {
			links[i-1].next, glinks[i-1].next = &links[i], &glinks[i]
		}
	}
	var bad string
	level := 0
	wrong := func(x, k int) {
		if want := depth - x; bad == "" && (level != want || k >= 0 && k != 3*want+5) {
			bad = fmt.Sprintf("the hook of level %d runs with %d and the receiver of level %d", level, x, (k-5)/3)
		}
	}
	body := func(x, k int, origin func(int) int) int {
		wrong(x, k)
		level++
		if form == 3 {
			level++
		}
		a := origin(x)
		level--
		if form == 3 {
			level--
		}
		return a*7 + origin(0)
	}
	var m *mockey.Mocker
	switch form {
	case 0:
		var o func(*link, int) int
		m = mockey.Mock((*link).down).Origin(&o).To(func(l *link, x int) int {
			return body(x, l.k, func(x int) int { return o(l, x) })
		}).Build()
	case 1:
		var o func(int) int
		m = mockey.Mock((*link).down).Origin(&o).To(func(l *link, x int) int { return body(x, l.k, func(x int) int { return o(x) }) }).Build()
	case 2:
		var o func(int) int
		m = mockey.Mock((*link).down).Origin(&o).To(func(x int) int { return body(x, -1, func(x int) int { return o(x) }) }).Build()
	case 3:
		var o func(int) int
		m = mockey.Mock((*link).down).Origin(&o).When(func(x int) bool { return x%2 == depth%2 }).To(func(x int) int { return body(x, -1, func(x int) int { return o(x) }) }).Build()
	case 4:
		var o func(int) int
		m = mockey.MockGeneric((*glink[string]).down).Origin(&o).To(func(l *glink[string], x int) int { return body(x, l.k, func(x int) int { return o(x) }) }).Build()
	case 5:
		var o func(int) int
		m = mockey.MockGeneric((*glink[string]).down).Origin(&o).To(func(_ mockey.GenericInfo, x int) int { return body(x, -1, func(x int) int { return o(x) }) }).Build()
	}
	defer m.UnPatch()
	want := 0
	for i := depth; i >= 0; i-- {
		k, x := 3*i+5, depth-i
		if x == 0 {
			want = k
		} else {
			want = x*10 + want
		}
		if form != 3 || x%2 == depth%2 {
			want = want*7 + k
		}
	}
	var got int
	if form < 4 {
		got = links[0].down(depth)
	} else {
		got = glinks[0].down(depth)
	}
	hits := depth + 1
	if form == 3 {
		hits = depth/2 + 1
	}
	if bad != "" {
		c.Fail("%s", bad)
	}
	if got != want {
		c.Fail("recursion of %d levels gives %d, want %d", depth, got, want)
	}
	if m.Times() != depth+1 || m.MockTimes() != hits {
		c.Fail("recursion of %d levels: Times %d MockTimes %d, want %d %d", depth, m.Times(), m.MockTimes(), depth+1, hits)
	}
	c.Steps(2 * hits)
	c.Beat()
}

func init() {
	zz.Register("C08", zz.Suite{
		Name: "towers of calls",
		Bound: func(e *zz.Env) string {
			return fmt.Sprintf("recursion through a mock of every depth up to %d (and %d), a receiver per level, %d forms of handle and hook", e.Pick(20, 130, 400), e.Pick(100, 1200, 5000), nForms)
		},
		Gen: func(e *zz.Env, y func(zz.Case) bool) {
			for n := 0; n <= e.Pick(20, 130, 400)+1; n++ {
				depth := n
				if n == e.Pick(20, 130, 400)+1 {
					depth = e.Pick(100, 1200, 5000)
				}
				for form := 0; form < nForms; form++ {
					depth, form := depth, form
					if !y(zz.Case{Text: func() string { return fmt.Sprint("recursion of ", depth, " levels, ", formNames[form]) }, Run: func(c *zz.Ctx) { recurse(c, depth, form) }}) {
						return
					}
				}
			}
		},
	})
}

func ptr[T any](l *glink[T]) *glink[string] { return (*glink[string])(unsafe.Pointer(l)) }
