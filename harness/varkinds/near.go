package varkinds

import (
	"fmt"

	"github.com/bytedance/mockey"
	"github.com/bytedance/mockey/zzverif/zz"
)

// Variables that lie side by side in memory, or at the addresses of parts of others: each has its own mock.

type small struct {
	a, b bool
	c    int8
	d    uint8
	e, f int16
	g    uint16
	h    byte
	i    [3]uint8
	j    int32
	k    string
	l    int8
}

var nearMem struct {
	s small
	x [8]bool
	y [4]uint16
	z [2]interface{}
}

type nearVar struct {
	name string
	mock func() *mockey.MockerVar
	get  func() interface{}
	a, b interface{}
}

var nears []nearVar

func near[T any](name string, p *T, a, b T) {
	*p = a
	nears = append(nears, nearVar{
		name: name, a: a, b: b,
		mock: func() *mockey.MockerVar { return mockey.MockValue(p).To(b) },
		get:  func() interface{} { return *p },
	})
}

func init() {
	s := &nearMem.s
	near("s.a", &s.a, true, false)
	near("s.b", &s.b, false, true)
	near("s.c", &s.c, 3, -4)
	near("s.d", &s.d, 3, 250)
	near("s.e", &s.e, 3, -400)
	near("s.f", &s.f, 3, 500)
	near("s.g", &s.g, 9, 50000)
	near("s.h", &s.h, 9, 0)
	near("s.i[0]", &s.i[0], 1, 2)
	near("s.i[1]", &s.i[1], 3, 4)
	near("s.i[2]", &s.i[2], 5, 6)
	near("s.j", &s.j, 7, 1<<30)
	near("s.k", &s.k, "k", "mock")
	near("s.l", &s.l, 8, -8)
	for i := range nearMem.x {
		near(fmt.Sprintf("x[%d]", i), &nearMem.x[i], i%3 == 0, i%3 != 0)
	}
	for i := range nearMem.y {
		near(fmt.Sprintf("y[%d]", i), &nearMem.y[i], uint16(i), uint16(1000+i))
	}
	near("z[0]", &nearMem.z[0], interface{}(1), interface{}("one"))
	near("z[1]", &nearMem.z[1], interface{}(nil), interface{}(2))
	zz.Register("C09", zz.Suite{Name: "variables side by side", Bound: func(e *zz.Env) string {
		return fmt.Sprintf("%d variables in adjacent memory, mocked in pairs and threes, in one scope or nested ones, undone in every order or by the scopes", len(nears))
	}, Gen: genNear})
}

type nearCase struct {
	v     []int
	order []int // in which they are undone; nil if by UnPatchAll or the end of the scopes
	how   int   // 0 without a scope, 1 in one scope, 2 in a scope each
}

func (n nearCase) text() string {
	var l []string
	for _, i := range n.v {
		l = append(l, nears[i].name)
	}
	return fmt.Sprintf("mocks of %v, undone in the order %v, scopes %d", l, n.order, n.how)
}

func (n nearCase) run(c *zz.Ctx) {
	on := map[int]bool{}
	check := func(when string) {
		c.Step()
		for i := range nears {
			want := nears[i].a
			if on[i] {
				want = nears[i].b
			}
			if got := nears[i].get(); got != want {
				c.Fail("%s: %s is %v, want %v", when, nears[i].name, got, want)
				return
			}
		}
	}
	ms := make([]*mockey.MockerVar, len(n.v))
	undo := func() {
		for _, k := range n.order {
			ms[k].UnPatch()
			delete(on, n.v[k])
			check("undone " + nears[n.v[k]].name)
		}
	}
	mock := func(k int) {
		ms[k] = nears[n.v[k]].mock()
		on[n.v[k]] = true
		check("mocked " + nears[n.v[k]].name)
	}
	var body func(k int)
	body = func(k int) {
		if k == len(n.v) {
			undo()
			return
		}
		in := func() { mock(k); body(k + 1) }
		if n.how == 2 || n.how == 1 && k == 0 {
			mockey.PatchConvey(nears[n.v[k]].name, in)
			if n.how == 1 {
				on = map[int]bool{}
			}
			delete(on, n.v[k])
			check("after the scope of " + nears[n.v[k]].name)
			return
		}
		in()
	}
	msg := zz.PanicText(func() {
		if n.how == 0 {
			body(0)
			if n.order == nil {
				mockey.UnPatchAll()
				on = map[int]bool{}
				check("UnPatchAll")
			}
			return
		}
		mockey.PatchConvey("near", fakeT{}, func() { body(0) })
		on = map[int]bool{}
		check("the end")
	})
	if msg != "" {
		c.Fail("panic: %s", msg)
		for i := range ms {
			if ms[i] != nil {
				ms[i].UnPatch()
			}
		}
	}
	c.State(zz.Hash(n.text()))
}

var nearOrders = map[int][][]int{2: {nil, {0, 1}, {1, 0}}, 3: {nil, {0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}}}

func genNear(e *zz.Env, y func(zz.Case) bool) {
	for size := 2; size <= e.Pick(2, 3, 3); size++ {
		for a := range nears {
			for b := range nears {
				for x := range nears {
					v := []int{a, b}
					if size == 3 {
						v = append(v, x)
						near := func(p, q int) bool { return p-q <= 4 && q-p <= 4 }
						if x == a || x == b || !e.Thorough() && (!near(a, b) || !near(b, x)) {
							continue
						}
					} else if x > 0 {
						break
					}
					if a == b {
						continue
					}
					for how := 0; how < 3; how++ {
						for oi, o := range nearOrders[size] {
							if e.Mini() && oi != (a+b+how)%3 {
								continue
							}
							n := nearCase{v, o, how}
							if !y(zz.Case{Text: n.text, Run: n.run}) {
								return
							}
						}
					}
				}
			}
		}
	}
}
