package shaperun

import (
	"fmt"

	"github.com/bytedance/mockey"
	"github.com/bytedance/mockey/zzverif/alike/p1/thing"
	thing2 "github.com/bytedance/mockey/zzverif/alike/p2/thing"
	"github.com/bytedance/mockey/zzverif/zz"
)

// entry is a name looked up on an instance. Entries with the same key denote the same function.
type entry struct {
	what string
	inst func() interface{}
	name string
	key  string          // empty if there is no such method or function
	call func(x int) int // nil if key is empty
}

func f1(x int) int { fmt.Sprint(x); return x + 11 }
func f2(x int) int { fmt.Sprint(x); return x + 12 }
func f3(x int) int { fmt.Sprint(x); return x + 13 }

type embA int
type embB struct{ a, b string }
type embC struct{ *embB }

func (e embA) M(x int) int   { fmt.Sprint(x); return x + 21 }
func (e *embB) M(x int) int  { fmt.Sprint(x); return x + 22 }
func (e embA) m2(x int) int  { fmt.Sprint(x); return x + 23 }
func (e *embB) m2(x int) int { fmt.Sprint(x); return x + 24 }
func (e embA) OnlyA(x int) int {
	fmt.Sprint(x)
	return x + 25
}

func localTypes() (r []entry) {
	add := func(what string, inst func() interface{}, name, key string, call func(x int) int) {
		r = append(r, entry{what: what, inst: inst, name: name, key: key, call: call})
	}
	{
		type S struct {
			embA
			F func(int) int
		}
		a, b, z := S{1, f1}, S{2, f2}, S{3, nil}
		in := func() interface{} { return a }
		add("the first S", in, "M", "embA.M", a.M)
		add("the first S", in, "m2", "embA.m2", a.m2)
		add("the first S", in, "OnlyA", "embA.OnlyA", a.OnlyA)
		add("the first S", in, "F", "f1", func(x int) int { return a.F(x) })
		add("the first S with another function", func() interface{} { return &b }, "F", "f2", func(x int) int { return b.F(x) })
		add("the first S without a function", func() interface{} { return z }, "F", "", nil)
	}
	{
		type S struct {
			F func(int) int
			*embB
		}
		a, b, z := S{f2, &embB{}}, S{f3, nil}, (*S)(nil)
		add("the second S", func() interface{} { return &a }, "M", "embB.M", a.M)
		add("the second S", func() interface{} { return a }, "m2", "embB.m2", a.m2)
		add("the second S", func() interface{} { return a }, "OnlyA", "", nil)
		add("the second S", func() interface{} { return a }, "F", "f2", func(x int) int { return a.F(x) })
		add("the second S with a nil pointer", func() interface{} { return b }, "M", "embB.M", a.M)
		add("the second S with another function", func() interface{} { return b }, "F", "f3", func(x int) int { return b.F(x) })
		add("the second S, nil", func() interface{} { return z }, "F", "", nil)
		add("the second S, nil", func() interface{} { return z }, "M", "embB.M", a.M)
	}
	{
		type S struct{ thing.I }
		a, b, n := S{thing.C(1)}, S{ci{}}, S{}
		add("the third S", func() interface{} { return a }, "D", "p1 C.D", thing.C(1).D)
		add("the third S with another value", func() interface{} { return b }, "D", "ci.D", ci{}.D)
		add("the third S with another value", func() interface{} { return &b }, "extra", "", nil)
		_ = n
	}
	{
		type S struct{ thing2.I }
		a, b := S{thing2.C(1)}, S{ci{}}
		add("the fourth S", func() interface{} { return a }, "D", "p2 C.D", thing2.C(1).D)
		add("the fourth S with another value", func() interface{} { return &b }, "D", "ci.D", ci{}.D)
	}
	{
		type S struct {
			F, G func(int) int
			*thing.T
		}
		a := S{f3, f1, &thing.T{}}
		add("the fifth S", func() interface{} { return &a }, "F", "f3", func(x int) int { return a.F(x) })
		add("the fifth S", func() interface{} { return a }, "G", "f1", func(x int) int { return a.G(x) })
		add("the fifth S", func() interface{} { return a }, "M", "p1 T.M", a.M)
		add("the fifth S", func() interface{} { return a }, "V", "p1 T.V", a.V)
	}
	t1, t2 := &thing.T{}, &thing2.T{}
	i1, i2 := func() interface{} { return t1 }, func() interface{} { return t2 }
	add("*p1 thing.T", i1, "M", "p1 T.M", t1.M)
	add("*p2 thing.T", i2, "M", "p2 T.M", t2.M)
	add("*p1 thing.T", i1, "m", "p1 T.m", t1.Low)
	add("*p2 thing.T", i2, "m", "p2 T.m", t2.Low)
	add("p1 thing.T", func() interface{} { return *t1 }, "V", "p1 T.V", t1.V)
	add("p2 thing.T", func() interface{} { return *t2 }, "V", "p2 T.V", t2.V)
	add("*p1 thing.T", i1, "Only", "p1 T.Only", t1.Only)
	add("*p2 thing.T", i2, "Only", "", nil)
	add("*p2 thing.T", i2, "only", "", nil)
	add("p1 thing.C", func() interface{} { return thing.C(0) }, "D", "p1 C.D", thing.C(0).D)
	add("p2 thing.C", func() interface{} { return thing2.C(0) }, "D", "p2 C.D", thing2.C(0).D)
	return
}

type ci struct{}

func (ci) D(x int) int     { fmt.Sprint(x); return x + 31 }
func (ci) extra(x int) int { fmt.Sprint(x); return x + 32 }

// runs tells whether a call of the function with key a runs the one with key b
func runs(a, b string) bool {
	return a == b || a == "p1 T.M" && b == "p1 T.m" || a == "p2 T.M" && b == "p2 T.m"
}

// Pairs looks up names on instances of the same type, or of types of the same name, one after the other: what is found
// must not depend on what was looked up or mocked before.
func Pairs(e *zz.Env, yield func(zz.Case) bool) {
	fmt.Sprint(ci{}.extra(1))
	all := localTypes()
	for i := range all {
		for j := range all {
			for mode := 0; mode < 4; mode++ {
				i, j, mode := i, j, mode
				if e.Mini() && mode != 2 {
					continue
				}
				if !yield(zz.Case{Text: func() string {
					return fmt.Sprintf("GetMethod(%s, %q), %s, then of %s, %q", all[i].what, all[i].name, pairModes[mode], all[j].what, all[j].name)
				}, Run: func(c *zz.Ctx) { pair(c, all, i, j, mode) }}) {
					return
				}
			}
		}
	}
}

var pairModes = [...]string{"not mocked", "mocked and undone", "mocked", "mocked after the second is found"}

func pair(c *zz.Ctx, all []entry, i, j, mode int) {
	on := map[string]bool{}
	check := func(when string) {
		c.Step()
		for k := range all {
			x := &all[k]
			if x.call == nil {
				continue
			}
			real := on[x.key]
			for key := range on {
				if key != x.key && runs(x.key, key) {
					real = true
				}
			}
			y := x.call(5)
			if real != (y < 0) {
				c.Fail("%s: %s of %s gives %d, mocked: %v", when, x.name, x.what, y, real)
			}
		}
	}
	find := func(x *entry) interface{} {
		f, refused := get(mockey.GetMethod, x.inst(), x.name)
		c.Step()
		if x.key == "" {
			if refused == nil {
				c.Fail("%s has no %s, but GetMethod finds a %T", x.what, x.name, f)
			}
			return nil
		}
		if refused != nil {
			c.Fail("GetMethod(%s, %q) panics: %v", x.what, x.name, refused)
			return nil
		}
		return f
	}
	mock := func(x *entry, f interface{}) func() {
		if f == nil || c.Failed() || on[x.key] {
			return func() {}
		}
		m := mockey.Mock(f).Return(-1 << 40).Build()
		on[x.key] = true
		check("mocked " + x.name + " of " + x.what)
		return func() {
			m.UnPatch()
			delete(on, x.key)
			check("undone " + x.name + " of " + x.what)
		}
	}
	a := find(&all[i])
	ua, ub := func() {}, func() {}
	if mode == 1 || mode == 2 {
		ua = mock(&all[i], a)
	}
	if mode == 1 {
		ua()
		ua = func() {}
	}
	b := find(&all[j])
	if mode == 3 {
		ua = mock(&all[i], a)
	}
	ub = mock(&all[j], b)
	ua()
	ub()
	c.State(zz.Hash(fmt.Sprint(i, j, mode)))
}
