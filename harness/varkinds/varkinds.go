// Package varkinds enumerates histories of the mock of one variable for variables of every kind (C09).
package varkinds

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"os"
	"reflect"
	"strings"
	"unsafe"

	"github.com/bytedance/mockey"
	"github.com/bytedance/mockey/zzverif/vals"
	"github.com/bytedance/mockey/zzverif/zz"
)

type named int

func (n named) String() string { return "n" }

type fn func(int) int

type rec struct {
	a   int8
	b   string
	c   []int
	d   interface{}
	e   error
	f   *rec
	g   [3]uint16
	_   int32
	H   complex64
	hid struct{ x, y float32 }
}

type empty struct{}

type emb struct {
	rec
	named
	P *int
}

type perr struct{ s string }

func (p *perr) Error() string { return p.s }

type verr struct{ s, t string }

func (v verr) Error() string { return v.s }

// kind of variable: its type, the values it begins with, and those it is given
type kind struct {
	t     reflect.Type
	first []reflect.Value
	v     [3]interface{} // mocked with the first two, assigned the third
	wrong []interface{}
}

func of(x interface{}) reflect.Type { return reflect.TypeOf(x).Elem() }

var anInt = 5

var cands = []interface{}{
	3, int8(3), uint(3), uint8(3), 3.0, float32(3), "s", true, 'x', complex(1, 2), named(3), fn(nil), func(int) int { return 1 }, func() {},
	[]int{1}, []byte("s"), []interface{}{1}, [2]int{}, [3]int{}, map[string]int{}, map[int]string{}, &anInt, &perr{}, perr{}, verr{}, errors.New("e"),
	make(chan int), make(<-chan int), make(chan<- int), rec{}, &rec{}, empty{}, struct{}{}, os.Stdout, unsafe.Pointer(&anInt), uintptr(3),
}

// fresh is a value unlike others, or the zero value of interfaces and channels that are given theirs below
func fresh(t reflect.Type) reflect.Value {
	v := reflect.New(t).Elem()
	if zz.Catch(func() { fill(v) }) != nil {
		return reflect.Zero(t)
	}
	return v
}

func fill(v reflect.Value) {
	if v.Kind() != reflect.Struct {
		vals.Fill(v)
		return
	}
	for i := 0; i < v.NumField(); i++ {
		f := v.Field(i)
		fill(reflect.NewAt(f.Type(), f.Addr().UnsafePointer()).Elem())
	}
}

func kinds() []kind {
	var ks []kind
	add := func(t reflect.Type, vs ...interface{}) {
		k := kind{t: t, first: []reflect.Value{reflect.Zero(t), fresh(t)}}
		for i := 0; i < 3; i++ {
			if i < len(vs) {
				k.v[i] = vs[i]
			} else {
				k.v[i] = fresh(t).Interface()
			}
		}
		for _, x := range cands {
			if !reflect.TypeOf(x).AssignableTo(t) {
				k.wrong = append(k.wrong, x)
			}
		}
		if t.Kind() == reflect.Interface {
			// the old value holds an interface's dynamic value, also a nil one
			for _, x := range []interface{}{(*perr)(nil), verr{"a", "b"}, 3, []int{1, 2}, named(7), (func())(nil)} {
				if reflect.TypeOf(x).AssignableTo(t) {
					v := reflect.New(t).Elem()
					v.Set(reflect.ValueOf(x))
					k.first = append(k.first, v)
				}
			}
		}
		ks = append(ks, k)
	}
	for _, p := range []interface{}{
		new(bool), new(int), new(int8), new(uint16), new(int32), new(uint64), new(uintptr), new(float32), new(float64), new(complex64), new(complex128),
		new(string), new(named), new([]int), new([]string), new([0]int), new([3]int8), new([2]interface{}), new([40]uint64), new(map[string]int),
		new(*int), new(**rec), new(chan int), new(unsafe.Pointer), new(rec), new(emb), new(empty), new(struct {
			a, b uint8
			C    string
		}),
	} {
		add(of(p))
	}
	f := func(k int) func(int) int { return func(x int) int { return x + k } }
	add(of(new(func(int) int)), f(1), fn(f(2)), (func(int) int)(nil))
	add(of(new(fn)), f(1), fn(f(2)))
	add(of(new(interface{})), 3, error(&perr{"x"}), []int{1, 2})
	add(of(new(interface{})), (*int)(nil), [300]int{1: 2}, func() {})
	add(of(new(error)), &perr{"a"}, verr{"b", "c"}, (*perr)(nil))
	add(of(new(fmt.Stringer)), named(3), named(0), reflect.ValueOf(1))
	add(of(new(io.Reader)), strings.NewReader("x"), (*os.File)(nil), &bytes.Buffer{})
	add(of(new(<-chan int)), make(chan int), make(<-chan int), (chan int)(nil))
	add(of(new(map[interface{}]error)), map[interface{}]error{1: nil}, map[interface{}]error(nil), map[interface{}]error{})
	return ks
}

const (
	oToA = iota
	oToB
	oToNil
	oWrong
	oUn
	oPatch
	oAssign
	oAll
	oNew
	nOps
)

var opNames = [...]string{"To(a)", "To(b)", "To(nil)", "To(wrong type)", "UnPatch", "Patch", "assign c", "UnPatchAll", "MockValue.To(b)"}

type spec struct {
	k     kind
	ki    int
	first int
	scope bool
	p     []int
}

func (s spec) String() string {
	var l []string
	for _, o := range s.p {
		l = append(l, opNames[o])
	}
	return fmt.Sprintf("variable of type %v (kind %d, initial value %d, in a scope: %v): %s", s.k.t, s.ki, s.first, s.scope, strings.Join(l, ", "))
}

type fakeT struct{}

func (fakeT) Fail() {}

func (s spec) run(c *zz.Ctx) {
	t := s.k.t
	// the variable lies between two others
	mem := reflect.New(reflect.StructOf([]reflect.StructField{{Name: "A", Type: t}, {Name: "B", Type: t}, {Name: "C", Type: t}})).Elem()
	before, v, after := mem.Field(0), mem.Field(1), mem.Field(2)
	before.Set(s.k.first[len(s.k.first)-1])
	after.Set(s.k.first[0])
	b0, a0 := vals.Bits(nil, before), vals.Bits(nil, after)
	v.Set(s.k.first[s.first])
	ptr := v.Addr().Interface()
	hold := func(x interface{}) reflect.Value {
		h := reflect.New(t).Elem()
		if x != nil {
			h.Set(reflect.ValueOf(x))
		}
		return h
	}
	a, b, cc, zero := hold(s.k.v[0]), hold(s.k.v[1]), hold(s.k.v[2]), hold(nil)
	cur := hold(nil)
	cur.Set(v)
	org := hold(nil)
	org.Set(cur)
	var hook reflect.Value
	applied := false
	var m *mockey.MockerVar
	check := func(where string) bool {
		if string(vals.Bits(nil, v)) != string(vals.Bits(nil, cur)) {
			c.Fail("%s: the variable is %#v, want %#v", where, v, cur)
		} else if string(vals.Bits(nil, before)) != string(b0) || string(vals.Bits(nil, after)) != string(a0) {
			c.Fail("%s: a neighbour of the variable changed", where)
		}
		return !c.Failed()
	}
	to := func(x interface{}, h reflect.Value) {
		m.To(x)
		hook, applied = h, true
		cur.Set(h)
	}
	undo := func() {
		if applied {
			applied = false
			cur.Set(org)
		}
	}
	body := func() {
		m = mockey.MockValue(ptr)
		if !check("MockValue") {
			return
		}
		to(s.k.v[0], a)
		for i, o := range s.p {
			refused, msg := false, ""
			switch o {
			case oToA:
				msg = zz.PanicText(func() { to(s.k.v[0], a) })
			case oToB:
				msg = zz.PanicText(func() { to(s.k.v[1], b) })
			case oToNil:
				msg = zz.PanicText(func() { to(nil, zero) })
			case oWrong:
				for _, w := range s.k.wrong {
					if zz.PanicText(func() { m.To(w) }) == "" {
						c.Fail("#%d To(%T) is not refused", i, w)
						return
					}
					if !check(fmt.Sprintf("#%d To(%T)", i, w)) {
						return
					}
				}
			case oUn:
				m.UnPatch()
				undo()
			case oPatch:
				m.Patch()
				if !applied {
					applied = true
					cur.Set(hook)
				}
			case oAssign:
				v.Set(cc)
				cur.Set(cc)
			case oAll:
				mockey.UnPatchAll()
				undo()
			case oNew:
				refused = applied
				msg = zz.PanicText(func() {
					n := mockey.MockValue(ptr).To(s.k.v[1])
					m = n
				})
				if !applied {
					org.Set(cur)
					hook, applied = b, true
					cur.Set(b)
				}
			}
			if (msg != "") != refused {
				c.Fail("#%d %s: refused %v (%s), want %v", i, opNames[o], msg != "", msg, refused)
				return
			}
			c.Step()
			if !check(fmt.Sprintf("#%d %s", i, opNames[o])) {
				return
			}
		}
		c.State(zz.Hash(fmt.Sprint(s.ki, s.first, applied, string(vals.Bits(nil, cur)))))
	}
	if s.scope {
		if msg := zz.PanicText(func() { mockey.PatchConvey("s", fakeT{}, body) }); msg != "" {
			c.Fail("panic: %s", msg)
			return
		}
		undo()
		if !c.Failed() {
			check("the end of the scope")
		}
		return
	}
	body()
	if m != nil {
		m.UnPatch()
	}
	undo()
	if !c.Failed() {
		check("the last UnPatch")
	}
}

func gen(e *zz.Env, y func(zz.Case) bool) {
	ok := true
	for ki, k := range kinds() {
		for first := range k.first {
			for _, scope := range []bool{false, true} {
				max := e.Pick(1, 4, 5)
				if scope && max > 1 {
					max--
				}
				for n := 0; n <= max; n++ {
					p := make([]int, n)
					var rec func(i int)
					rec = func(i int) {
						if i == n {
							s := spec{k, ki, first, scope, append([]int(nil), p...)}
							ok = y(zz.Case{Text: s.String, Run: s.run})
							return
						}
						for o := 0; o < nOps && ok; o++ {
							if i > 0 && p[i-1] == oWrong && o == oWrong {
								continue
							}
							p[i] = o
							rec(i + 1)
						}
					}
					if rec(0); !ok {
						return
					}
				}
			}
		}
	}
}

func init() {
	zz.Register("C09", zz.Suite{Name: "kinds of variables", Gen: gen, Bound: func(e *zz.Env) string {
		return fmt.Sprintf("all histories of up to %d of %d operations on a variable of each of %d kinds, every initial value (zero, fresh, dynamic values of interfaces), in and out of a scope, %d values offered of which all others than assignable ones must be refused", e.Pick(1, 4, 5), nOps, len(kinds()), len(cands))
	}})
}
