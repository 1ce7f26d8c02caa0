package dispatch

import (
	"fmt"
	gs "go/scanner"
	"reflect"
	ts "text/scanner"

	"github.com/bytedance/mockey"
	"github.com/bytedance/mockey/zzverif/zz"
)

// Functions whose types have namesakes: text/scanner.Scanner and go/scanner.Scanner are both called scanner.Scanner.

//go:nosplit
func Same1(s *ts.Scanner, x int) int { return x*71 + 3 }

//go:nosplit
func Same2(x int, s ...*ts.Scanner) (int, *ts.Scanner) { return x*73 + len(s), nil }

//go:nosplit
func Same3(f func(*ts.Scanner) error, m map[string]*ts.Scanner) *ts.Scanner {
	if len(m) > 3 {
		return nil
	}
	return theS
}

//go:nosplit
func Same4(s [2]*ts.Scanner, c chan *ts.Scanner) []*ts.Scanner {
	if cap(c) > 1000 {
		return nil
	}
	return s[:1:1]
}

type Hold struct{ K int }

//go:nosplit
func (h *Hold) Same5(s interface{ F(*ts.Scanner) }, x int) (p **ts.Scanner) {
	if x > 1000 {
		return &theS
	}
	return nil
}

var theS = new(ts.Scanner)

var sub = map[reflect.Type]reflect.Type{}

func addSub(a, b interface{}) { sub[reflect.TypeOf(a).Elem()] = reflect.TypeOf(b).Elem() }

func init() {
	addSub(new(*ts.Scanner), new(*gs.Scanner))
	addSub(new([]*ts.Scanner), new([]*gs.Scanner))
	addSub(new(func(*ts.Scanner) error), new(func(*gs.Scanner) error))
	addSub(new(map[string]*ts.Scanner), new(map[string]*gs.Scanner))
	addSub(new([2]*ts.Scanner), new([2]*gs.Scanner))
	addSub(new(chan *ts.Scanner), new(chan *gs.Scanner))
	addSub(new(interface{ F(*ts.Scanner) }), new(interface{ F(*gs.Scanner) }))
	addSub(new(**ts.Scanner), new(**gs.Scanner))
	addSub(new(*Hold), new(*OtherHold))
	addSub(new(int), new(MyInt))
	addSub(new(bool), new(int8))
}

type OtherHold struct{ K int }

type sameCase struct {
	name    string
	target  interface{}
	pos     int // position replaced, counted over arguments and results
	what    int // 0 To 1 When 2 Origin
	recv    bool
	applied bool // asked of an applied mock
}

func (s sameCase) text() string {
	return fmt.Sprintf("%s: type %d replaced by its namesake in %s, receiver dropped %v, of an applied mock %v", s.name, s.pos, [...]string{"To", "When", "Origin"}[s.what], s.recv, s.applied)
}

// typ is the type of the hook, condition or handle, with the type at pos replaced; ok is false without such a position.
func (s sameCase) typ(pos int) (reflect.Type, bool) {
	t := reflect.TypeOf(s.target)
	var in, out []reflect.Type
	n := 0
	ok := false
	one := func(x reflect.Type) reflect.Type {
		if n++; n-1 == pos {
			y := sub[x]
			if y == nil {
				return x
			}
			ok = true
			return y
		}
		return x
	}
	for i := 0; i < t.NumIn(); i++ {
		if i == 0 && s.recv {
			n++
			continue
		}
		in = append(in, one(t.In(i)))
	}
	if s.what == 1 {
		out = append(out, one(reflect.TypeOf(true)))
	} else {
		for i := 0; i < t.NumOut(); i++ {
			out = append(out, one(t.Out(i)))
		}
	}
	return reflect.FuncOf(in, out, t.IsVariadic()), ok
}

func (s sameCase) run(c *zz.Ctx) {
	ft, _ := s.typ(s.pos)
	ran := false
	mk := func(ft reflect.Type) interface{} {
		if s.what == 2 {
			return reflect.New(ft).Interface()
		}
		return reflect.MakeFunc(ft, func([]reflect.Value) (r []reflect.Value) {
			ran = true
			for i := 0; i < ft.NumOut(); i++ {
				r = append(r, reflect.Zero(ft.Out(i)))
			}
			return
		}).Interface()
	}
	v := reflect.ValueOf(s.target)
	var args []reflect.Value
	for i := 0; i < v.Type().NumIn(); i++ {
		args = append(args, reflect.Zero(v.Type().In(i)))
	}
	call := func() []reflect.Value {
		if v.Type().IsVariadic() {
			return v.CallSlice(args)
		}
		return v.Call(args)
	}
	orig := fmt.Sprint(ifaces(call()))
	var m *mockey.Mocker
	request := func(x interface{}) func() {
		if s.applied {
			return func() {
				switch s.what {
				case 0:
					m.To(x)
				case 1:
					m.When(x)
				case 2:
					m.Origin(x)
				}
			}
		}
		return func() {
			b := mockey.Mock(s.target)
			switch s.what {
			case 0:
				b.To(x)
			case 1:
				b.When(x).Return(zeros(v.Type())...)
			case 2:
				b.Origin(x).Return(zeros(v.Type())...)
			}
			m = b.Build()
		}
	}
	if s.applied {
		b := mockey.Mock(s.target)
		if s.what == 1 {
			m = b.When(mk(must(s.typ(-1)))).Return(zeros(v.Type())...).Build()
		} else {
			m = b.Return(zeros(v.Type())...).Build()
		}
	}
	if zz.PanicText(request(mk(ft))) == "" {
		c.Fail("%v is not refused for %v", ft, v.Type())
		if m != nil {
			m.UnPatch()
		}
		return
	}
	c.Step()
	if s.applied {
		call()
		if m.Times() != 1 {
			c.Fail("the mock whose change was refused counts %d calls, want 1", m.Times())
		}
		m.UnPatch()
	}
	if got := fmt.Sprint(ifaces(call())); got != orig && !c.Failed() {
		c.Fail("after the refused request the target gives %s, want %s", got, orig)
	}
	// the same request with the right type
	if s.applied {
		m.Patch()
	}
	if msg := zz.PanicText(request(mk(must(s.typ(-1))))); msg != "" {
		c.Fail("the request with the right type is refused: %s", msg)
	} else {
		call()
		if m.Times() != 1 || s.what < 2 && !ran {
			c.Fail("the mock with the right type counts %d calls, ran %v", m.Times(), ran)
		}
	}
	m.UnPatch()
	c.State(zz.Hash(s.text()))
}

func must(t reflect.Type, _ bool) reflect.Type { return t }

func zeros(t reflect.Type) (r []interface{}) {
	for i := 0; i < t.NumOut(); i++ {
		r = append(r, reflect.Zero(t.Out(i)).Interface())
	}
	return
}

func genSame(e *zz.Env, y func(zz.Case) bool) {
	for _, x := range []struct {
		name string
		f    interface{}
		recv bool
	}{{"Same1", Same1, false}, {"Same2", Same2, false}, {"Same3", Same3, false}, {"Same4", Same4, false}, {"(*Hold).Same5", (*Hold).Same5, true}} {
		for what := 0; what < 3; what++ {
			for _, recv := range []bool{false, true} {
				if recv && !x.recv {
					continue
				}
				for _, applied := range []bool{false, true} {
					for pos := 0; pos < 8; pos++ {
						s := sameCase{x.name, x.f, pos, what, recv, applied}
						if _, ok := s.typ(pos); !ok {
							continue
						}
						if !y(zz.Case{Text: s.text, Run: s.run}) {
							return
						}
					}
				}
			}
		}
	}
}

func init() {
	zz.Register("C04", zz.Suite{
		Name: "types of the same name",
		Bound: func(e *zz.Env) string {
			return "5 targets, each type of hook, condition and handle in turn replaced by one of the same name, kind or size"
		},
		Gen: genSame,
	})
}
