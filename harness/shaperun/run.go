// Package shaperun decides for each name of each generated type whether GetMethod finds what the name denotes.
package shaperun

import (
	"fmt"
	"reflect"
	"strings"

	"github.com/bytedance/mockey"
	"github.com/bytedance/mockey/zzverif/shapes"
	"github.com/bytedance/mockey/zzverif/zz"
)

var forms = []string{"value", "pointer", "nil pointer"}

const sentinel = -777000

func Gen(e *zz.Env, yield func(zz.Case) bool) {
	for i := range shapes.Shapes {
		s := &shapes.Shapes[i]
		for f := range forms {
			if f == 2 && s.Dyn {
				continue
			}
			for n := range s.Names {
				f, nm := f, &s.Names[n]
				if !yield(zz.Case{
					Text: func() string { return fmt.Sprintf("GetMethod(%s of %s, %q)", forms[f], s.Desc, nm.Name) },
					Run:  func(c *zz.Ctx) { run(c, s, f, nm) },
				}) {
					return
				}
			}
		}
	}
}

func get(fn func(interface{}, string) interface{}, inst interface{}, name string) (f interface{}, refused interface{}) {
	defer func() { refused = recover() }()
	return fn(inst, name), nil
}

// older compares the deprecated GetPrivateMethod (an exported method of the method set) with the method set, and asks the
// deprecated GetNestedMethod for what is no method.
func older(c *zz.Ctx, inst interface{}, nm *shapes.Name) {
	m, ok := reflect.TypeOf(inst).MethodByName(nm.Name)
	g, refused := get(mockey.GetPrivateMethod, inst, nm.Name)
	if ok != (refused == nil) {
		c.Fail("the method set has %s: %v, GetPrivateMethod gives %T, %v", nm.Name, ok, g, refused)
	} else if ok && (reflect.TypeOf(g) != m.Type || reflect.ValueOf(g).Pointer() != m.Func.Pointer()) {
		c.Fail("GetPrivateMethod gives a %T that is not the %v of the method set", g, m.Type)
	}
	if nm.Key == "" || !nm.Method {
		if g, refused := get(mockey.GetNestedMethod, inst, nm.Name); refused == nil {
			c.Fail("there is no such method, but GetNestedMethod gives a %T", g)
		}
	}
}

func run(c *zz.Ctx, s *shapes.Shape, form int, nm *shapes.Name) {
	v, p, np := s.Inst()
	inst := []interface{}{v, p, np}[form]
	f, refused := get(mockey.GetMethod, inst, nm.Name)
	c.Step()
	older(c, inst, nm)
	missing := nm.Key == "" || !nm.Method && (form == 2 || s.Nil)
	if missing {
		c.Outcome("missing")
		if refused == nil {
			c.Fail("there is no such method or function field, but GetMethod returned a %T", f)
		}
		return
	}
	want := strings.TrimPrefix(nm.Recv, "?")
	if want != nm.Recv && refused != nil {
		c.Outcome("known finding KF-5: not found")
		return
	}
	if refused != nil {
		c.Fail("GetMethod panics: %v", refused)
		return
	}
	t := reflect.TypeOf(f)
	if t == nil || t.Kind() != reflect.Func {
		c.Fail("GetMethod returned a %T", f)
		return
	}
	if nm.Direct {
		c.Outcome("found")
	} else {
		c.Outcome("found through an interface")
	}
	var own *shapes.Canary
	for i := range shapes.Canaries {
		if shapes.Canaries[i].Key == nm.Key {
			own = &shapes.Canaries[i]
		}
	}
	call := func(what string, fn func(x int) int, want int) bool {
		c.Step()
		got, e := func() (r int, e interface{}) {
			defer func() { e = recover() }()
			return fn(5), nil
		}()
		if e != nil {
			c.Fail("%s panics: %v", what, e)
		} else if got != want {
			c.Fail("%s returns %d instead of %d", what, got, want)
		}
		return !c.Failed()
	}
	if !call("the call before mocking", nm.Call, own.Base+5) {
		return
	}
	// a hook of the type found
	calls, recv := 0, ""
	last := 0
	hook := reflect.MakeFunc(t, func(args []reflect.Value) []reflect.Value {
		calls++
		if nm.Method {
			recv = fmt.Sprint(reflect.Indirect(args[0]).Interface())
			args = args[1:]
		}
		last = 0
		for _, a := range args {
			if a.Kind() == reflect.Int {
				last = int(a.Int())
			}
		}
		return []reflect.Value{reflect.ValueOf(sentinel)}
	})
	var m *mockey.Mocker
	e := func() (e interface{}) {
		defer func() { e = recover() }()
		m = mockey.Mock(f).To(hook.Interface()).Build()
		return nil
	}()
	if e != nil {
		c.Fail("mocking the function found is refused: %v", e)
		return
	}
	ok := call("the mocked call", nm.Call, sentinel)
	if ok && calls != 1 {
		c.Fail("one call ran the hook %d times", calls)
	}
	if ok && last != 5 {
		c.Fail("the hook got argument %d instead of 5", last)
	}
	if ok && nm.Direct && nm.Method && recv != want {
		c.Fail("the hook got receiver %s instead of %s", recv, want)
	}
	for i := range shapes.Canaries {
		if c.Failed() {
			break
		}
		k := &shapes.Canaries[i]
		want := k.Base + 5
		if k == own {
			if !nm.Direct {
				continue
			}
			want = sentinel
		}
		call("the call of "+k.Key+" while "+nm.Key+" is mocked", k.Call, want)
	}
	if n := m.MockTimes(); !c.Failed() && n != calls {
		c.Fail("MockTimes is %d after %d calls", n, calls)
	}
	m.UnPatch()
	if c.Failed() {
		return
	}
	if !call("the call after undoing", nm.Call, own.Base+5) || !call("the direct call after undoing", own.Call, own.Base+5) {
		return
	}
	if !nm.Method || nm.Name[0] < 'A' || nm.Name[0] > 'Z' {
		return
	}
	g, refused := get(mockey.GetNestedMethod, inst, nm.Name)
	if refused != nil || reflect.ValueOf(g).Pointer() != reflect.ValueOf(f).Pointer() || reflect.TypeOf(g) != t {
		c.Fail("GetNestedMethod does not find the same method: %T %v", g, refused)
	}
	c.State(zz.Hash(s.Desc + nm.Name))
}
