package abi

import (
	"fmt"
	"reflect"

	"github.com/bytedance/mockey"
	"github.com/bytedance/mockey/zzverif/zz"
)

// Receivers.
type (
	rp struct {
		A int
		B string
	}
	rs struct{ A int }
	rb struct {
		A [6]int
		B string
		C float64
	}
	rf struct {
		X, Y float32
		Z    float64
	}
)

type path struct {
	name string
	call func(a []interface{}) []interface{}
}

type static struct {
	name     string
	target   interface{}
	hook     interface{}
	variadic bool
	paths    []path
}

// slot is the global variable in which an original (0) or hook (1) stores parameter i, or from which it takes result i (2).
func slot(t reflect.Type, i, k int) reflect.Value {
	return reflect.ValueOf(globals[t]).Elem().Index(i).Field(k)
}

func clear(ts []reflect.Type, k int) {
	for i, t := range ts {
		slot(t, i, k).Set(reflect.Zero(t))
	}
}

func seen(ts []reflect.Type, k int) (vs []reflect.Value) {
	for i, t := range ts {
		vs = append(vs, slot(t, i, k))
	}
	return
}

func setResults(vs []reflect.Value) {
	for i, v := range vs {
		slot(v.Type(), i, 2).Set(v)
	}
}

func values(vs []interface{}, t func(i int) reflect.Type) (rs []reflect.Value) {
	for i, v := range vs {
		x := reflect.New(t(i)).Elem()
		if v != nil {
			x.Set(reflect.ValueOf(v))
		}
		rs = append(rs, x)
	}
	return
}

func interfaces(vs []reflect.Value) (rs []interface{}) {
	for _, v := range vs {
		rs = append(rs, v.Interface())
	}
	return
}

func (s static) run(c *zz.Ctx) {
	t := reflect.TypeOf(s.target)
	var in, out []reflect.Type
	for i := 0; i < t.NumIn(); i++ {
		in = append(in, t.In(i))
	}
	for i := 0; i < t.NumOut(); i++ {
		out = append(out, t.Out(i))
	}
	handle := reflect.New(t)
	flag := false
	var seenC []reflect.Value
	cond := reflect.MakeFunc(reflect.FuncOf(in, []reflect.Type{reflect.TypeOf(false)}, s.variadic), func(args []reflect.Value) []reflect.Value {
		seenC = args
		return []reflect.Value{reflect.ValueOf(flag)}
	})
	m := mockey.Mock(s.target).Origin(handle.Interface()).When(cond.Interface()).To(s.hook).Build()
	defer m.UnPatch()
	bad := func(what, msg string) bool {
		if msg == "" {
			return false
		}
		c.Fail("%s: %s", what, msg)
		return true
	}
	for _, p := range s.paths {
		for _, flag = range []bool{false, true} {
			clear(in, 0)
			clear(in, 1)
			seenC = nil
			args, want := freshAll(in), freshAll(out)
			setResults(want)
			got := values(p.call(interfaces(args)), func(i int) reflect.Type { return out[i] })
			who, k := "original", 0
			if flag {
				who, k = "hook", 1
			}
			what := fmt.Sprintf("call by %s: ", p.name)
			if bad(what+"condition", same(seenC, args)) || bad(what+who, same(seen(in, k), args)) ||
				bad(what+"result of the "+who, same(got, want)) {
				return
			}
			for i, t := range in {
				if t.Size() > 0 && !slot(t, i, 1-k).IsZero() {
					c.Fail("%shook and original are called", what)
					return
				}
			}
			c.Step()
		}
	}
	args, want := freshAll(in), freshAll(out)
	setResults(want)
	got := callF(handle.Elem(), s.variadic, args)
	if bad("original through the handle", same(seen(in, 0), args)) || bad("result through the handle", same(got, want)) {
		return
	}
	m.UnPatch()
	for _, p := range s.paths {
		args := freshAll(in)
		p.call(interfaces(args))
		if bad("after undo by "+p.name, same(seen(in, 0), args)) {
			return
		}
	}
	c.State(zz.Hash(s.name))
}

func init() {
	zz.Register("C10", zz.Suite{Name: "compiled calls", Bound: func(e *zz.Env) string {
		return fmt.Sprintf("%d compiled functions and methods (five kinds of receiver), each by every call path", len(statics))
	}, Gen: func(e *zz.Env, y func(zz.Case) bool) {
		for _, s := range statics {
			s := s
			if !y(zz.Case{Text: func() string { return s.name }, Run: s.run}) {
				return
			}
		}
	}})
}
