package scale

import (
	"fmt"
	"reflect"

	"github.com/bytedance/mockey"
	"github.com/bytedance/mockey/zzverif/vals"
	"github.com/bytedance/mockey/zzverif/zz"
)

// Many parameters and results.

type pair struct {
	a int8
	b *int
}

type recvP struct{ k int }

type recvV struct {
	k int
	s string
}

var (
	gRecv int
	seen  int
)

func slotOf(t reflect.Type, i int) reflect.Value {
	for _, s := range []interface{}{&gInt, &gU8, &gStr, &gF64, &gI16, &gAny, &gArr, &gBool, &gF32, &gSl, &gPair, &gI32} {
		if v := reflect.ValueOf(s).Elem(); v.Type().Elem() == t {
			return v.Index(i)
		}
	}
	panic(t.String())
}

func diff(what string, got, want []reflect.Value) string {
	if len(got) != len(want) {
		return fmt.Sprintf("%s: %d values, want %d", what, len(got), len(want))
	}
	for i := range got {
		if string(vals.Bits(nil, got[i])) != string(vals.Bits(nil, want[i])) {
			return fmt.Sprintf("%s: value %d of %d (%v) is %v, want %v", what, i, len(got), got[i].Type(), got[i], want[i])
		}
	}
	return ""
}

// what the mock does
const (
	doHook = iota
	doReturn
	doOrigin
	doSequence
	doPass // the condition does not hold
	nDo
)

var doNames = [nDo]string{"a hook", "Return", "a hook that runs the origin", "a Sequence", "a condition that does not hold"}

func params(c *zz.Ctx, k, do int, recv, cond bool) {
	f := reflect.ValueOf(many[k].f)
	t := f.Type()
	skip := 0
	if many[k].recv && !recv {
		skip = 1
	}
	fresh := func(n int, of func(int) reflect.Type) (vs []reflect.Value) {
		for i := 0; i < n; i++ {
			vs = append(vs, vals.Fresh(of(i)))
		}
		return
	}
	args := fresh(t.NumIn(), t.In)
	hookRes := fresh(t.NumOut(), t.Out)
	origArgs := args
	if many[k].recv {
		origArgs = args[1:]
	}
	var in, out []reflect.Type
	for i := skip; i < t.NumIn(); i++ {
		in = append(in, t.In(i))
	}
	for i := 0; i < t.NumOut(); i++ {
		out = append(out, t.Out(i))
	}
	ht := reflect.FuncOf(in, out, false)
	origin := reflect.New(ht)
	bad := ""
	check := func(what string, got, want []reflect.Value) {
		if d := diff(what, got, want); d != "" && bad == "" {
			bad = d
		}
	}
	hooks, conds := 0, 0
	b := mockey.Mock(many[k].f)
	if cond || do == doPass {
		b = b.When(reflect.MakeFunc(reflect.FuncOf(in, []reflect.Type{reflect.TypeOf(true)}, false), func(as []reflect.Value) []reflect.Value {
			conds++
			check("arguments of the condition", as, args[skip:])
			return []reflect.Value{reflect.ValueOf(do != doPass)}
		}).Interface())
	}
	ifaces := func(vs []reflect.Value) (r []interface{}) {
		for _, v := range vs {
			r = append(r, v.Interface())
		}
		return
	}
	switch do {
	case doHook, doOrigin, doPass:
		b = b.Origin(origin.Interface()).To(reflect.MakeFunc(ht, func(as []reflect.Value) []reflect.Value {
			hooks++
			check("arguments of the hook", as, args[skip:])
			if do == doOrigin {
				check("results of the origin", origin.Elem().Call(as), origArgs[:t.NumOut()])
			}
			return hookRes
		}).Interface())
	case doReturn:
		b = b.Return(ifaces(hookRes)...)
	case doSequence:
		b = b.Return(mockey.Sequence(ifaces(hookRes)...).Then(ifaces(fresh(t.NumOut(), t.Out))...))
	}
	m := b.Build()
	defer m.UnPatch()
	original := func(what string) {
		if many[k].recv && gRecv != int(reflect.Indirect(args[0]).Field(0).Int()) {
			c.Fail("%s: the original ran on another receiver", what)
		}
		if seen != 1 {
			c.Fail("%s: the original ran %d times, want 1", what, seen)
		}
		var got []reflect.Value
		for i, a := range origArgs {
			got = append(got, slotOf(a.Type(), i))
		}
		check(what+": arguments of the original", got, origArgs)
		seen = 0
	}
	seen = 0
	res := f.Call(args)
	want := hookRes
	if do == doPass {
		want = origArgs[:t.NumOut()]
	}
	check("results", res, want)
	if do == doPass || do == doOrigin {
		original("mocked call")
	}
	wantHooks, wantConds := 0, 0
	if do == doHook || do == doOrigin {
		wantHooks = 1
	}
	if cond || do == doPass {
		wantConds = 1
	}
	if hooks != wantHooks || conds != wantConds || seen != 0 {
		c.Fail("%d hooks, %d conditions and %d originals ran, want %d, %d and 0", hooks, conds, seen, wantHooks, wantConds)
	}
	m.UnPatch()
	check("results after UnPatch", f.Call(args), origArgs[:t.NumOut()])
	original("after UnPatch")
	if bad != "" {
		c.Fail("%s", bad)
	}
	c.Steps(3)
}

func init() {
	zz.Register("C10", zz.Suite{
		Name: "many parameters",
		Bound: func(e *zz.Env) string {
			return "functions and methods with every number of parameters and as many results (at most 56) up to 64, 3 patterns of types; hook, Return, origin, Sequence, pass; with and without condition and receiver"
		},
		Gen: func(e *zz.Env, y func(zz.Case) bool) {
			for k := range many {
				if e.Mini() && k%7 != 0 {
					continue
				}
				for do := 0; do < nDo; do++ {
					for v := 0; v < 4; v++ {
						k, do, v := k, do, v
						if v&1 == 1 && !many[k].recv || v&2 == 2 && do == doPass {
							continue
						}
						if !y(zz.Case{
							Text: func() string {
								return fmt.Sprintf("%v, %s, condition %v, without receiver %v", reflect.TypeOf(many[k].f), doNames[do], v&2 == 2, v&1 == 1)
							},
							Run: func(c *zz.Ctx) { params(c, k, do, v&1 == 0, v&2 == 2) },
						}) {
							return
						}
					}
				}
			}
		},
	})
}
