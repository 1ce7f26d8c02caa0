// Package callerrun checks that a refused re-mock names the line that applied the earlier mock.
package callerrun

import (
	"fmt"
	"regexp"
	"strings"

	"github.com/bytedance/mockey"
	_ "github.com/bytedance/mockey/zzverif/callers"
	_ "github.com/bytedance/mockey/zzverif/callers/github.com/bytedance/mockey"
	"github.com/bytedance/mockey/zzverif/callers/state"
	_ "github.com/bytedance/mockey/zzverif/callers/v2.x/mockey"
	"github.com/bytedance/mockey/zzverif/zz"
)

//go:noinline
func target(x int) int {
	sink += x
	sink *= 3
	return sink
}

type obj struct{ k int }

//go:noinline
func (o *obj) Method(x int) int {
	sink += x + o.k
	sink *= 3
	return sink
}

//go:noinline
func generic[T any](t T, x int) int {
	sink += x
	sink *= 5
	return sink + len(fmt.Sprint(t))
}

var (
	sink     int
	variable = 1
	text     = "a"
	list     []int
)

// targets are what is mocked: function-like ones first.
type kind struct {
	name  string
	build func() *mockey.MockBuilder
	s     func() *state.S // hooks that fit
	ptr   interface{}
	vals  []interface{}
}

func intResult() *state.S {
	return &state.S{Ret: []interface{}{7}, Orig: new(func(int) int), Cond: func(x int) bool { return true }, Hook: func(x int) int { return 7 }}
}

var kinds = []kind{
	{name: "function", build: func() *mockey.MockBuilder { return mockey.Mock(target) }, s: intResult},
	{name: "method", build: func() *mockey.MockBuilder { return mockey.Mock((*obj).Method) }, s: intResult},
	{name: "generic function", build: func() *mockey.MockBuilder { return mockey.MockGeneric(generic[string]) }, s: func() *state.S {
		s := intResult()
		s.Hook = func(t string, x int) int { return 7 }
		s.Orig = new(func(string, int) int)
		s.Cond = func(t string, x int) bool { return true }
		return s
	}},
	{name: "unsafe function", build: func() *mockey.MockBuilder { return mockey.MockUnsafe(target) }, s: intResult},
	{name: "variable", ptr: &variable, vals: []interface{}{5, 6, 7}},
	{name: "string variable", ptr: &text, vals: []interface{}{"x", "y", "z"}},
	{name: "slice variable", ptr: &list, vals: []interface{}{[]int{1}, nil, []int{2}}},
}

const (
	opBuild = iota
	opPatch
	opTo
	opReturn
	opWhen
	opOrigin
	opExclude
	opInclude
	opFilter
	opRelease
	opVarTo
	opVarPatch
	opVarNew
)

var opNames = []string{"Build", "Patch", "To", "Return", "When", "Origin", "ExcludeCurrentGoRoutine", "IncludeCurrentGoRoutine", "FilterGoRoutine", "Release.Return.Build", "MockerVar.To", "MockerVar.Patch", "MockValue.To"}

// what happens between applying the mock and the refusal
var between = []string{"nothing", "a Patch without effect elsewhere", "a refused mock elsewhere", "a mock of an inner scope", "an earlier mock undone", "an UnPatch and Patch elsewhere before it"}

var refusals = []string{"another mock", "an earlier mocker's Patch", "an earlier mocker's To"}

var pos = regexp.MustCompile(`[^\s]*:\d+`)

type failer struct{ failed bool }

func (f *failer) Fail() { f.failed = true }

func refused(f func()) (msg string) {
	defer func() {
		if e := recover(); e != nil {
			msg = fmt.Sprint(e)
		}
	}()
	f()
	return ""
}

//go:noinline
func elsewhere(f func()) { f() }

func Gen(e *zz.Env, yield func(zz.Case) bool) {
	for ki := range kinds {
		k := &kinds[ki]
		for ci := range state.Kinds {
			caller := &state.Kinds[ci]
			if ki == 3 && e.Mini() {
				continue
			}
			for op := range opNames {
				if (op >= opVarTo) != (k.ptr != nil) {
					continue
				}
				for b := range between {
					for r := range refusals {
						for depth := 0; depth < 3; depth++ {
							if depth == 2 && !e.Thorough() || depth == 0 && b != 0 {
								continue
							}
							op, b, r, depth := op, b, r, depth
							if !yield(zz.Case{
								Text: func() string {
									return fmt.Sprintf("%s mocked by %s in a %s, scope depth %d, then %s; refused: %s", k.name, opNames[op], caller.Name, depth, between[b], refusals[r])
								},
								Run: func(c *zz.Ctx) { run(c, k, caller, op, b, r, depth) },
							}) {
								return
							}
						}
					}
				}
			}
		}
	}
}

func run(c *zz.Ctx, k *kind, caller *state.Kind, op, b, r, depth int) {
	body := func() {
		defer mockey.UnPatchAll()
		inScope(c, k, caller, op, b, r)
	}
	for i := 0; i < depth; i++ {
		inner := body
		body = func() {
			f := &failer{}
			_ = f
			inner()
		}
		wrapped := body
		if i == depth-1 {
			body = func() { scope("top", wrapped) }
		} else {
			body = func() { nested("inner", wrapped) }
		}
	}
	body()
}

func scope(name string, f func()) { mockey.PatchConvey(name, &failer{}, f) }
func nested(name string, f func()) {
	mockey.PatchConvey(name, f)
}

func inScope(c *zz.Ctx, k *kind, caller *state.Kind, op, b, r int) {
	var s *state.S
	fn := k.ptr == nil
	var oldM *mockey.Mocker
	var oldV *mockey.MockerVar
	val := 0
	next := func() interface{} {
		val++
		return k.vals[val%len(k.vals)]
	}
	if fn {
		s = k.s()
		oldM = k.build().Return(s.Ret...).Build().UnPatch()
		s.B = k.build().Return(s.Ret...)
		switch op {
		case opBuild:
		case opPatch:
			s.M = s.B.Build().UnPatch()
		case opTo:
			s.B = k.build().To(s.Hook)
			s.M = s.B.Build()
		default:
			s.M = s.B.Build()
		}
	} else {
		s = &state.S{Val: next(), Ptr: k.ptr}
		oldV = mockey.MockValue(k.ptr).To(next()).UnPatch()
		switch op {
		case opVarTo:
			s.V = mockey.MockValue(k.ptr).To(next())
		case opVarPatch:
			s.V = mockey.MockValue(k.ptr).To(next()).UnPatch()
		}
	}
	switch b {
	case 4:
		if s.M == nil && s.V == nil {
			if fn {
				k.build().Return(s.Ret...).Build().UnPatch()
			} else {
				mockey.MockValue(k.ptr).To(next()).UnPatch()
			}
		}
	case 5:
		elsewhere(func() {
			if s.M != nil {
				s.M.UnPatch().Patch()
				if op == opPatch {
					s.M.UnPatch()
				}
			} else if s.V != nil {
				s.V.UnPatch().Patch()
				if op == opVarPatch {
					s.V.UnPatch()
				}
			}
		})
	}
	s.Op = op
	caller.Do(s)
	c.Step()
	if s.Line == "" {
		c.Fail("harness: the operation was not run")
		return
	}
	try := func(how int) string {
		return refused(func() {
			switch {
			case fn && how == 0:
				k.build().Return(s.Ret...).Build()
			case fn && how == 1:
				oldM.Patch()
			case fn:
				oldM.Return(s.Ret...)
			case how == 0:
				mockey.MockValue(k.ptr).To(next())
			case how == 1:
				oldV.Patch()
			default:
				oldV.To(next())
			}
		})
	}
	switch b {
	case 1:
		elsewhere(func() {
			if fn {
				s.M.Patch()
			} else {
				s.V.Patch()
			}
		})
	case 2:
		for how := range refusals {
			try(how)
		}
	case 3:
		nested("inner scope", func() {
			if fn {
				k.build().Return(s.Ret...).Build()
			} else {
				mockey.MockValue(k.ptr).To(next())
			}
		})
	}
	msg := try(r)
	c.Step()
	if msg == "" {
		c.Fail("the mock is not refused")
		return
	}
	// the panic may carry the stack of nothing but its message
	found := 0
	for _, p := range pos.FindAllString(msg, -1) {
		p = strings.Trim(p, "()[],;'\"")
		if !strings.Contains(p, ".go:") {
			continue
		}
		found++
		if p != s.Line {
			c.Fail("%s was applied at %s, the refusal says: %s", opNames[op], s.Line, msg)
			return
		}
	}
	if found == 0 {
		c.Fail("%s was applied at %s, the refusal does not say where: %s", opNames[op], s.Line, msg)
		return
	}
	c.State(zz.Hash(fmt.Sprint(k.name, caller.Name, op, b, r)))
	c.Outcome("named")
}
