package callerrun

import (
	"fmt"
	"strings"

	"github.com/bytedance/mockey"
	"github.com/bytedance/mockey/zzverif/callers/state"
	"github.com/bytedance/mockey/zzverif/zz"
)

//go:noinline
func initTarget(x int) int {
	sink += x
	sink *= 7
	return sink
}

//go:noinline
func initTarget2(x int) int {
	sink += x
	sink *= 11
	return sink
}

var initVar, initVar2 int

// mocks applied by package-level variables and init functions
var lineA, mockA = state.Here(), mockey.Mock(initTarget).Return(1).Build()
var lineB, mockB = state.Here(), mockey.MockValue(&initVar).To(3)

var (
	lineC, lineD string
	mockC        *mockey.Mocker
	mockD        *mockey.MockerVar
)

func init() {
	lineC, mockC = state.Here(), mockey.Mock(initTarget2).Return(1).Build()
	lineD, mockD = state.Here(), mockey.MockValue(&initVar2).To(3)
}

// Inits checks the mocks applied before main.
func Inits(e *zz.Env, yield func(zz.Case) bool) {
	for _, x := range []struct {
		what, line string
		try        func()
	}{
		{"a function mocked by a package-level variable", lineA, func() { mockey.Mock(initTarget).Return(2).Build() }},
		{"a variable mocked by a package-level variable", lineB, func() { mockey.MockValue(&initVar).To(4) }},
		{"a function mocked by an init function", lineC, func() { mockey.Mock(initTarget2).Return(2).Build() }},
		{"a variable mocked by an init function", lineD, func() { mockey.MockValue(&initVar2).To(4) }},
	} {
		x := x
		if !yield(zz.Case{Text: func() string { return x.what }, Run: func(c *zz.Ctx) {
			msg := refused(x.try)
			c.Step()
			if !strings.Contains(msg+" ", x.line+" ") && !strings.HasSuffix(msg, x.line) {
				c.Fail("applied at %s, the refusal says: %s", x.line, msg)
			}
			c.State(zz.Hash(fmt.Sprint(x.what)))
		}}) {
			return
		}
	}
}
