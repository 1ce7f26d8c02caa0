// Command cl decides C17 for every kind of calling function.
package main

import (
	"fmt"

	"github.com/bytedance/mockey/zzverif/callerrun"
	"github.com/bytedance/mockey/zzverif/callers/state"
	"github.com/bytedance/mockey/zzverif/zz"
)

func main() {
	zz.Register("C17", zz.Suite{Name: "initialisers", Bound: func(e *zz.Env) string {
		return "functions and variables mocked by package-level variables and init functions"
	}, Gen: callerrun.Inits}, zz.Suite{Name: "calling functions", Bound: func(e *zz.Env) string {
		return fmt.Sprintf("%d kinds of calling functions, every applying operation, 7 kinds of targets, scope depth up to %d, 6 histories around it, 3 ways of being refused", len(state.Kinds), e.Pick(1, 1, 2))
	}, Gen: callerrun.Gen})
	zz.Main()
}
