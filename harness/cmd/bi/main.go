// Command bi executes the amd64 branch code for every address pattern on a machine model.
package main

import (
	"github.com/bytedance/mockey/internal/monkey/inst"
	"github.com/bytedance/mockey/zzverif/branchcode"
	"github.com/bytedance/mockey/zzverif/zz"
)

func main() {
	a := &branchcode.Arch{Name: "amd64", Run: branchcode.Amd64, Context: 2, Scratch: []int{12, 13}, To: inst.BranchTo, Into: inst.BranchInto}
	zz.Register("C13", zz.Suite{Name: "amd64 branch code", Bound: func(e *zz.Env) string {
		return "each 16-bit chunk of the address complete, with patterns of the others; every combination of special chunks"
	}, Gen: a.Gen})
	zz.Main()
}
