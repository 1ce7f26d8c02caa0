package main

import (
	"github.com/bytedance/mockey/zzverif/zz"

	_ "github.com/bytedance/mockey/zzverif/abi"
	_ "github.com/bytedance/mockey/zzverif/alike"
	_ "github.com/bytedance/mockey/zzverif/branch"
	_ "github.com/bytedance/mockey/zzverif/dispatch"
	_ "github.com/bytedance/mockey/zzverif/layout"
	_ "github.com/bytedance/mockey/zzverif/origin"
	_ "github.com/bytedance/mockey/zzverif/results"
	_ "github.com/bytedance/mockey/zzverif/scale"
	_ "github.com/bytedance/mockey/zzverif/seqfil"
	_ "github.com/bytedance/mockey/zzverif/varkinds"
	_ "github.com/bytedance/mockey/zzverif/world"
)

func main() { zz.Main() }
