// Command cf runs histories of every other check (the child of cmd/cfg).
package main

import (
	"os"

	"github.com/bytedance/mockey/zzverif/probe"
	"github.com/bytedance/mockey/zzverif/zz"

	_ "github.com/bytedance/mockey/zzverif/dispatch"
	_ "github.com/bytedance/mockey/zzverif/layout"
	_ "github.com/bytedance/mockey/zzverif/origin"
	_ "github.com/bytedance/mockey/zzverif/seqfil"
	_ "github.com/bytedance/mockey/zzverif/world"
)

func main() {
	if len(os.Args) > 1 && os.Args[1] == "probe" {
		if probe.Inlined() {
			os.Exit(10)
		}
		os.Exit(11)
	}
	zz.Main()
}
