package zz

import "github.com/bytedance/mockey/zzverif/zz/pad"

// filler is linked behind the package's other functions, package pad before them.
func filler()

func init() {
	filler()
	pad.Keep()
}
