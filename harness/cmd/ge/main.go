// Command ge decides C14 on the generated generic functions.
package main

import (
	_ "github.com/bytedance/mockey/zzverif/gens/all"
	"github.com/bytedance/mockey/zzverif/gensrun"
)

func main() { gensrun.Main() }
