// s explores schedules: its mockey is the instrumented one (overlay sched).
package main

import (
	_ "github.com/bytedance/mockey/zzverif/conc"
	"github.com/bytedance/mockey/zzverif/zz"
)

func main() { zz.Main() }
