// Package probe tells whether it was compiled with inlining.
package probe

import "runtime"

func inner() (pc [1]uintptr) {
	runtime.Callers(1, pc[:])
	return
}

// Inlined tells whether the compiler inlines calls in this package.
func Inlined() bool {
	pc := inner()
	f, _ := runtime.CallersFrames(pc[:]).Next()
	return f.Func == nil
}
