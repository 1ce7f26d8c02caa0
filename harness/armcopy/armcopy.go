// Package armcopy holds mockey's arm64 code generator and scanner under another package name (the files come in through a
// build overlay, see tools/overlay.py), so that they run on this machine.
package armcopy

// Helpers are the addresses taken for helper calls.
var Helpers = map[uintptr]bool{}

func isGenericProxyCallExtra(addr uintptr) (bool, string) { return Helpers[addr], "helper" }
