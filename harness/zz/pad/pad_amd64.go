// Package pad lies between the code that the engine runs beside a case and the functions that cases mock. Mockey takes
// the right to execute away from a whole page while it writes to it, so that a page they share stops the engine.
package pad

func filler()

// Keep keeps the filler in the program.
func Keep() { filler() }
