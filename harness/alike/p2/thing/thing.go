// Package thing declares types that have namesakes.
package thing

type T struct{ N int }

func (t *T) M(x int) int { return t.m(x) + x + 200 }
func (t *T) m(x int) int { return x + 2000 }
func (t T) V(x int) int  { return x + t.N + 20000 }

// Low calls the unexported method.
func (t *T) Low(x int) int { return t.m(x) }

type Do func(x int) int

// I is an interface.
type I interface{ D(x int) int }

type C int

func (c C) D(x int) int { return x + int(c) + 200000 }
