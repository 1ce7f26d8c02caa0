// Package tg holds the functions, methods, generics and variables the checks mock. Functions whose original is run through
// mockey are nosplit: their entry has no stack check, so that the known limitation of relocated entries (see
// known_findings.txt) cannot disturb an exploration.
package tg

// Plain functions.

//go:nosplit
func F(x int) int { return x*3 + 1 }

//go:nosplit
func F2(x int) int { return x*5 + 2 }

// Fs is similar in signature and lies next to F.
//
//go:nosplit
func F3(x int) int { return x*7 + 3 }

// Drive runs f.
//
//go:nosplit
func Drive(f func()) int {
	f()
	return 1
}

// Rec calls itself.
//
//go:nosplit
func Rec(x int) int {
	if x <= 0 {
		return 1
	}
	return x*10 + recFn(x-1)
}

var recFn func(int) int

func init() { recFn = Rec }

//go:nosplit
func Variadic(a int, b ...int) int {
	s := a * 100
	for i := 0; i < len(b); i++ {
		s += b[i] * (i + 1)
	}
	return s
}

//go:nosplit
func VariadicOnly(b ...int) int {
	s := len(b) * 1000
	for i := 0; i < len(b); i++ {
		s += b[i] * (i + 1)
	}
	return s
}

//go:nosplit
func Two(a int, s string) (int, string) { return a + len(s), s }

//go:nosplit
func Err(a int) (*int, error) { return nil, nil }

//go:nosplit
func Iface(a interface{}) interface{} { return a }

// Methods.

type T struct {
	K int
	n string
}

//go:nosplit
func (t *T) PM(x int) int { return x*11 + t.K }

//go:nosplit
func (t T) VM(x int) int { return x*13 + t.K }

//go:nosplit
func (t *T) PV(x int, y ...int) int {
	s := x*17 + t.K
	for i := 0; i < len(y); i++ {
		s += y[i] * (i + 2)
	}
	return s
}

//go:nosplit
func (t *T) Other(x int) int { return x*19 + t.K }

// Same names on another type.
type U struct{ K int }

//go:nosplit
func (t *U) PM(x int) int { return x*23 + t.K }

//go:nosplit
func (t U) VM(x int) int { return x*29 + t.K }

type Doer interface{ PM(int) int }

// Emb promotes the methods of T.
type Emb struct {
	T
	X int
}

// Generics: G's instantiations with pointer types share their code.

type A1 struct{ V int }
type B1 struct{ V int }
type C1 struct{ V, W int }

//go:nosplit
func G[P any](p P, x int) int { return x*31 + 5 }

//go:nosplit
func H[P any](p P, x int) int { return x*37 + 7 }

type Box[P any] struct {
	P P
	K int
}

//go:nosplit
func (b *Box[P]) Get(x int) int { return x*41 + b.K }

//go:nosplit
func (b Box[P]) Val(x int) int { return x*43 + b.K }

// Variables.

type S struct {
	A int
	B int
}

var (
	V  = 7
	V2 = 8
	VS = S{1, 2}
	VI interface{}
)

// Reset gives all variables their initial values.
func Reset() {
	V, V2, VS, VI = 7, 8, S{1, 2}, nil
}
