// Package gens holds what the generated generic functions of C14 share: it knows nothing of mockey.
package gens

import (
	"fmt"
	"reflect"
	"runtime"
	"strings"
	"unsafe"
)

// The type basis.
type (
	A1    struct{ X int }
	A2    struct{ Y, Z string }
	MyInt int
	Str   string
	Pair  struct {
		A int
		B string
	}
	Twin struct {
		A int
		B string
	}
	Big struct {
		A [9]uint64
		S string
		P *int
	}
	Huge  [300]uint64
	Empty struct{}
	Ints  []int
	Fn    func(int) string
	Any   interface{}
)

func (a *A1) Name() string   { return fmt.Sprint("a1", a.X) }
func (a *A2) Name() string   { return "a2" + a.Y }
func (m MyInt) Name() string { return fmt.Sprint("my", int(m)) }
func (s Str) Name() string   { return "str" + string(s) }

// Namer constrains by method.
type Namer interface{ Name() string }

// Num constrains by type set.
type Num interface {
	~int | ~string | ~float64 | ~uint8
}

// Box is used in signatures.
type Box[T any] struct {
	A T
	N int
}

// Rec is one run of an original.
type Rec struct {
	Decl  int
	Entry uintptr
	Args  []interface{}
}

var (
	Log   []Rec
	Out   []interface{}    // what originals return
	Outs  []unsafe.Pointer // the same
	Types []reflect.Type   // the types of the arguments
	Grow  func()           // makes the stack of a new goroutine big enough
)

// Enter is called by each original with its parameter types as it uses them.
func Enter(decl int, used, args []interface{}) []interface{} {
	enter(decl, args)
	return Out
}

// EnterOf is called by a function that the original calls.
func EnterOf(decl int, args []interface{}) []interface{} {
	enter(decl, args)
	return Out
}

// EnterAt is called by an original that uses no type but its parameter types.
func EnterAt(decl int, used []interface{}, ptrs []uintptr) []unsafe.Pointer {
	if len(ptrs) != len(Types) {
		panic("arguments")
	}
	var args []interface{}
	for i, p := range ptrs {
		args = append(args, reflect.NewAt(Types[i], *(*unsafe.Pointer)(unsafe.Pointer(&p))).Elem().Interface())
	}
	enter(decl, args)
	return Outs
}

func enter(decl int, args []interface{}) {
	var pcs [3]uintptr
	runtime.Callers(3, pcs[:])
	fs := runtime.CallersFrames(pcs[:])
	for {
		f, more := fs.Next()
		if !strings.Contains(f.Function, ".help") {
			Log = append(Log, Rec{decl, f.Entry, args})
			return
		}
		if !more {
			panic("caller unknown")
		}
	}
}

// Way is a way of calling an instance; it has the type of the target.
type Way struct {
	Name string
	F    interface{}
}

// Inst is an instance of a declaration.
type Inst struct {
	Name   string
	Types  []reflect.Type
	Target interface{}
	Alts   []Way // other function values of the target
	Ways   []Way
}

// Decl is a generic function or method.
type Decl struct {
	ID     int
	Desc   string
	Method string // its name if it is a method
	Ptr    bool   // of a pointer
	Used   []int  // type parameters as they come first in the dictionary
	Blank  bool   // nothing uses the type parameters: its dictionaries are empty
	Insts  []Inst
}

var Decls []*Decl

func Add(d *Decl) { Decls = append(Decls, d) }

// T is the type of *p.
func T(p interface{}) reflect.Type { return reflect.TypeOf(p).Elem() }
