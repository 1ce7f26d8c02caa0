// Package abi checks that arguments and results survive mocking for every signature (C10).
package abi

import (
	"fmt"
	"reflect"
	"strings"
	"syscall"
	"unsafe"

	"github.com/bytedance/mockey"
	"github.com/bytedance/mockey/zzverif/vals"
	"github.com/bytedance/mockey/zzverif/zz"
)

// Targets of any type: a piece of machine code that jumps to a function value made by reflect, twelve one-byte
// instructions away from its entry.

const page = 4096

var codePage []byte

// target returns a function value of type t whose code is at slot and runs impl.
func target(slot int, t reflect.Type, impl func([]reflect.Value) []reflect.Value) reflect.Value {
	if codePage == nil {
		var err error
		codePage, err = syscall.Mmap(-1, 0, page, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_ANON|syscall.MAP_PRIVATE)
		zz.Must(err)
	}
	zz.Must(syscall.Mprotect(codePage, syscall.PROT_READ|syscall.PROT_WRITE))
	f := reflect.MakeFunc(t, impl)
	slots[slot] = f // the closure is not visible to the garbage collector in the code
	fp := reflect.New(t)
	fp.Elem().Set(f)
	closure := *(*uintptr)(fp.UnsafePointer())
	c := codePage[slot*64 : slot*64+64]
	for i := range c {
		c[i] = 0xcc
	}
	for i := 0; i < 12; i++ {
		c[i] = 0x90
	}
	c[12], c[13] = 0x48, 0xba
	*(*uintptr)(unsafe.Pointer(&c[14])) = closure
	c[22], c[23] = 0xff, 0x22
	zz.Must(syscall.Mprotect(codePage, syscall.PROT_READ|syscall.PROT_EXEC))
	obj := new(uintptr)
	*obj = uintptr(unsafe.Pointer(&c[0]))
	res := reflect.New(t)
	*(*unsafe.Pointer)(res.UnsafePointer()) = unsafe.Pointer(obj)
	return res.Elem()
}

var slots [8]reflect.Value

// wrapper of a generic implementation at slot
func wrapper(slot, impl int, t reflect.Type) reflect.Value {
	zz.Must(syscall.Mprotect(codePage, syscall.PROT_READ|syscall.PROT_WRITE))
	c := codePage[slot*64 : slot*64+64]
	rel := int32((impl-slot)*64 - 5)
	c[0] = 0xe8
	*(*int32)(unsafe.Pointer(&c[1])) = rel
	c[5] = 0xc3
	zz.Must(syscall.Mprotect(codePage, syscall.PROT_READ|syscall.PROT_EXEC))
	obj := new(uintptr)
	*obj = uintptr(unsafe.Pointer(&c[0]))
	res := reflect.New(t)
	*(*unsafe.Pointer)(res.UnsafePointer()) = unsafe.Pointer(obj)
	return res.Elem()
}

// Types: one for each class of passing arguments, and combinations.

type (
	empty struct{}
	mixed struct {
		A int8
		B float32
		C uint16
		D float64
	}
	arr1 [1]string
	arr2 [2]int
	five struct{ A, B, C, D, E uint64 }
	nest struct {
		P *int
		S [1]arr1
		E empty
		F float64
	}
	huge struct {
		A [40]uint32
		B string
		P *int
	}
	tail0 struct {
		A int
		Z [0]int
	}
	blank struct {
		A int32
		_ int32
		B byte
	}
)

var basis = []reflect.Type{
	reflect.TypeOf(int(0)),
	reflect.TypeOf(float64(0)),
	reflect.TypeOf(""),
	reflect.TypeOf((*interface{})(nil)).Elem(),
	reflect.TypeOf(int8(0)),
	reflect.TypeOf(float32(0)),
	reflect.TypeOf(arr2{}),
	reflect.TypeOf(empty{}),
	reflect.TypeOf(mixed{}),
	reflect.TypeOf(huge{}),
	reflect.TypeOf([]byte(nil)),
	reflect.TypeOf(five{}),
	reflect.TypeOf((*int)(nil)),
	reflect.TypeOf(nest{}),
	reflect.TypeOf(false),
	reflect.TypeOf(complex128(0)),
	reflect.TypeOf((func(int) string)(nil)),
	reflect.TypeOf((*error)(nil)).Elem(),
	reflect.TypeOf(map[string]int(nil)),
	reflect.TypeOf(arr1{}),
	reflect.TypeOf(complex64(0)),
	reflect.TypeOf(uint16(0)),
	reflect.TypeOf(tail0{}),
	reflect.TypeOf((chan int)(nil)),
	reflect.TypeOf([0]string{}),
	reflect.TypeOf(blank{}),
	reflect.TypeOf(uintptr(0)),
	reflect.TypeOf(unsafe.Pointer(nil)),
}

func next() uint64 { return vals.Next() }

func fresh(t reflect.Type) reflect.Value { return vals.Fresh(t) }

func same(a, b []reflect.Value) string { return vals.Same(a, b) }

func freshAll(ts []reflect.Type) []reflect.Value { return vals.FreshAll(ts) }

type sig struct {
	in, out  []reflect.Type
	variadic bool
	generic  bool
	short    bool // condition, hook and handle without the first parameter
}

func (s sig) typ() reflect.Type { return reflect.FuncOf(s.in, s.out, s.variadic) }

func (s sig) String() string {
	n := ""
	if s.generic {
		n = " generic"
	}
	if s.short {
		n += " (condition, hook and handle without the first parameter)"
	}
	return s.typ().String() + n
}

func callF(f reflect.Value, variadic bool, args []reflect.Value) []reflect.Value {
	if variadic {
		return f.CallSlice(args)
	}
	return f.Call(args)
}

// run makes a target of the signature and compares what every party sees.
func (s sig) run(c *zz.Ctx) {
	codeIn := s.in
	if s.generic {
		codeIn = append([]reflect.Type{reflect.TypeOf(mockey.GenericInfo(0))}, s.in...)
	}
	codeType := reflect.FuncOf(codeIn, s.out, s.variadic)
	var seenOrig, seenCond, seenHook []reflect.Value
	var origRes, hookRes, handleArgs, handleRes []reflect.Value
	code := target(0, codeType, func(args []reflect.Value) []reflect.Value {
		seenOrig = args
		return origRes
	})
	f := code
	if s.generic {
		f = wrapper(1, 0, s.typ())
	}
	drop := 0
	if s.short {
		drop = 1
	}
	handle := reflect.New(reflect.FuncOf(s.in[drop:], s.out, s.variadic))
	flag, mode := false, 0
	cond := reflect.MakeFunc(reflect.FuncOf(s.in[drop:], []reflect.Type{reflect.TypeOf(false)}, s.variadic), func(args []reflect.Value) []reflect.Value {
		seenCond = args
		return []reflect.Value{reflect.ValueOf(flag)}
	})
	hook := reflect.MakeFunc(reflect.FuncOf(s.in[drop:], s.out, s.variadic), func(args []reflect.Value) []reflect.Value {
		seenHook = args
		if mode == 1 {
			handleRes = callF(handle.Elem(), s.variadic, handleArgs)
		}
		return hookRes
	})
	var m *mockey.Mocker
	opts := mockey.Mock(f.Interface())
	if s.generic {
		opts = mockey.MockGeneric(f.Interface())
	}
	m = opts.Origin(handle.Interface()).When(cond.Interface()).To(hook.Interface()).Build()
	defer m.UnPatch()
	bad := func(what, msg string) bool {
		if msg == "" {
			return false
		}
		c.Fail("%s: %s", what, msg)
		return true
	}
	call := func() (args, res []reflect.Value) {
		seenOrig, seenCond, seenHook, handleRes = nil, nil, nil, nil
		args = freshAll(codeIn)
		if s.variadic && next()%3 == 0 {
			args[len(args)-1] = reflect.Zero(codeIn[len(codeIn)-1])
		}
		origRes, hookRes = freshAll(s.out), freshAll(s.out)
		handleArgs = freshAll(s.in[drop:])
		res = callF(code, s.variadic, args)
		c.Step()
		return
	}
	off := drop
	if s.generic {
		off++
	}
	// not matched: the original
	args, res := call()
	if bad("condition", same(seenCond, args[off:])) || bad("original", same(seenOrig, args)) || bad("result of the original", same(res, origRes)) {
		return
	}
	if seenHook != nil {
		c.Fail("the hook was called")
		return
	}
	flag = true
	args, res = call()
	if bad("condition", same(seenCond, args[off:])) || bad("hook", same(seenHook, args[off:])) || bad("result of the hook", same(res, hookRes)) {
		return
	}
	if seenOrig != nil {
		c.Fail("the original was called")
		return
	}
	mode = 1
	args, res = call()
	want := append(append([]reflect.Value{}, args[:off]...), handleArgs...)
	if bad("condition", same(seenCond, args[off:])) || bad("hook", same(seenHook, args[off:])) || bad("result of the hook", same(res, hookRes)) ||
		bad("original called with other arguments", same(seenOrig, want)) || bad("result of the handle", same(handleRes, origRes)) {
		return
	}
	// fixed results
	fixed := freshAll(s.out)
	var ret []interface{}
	for _, v := range fixed {
		ret = append(ret, v.Interface())
	}
	if len(s.out) > 0 {
		m.Return(ret...)
		_, res = call()
		if bad("result set by Return", same(res, fixed)) {
			return
		}
	}
	m.UnPatch()
	args, res = call()
	if bad("original after undo", same(seenOrig, args)) || bad("result after undo", same(res, origRes)) {
		return
	}
	c.State(zz.Hash(s.String()))
}

func genDynamic(e *zz.Env, y func(zz.Case) bool) {
	ok := true
	emit := func(s sig) {
		s.in, s.out = append([]reflect.Type{}, s.in...), append([]reflect.Type{}, s.out...)
		ok = ok && y(zz.Case{Text: s.String, Run: s.run})
	}
	all := func(s sig) {
		emit(s)
		if len(s.in) > 0 {
			sh := s
			sh.short = true
			if !s.variadic || len(s.in) > 1 {
				emit(sh)
			}
		}
		g := s
		g.generic = true
		emit(g)
	}
	words := func(n, width int, f func([]reflect.Type)) {
		var rec func(w []reflect.Type)
		rec = func(w []reflect.Type) {
			if !ok {
				return
			}
			if len(w) == n {
				f(w)
				return
			}
			for _, t := range basis[:width] {
				rec(append(w[:len(w):len(w)], t))
			}
		}
		rec(nil)
	}
	nb := len(basis)
	// parameters
	resultOf := func(w []reflect.Type) []reflect.Type { return w }
	for n := 0; n <= 4; n++ {
		width := [][]int{{1, nb, 12, 0, 0}, {1, nb, nb, 14, 6}, {1, nb, nb, 16, 8}}[e.Pick(0, 1, 2)][n]
		if width == 0 {
			continue
		}
		words(n, width, func(w []reflect.Type) {
			all(sig{in: w})
			all(sig{in: w, out: resultOf(w)})
			all(sig{out: w})
			if n > 0 {
				v := append([]reflect.Type{}, w...)
				v[n-1] = reflect.SliceOf(v[n-1])
				all(sig{in: v, variadic: true, out: w[:1]})
			}
		})
	}
	// one parameter, one result of all types, one of each in front
	if !e.Mini() {
		for _, a := range basis {
			for _, b := range basis {
				all(sig{in: []reflect.Type{a}, out: []reflect.Type{b}})
				all(sig{in: []reflect.Type{b, a}, out: []reflect.Type{b, a, b}})
			}
		}
	}
	// registers run out
	for _, a := range basis {
		for n := 3; n <= e.Pick(10, 18, 34); n++ {
			var w []reflect.Type
			for i := 0; i < n; i++ {
				w = append(w, a)
			}
			all(sig{in: w})
			all(sig{in: w, out: w})
			for _, b := range basis[:e.Pick(1, 6, nb)] {
				all(sig{in: append(w[:n:n], b, a), out: append(w[:n:n], b, a)})
				all(sig{in: append([]reflect.Type{b}, w...), out: []reflect.Type{b}})
			}
		}
	}
}

func init() {
	zz.Register("C10", zz.Suite{Name: "signatures", Bound: func(e *zz.Env) string {
		return fmt.Sprintf("%s parameters and results over %d types, up to %d of one type with another among them; variadic, generic, and conditions, hooks and handles without first parameter",
			[]string{"up to 2", "up to 3", "up to 4"}[e.Pick(0, 1, 2)], len(basis), e.Pick(10, 18, 34))
	}, Gen: genDynamic})
	_ = strings.Join
}
