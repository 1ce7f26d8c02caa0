// Package branch checks where the branches mockey writes lead (C13): targets are placed at every address pattern, generic
// implementations at every distance from their wrapper, and helper calls are told from others for every function of the
// binary.
package branch

import (
	"bytes"
	"debug/elf"
	"fmt"
	"os"
	"sort"
	"strings"
	"syscall"
	"unsafe"

	"github.com/bytedance/mockey"
	"github.com/bytedance/mockey/zzverif/zz"
)

const page = 4096

// mapAt maps memory at exactly addr, or tells that something is there already.
func mapAt(addr, size uintptr) bool {
	const fixedNoReplace = 0x100000
	r, _, e := syscall.Syscall6(syscall.SYS_MMAP, addr, size, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_ANON|syscall.MAP_PRIVATE|fixedNoReplace, ^uintptr(0), 0)
	if e != 0 {
		return false
	}
	if r != addr {
		unmap(r, size)
		return false
	}
	return true
}

func unmap(addr, size uintptr) { syscall.Syscall(syscall.SYS_MUNMAP, addr, size, 0) }

func protect(addr, size uintptr, prot uintptr) {
	if _, _, e := syscall.Syscall(syscall.SYS_MPROTECT, addr, size, prot); e != 0 {
		panic(e)
	}
}

const rw, rx = syscall.PROT_READ | syscall.PROT_WRITE, syscall.PROT_READ | syscall.PROT_EXEC

func bytesAt(addr, n uintptr) []byte { return unsafe.Slice((*byte)(ptr(addr)), n) }

//go:nocheckptr
func ptr(a uintptr) unsafe.Pointer { return *(*unsafe.Pointer)(unsafe.Pointer(&a)) }

type fn = func(x, y int) int
type gfn = func(info uintptr, x, y int) int

func funcAt(addr uintptr) (f fn) {
	obj := new(uintptr)
	*obj = addr
	*(*unsafe.Pointer)(unsafe.Pointer(&f)) = unsafe.Pointer(obj)
	return
}

func gfuncAt(addr uintptr) (f gfn) {
	obj := new(uintptr)
	*obj = addr
	*(*unsafe.Pointer)(unsafe.Pointer(&f)) = unsafe.Pointer(obj)
	return
}

// body of a function: 4 instructions up to 13 bytes, then two more; ret = (x*7-y)*3+... see want.
var body = []byte{0x48, 0x6b, 0xc0, 0x07, 0x48, 0x29, 0xd8, 0x90, 0x48, 0x6b, 0xc0, 0x03, 0x90, 0x48, 0x01, 0xd8, 0xff, 0xc0, 0xc3}

func want(x, y int) int { return (x*7-y)*3 + y + 1 }

// gbody takes its arguments one register later
var gbody = []byte{0x48, 0x89, 0xd8, 0x48, 0x6b, 0xc0, 0x07, 0x48, 0x29, 0xc8, 0x90, 0x90, 0x90, 0x48, 0x01, 0xc8, 0xff, 0xc0, 0xc3}

func gwant(x, y int) int { return x*7 - y + y + 1 }

// at runs use with code placed at addr.
func at(addr uintptr, code []byte, use func()) bool {
	lo := addr &^ (page - 1)
	hi := (addr + uintptr(len(code)) + 16 + page - 1) &^ (page - 1)
	if hi > 0x7ffffffff000 || lo < 0x10000 || !mapAt(lo, hi-lo) {
		return false
	}
	copy(bytesAt(addr, uintptr(len(code))), code)
	protect(lo, hi-lo, rx)
	use()
	unmap(lo, hi-lo)
	return true
}

func oneAddress(c *zz.Ctx, addr uintptr) {
	ok := at(addr, body, func() {
		f := funcAt(addr)
		var o fn
		m := mockey.Mock(f).Origin(&o).When(func(x, y int) bool { return x == 1 }).To(func(x, y int) int { return o(x, y) + 1000 }).Build()
		if got := f(5, 9); got != want(5, 9) {
			c.Fail("function at %#x: the original gives %d, want %d", addr, got, want(5, 9))
		}
		if got := f(1, 9); got != want(1, 9)+1000 {
			c.Fail("function at %#x: the hook gives %d, want %d", addr, got, want(1, 9)+1000)
		}
		m.UnPatch()
		if !bytes.Equal(bytesAt(addr, uintptr(len(body))), body) {
			c.Fail("function at %#x: not restored", addr)
		}
		if got := f(1, 9); got != want(1, 9) {
			c.Fail("function at %#x: unmocked gives %d, want %d", addr, got, want(1, 9))
		}
		c.Step()
	})
	if ok {
		c.Outcome("address used")
		c.State(uint64(addr))
	} else {
		c.Outcome("address not available")
	}
}

const block = 256

func blocks(name string, n int, skip int, y func(zz.Case) bool, run func(c *zz.Ctx, v int)) bool {
	for b := 0; b < n; b += block {
		b := b
		if !y(zz.Case{Text: func() string { return fmt.Sprintf("%s values %#x to %#x", name, b, b+block-1) }, Run: func(c *zz.Ctx) {
			for v := b; v < b+block && v < n && !c.Failed(); v += skip {
				run(c, v)
			}
		}}) {
			return false
		}
	}
	return true
}

func genAddresses(e *zz.Env, y func(zz.Case) bool) {
	type base struct{ c2, c1, c0 uintptr }
	bases := []base{{0x1234, 0x5678, 0x9a3c}, {0x2000, 0, 0x10}, {0x5fff, 0xffff, 0xff80}, {0x4080, 0x8000, 0x8001}}
	if !e.Thorough() {
		bases = bases[:2]
	}
	skip := 1
	if e.Mini() {
		skip = 37
	}
	for i, b := range bases {
		b := b
		for chunk := 0; chunk < 3; chunk++ {
			chunk := chunk
			n := 1 << 16
			if chunk == 2 {
				n = 1 << 15
			}
			if !blocks(fmt.Sprintf("base %d, bits %d to %d of the address:", i, chunk*16, chunk*16+15), n, skip, y, func(c *zz.Ctx, v int) {
				x := b
				switch chunk {
				case 0:
					x.c0 = uintptr(v)
				case 1:
					x.c1 = uintptr(v)
				case 2:
					x.c2 = uintptr(v)
				}
				oneAddress(c, x.c2<<32|x.c1<<16|x.c0)
			}) {
				return
			}
		}
	}
}

// Wrappers: call instructions at the fixed place wbase.

const wbase, wsize = uintptr(0x200000000000), uintptr(4 * page)

func wrapper(code []byte) func() {
	fresh := mapAt(wbase, wsize)
	if !fresh {
		protect(wbase, wsize, rw)
	}
	copy(bytesAt(wbase+wsize/2, 256), code)
	protect(wbase, wsize, rx)
	return func() {}
}

func call(rel int32) []byte {
	u := uint32(rel)
	return []byte{0xe8, byte(u), byte(u >> 8), byte(u >> 16), byte(u >> 24)}
}

// prefixes of instructions before the call
var prefixes = [][]byte{
	{},
	{0x90},
	{0x48, 0x89, 0xc3},
	{0x48, 0x8d, 0x80, 0xe8, 0, 0, 0}, // an instruction with the call's opcode as operand
	{0x48, 0xb9, 0xe8, 1, 0xc3, 0xe8, 0, 0, 0, 0, 0x48, 0x89, 0xd9},
}

func oneDisplacement(c *zz.Ctx, rel int32, pi int) {
	pre := prefixes[pi]
	start := wbase + wsize/2
	impl := uintptr(int64(start) + int64(len(pre)) + 5 + int64(rel))
	code := append(append(append([]byte{}, pre...), call(rel)...), 0xc3)
	wrapper(code)
	place := at
	if n := uintptr(len(gbody)); impl >= wbase && impl+n <= wbase+wsize {
		if impl < start+uintptr(len(code)) && impl+n > start {
			c.Outcome("displacement into the wrapper itself")
			return
		}
		place = func(addr uintptr, code []byte, use func()) bool {
			protect(wbase, wsize, rw)
			copy(bytesAt(addr, n), code)
			protect(wbase, wsize, rx)
			use()
			return true
		}
	}
	ok := place(impl, gbody, func() {
		w, f := funcAt(start), gfuncAt(impl)
		m := mockey.MockGeneric(w).When(func(x, y int) bool { return x == 1 }).To(func(info mockey.GenericInfo, x, y int) int { return int(info)*100 + x*10 + y }).Build()
		if got := f(77, 5, 9); got != gwant(5, 9) {
			c.Fail("displacement %#x: the original gives %d, want %d", rel, got, gwant(5, 9))
		}
		if got := f(77, 1, 9); got != 7719 {
			c.Fail("displacement %#x: the hook gives %d, want 7719", rel, got)
		}
		m.UnPatch()
		if !bytes.Equal(bytesAt(impl, uintptr(len(gbody))), gbody) {
			c.Fail("displacement %#x: not restored", rel)
		}
		c.Step()
	})
	if ok {
		c.Outcome("displacement used")
		c.State(uint64(uint32(rel)) | uint64(pi)<<32)
	} else {
		c.Outcome("displacement not available")
	}
}

func genDisplacements(e *zz.Env, y func(zz.Case) bool) {
	others := []uint32{0, 0x7fff, 0x8000, 0xffff, 0x5a5a, 1}
	if !e.Thorough() {
		others = others[:4]
	}
	skip := 1
	if e.Mini() {
		skip = 101
	}
	for oi, o := range others {
		o, pi := o, oi%len(prefixes)
		if !blocks(fmt.Sprintf("low half of the displacement, high half %#x, prefix %x:", o, prefixes[pi]), 1<<16, skip, y, func(c *zz.Ctx, v int) {
			oneDisplacement(c, int32(o<<16|uint32(v)), pi)
		}) {
			return
		}
		pi2 := (oi + 2) % len(prefixes)
		if !blocks(fmt.Sprintf("high half of the displacement, low half %#x, prefix %x:", o, prefixes[pi2]), 1<<16, skip, y, func(c *zz.Ctx, v int) {
			oneDisplacement(c, int32(uint32(v)<<16|o), pi2)
		}) {
			return
		}
	}
	for pi := range prefixes {
		pi := pi
		// single bits and their neighbours, both signs
		if !y(zz.Case{Text: func() string { return fmt.Sprintf("powers of two, prefix %x", prefixes[pi]) }, Run: func(c *zz.Ctx) {
			for b := 0; b < 32; b++ {
				for d := -3; d <= 3; d++ {
					oneDisplacement(c, int32(uint32(int64(1)<<b+int64(d))), pi)
					oneDisplacement(c, int32(uint32(-(int64(1)<<b)+int64(d))), pi)
				}
			}
		}}) {
			return
		}
	}
}

// Helper calls.

type symbol struct {
	name       string
	addr, size uintptr
}

var textSyms []symbol

func symbols() []symbol {
	if textSyms != nil {
		return textSyms
	}
	f, err := elf.Open("/proc/self/exe")
	zz.Must(err)
	defer f.Close()
	syms, err := f.Symbols()
	zz.Must(err)
	text := f.Section(".text")
	for _, s := range syms {
		if elf.ST_TYPE(s.Info) == elf.STT_FUNC && s.Value >= text.Addr && s.Value < text.Addr+text.Size {
			textSyms = append(textSyms, symbol{s.Name, uintptr(s.Value), uintptr(s.Size)})
		}
	}
	sort.Slice(textSyms, func(i, j int) bool { return textSyms[i].addr < textSyms[j].addr })
	return textSyms
}

// helperArea is placed within reach of the text.
var helperArea uintptr

func helperSetup() {
	if helperArea != 0 {
		return
	}
	s := symbols()
	for a := (s[len(s)-1].addr + 64<<20) &^ (page - 1); ; a += 1 << 20 {
		if mapAt(a, 2*page) {
			helperArea = a
			return
		}
	}
}

// ignored tells whether a call of addr is ignored in a wrapper that also calls an implementation, before or after it.
func ignored(c *zz.Ctx, addr uintptr, before bool) (ok bool, msg string) {
	helperSetup()
	protect(helperArea, 2*page, rw)
	code := bytesAt(helperArea, 2*page)
	for i := range code {
		code[i] = 0xcc
	}
	w, impl := helperArea+64, helperArea+page
	copy(code[page:], gbody)
	pos := w
	emit := func(to uintptr) {
		copy(bytesAt(pos, 5), call(int32(int64(to)-int64(pos)-5)))
		pos += 5
	}
	if before {
		emit(addr)
		emit(impl)
	} else {
		emit(impl)
		emit(addr)
	}
	*bytesAtP(pos) = 0xc3
	protect(helperArea, 2*page, rx)
	var m *mockey.Mocker
	msg = zz.PanicText(func() {
		m = mockey.MockGeneric(funcAt(w)).To(func(info mockey.GenericInfo, x, y int) int { return int(info)*100 + x*10 + y }).Build()
	})
	if msg != "" {
		return false, msg
	}
	if got := gfuncAt(impl)(77, 1, 9); got != 7719 {
		m.UnPatch()
		return true, fmt.Sprintf("the implementation gives %d, want 7719", got)
	}
	m.UnPatch()
	return true, ""
}

func bytesAtP(a uintptr) *byte { return (*byte)(ptr(a)) }

func isRaceHelper(name string) bool {
	return strings.HasPrefix(name, "runtime.race")
}

func genHelpers(e *zz.Env, y func(zz.Case) bool) {
	var duff []symbol
	syms := symbols()
	for _, s := range syms {
		if s.name == "runtime.duffcopy" || s.name == "runtime.duffzero" {
			duff = append(duff, s)
		}
	}
	for _, d := range duff {
		d := d
		// where the helper is entered: in front of each of its moves
		entries := map[uintptr]bool{}
		for _, a := range duffEntries(d) {
			entries[a] = true
		}
		lo, hi := d.addr-32, d.addr+d.size+64
		for a := lo; a < hi; a++ {
			a := a
			if !y(zz.Case{Text: func() string { return fmt.Sprintf("call of %s%+d", d.name, int64(a)-int64(d.addr)) }, Run: func(c *zz.Ctx) {
				for _, before := range []bool{true, false} {
					got, msg := ignored(c, a, before)
					c.Step()
					inside := a >= d.addr && a < d.addr+d.size
					for _, o := range duff {
						if a >= o.addr && a < o.addr+o.size {
							inside = true
						}
					}
					switch {
					case got && !inside:
						c.Fail("a call of %s%+d, which is outside, is taken for a helper call", d.name, int64(a)-int64(d.addr))
					case !got && entries[a]:
						c.Fail("a call of %s%+d is not taken for a helper call: %s", d.name, int64(a)-int64(d.addr), zz.Short(msg))
					case got && msg != "":
						c.Fail("with a call of %s%+d %s", d.name, int64(a)-int64(d.addr), msg)
					}
					if got {
						c.Outcome("helper")
					} else {
						c.Outcome("no helper")
					}
				}
				c.State(uint64(a))
			}}) {
				return
			}
		}
	}
	step := e.Pick(40, 1, 1)
	for i := 0; i < len(syms); i += step {
		s := syms[i]
		if strings.HasPrefix(s.name, "runtime.duff") || isRaceHelper(s.name) {
			continue
		}
		if !y(zz.Case{Text: func() string { return "call of " + s.name }, Run: func(c *zz.Ctx) {
			got, _ := ignored(c, s.addr, true)
			got2, _ := ignored(c, s.addr, false)
			c.Steps(2)
			if got || got2 {
				c.Fail("a call of %s is taken for a helper call", s.name)
			}
			c.State(uint64(s.addr))
			c.Outcome("no helper")
		}}) {
			return
		}
	}
}

// duffEntries: the offsets at which the compiler enters the helper. duffzero is entered before groups of four stores (or
// single ones), duffcopy before each 16-byte move; all groups have one size.
func duffEntries(d symbol) (res []uintptr) {
	code := bytesAt(d.addr, d.size)
	if d.name == "runtime.duffcopy" {
		// 64 moves of the same code, then ret
		n := uintptr(bytes.IndexByte(code[4:], code[0]) + 4)
		for n < d.size && !bytes.Equal(code[:n], code[n:2*n]) {
			n++
		}
		for k := uintptr(0); k < 64 && k*n < d.size; k++ {
			res = append(res, d.addr+k*n)
		}
		return
	}
	n := uintptr(4)
	for n < d.size/2 && !bytes.Equal(code[:n], code[n:2*n]) {
		n++
	}
	for k := uintptr(0); k < 16 && k*n < d.size; k++ {
		res = append(res, d.addr+k*n)
	}
	return
}

func init() {
	zz.Register("C13",
		zz.Suite{Name: "target addresses", Bound: func(e *zz.Env) string {
			return fmt.Sprintf("each 16-bit chunk of the 47-bit address complete, %d patterns of the others", e.Pick(2, 2, 4))
		}, Gen: genAddresses},
		zz.Suite{Name: "call displacements", Bound: func(e *zz.Env) string {
			return fmt.Sprintf("each half of the 32-bit displacement complete, %d patterns of the other, call after 5 prefixes", e.Pick(4, 4, 6))
		}, Gen: genDisplacements},
		zz.Suite{Name: "helper calls", Bound: func(e *zz.Env) string {
			return "every address in and around the runtime's copy helpers, every function of the binary"
		}, Gen: genHelpers},
	)
	_ = os.Args
}
