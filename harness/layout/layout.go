// Package layout mocks functions made of generated machine code: every layout of the leading instructions, every position
// relative to page boundaries, every length (C12).
package layout

import (
	"bufio"
	"bytes"
	"fmt"
	"os"
	"runtime"
	"strings"
	"syscall"
	"unsafe"

	"github.com/bytedance/mockey"
	"github.com/bytedance/mockey/zzverif/zz"
)

const page = 4096

// The code area: guard page, pages for code, guard page.
const nPages = 4

var (
	area []byte // all pages incl. guards
	code []byte // the pages in between
)

func base() uintptr { return uintptr(unsafe.Pointer(&code[0])) }

func setup() {
	if area != nil {
		return
	}
	var err error
	area, err = syscall.Mmap(-1, 0, (nPages+2)*page, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_ANON|syscall.MAP_PRIVATE)
	zz.Must(err)
	code = area[page : (nPages+1)*page]
	zz.Must(syscall.Mprotect(area[:page], syscall.PROT_NONE))
	zz.Must(syscall.Mprotect(area[(nPages+1)*page:], syscall.PROT_NONE))
}

type fnType = func(x, y int) int

// function makes a function value for the code at offset off.
func function(off int) fnType {
	obj := new(uintptr)
	*obj = base() + uintptr(off)
	var f fnType
	*(*unsafe.Pointer)(unsafe.Pointer(&f)) = unsafe.Pointer(obj)
	return f
}

// Instructions by length: each changes AX or BX (the arguments; AX is the result), and no other order of them gives the
// same result for the values used. DX is not used (closure context).
var menu = map[int][][]byte{
	1:  {{0x93}}, // xchg eax, ebx
	2:  {{0x01, 0xd8}, {0xff, 0xc3}},
	3:  {{0x48, 0x29, 0xd8}, {0x83, 0xc0, 0x13}},
	4:  {{0x48, 0x6b, 0xc0, 0x07}, {0x48, 0x83, 0xc3, 0x0b}},
	5:  {{0x05, 0x15, 0x16, 0, 0}},
	6:  {{0x48, 0x05, 0x71, 0x12, 0, 0}, {0x69, 0xdb, 0x1f, 0, 0, 0}},
	7:  {{0x48, 0x69, 0xc0, 0x25, 0, 0, 0}},
	8:  {{0x48, 0x8d, 0x84, 0x03, 0x35, 0x01, 0, 0}},
	9:  {{0x3e, 0x48, 0x8d, 0x84, 0x43, 0x41, 0x01, 0, 0}},
	10: {{0x48, 0xbb, 0x67, 0x45, 0x23, 1, 0, 0, 0, 0}},
	11: {{0x2e, 0x48, 0xbb, 0x7f, 0x45, 0x23, 1, 0, 0, 0, 0}},
	12: {{0x48, 0xf7, 0x84, 0x24, 0, 0, 0, 0, 0x11, 0x22, 0x33, 0x44}}, // test qword [rsp], imm
	13: {{0x3e, 0x48, 0xf7, 0x84, 0x24, 8, 0, 0, 0, 0x11, 0x22, 0x33, 0x44}},
	15: {{0x66, 0x66, 0x66, 0x66, 0x66, 0x66, 0x2e, 0x0f, 0x1f, 0x84, 0, 0, 0, 0, 0}},
}

var tail = []byte{0x48, 0x6b, 0xc0, 0x03, 0x48, 0x29, 0xd8, 0xff, 0xc0}

const replaced = 12 // bytes of the branch written over the entry; the oracle uses it only to tell what must be accepted

type testcase struct {
	off    int
	insts  [][]byte
	ret    []byte // nil: ret
	pad    int    // distance of the next function
	unsafe bool
	twice  bool
	expect int // 0 accepted, 1 refused, 2 either
	note   string
}

func (t testcase) String() string {
	var s []string
	for _, i := range t.insts {
		s = append(s, fmt.Sprintf("%x", i))
	}
	return fmt.Sprintf("%s offset %#x in its page, %s ret %x next function after %d bytes unsafe %v", t.note, t.off%page, strings.Join(s, " "), t.ret, t.pad, t.unsafe)
}

func neighbour(v int32) []byte {
	return []byte{0xb8, byte(v), byte(v >> 8), byte(v >> 16), byte(v >> 24), 0xc3}
}

var before = make([]byte, nPages*page)

// protection returns the protections of the pages of the code area, "" if all are r-x.
func protection() string {
	f, err := os.Open("/proc/self/maps")
	zz.Must(err)
	defer f.Close()
	sc := bufio.NewScanner(f)
	lo, hi := base(), base()+nPages*page
	bad := ""
	for sc.Scan() {
		var a, b uintptr
		var p string
		if n, _ := fmt.Sscanf(sc.Text(), "%x-%x %s", &a, &b, &p); n != 3 {
			continue
		}
		if strings.HasPrefix(p, "rwx") {
			bad += " (" + sc.Text() + ")"
		}
		if b <= lo || a >= hi {
			continue
		}
		if p[:3] != "r-x" {
			bad += " " + sc.Text()
		}
	}
	return bad
}

func (t testcase) run(c *zz.Ctx) {
	setup()
	zz.Must(syscall.Mprotect(code, syscall.PROT_READ|syscall.PROT_WRITE))
	for i := range code {
		code[i] = 0xcc
	}
	n := t.off
	for _, i := range t.insts {
		n += copy(code[n:], i)
	}
	if t.ret == nil {
		n += copy(code[n:], tail)
		n += copy(code[n:], []byte{0xc3})
	} else {
		n += copy(code[n:], t.ret)
	}
	end := n
	_ = end
	next := n + t.pad
	copy(code[next:], neighbour(424242))
	prev := t.off - 6
	if prev >= 0 {
		copy(code[prev:], neighbour(171717))
	}
	zz.Must(syscall.Mprotect(code, syscall.PROT_READ|syscall.PROT_EXEC))
	copy(before, code)
	f, fn, fp := function(t.off), function(next), function(prev)
	want := [3]int{f(5, 9), f(-3, 1000), f(1, 77)}
	check := func(when string, mocked bool, o fnType) bool {
		c.Step()
		for k, a := range [3][2]int{{5, 9}, {-3, 1000}, {1, 77}} {
			w := want[k]
			if mocked && k == 2 {
				w++
			}
			if got := f(a[0], a[1]); got != w {
				c.Fail("%s: f(%d,%d) gives %d, want %d", when, a[0], a[1], got, w)
				return false
			}
			if o != nil {
				if got := o(a[0], a[1]); got != want[k] {
					c.Fail("%s: origin(%d,%d) gives %d, want %d", when, a[0], a[1], got, want[k])
					return false
				}
			}
		}
		clobbered := mocked && t.unsafe && next < t.off+16
		if !clobbered && fn(0, 0) != 424242 {
			c.Fail("%s: the next function gives %d", when, fn(0, 0))
			return false
		}
		if prev >= 0 && fp(0, 0) != 171717 {
			c.Fail("%s: the function before gives %d", when, fp(0, 0))
			return false
		}
		return true
	}
	restored := func(when string) bool {
		if !bytes.Equal(before, code) {
			for i := range code {
				if code[i] != before[i] {
					c.Fail("%s: byte %d of the function is %#x, was %#x", when, i-t.off, code[i], before[i])
					return false
				}
			}
		}
		return true
	}
	var cut int
	for _, i := range append(append([][]byte{}, t.insts...), tail[:4], tail[4:7], tail[7:], []byte{0xc3}) {
		if cut >= replaced {
			break
		}
		cut += len(i)
	}
	if cut < replaced {
		cut = replaced
	}
	var o fnType
	var m *mockey.Mocker
	build := func() string {
		return zz.PanicText(func() {
			b := mockey.Mock(f)
			if t.unsafe {
				b = mockey.MockUnsafe(f)
			}
			m = b.Origin(&o).When(func(x, y int) bool { return x == 1 }).To(func(x, y int) int { return o(x, y) + 1 }).Build()
		})
	}
	rounds := 1
	if t.twice {
		rounds = 2
	}
	for r := 0; r < rounds; r++ {
		o = nil
		msg := build()
		if msg != "" {
			c.Outcome("refused")
			if t.expect == 0 {
				c.Fail("Mock refused: %s", zz.Short(msg))
				return
			}
			if !restored("after the refusal") || !check("after the refusal", false, nil) {
				return
			}
			if p := protection(); p != "" {
				c.Fail("after the refusal memory is left as%s", p)
			}
			return
		}
		c.Outcome("accepted")
		if t.expect == 1 {
			c.Fail("Mock accepted a function of %d bytes", end-t.off)
			return
		}
		for i := range code {
			if code[i] != before[i] && (i < t.off || i >= t.off+cut) {
				c.Fail("byte %d of the function is changed, its replaced instructions are %d bytes", i-t.off, cut)
				return
			}
		}
		if !check("mocked", true, o) {
			return
		}
		m.UnPatch()
		if !restored("after UnPatch") || !check("after UnPatch", false, o) {
			return
		}
		if p := protection(); p != "" {
			c.Fail("after UnPatch memory is left as%s", p)
			return
		}
	}
	c.State(zz.Hash(fmt.Sprint(cut, t.off%page, end-t.off, want)))
}

// layouts yields the leading instructions of all compositions of at least total bytes.
func layouts(lens []int, variants bool, total int, y func([][]byte) bool) bool {
	var rec func(cur [][]byte, n int) bool
	rec = func(cur [][]byte, n int) bool {
		if n >= total {
			return y(append([][]byte{}, cur...))
		}
		for _, l := range lens {
			vs := menu[l]
			if !variants {
				vs = vs[:1]
			}
			for vi := range vs {
				// the second variant where a length repeats
				v := vs[(vi+len(cur))%len(vs)]
				if !rec(append(cur, v), n+l) {
					return false
				}
			}
		}
		return true
	}
	return rec(nil, 0)
}

func genLayouts(e *zz.Env, y func(zz.Case) bool) {
	lens := []int{1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 15}
	layouts(lens, e.Thorough(), replaced, func(is [][]byte) bool {
		if e.Mini() && len(is) > 3 {
			return true
		}
		t := testcase{off: 16, insts: is, note: "layout"}
		return y(zz.Case{Text: t.String, Run: t.run})
	})
}

func genOffsets(e *zz.Env, y func(zz.Case) bool) {
	var shapes [][][]byte
	for _, s := range [][]int{{1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1}, {4, 2, 1, 3, 4}, {5, 4, 7}, {3, 7, 2, 4}, {10, 11}, {8, 3, 15}, {11, 13}} {
		var is [][]byte
		for _, l := range s {
			is = append(is, menu[l][0])
		}
		shapes = append(shapes, is)
	}
	var offs []int
	if e.Thorough() {
		for o := 0; o <= 2*page; o++ {
			offs = append(offs, o)
		}
	} else {
		for _, b := range []int{0, page, 2 * page, 3 * page} {
			for d := -40; d <= 40; d++ {
				if b+d >= 0 {
					offs = append(offs, b+d)
				}
			}
		}
		for o := 64; o < page; o += 61 {
			offs = append(offs, o)
		}
	}
	if e.Mini() {
		offs = nil
		for d := -20; d <= 4; d++ {
			offs = append(offs, page+d)
		}
	}
	// the last ones end where the mapping does
	for i := range shapes {
		n := 0
		for _, x := range shapes[i] {
			n += len(x)
		}
		t := testcase{off: nPages*page - (n + len(tail) + 1) - 6, insts: shapes[i], twice: true, note: "at the end of the mapping,"}
		if !y(zz.Case{Text: t.String, Run: t.run}) {
			return
		}
	}
	for _, o := range offs {
		for _, is := range shapes {
			t := testcase{off: o, insts: is, twice: true, note: "position"}
			if !y(zz.Case{Text: t.String, Run: t.run}) {
				return
			}
		}
	}
}

func genLengths(e *zz.Env, y func(zz.Case) bool) {
	rets := [][]byte{{0xc3}, {0xc2, 0, 0}, {0xf3, 0xc3}}
	max := e.Pick(14, 20, 28)
	for _, uns := range []bool{false, true} {
		for _, ret := range rets {
			for n := 0; n <= max; n++ {
				// bodies of n bytes before the return
				bodies := [][][]byte{}
				for _, lens := range [][]int{{1}, {2, 1}, {3, 1}, {4, 3, 1}, {5, 2, 1}, {7, 4, 1}, {10, 4, 1}} {
					var is [][]byte
					left := n
					for k := 0; left > 0; k++ {
						l := lens[k%len(lens)]
						for l > left {
							l--
						}
						if l > 0 && menu[l] == nil {
							l = 1
						}
						is = append(is, menu[l][k%len(menu[l])])
						left -= l
					}
					bodies = append(bodies, is)
				}
				for _, is := range bodies {
					for _, pad := range []int{0, 1, 5, 16} {
						for _, off := range []int{16, page - 3, page - n - 1} {
							total := n + len(ret)
							t := testcase{off: off, insts: is, ret: ret, pad: pad, unsafe: uns, note: "length"}
							switch {
							case uns:
								// the next function may be overwritten while the mock is applied
							case total < replaced:
								t.expect = 1
							case n >= replaced:
								t.expect = 0
							default:
								t.expect = 2 // the return instruction itself is among the replaced bytes
							}
							if off < 8 {
								continue
							}
							if !y(zz.Case{Text: t.String, Run: t.run}) {
								return
							}
						}
					}
				}
			}
		}
	}
}

// Mappings.

//go:nosplit
func target(x int) int { return x*3 + 1 }

//go:nosplit
func target2(x int) int { return x*5 + 1 }

var fieldVar = 3

// mappings returns the number of memory mappings that mockey can have made: anonymous ones that are or were executable,
// or single pages.
func mappings() (n int, exec int) {
	b, err := os.ReadFile("/proc/self/maps")
	zz.Must(err)
	for _, l := range strings.Split(string(b), "\n") {
		f := strings.Fields(l)
		if len(f) < 5 || len(f) > 5 || f[4] != "0" {
			continue
		}
		var a, z uintptr
		fmt.Sscanf(f[0], "%x-%x", &a, &z)
		if f[1][2] == 'x' {
			exec += int(z-a) / page
		} else if z-a <= 64*page {
			n += int(z-a) / page
		}
	}
	return
}

var mapOps = []struct {
	name string
	do   func(keep *[]interface{})
}{
	{"mock, undo", func(keep *[]interface{}) { mockey.Mock(target).Return(1).Build().UnPatch() }},
	{"mock with origin, call, undo", func(keep *[]interface{}) {
		var o func(int) int
		m := mockey.Mock(target).Origin(&o).To(func(x int) int { return o(x) + 1 }).Build()
		target(3)
		m.UnPatch()
	}},
	{"mock, undo, apply, undo", func(keep *[]interface{}) {
		mockey.Mock(target).Return(1).Build().UnPatch().Patch().UnPatch()
	}},
	{"mock, reconfigure three times, undo", func(keep *[]interface{}) {
		mockey.Mock(target).Return(1).Build().Return(2).Return(3).When(func(int) bool { return true }).UnPatch()
	}},
	{"scope with two mocks", func(keep *[]interface{}) {
		mockey.PatchConvey("s", ft{}, func() {
			mockey.Mock(target).Return(1).Build()
			mockey.Mock(target2).Return(1).Build()
			target(1)
		})
	}},
	{"nested scopes with one target", func(keep *[]interface{}) {
		mockey.PatchConvey("s", ft{}, func() {
			mockey.Mock(target).Return(1).Build()
			mockey.PatchConvey("t", func() {
				mockey.Mock(target).Return(2).Build()
				target(1)
			})
		})
	}},
	{"refused re-mock", func(keep *[]interface{}) {
		m := mockey.Mock(target).Return(1).Build()
		zz.PanicText(func() { mockey.Mock(target).Return(2).Build() })
		m.UnPatch()
	}},
	{"mock, release, build, undo", func(keep *[]interface{}) {
		mockey.Mock(target).Return(1).Build().Release().Return(2).Build().UnPatch()
	}},
	{"mock kept for the next step", func(keep *[]interface{}) {
		m := mockey.Mock(target2).Return(1).Build()
		m.UnPatch()
		*keep = append(*keep, m)
	}},
	{"unsafe mock", func(keep *[]interface{}) { mockey.MockUnsafe(target).Return(1).Build().UnPatch() }},
	{"generic mock", func(keep *[]interface{}) { mockey.MockGeneric(gen[int]).Return(1).Build().UnPatch() }},
	{"UnPatchAll", func(keep *[]interface{}) {
		mockey.PatchConvey("s", ft{}, func() {
			mockey.Mock(target).Return(1).Build()
			mockey.Mock(target2).Return(1).Build()
			mockey.UnPatchAll()
		})
	}},
}

//go:nosplit
func gen[P any](p P) int { return 17 }

type ft struct{}

func (ft) Fail() {}

const repeats = 25

func genMappings(e *zz.Env, y func(zz.Case) bool) {
	max := e.Pick(1, 2, 3)
	var rec func(w []int) bool
	rec = func(w []int) bool {
		if len(w) > 0 {
			w := append([]int{}, w...)
			ok := y(zz.Case{Text: func() string {
				var s []string
				for _, i := range w {
					s = append(s, mapOps[i].name)
				}
				return fmt.Sprintf("%d times: %s", repeats, strings.Join(s, "; "))
			}, Run: func(c *zz.Ctx) {
				settle()
				n0, x0 := mappings()
				var keep []interface{}
				for i := 0; i < repeats; i++ {
					for _, o := range w {
						mapOps[o].do(&keep)
						c.Step()
					}
					keep = keep[:0]
				}
				if target(2) != 7 || target2(2) != 11 {
					c.Fail("the targets are not restored")
					return
				}
				keep = nil
				n1, x1 := 0, 0
				for i := 0; i < 20; i++ {
					settle()
					if n1, x1 = mappings(); x1-x0 < repeats/2 && n1-n0 < repeats/2 {
						c.State(zz.Hash(fmt.Sprint(w)))
						return
					}
				}
				c.Fail("after garbage collections %d executable and %d other small anonymous pages are left that were not there before", x1-x0, n1-n0)
			}})
			if !ok {
				return false
			}
		}
		if len(w) == max {
			return true
		}
		for i := range mapOps {
			if !rec(append(w, i)) {
				return false
			}
		}
		return true
	}
	rec(nil)
}

// settle runs garbage collections and lets finalizers run.
func settle() {
	for i := 0; i < 3; i++ {
		runtime.GC()
		done := make(chan bool)
		mark(done)
		runtime.GC()
		<-done
	}
}

//go:noinline
func mark(done chan bool) {
	type big struct {
		a [64]int
		p *int
	}
	runtime.SetFinalizer(&big{p: new(int)}, func(*big) { close(done) })
}

func init() {
	zz.Register("C12",
		zz.Suite{Name: "instruction layouts", Bound: func(e *zz.Env) string {
			return "every sequence of leading instructions with lengths 1-13 and 15 up to the replaced bytes"
		}, Gen: genLayouts},
		zz.Suite{Name: "entry positions", Bound: func(e *zz.Env) string {
			return "entries around each page boundary (thorough: every offset of two pages), six layouts"
		}, Gen: genOffsets},
		zz.Suite{Name: "function lengths", Bound: func(e *zz.Env) string {
			return fmt.Sprintf("every length to %d, 3 return instructions, 7 layouts, 4 distances of the next function", e.Pick(14, 20, 28))
		}, Gen: genLengths},
		zz.Suite{Name: "mappings", Bound: func(e *zz.Env) string {
			return fmt.Sprintf("words of length <= %d over %d histories, each %d times", e.Pick(1, 2, 3), len(mapOps), repeats)
		}, Gen: genMappings},
	)
}
