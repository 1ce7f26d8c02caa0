// Command ba executes the arm64 branch code and the arm64 call scanner for every pattern.
package main

import (
	"encoding/binary"
	"fmt"
	"unsafe"

	"github.com/bytedance/mockey/zzverif/armcopy"
	"github.com/bytedance/mockey/zzverif/branchcode"
	"github.com/bytedance/mockey/zzverif/zz"
)

const (
	nop = 0xd503201f
	ret = 0xd65f03c0
)

var mem = make([]uint32, 4096)

func addrOf(i int) uintptr { return uintptr(unsafe.Pointer(&mem[i])) }

// scan puts the instructions at mem[at] and scans from there.
func scan(at int, insts ...uint32) (res uintptr, msg string) {
	for i, w := range insts {
		binary.LittleEndian.PutUint32((*[4]byte)(unsafe.Pointer(&mem[at+i]))[:], w)
	}
	msg = zz.PanicText(func() { res = armcopy.GetGenericJumpAddr(addrOf(at), 4096) })
	return
}

func bl(imm uint32) uint32 { return 0x94000000 | imm&0x3ffffff }

func target(i int, imm uint32) uintptr {
	return addrOf(i) + uintptr(int64(int32(imm<<6)>>6)*4)
}

func gen(e *zz.Env, y func(zz.Case) bool) {
	const block = 4096
	emit := func(text string, n int, imm func(i int) uint32) bool {
		for b := 0; b < n; b += block {
			b := b
			if !y(zz.Case{Text: func() string { return fmt.Sprintf("%s, from %#x", text, b) }, Run: func(c *zz.Ctx) {
				for i := b; i < b+block && i < n; i++ {
					x := imm(i)
					at := i & 7
					pre := i >> 3 & 3
					code := append([]uint32{nop, 0xaa0103e0, 0xf94003e0}[:pre:pre], bl(x), nop, ret)
					got, msg := scan(at, code...)
					if msg != "" {
						c.Fail("call with offset %#x refused: %s", x, zz.Short(msg))
						return
					}
					if want := target(at+pre, x); got != want {
						c.Fail("call with offset %#x at %#x leads to %#x, want %#x", x, addrOf(at+pre), got, want)
						return
					}
					c.Step()
				}
				c.State(zz.Hash(fmt.Sprint(text, b)))
			}}) {
				return false
			}
		}
		return true
	}
	if e.Thorough() {
		emit("every call offset", 1<<26, func(i int) uint32 { return uint32(i) })
	} else {
		for _, hi := range []uint32{0, 0x1ff, 0x200, 0x3ff, 0x155} {
			hi := hi
			if !emit(fmt.Sprintf("low 16 bits of the call offset, high bits %#x", hi), 1<<16, func(i int) uint32 { return hi<<16 | uint32(i) }) {
				return
			}
		}
		for _, lo := range []uint32{0, 1, 0x7fff, 0x8000, 0xffff} {
			lo := lo
			if !emit(fmt.Sprintf("high 10 bits of the call offset, low bits %#x", lo), 1<<10, func(i int) uint32 { return uint32(i)<<16 | lo }) {
				return
			}
		}
	}
	// helper calls before and after
	for k := 0; k < 4; k++ {
		k := k
		if !y(zz.Case{Text: func() string { return fmt.Sprintf("helper calls, form %d", k) }, Run: func(c *zz.Ctx) {
			for d := uint32(1); d < 400; d++ {
				h, x := d*97, d*31+7
				var code []uint32
				hi, xi := 0, 1
				switch k {
				case 0:
					code = []uint32{bl(h), bl(x), ret}
				case 1:
					code = []uint32{bl(x), bl(h), ret}
					hi, xi = 1, 0
				case 2:
					code = []uint32{bl(h), nop, bl(x), ret, bl(5)}
					hi, xi = 0, 2
				case 3:
					code = []uint32{nop, bl(x), ret, bl(h)} // the second call is not part of the function
					hi, xi = 3, 1
				}
				for _, known := range []bool{true, false} {
					armcopy.Helpers = map[uintptr]bool{target(hi, h): known}
					got, msg := scan(0, code...)
					armcopy.Helpers = nil
					refuse := !known && k != 3
					switch {
					case refuse && msg == "":
						c.Fail("two calls accepted")
					case !refuse && msg != "":
						c.Fail("refused: %s", zz.Short(msg))
					case !refuse && got != target(xi, x):
						c.Fail("leads to %#x, want %#x", got, target(xi, x))
					}
					c.Step()
				}
			}
		}}) {
			return
		}
	}
	// the replaced bytes are whole instructions
	y(zz.Case{Text: func() string { return "cut of the entry" }, Run: func(c *zz.Ctx) {
		buf := make([]byte, 64)
		for i := 0; i < 64; i += 4 {
			binary.LittleEndian.PutUint32(buf[i:], nop)
		}
		for a := uint64(0); a < 1<<16; a += 257 {
			n := len(armcopy.BranchInto(uintptr(a << 20)))
			cut := armcopy.Disassemble(buf, n, true)
			if cut < n || cut%4 != 0 {
				c.Fail("%d bytes are replaced, cut at %d", n, cut)
			}
			c.Step()
		}
	}})
}

func main() {
	a := &branchcode.Arch{Name: "arm64", Run: branchcode.Arm64, Context: 26, Scratch: []int{16, 17, 19, 20, 21, 22, 23, 24, 25}, To: armcopy.BranchTo, Into: armcopy.BranchInto}
	zz.Register("C13",
		zz.Suite{Name: "arm64 branch code", Bound: func(e *zz.Env) string {
			return "each 16-bit chunk of the address complete, with patterns of the others; every combination of special chunks"
		}, Gen: a.Gen},
		zz.Suite{Name: "arm64 calls", Bound: func(e *zz.Env) string {
			return "call offsets by halves (thorough: all 2^26), four forms of helper calls"
		}, Gen: gen},
	)
	zz.Main()
}
