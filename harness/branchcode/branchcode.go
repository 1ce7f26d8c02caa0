// Package branchcode executes branch code on a small machine model.
package branchcode

import (
	"encoding/binary"
	"fmt"

	"github.com/bytedance/mockey/zzverif/zz"
)

// Machine is a register file; memory is only read through Load.
type Machine struct {
	Regs    [32]uint64
	Written [32]bool
	PC      uint64
	Load    func(addr uint64) uint64
}

// Amd64 executes code until it jumps away.
func Amd64(code []byte, m *Machine) error {
	pos := 0
	for steps := 0; steps < 8; steps++ {
		if pos >= len(code) {
			return fmt.Errorf("execution runs off the end of the code")
		}
		c := code[pos:]
		rex := byte(0)
		if c[0] == 0x66 && len(c) > 1 && c[1] == 0x90 {
			pos += 2
			continue
		}
		if c[0]&0xf0 == 0x40 {
			rex = c[0]
			c = c[1:]
			pos++
		}
		b := int(rex&1) * 8
		switch {
		case len(c) >= 1 && c[0] == 0x90:
			pos++
		case len(c) >= 9 && rex&8 != 0 && c[0]&0xf8 == 0xb8:
			r := int(c[0]&7) + b
			m.Regs[r], m.Written[r] = binary.LittleEndian.Uint64(c[1:]), true
			pos += 9
		case len(c) >= 5 && rex&8 == 0 && c[0]&0xf8 == 0xb8:
			r := int(c[0]&7) + b
			m.Regs[r], m.Written[r] = uint64(binary.LittleEndian.Uint32(c[1:])), true
			pos += 5
		case len(c) >= 2 && c[0] == 0xff && c[1]&0x38 == 0x20:
			r := int(c[1]&7) + b
			switch {
			case c[1]>>6 == 3:
				m.PC = m.Regs[r]
				return nil
			case c[1]>>6 == 0 && c[1]&7 == 5: // [rip+disp]
				return fmt.Errorf("memory operand relative to the instruction pointer in % x", code)
			case c[1]>>6 == 0 && c[1]&7 != 4:
				m.PC = m.Load(m.Regs[r])
				return nil
			}
			return fmt.Errorf("unknown jump in % x", code)
		default:
			return fmt.Errorf("unknown instruction at %d in % x", pos, code)
		}
	}
	return fmt.Errorf("no jump")
}

// Arm64 executes code until it jumps away.
func Arm64(code []byte, m *Machine) error {
	if len(code)%4 != 0 {
		return fmt.Errorf("code of %d bytes", len(code))
	}
	for pos := 0; pos < len(code); pos += 4 {
		w := binary.LittleEndian.Uint32(code[pos:])
		rd, rn := int(w&31), int(w>>5&31)
		hw, imm := uint(w>>21&3)*16, uint64(w>>5&0xffff)
		set := func(r int, v uint64) {
			if r != 31 {
				m.Regs[r], m.Written[r] = v, true
			}
		}
		switch {
		case w == 0xd503201f: // NOP
		case w&0xff800000 == 0xd2800000: // MOVZ
			set(rd, imm<<hw)
		case w&0xff800000 == 0x92800000: // MOVN
			set(rd, ^(imm << hw))
		case w&0xff800000 == 0xf2800000: // MOVK
			set(rd, m.Regs[rd]&^(0xffff<<hw)|imm<<hw)
		case w&0xffe0ffe0 == 0xaa0003e0: // MOV (register)
			set(rd, m.Regs[w>>16&31])
		case w&0xffc00000 == 0xf9400000: // LDR (unsigned offset)
			if rn == 31 {
				return fmt.Errorf("load from the stack pointer in % x", code)
			}
			set(rd, m.Load(m.Regs[rn]+uint64(w>>10&0xfff)*8))
		case w&0xff000000 == 0x58000000: // LDR (literal)
			off := pos + int(int32(w<<8)>>13)*4
			if off < 0 || off+8 > len(code) {
				return fmt.Errorf("literal out of the code in % x", code)
			}
			set(rd, binary.LittleEndian.Uint64(code[off:]))
		case w&0xfffffc1f == 0xd61f0000: // BR
			if rn == 31 {
				return fmt.Errorf("branch to the zero register in % x", code)
			}
			m.PC = m.Regs[rn]
			return nil
		default:
			return fmt.Errorf("unknown instruction %08x at %d in % x", w, pos, code)
		}
	}
	return fmt.Errorf("execution runs off the end of the code")
}

// Arch is what the checks need to know about an architecture.
type Arch struct {
	Name    string
	Run     func([]byte, *Machine) error
	Scratch []int // registers that may be changed
	Context int   // closure context register
	To      func(uintptr) []byte
	Into    func(uintptr) []byte
}

func (a *Arch) one(c *zz.Ctx, addr uint64) {
	may := map[int]bool{a.Context: true}
	for _, r := range a.Scratch {
		may[r] = true
	}
	for k := 0; k < 2; k++ {
		m := &Machine{}
		for i := range m.Regs {
			m.Regs[i] = 0x1111111111111111 * uint64(i%15+1)
		}
		before := m.Regs
		loads := 0
		val := addr*0x9e3779b97f4a7c15 + 0x1234567
		m.Load = func(x uint64) uint64 {
			loads++
			if x != addr {
				return 0xbadbadbadbadbad
			}
			return val
		}
		name, code, want := "BranchTo", []byte(nil), addr
		if k == 0 {
			code = a.To(uintptr(addr))
		} else {
			name, code, want = "BranchInto", a.Into(uintptr(addr)), val
		}
		// what follows the code is the rest of the overwritten function
		err := a.Run(append(append([]byte{}, code...), code...)[:len(code)], m)
		if err != nil {
			c.Fail("%s(%#x): %v", name, addr, err)
			return
		}
		if m.PC != want {
			c.Fail("%s(%#x) goes to %#x, want %#x (% x)", name, addr, m.PC, want, code)
			return
		}
		if k == 1 && m.Regs[a.Context] != addr {
			c.Fail("BranchInto(%#x) leaves %#x in the closure context register", addr, m.Regs[a.Context])
			return
		}
		for i := range m.Regs {
			if !may[i] && (m.Written[i] || m.Regs[i] != before[i]) {
				c.Fail("%s(%#x) changes register %d", name, addr, i)
				return
			}
		}
	}
	c.Step()
}

// Gen enumerates each 16-bit chunk completely.
func (a *Arch) Gen(e *zz.Env, y func(zz.Case) bool) {
	bases := []uint64{0, ^uint64(0), 0x0123456789abcdef, 0xfedcba9876543210, 0x8000800080008000, 0x00007f0000c0ffee}
	bases = bases[:e.Pick(2, 4, 6)]
	const block = 1024
	for _, b := range bases {
		b := b
		for k := uint(0); k < 4; k++ {
			k := k
			for v := uint64(0); v < 1<<16; v += block {
				v := v
				if !y(zz.Case{Text: func() string {
					return fmt.Sprintf("%s branch code for addresses %#x with bits %d to %d from %#x to %#x", a.Name, b, k*16, k*16+15, v, v+block-1)
				}, Run: func(c *zz.Ctx) {
					for x := v; x < v+block && !c.Failed(); x++ {
						a.one(c, b&^(0xffff<<(k*16))|x<<(k*16))
					}
					c.State(zz.Hash(fmt.Sprint(a.Name, b, k, v)))
				}}) {
					return
				}
			}
		}
	}
	// every combination of special chunk values
	sp := []uint64{0, 1, 0x7fff, 0x8000, 0xffff, 0x48ba}
	n := len(sp)
	for i := 0; i < n*n; i++ {
		i := i
		if !y(zz.Case{Text: func() string { return fmt.Sprintf("%s branch code, special chunks %d", a.Name, i) }, Run: func(c *zz.Ctx) {
			for j := 0; j < n*n && !c.Failed(); j++ {
				a.one(c, sp[i%n]|sp[i/n]<<16|sp[j%n]<<32|sp[j/n]<<48)
			}
			c.State(zz.Hash(fmt.Sprint(a.Name, "special", i)))
		}}) {
			return
		}
	}
}
