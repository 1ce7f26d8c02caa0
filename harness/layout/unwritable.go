package layout

import (
	"fmt"
	"strings"
	"syscall"
	"unsafe"

	"github.com/bytedance/mockey"
	"github.com/bytedance/mockey/zzverif/zz"
)

// Targets whose memory cannot be made writable: a request to mock them has to be refused and to change nothing. The code
// lies in a shared mapping of a memory file, mapped through a descriptor that may or may not write.

const (
	uMock  = iota // Mock(target).Return(c).Build()
	uMock2        // of another target in the same memory
	uPatch
	uUnpatch
	uReturn // a reconfiguration
	uRO
	uRW
	uEnter
	uExit
	uAll
)

var uNames = [...]string{"Mock(A)", "Mock(B)", "Patch", "UnPatch", "Return", "memory read-only", "memory writable", "enter", "exit", "UnPatchAll"}

type uOp struct{ k, h int }

var (
	uMem    []byte
	uFd     [2]int // may write, may not
	uFailed bool
)

func uSetup() bool {
	if uMem != nil || uFailed {
		return uMem != nil
	}
	name := []byte("code\x00")
	fd, _, e := syscall.Syscall(319 /* memfd_create */, uintptr(unsafe.Pointer(&name[0])), 0, 0)
	if e != 0 {
		uFailed = true
		return false
	}
	zz.Must(syscall.Ftruncate(int(fd), page))
	ro, err := syscall.Open(fmt.Sprintf("/proc/self/fd/%d", fd), syscall.O_RDONLY, 0)
	if err != nil {
		uFailed = true
		return false
	}
	mem, err := syscall.Mmap(int(fd), 0, page, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
	if err != nil {
		uFailed = true
		return false
	}
	for off, v := range map[int]int32{0: 5, 256: 6} {
		n := off
		for i := 0; i < 12; i++ {
			n += copy(mem[n:], []byte{0x90})
		}
		copy(mem[n:], []byte{0xb8, byte(v), 0, 0, 0, 0xc3})
	}
	uFd = [2]int{int(fd), ro}
	uMem = mem
	return true
}

func uMap(which int) {
	a, _, e := syscall.Syscall6(syscall.SYS_MMAP, uintptr(unsafe.Pointer(&uMem[0])), page, syscall.PROT_READ|syscall.PROT_EXEC, syscall.MAP_SHARED|0x10 /* MAP_FIXED */, uintptr(uFd[which]), 0)
	if e != 0 || a != uintptr(unsafe.Pointer(&uMem[0])) {
		panic(fmt.Sprint("mmap: ", e))
	}
}

func uFunc(off int) fnType {
	obj := new(uintptr)
	*obj = uintptr(unsafe.Pointer(&uMem[off]))
	var f fnType
	*(*unsafe.Pointer)(unsafe.Pointer(&f)) = unsafe.Pointer(obj)
	return f
}

// uState is the reference model: per target the stack of applied mocks.
type uState struct {
	ro     bool
	hs     []uHandle // created mocks
	scopes int
}

type uHandle struct {
	t, c    int
	applied bool
	scope   int
	when    int // order of application
}

func (s uState) clone() uState {
	s.hs = append([]uHandle(nil), s.hs...)
	return s
}

func (s uState) top(t int) int {
	r := -1
	for i, h := range s.hs {
		if h.applied && h.t == t && (r < 0 || h.when > s.hs[r].when) {
			r = i
		}
	}
	return r
}

func (s uState) clash(t, self int) bool {
	for i, h := range s.hs {
		if i != self && h.applied && h.t == t && h.scope == s.scopes {
			return true
		}
	}
	return false
}

func (s uState) inScope() bool {
	for _, h := range s.hs {
		if h.applied && h.scope == s.scopes {
			return true
		}
	}
	return false
}

// legal: undoing is only asked for while memory is writable, innermost first.
func (s uState) legal(o uOp) bool {
	switch o.k {
	case uMock, uMock2:
		return len(s.hs) < 3 && !s.clash(o.k-uMock, -1)
	case uPatch:
		return !s.hs[o.h].applied && !s.clash(s.hs[o.h].t, o.h)
	case uUnpatch:
		return s.hs[o.h].applied && !s.ro && s.top(s.hs[o.h].t) == o.h
	case uReturn:
		h := s.hs[o.h]
		return !s.ro && (!h.applied || s.top(h.t) == o.h) && !s.clash(h.t, o.h)
	case uRO:
		return !s.ro
	case uRW:
		return s.ro
	case uEnter:
		return s.scopes < 1
	case uExit:
		return s.scopes > 0 && !(s.ro && s.inScope())
	case uAll:
		return !(s.ro && s.inScope())
	}
	return false
}

func (s *uState) undoScope() {
	for i := range s.hs {
		if s.hs[i].scope == s.scopes {
			s.hs[i].applied = false
		}
	}
}

// step; refused tells that the request has to be refused.
func (s *uState) step(o uOp, n int) (refused bool) {
	apply := func(h int) {
		s.hs[h].applied, s.hs[h].scope, s.hs[h].when = true, s.scopes, n
	}
	switch o.k {
	case uMock, uMock2:
		if s.ro {
			return true
		}
		s.hs = append(s.hs, uHandle{t: o.k - uMock, c: 100 + n})
		apply(len(s.hs) - 1)
	case uPatch:
		if s.ro {
			return true
		}
		apply(o.h)
	case uUnpatch:
		s.hs[o.h].applied = false
	case uReturn:
		s.hs[o.h].c = 100 + n
		apply(o.h)
	case uRO, uRW:
		s.ro = o.k == uRO
	case uEnter:
		s.scopes++
	case uExit:
		s.undoScope()
		s.scopes--
	case uAll:
		s.undoScope()
	}
	return false
}

func (s uState) want(t int) int {
	if h := s.top(t); h >= 0 {
		return s.hs[h].c
	}
	return 5 + t
}

func genUnwritable(e *zz.Env, y func(zz.Case) bool) {
	depth := e.Pick(5, 6, 8)
	alive := true
	var prog []uOp
	var rec func(s uState)
	rec = func(s uState) {
		if !alive {
			return
		}
		if len(prog) > 0 && len(prog) == depth {
			refused := false
			t := uState{}
			for i, o := range prog {
				if t.step(o, i) {
					refused = true
				}
			}
			if refused {
				p := append([]uOp(nil), prog...)
				alive = y(zz.Case{Text: func() string { return uText(p) }, Run: func(c *zz.Ctx) { uRun(c, p) }})
			}
			return
		}
		try := func(o uOp) {
			if !alive || !s.legal(o) {
				return
			}
			n := s.clone()
			n.step(o, len(prog))
			prog = append(prog, o)
			rec(n)
			prog = prog[:len(prog)-1]
		}
		for _, k := range []int{uMock, uMock2, uRO, uRW, uEnter, uExit, uAll} {
			try(uOp{k: k})
		}
		for h := range s.hs {
			for _, k := range []int{uPatch, uUnpatch, uReturn} {
				try(uOp{k, h})
			}
		}
	}
	rec(uState{})
}

func uText(p []uOp) string {
	var s []string
	for _, o := range p {
		x := uNames[o.k]
		if o.k >= uPatch && o.k <= uReturn {
			x = fmt.Sprintf("m%d.%s", o.h, x)
		}
		s = append(s, x)
	}
	return strings.Join(s, "; ")
}

func uRun(c *zz.Ctx, p []uOp) {
	if !uSetup() {
		c.Outcome("memory files not available")
		return
	}
	uMap(0)
	f := [2]fnType{uFunc(0), uFunc(256)}
	var s uState
	var hs []*mockey.Mocker
	pc := 0
	var run func()
	run = func() {
		for pc < len(p) && !c.Failed() {
			o := p[pc]
			refused := s.step(o, pc)
			k := 100 + pc
			at := fmt.Sprintf("#%d %s", pc, uText(p[pc:pc+1]))
			pc++
			msg := ""
			switch o.k {
			case uMock, uMock2:
				msg = zz.PanicText(func() { hs = append(hs, mockey.Mock(f[o.k-uMock]).Return(k).Build()) })
			case uPatch:
				msg = zz.PanicText(func() { hs[o.h].Patch() })
			case uUnpatch:
				msg = zz.PanicText(func() { hs[o.h].UnPatch() })
			case uReturn:
				msg = zz.PanicText(func() { hs[o.h].Return(k) })
			case uRO:
				uMap(1)
			case uRW:
				uMap(0)
			case uAll:
				msg = zz.PanicText(func() { mockey.UnPatchAll() })
			case uEnter:
				inner := func() { run() }
				if s.scopes == 1 {
					mockey.PatchConvey("s", ft{}, inner)
				}
			case uExit:
				return
			}
			if o.k == uEnter {
				// the scope has ended, by its exit or by the end of the program
				if s.scopes > 0 {
					s.undoScope()
					s.scopes--
				}
				at = "after the scope"
			}
			c.Step()
			if (msg != "") != refused && !c.Failed() {
				c.Fail("%s: panics with %q, want a refusal: %v", at, zz.Short(msg), refused)
				return
			}
			uObserve(c, at, f, s, hs)
		}
		if s.scopes > 0 && s.ro {
			uMap(0) // so that the scope can end
			s.ro = false
		}
	}
	run()
	uMap(0)
	s.ro = false
	zz.PanicText(func() { mockey.UnPatchAll() })
	for i := range s.hs {
		s.hs[i].applied = false
	}
	uObserve(c, "after UnPatchAll", f, s, hs)
}

func uObserve(c *zz.Ctx, at string, f [2]fnType, s uState, hs []*mockey.Mocker) {
	if c.Failed() {
		return
	}
	for t := range f {
		b := make([]int, len(hs))
		for i, h := range hs {
			b[i] = h.Times()
		}
		want := s.want(t)
		if got := f[t](1, 2); got != want {
			c.Fail("%s: target %c gives %d, want %d", at, 'A'+t, got, want)
			return
		}
		for i, h := range hs {
			n := 0
			if i == s.top(t) {
				n = 1
			}
			if h.Times() != b[i]+n {
				c.Fail("%s: a call of target %c changes Times of m%d from %d to %d", at, 'A'+t, i, b[i], h.Times())
				return
			}
			if !s.hs[i].applied && h.Times() != 0 {
				c.Fail("%s: m%d is not applied, its Times is %d", at, i, h.Times())
				return
			}
		}
	}
	c.State(zz.Hash(fmt.Sprint(s)))
}

func init() {
	zz.Register("C04", zz.Suite{Name: "memory that cannot be written", Bound: func(e *zz.Env) string {
		return fmt.Sprintf("all programs of %d operations (mocks of two targets, Patch, UnPatch, Return, a scope, UnPatchAll, memory becoming unwritable and writable) in which a request is refused", e.Pick(5, 6, 8))
	}, Gen: genUnwritable})
}
