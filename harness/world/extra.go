package world

import (
	"bytes"
	"debug/elf"
	"fmt"
	"os"
	"reflect"
	"runtime"
	"strings"
	"unsafe"

	"github.com/bytedance/mockey"
	"github.com/bytedance/mockey/zzverif/tg"
	"github.com/bytedance/mockey/zzverif/zz"
)

type request struct {
	what string
	f    func()
}

// fitting and unfitting functions for a target func(int) int or method (*T, int) int
func badHooks(t int) []interface{} {
	l := []interface{}{
		nil, 3, "x", new(int), (*func(int) int)(nil),
		func(x string) int { return 1 },
		func(x int) {},
		func(x int) string { return "" },
		func(x int) (int, int) { return 1, 1 },
		func(x int, y int) int { return 1 },
		func(x ...int) int { return 1 },
		func(x int8) int { return 1 },
	}
	if t == tM {
		l = append(l, func() int { return 1 }, func(t *tg.U, x int) int { return 1 }, func(t tg.T, x int) int { return 1 }, func(x int, t *tg.T) int { return 1 })
	}
	if t == tG1 {
		l = append(l, func(p *tg.B1, x int) int { return 1 }, func(x int, i mockey.GenericInfo) int { return 1 })
	} else {
		l = append(l, func(i mockey.GenericInfo, x int) int { return 1 })
	}
	return l
}

func badWhens(t int) []interface{} {
	l := []interface{}{
		nil, 3, true,
		func(x int) {},
		func(x int) int { return 1 },
		func(x int) (bool, bool) { return true, true },
		func(x string) bool { return true },
		func(x ...int) bool { return true },
		func(x, y int) bool { return true },
	}
	if t == tM {
		l = append(l, func() bool { return true }, func(t *tg.U, x int) bool { return true }, func(t tg.T, x int) bool { return true })
	}
	return l
}

func badOrigins(t int) []interface{} {
	f := func(x int) int { return x }
	l := []interface{}{
		nil, 3, f, new(int),
		new(func(string) int), new(func(int)), new(func(int) string), new(func(...int) int), new(func(int, int) int), new(func(int) (int, error)),
	}
	if t == tM {
		l = append(l, new(func() int), new(func(*tg.U, int) int), new(func(tg.T, int) int))
	}
	return l
}

func typeText(v interface{}) string { return fmt.Sprintf("%T", v) }

// tiny ends before the bytes mockey replaces.
//
//go:nosplit
//go:noinline
func tiny() {}

// values of no mocked variable's type, some of which could be converted to it
var badValues = []interface{}{"x", 1.5i, &tg.V, int8(3), 3.0, uint(3), otherInt(3), []int{3}}

type otherInt int

// badVars makes every request about variables that must be refused in the current state.
func badVars(in *interp) {
	n := 0
	refuse := func(what string, f func()) {
		n++
		if zz.PanicText(f) == "" {
			in.c.Fail("%s is not refused", what)
		}
	}
	for _, w := range badValues {
		w := w
		for id, k := range in.m.mocks {
			if h := in.h[id]; h != nil && h.v != nil && !k.dead {
				refuse("MockerVar.To of a wrong type", func() { h.v.To(w) })
			}
		}
		refuse("MockValue.To of a wrong type", func() { mockey.MockValue(&tg.V2).To(w) })
	}
	for _, id := range in.m.scopes[in.m.cur()] {
		if k := in.m.mocks[id]; isVar(k.target) {
			refuse("MockValue of a mocked variable", func() { in.mockVar(k.target, 77) })
		}
	}
	in.c.Steps(n)
	ex := in.extra
	in.extra = nil
	if !in.c.Failed() {
		in.vars("after refused requests")
	}
	in.extra = ex
}

// badRequests makes every request that must be refused in the current state and checks that it is, and that nothing changes.
func badRequests(in *interp) {
	var reqs []request
	add := func(what string, f func()) { reqs = append(reqs, request{what, f}) }
	cur := in.m.scopes[in.m.cur()]
	for _, id := range cur {
		k := in.m.mocks[id]
		t := k.target
		switch {
		case isVar(t):
			add("MockValue of a mocked variable", func() { in.mockVar(t, 77) })
		default:
			fs := fnsets[t]
			add("Mock of a mocked target", func() { fs.mock().Return(77).Build() })
			add("Mock of a mocked target with To and Origin", func() {
				o := &originRef{v: fs.newOrigin(id)}
				fs.mock().Origin(o.v).To(fs.toOrigin(1, id, o)).Build()
			})
			add("Mock of a mocked target with filter", func() { fs.mock().When(fs.when(wPos, 0)).Return(78).ExcludeCurrentGoRoutine().Build() })
		}
	}
	for id, k := range in.m.mocks {
		h := in.h[id]
		if h == nil || k.dead {
			continue
		}
		if h.v != nil {
			v := h.v
			for _, w := range badValues {
				w := w
				add("MockerVar.To of a wrong type", func() { v.To(w) })
			}
			continue
		}
		if k.applied && !in.m.top(id) {
			continue
		}
		m, t := h.m, k.target
		for _, b := range badHooks(t) {
			b := b
			add("Mocker.To("+typeText(b)+")", func() { m.To(b) })
		}
		for _, b := range badWhens(t) {
			b := b
			add("Mocker.When("+typeText(b)+")", func() { m.When(b) })
		}
		for _, b := range badOrigins(t) {
			b := b
			add("Mocker.Origin("+typeText(b)+")", func() { m.Origin(b) })
		}
		if len(k.rules) != 1 {
			fs := fnsets[t]
			add("Mocker.When with several rules", func() { m.When(fs.when(wPos, 0)) })
			add("Mocker.To with several rules", func() { m.To(fs.to(3, 0)) })
			add("Mocker.Return with several rules", func() { m.Return(3) })
		}
	}
	for _, t := range in.obs {
		t := t
		fs := fnsets[t]
		for _, b := range badHooks(t) {
			b := b
			add("Mock.To("+typeText(b)+")", func() { fs.mock().To(b).Build() })
		}
		for _, b := range badWhens(t) {
			b := b
			add("Mock.When("+typeText(b)+")", func() { fs.mock().When(b).Return(1).Build() })
		}
		for _, b := range badOrigins(t) {
			b := b
			add("Mock.Origin("+typeText(b)+")", func() { fs.mock().Origin(b).Return(1).Build() })
		}
		add("Return twice", func() { fs.mock().Return(1).Return(2).Build() })
		add("Return then To", func() { fs.mock().Return(1).To(fs.to(1, 0)).Build() })
		add("When twice", func() { fs.mock().When(fs.when(wPos, 0)).When(fs.when(wBig, 0)).Return(1).Build() })
		add("When twice after a complete rule", func() {
			fs.mock().When(fs.when(wPos, 0)).Return(1).When(fs.when(wBig, 0)).When(fs.when(wBig, 0)).Return(1).Build()
		})
		add("Origin twice", func() { o := fs.newOrigin(0); fs.mock().Origin(o).Origin(o).Return(1).Build() })
	}
	add("Mock of a non-function", func() { mockey.Mock(3) })
	add("Mock of a pointer to a function", func() { f := tg.F; mockey.Mock(&f) })
	add("Mock of nil", func() { mockey.Mock(nil) })
	add("MockUnsafe of a non-function", func() { mockey.MockUnsafe("x") })
	add("MockGeneric of a non-function", func() { mockey.MockGeneric(struct{}{}) })
	add("Mock of a function that is too short", func() { mockey.Mock(tiny).To(func() {}).Build() })
	add("MockValue of a non-pointer", func() { mockey.MockValue(3) })
	add("MockValue of a function", func() { mockey.MockValue(tg.F) })
	add("MockValue of nil", func() { mockey.MockValue(nil) })
	add("MockValue.To of a wrong type", func() { mockey.MockValue(&tg.V2).To("x") })
	add("MockValue.To of a wrong type", func() { mockey.MockValue(&tg.VS.A).To([]int{1}) })
	add("Sequence Times(0)", func() { mockey.Sequence(1).Times(0) })
	add("Sequence Times(-1)", func() { mockey.Sequence(1).Then(2).Times(-1) })
	add("GetMethod of an unknown name", func() { mockey.GetMethod(theT, "Nothing") })
	add("GetMethod of a field that is no function", func() { mockey.GetMethod(theT, "K") })
	add("GetMethod of nil", func() { mockey.GetMethod(nil, "PM") })
	for _, r := range reqs {
		if zz.PanicText(r.f) == "" {
			in.c.Fail("%s is not refused", r.what)
			return
		}
	}
	in.c.Steps(len(reqs))
	// nothing changed: observe again, without the bad requests
	ex := in.extra
	in.extra = nil
	in.observe("after refused requests")
	in.extra = ex
	if in.c.Failed() {
		return
	}
	// every refused request of a fresh target can be corrected
	for _, t := range []int{tF2} {
		fs := fnsets[t]
		b := fs.mock()
		zz.PanicText(func() { b.When(3) })
		zz.PanicText(func() { b.To(3) })
		zz.PanicText(func() { b.Origin(3) })
		m := b.When(fs.when(wPos, 0)).Return(91).Build()
		zz.PanicText(func() { fs.mock().Return(92).Build() })
		zz.PanicText(func() { m.Return("x", 3); fs.call(1) })
		if m.Times() > 1 || fs.call(-1) != -3 {
			in.c.Fail("a mock whose earlier settings were refused does not work")
		}
		m.Return(93)
		if fs.call(1) != 93 || fs.call(-1) != -3 || m.Times() != 2 || m.MockTimes() != 1 {
			in.c.Fail("a mock whose Return was refused at use does not work after it was corrected")
		}
		m.UnPatch()
		if fs.call(1) != 7 {
			in.c.Fail("a mock whose settings were refused is not undone")
		}
	}
}

// text segment

var textLo, textHi uintptr
var textCopy []byte
var funcStart map[string][2]uintptr

func text() []byte { return unsafe.Slice((*byte)(unsafe.Pointer(textLo)), textHi-textLo) }

func initText() {
	if textCopy != nil {
		return
	}
	// the text segment is made of several mappings once something was mocked
	pc := reflect.ValueOf(tg.F).Pointer()
	maps, err := os.ReadFile("/proc/self/maps")
	zz.Must(err)
	var l0, h0 uintptr
	for _, l := range strings.Split(string(maps), "\n") {
		var lo, hi uintptr
		var perm string
		if n, _ := fmt.Sscanf(l, "%x-%x %s", &lo, &hi, &perm); n != 3 || perm != "r-xp" {
			continue
		}
		if lo != h0 {
			l0 = lo
		}
		h0 = hi
		if l0 <= pc && pc < h0 {
			textLo, textHi = l0, h0
		}
	}
	textCopy = append([]byte(nil), text()...)
	funcStart = map[string][2]uintptr{}
	f, err := elf.Open("/proc/self/exe")
	zz.Must(err)
	defer f.Close()
	syms, err := f.Symbols()
	zz.Must(err)
	for _, s := range syms {
		if elf.ST_TYPE(s.Info) == elf.STT_FUNC {
			funcStart[s.Name] = [2]uintptr{uintptr(s.Value), uintptr(s.Value + s.Size)}
		}
	}
}

func (in *interp) entry(t int) [2]uintptr {
	prefix := "github.com/bytedance/mockey/zzverif/tg."
	name := map[int]string{tF: "F", tF2: "F2", tR: "Rec", tM: "(*T).PM", tG1: "G[go.shape.*uint8]", tG2: "G[go.shape.*uint8]", tGi: "G[go.shape.int]"}[t]
	e, ok := funcStart[prefix+name]
	if !ok {
		panic("no symbol " + prefix + name)
	}
	return e
}

// pattern fills x86 registers' worth of work: a function of the harness itself.
//
//go:noinline
func bystander(a, b int, s string, f float64) (int, string, float64) { return a - b, s + "y", f * 2 }

// bystanders checks everything that is not mocked.
func bystanders(in *interp) {
	t := &tg.T{K: 9}
	u := &tg.U{K: 3}
	e := tg.Emb{T: *t}
	b := &tg.Box[int]{P: 1, K: 6}
	bs := &tg.Box[string]{P: "x", K: 7}
	vs := []int{t.VM(2), t.Other(2), u.PM(2), u.VM(2), tg.F3(2), tg.H(a1, 2), tg.H(3, 2), tg.G("s", 2), tg.G(3.5, 2),
		tg.Variadic(1, 2, 3), b.Get(2), bs.Get(2), b.Val(1), e.VM(1), tg.Doer(u).PM(1), tg.VariadicOnly(4)}
	want := []int{35, 47, 49, 61, 17, 81, 81, 67, 67, 108, 88, 89, 49, 22, 26, 1004}
	for i := range vs {
		if vs[i] != want[i] {
			in.c.Fail("an unmocked function (number %d of the bystanders) gives %d, want %d", i, vs[i], want[i])
		}
	}
	x, s, f := bystander(5, 3, "x", 1.5)
	if x != 2 || s != "xy" || f != 3 {
		in.c.Fail("an unmocked function of the harness gives %d %s %v", x, s, f)
	}
	// mocked method through every path, on other receivers
	if n := len(in.m.stack[sM]); n == 0 {
		if t.PM(2) != 31 || e.PM(2) != 31 || tg.Doer(t).PM(2) != 31 {
			in.c.Fail("an unmocked method does not run")
		}
	}
	// the program text differs in the entries of the mocked targets only
	cur := text()
	if bytes.Equal(cur, textCopy) {
		for s := range in.m.stack {
			if len(in.m.stack[s]) > 0 && s != sV && s != sVS {
				in.c.Fail("a target is mocked but no code differs")
			}
		}
		return
	}
	ok := make([][2]uintptr, 0, 4)
	for _, st := range in.m.stack {
		if len(st) > 0 && !isVar(in.m.mocks[st[0]].target) {
			ok = append(ok, in.entry(in.m.mocks[st[0]].target))
		}
	}
	const page = 512
	for i := 0; i < len(cur); i += page {
		j := i + page
		if j > len(cur) {
			j = len(cur)
		}
		if bytes.Equal(cur[i:j], textCopy[i:j]) {
			continue
		}
	next:
		for k := i; k < j; k++ {
			if cur[k] == textCopy[k] {
				continue
			}
			a := textLo + uintptr(k)
			for _, r := range ok {
				if r[0] <= a && a < r[1] {
					continue next
				}
			}
			f := runtime.FuncForPC(a)
			in.c.Fail("the code at %s+%d differs though it is not the entry of a mocked target", f.Name(), a-f.Entry())
			return
		}
	}
}
