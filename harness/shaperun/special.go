package shaperun

import (
	"bytes"
	"crypto/sha256"
	"fmt"
	"hash"
	"io"

	"github.com/bytedance/mockey"
	"github.com/bytedance/mockey/zzverif/zz"
)

type selfish struct {
	*selfish
	v int
}

func (s *selfish) Own(x int) int { fmt.Sprint(x); return x + s.v }
func (s *selfish) own(x int) int { fmt.Sprint(x); return x + s.v }

type ping struct {
	*pong
	v int
}

type pong struct {
	*ping
	v int
}

func (s *pong) Both(x int) int { fmt.Sprint(x); return x + 100 }
func (s *pong) both(x int) int { fmt.Sprint(x); return x + 200 }

type looked interface{ Own(x int) int }

type looper struct{ looked }

func (l *looper) Other(x int) int { fmt.Sprint(x); return x + 300 }

type Fn func(x int) int

type holder struct {
	Fn
	F, g  Fn
	Ptr   *Fn
	Any   interface{}
	Value int
	Nil   Fn
}

func plain(x int) int { fmt.Sprint(x); return x + 400 }

type bound int

func (b bound) Meth(x int) int { fmt.Sprint(x); return x + int(b) }

func closure(k int) Fn { return func(x int) int { fmt.Sprint(x); return x + k } }

// an own method of a struct that embeds an interface, whose value has a method of the same name outside the interface
type closer struct {
	io.Reader
	k int
}

type readCloser struct{}

func (readCloser) Read(p []byte) (int, error) { fmt.Sprint(p); return 1, nil }
func (readCloser) Close() error               { fmt.Sprint(1); return io.EOF }
func (readCloser) extra() int                 { fmt.Sprint(1); return 5 }

func (c closer) Close() error { fmt.Sprint(c.k); return nil }
func (c closer) extra() int   { fmt.Sprint(c.k); return c.k }

type special struct {
	what string
	inst func() interface{}
	name string
	// nil if there is no such method; mocked tells whether a call ran the mock
	call func() (mocked bool)
	ret  []interface{}
	free func() (mocked bool) // must not be mocked
}

var sum [sha256.Size]byte

// the types of unexported methods are only known if the program uses them elsewhere
var Keep = []interface{}{(func() [sha256.Size]byte)(nil), (func(int) int)(nil)}

func specials() []special {
	self := &selfish{v: 1}
	self.selfish = self
	half := &selfish{selfish: &selfish{v: 5}, v: 2}
	pi := &ping{v: 1}
	pi.pong = &pong{ping: pi}
	loop := &looper{}
	loop.looked = half
	h := &holder{Fn: closure(1), F: plain, g: bound(7).Meth, Any: Fn(plain), Value: 3}
	h2 := &holder{Fn: closure(2)}
	cl := closer{readCloser{}, 9}
	grown := func() bool {
		b := bytes.NewBufferString("abc")
		b.Grow(1000)
		return b.Len() == 0
	}
	is := func(x int) bool { return x == -5 }
	five := []interface{}{-5}
	val := func(v interface{}) func() interface{} { return func() interface{} { return v } }
	return []special{
		{"nil", val(nil), "M", nil, nil, nil},
		{"nil error", val(error(nil)), "Error", nil, nil, nil},
		{"int", val(1), "M", nil, nil, nil},
		{"empty name", val(self), "", nil, nil, nil},
		{"value that embeds itself", val(self), "Own", func() bool { return is(self.Own(1)) }, five, nil},
		{"value that embeds itself", val(*self), "Own", func() bool { return is(self.Own(1)) }, five, nil},
		{"value that embeds itself", val(self), "own", func() bool { return is(self.own(1)) }, five, nil},
		{"value that embeds itself", val(self), "Nope", nil, nil, nil},
		{"value that embeds itself", val(self), "nope", nil, nil, nil},
		{"value of a type that embeds itself", val(half), "Own", func() bool { return is(half.Own(1)) && is(half.selfish.Own(1)) }, five, nil},
		{"nil pointer to a type that embeds itself", val((*selfish)(nil)), "Own", func() bool { return is(half.Own(1)) }, five, nil},
		{"types that embed each other", val(pi), "Both", func() bool { return is(pi.Both(1)) }, five, nil},
		{"types that embed each other", val(pi), "both", func() bool { return is(pi.both(1)) }, five, nil},
		{"types that embed each other", val(*pi.pong), "both", func() bool { return is(pi.pong.both(1)) }, five, nil},
		{"types that embed each other", val(pi), "Nope", nil, nil, nil},
		{"nil pointer to types that embed each other", val((*pong)(nil)), "Both", func() bool { return is(pi.pong.Both(1)) }, five, nil},
		{"interface beside a method", val(loop), "Own", func() bool { return is(loop.Own(1)) && is(half.Own(1)) }, five, func() bool { return is(loop.Other(1)) }},
		{"interface beside a method", val(loop), "Other", func() bool { return is(loop.Other(1)) }, five, func() bool { return is(loop.Own(1)) }},
		{"interface beside a method", val(loop), "own", nil, nil, nil},
		{"embedded function type", val(h), "Fn", func() bool { return is(h.Fn(1)) && is(h2.Fn(1)) }, five, func() bool { return is(h.F(1)) || is(h.g(1)) }},
		{"field with a plain function", val(h), "F", func() bool { return is(h.F(1)) && is(plain(1)) }, five, func() bool { return is(h.Fn(1)) || is(h.g(1)) }},
		{"field of a value with a plain function", val(*h), "F", func() bool { return is(h.F(1)) && is(plain(1)) }, five, func() bool { return is(h.Fn(1)) || is(h.g(1)) }},
		{"field with a method value", val(h), "g", func() bool { return is(h.g(1)) }, five, func() bool { return is(bound(7).Meth(1)) || is(h.F(1)) }},
		{"field with a pointer to a function", val(h), "Ptr", nil, nil, nil},
		{"field with an interface", val(h), "Any", nil, nil, nil},
		{"field with no function", val(h), "Value", nil, nil, nil},
		{"function field that is nil", val(h), "Nil", nil, nil, nil},
		{"pointer to a pointer to a struct with the field", val(&h), "F", nil, nil, nil},
		{"own method beside an interface whose value has one", val(cl), "Close", func() bool { return cl.Close() == io.ErrNoProgress }, []interface{}{io.ErrNoProgress},
			func() bool { return readCloser{}.Close() != io.EOF }},
		{"own method beside an interface whose value has one", val(&cl), "Close", func() bool { return cl.Close() == io.ErrNoProgress }, []interface{}{io.ErrNoProgress},
			func() bool { return readCloser{}.Close() != io.EOF }},
		{"own method beside an interface whose value has one", val(&cl), "extra", func() bool { return is(cl.extra()) }, five,
			func() bool { return readCloser{}.extra() != 5 }},
		{"bytes.Buffer", val(&bytes.Buffer{}), "grow", grown, []interface{}{0}, nil},
		{"bytes.Buffer value", val(bytes.Buffer{}), "grow", grown, []interface{}{0}, nil},
		{"hash", val(sha256.New()), "checkSum", func() bool { return bytes.Equal(sha256.New().Sum(nil), sum[:]) }, []interface{}{sum}, nil},
		{"struct with a hash", val(struct{ hash.Hash }{sha256.New()}), "Sum", func() bool { return string(sha256.New().Sum(nil)) == "s" }, []interface{}{[]byte("s")}, nil},
	}
}

// Special lists hand-written shapes: types that contain themselves, function fields of all kinds, types of the standard
// library.
func Special(e *zz.Env, yield func(zz.Case) bool) {
	fmt.Sprint(Keep...)
	all := append(specials(), chainSpecials()...)
	for i, s := range all {
		i, s := i, s
		if !yield(zz.Case{Text: func() string { return fmt.Sprintf("GetMethod(%s, %q)", s.what, s.name) }, Run: func(c *zz.Ctx) {
			s := all[i]
			f, refused := get(mockey.GetMethod, s.inst(), s.name)
			c.Step()
			if s.call == nil {
				if refused == nil {
					c.Fail("there is no such method or function, but GetMethod returned a %T", f)
				}
				return
			}
			if refused != nil {
				c.Fail("GetMethod panics: %v", refused)
				return
			}
			if s.call() {
				c.Fail("harness: mocked before mocking")
				return
			}
			m := mockey.Mock(f).Return(s.ret...).Build()
			c.Step()
			if !s.call() {
				c.Fail("the mock of the %T found has no effect", f)
			}
			if s.free != nil && s.free() {
				c.Fail("the mock of the %T found has an effect on another function", f)
			}
			m.UnPatch()
			c.Step()
			if s.call() {
				c.Fail("mocked after undoing")
			}
			c.State(zz.Hash(s.what + s.name))
		}}) {
			return
		}
	}
}

// Names looks up methods with names of special lengths and alphabets, among many of which one is the beginning of
// another: the mock must change the calls of that method only.
func Names(e *zz.Env, yield func(zz.Case) bool) {
	for ti := range nameCalls {
		for ni := range methodNames {
			ti, ni := ti, ni
			if e.Mini() && ni%4 != ti%4 {
				continue
			}
			t, name := nameCalls[ti], methodNames[ni]
			if !yield(zz.Case{Text: func() string { return fmt.Sprintf("GetMethod(%s, %q)", t.what, name) }, Run: func(c *zz.Ctx) {
				f, refused := get(mockey.GetMethod, t.inst(), name)
				if refused != nil {
					c.Fail("GetMethod panics: %v", refused)
					return
				}
				check := func(when string, mocked bool) {
					c.Step()
					for j, call := range t.call {
						want := 1005 + j
						if mocked && j == ni {
							want = -5
						}
						if got := call(5); got != want {
							c.Fail("%s: %q gives %d, want %d", when, methodNames[j], got, want)
						}
					}
				}
				check("before", false)
				m := mockey.Mock(f).Return(-5).Build()
				check("mocked", true)
				m.UnPatch()
				check("undone", false)
				_, refused = get(mockey.GetMethod, t.inst(), name+"~")
				if refused == nil {
					c.Fail("GetMethod finds %q", name+"~")
				}
				c.State(zz.Hash(t.what + name))
			}}) {
				return
			}
		}
	}
}
