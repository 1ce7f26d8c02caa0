package origin

import (
	"fmt"
	"reflect"
	"strings"

	"github.com/bytedance/mockey/zzverif/zz"
)

// The variable of the handle between the uses of a mock: assigned by the user, used by another mock, set again by Patch,
// by a new setting and by the next mock.

const (
	hPatch   = iota // Patch
	hUnPatch        // UnPatch
	hTo             // a new hook, which applies the mock again
	hOrigin         // the same variable again, which applies the mock again
	hNew            // undo this mock, build another one on the same variable
	hNil            // the user assigns nil to the variable (while the mock is not applied)
	hOther          // the user assigns a function of their own
	hCall0          // call the target
	hCall1          // call it on another receiver
	nH
)

var hNames = [...]string{"Patch", "UnPatch", "To", "Origin", "UnPatch and a new mock", "variable = nil", "variable = other function", "call", "call on another receiver"}

type again struct {
	t    *target
	form int
	init int // the variable before Build: nil, a function
	p    []int
}

func (s again) String() string {
	var l []string
	for _, a := range s.p {
		l = append(l, hNames[a])
	}
	return fmt.Sprintf("%s handle form %d, initially %s: %s", s.t.name, s.form, [...]string{"nil", "a function"}[s.init], strings.Join(l, "; "))
}

func (s again) run(c *zz.Ctx) {
	t := s.t
	ptr, o := t.handle(s.form)
	v := reflect.ValueOf(ptr).Elem()
	assigned := 0
	other := reflect.MakeFunc(v.Type(), func([]reflect.Value) []reflect.Value {
		assigned++
		return []reflect.Value{reflect.ValueOf(-777)}
	})
	if s.init == 1 {
		v.Set(other)
	}
	hook := func(add int) interface{} {
		return t.hook(func(r, x int) int { return o(r, x) + add })
	}
	add := 1
	m := t.mock().Origin(ptr).To(hook(add)).Build()
	defer func() { m.UnPatch() }()
	applied := true
	var want func(r, x int) int
	want = func(r, x int) int {
		if !applied {
			return t.orig(r, x, want)
		}
		return t.orig(r, x, want) + add
	}
	for i, a := range s.p {
		switch a {
		case hPatch:
			m.Patch()
			applied = true
		case hUnPatch:
			m.UnPatch()
			applied = false
		case hTo:
			add++
			m.To(hook(add))
			applied = true
		case hOrigin:
			m.Origin(ptr)
			applied = true
		case hNew:
			m.UnPatch()
			add += 100
			m = t.mock().Origin(ptr).To(hook(add)).Build()
			applied = true
		case hNil:
			v.Set(reflect.Zero(v.Type()))
		case hOther:
			v.Set(other)
		case hCall0, hCall1:
			r := a - hCall0
			w := want(r, i+2)
			var got int
			if msg := zz.PanicText(func() { got = t.call(r, i+2) }); msg != "" {
				c.Fail("#%d %s: panics: %s", i, hNames[a], zz.Short(msg))
				return
			}
			if got != w {
				c.Fail("#%d %s: gives %d, want %d", i, hNames[a], got, w)
				return
			}
		}
		c.Step()
	}
	if assigned != 0 {
		c.Fail("the function of the user ran %d times", assigned)
	}
}

// legal: the user assigns while the mock is not applied, and ends with a call.
func (s again) legal() bool {
	applied := true
	for _, a := range s.p {
		switch a {
		case hPatch, hTo, hOrigin, hNew:
			applied = true
		case hUnPatch:
			if !applied {
				return false
			}
			applied = false
		case hNil, hOther:
			if applied {
				return false
			}
		}
	}
	return s.p[len(s.p)-1] >= hCall0
}

func init() {
	zz.Register("C08", zz.Suite{
		Name: "the handle's variable",
		Bound: func(e *zz.Env) string {
			return fmt.Sprintf("all sequences of up to %d operations that assign the variable, apply, undo, reconfigure and call, all forms of handle, variable nil or set before", e.Pick(3, 5, 6))
		},
		Gen: func(e *zz.Env, y func(zz.Case) bool) {
			for _, t := range targets() {
				for form := 0; form < 2; form++ {
					if form == 1 && !t.recv {
						continue
					}
					for init := 0; init < 2; init++ {
						for n := 1; n <= e.Pick(3, 5, 6); n++ {
							p := make([]int, n)
							for {
								s := again{t, form, init, append([]int{}, p...)}
								if s.legal() && (t.recv || !strings.Contains(fmt.Sprint(p), fmt.Sprint(hCall1))) {
									if !y(zz.Case{Text: s.String, Run: s.run}) {
										return
									}
								}
								i := n - 1
								for ; i >= 0; i-- {
									if p[i]++; p[i] < nH {
										break
									}
									p[i] = 0
								}
								if i < 0 {
									break
								}
							}
						}
					}
				}
			}
		},
	})
}
