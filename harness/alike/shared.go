package alike

import (
	"fmt"
	"reflect"

	"github.com/bytedance/mockey"
	"github.com/bytedance/mockey/zzverif/zz"
)

// Mocks of targets with results of different types that share a sequence: it is one sequence, whose next element each
// matching call gets, converted to the result of its target.

type myInt int
type myStr string

//go:nosplit
func s0() int { return -1 }

//go:nosplit
func s1() float64 { return -1 }

//go:nosplit
func s2() interface{} { return -1 }

//go:nosplit
func s3() uint8 { return 255 }

//go:nosplit
func s4() myInt { return -1 }

//go:nosplit
func s5(x bool) int32 { return -1 }

var shared = []interface{}{s0, s1, s2, s3, s4, s5}

type sharing struct {
	ts    [3]int // the targets
	shape int
	word  []int // which of them is called, in this order; 3 calls s5 with the other condition
	two   bool  // two sequences with the same values instead of one
}

var shapesOf = [...][]int{{1}, {1, 1}, {2, 1}, {1, 2}, {1, 1, 1}, {3, 2}}

func (s sharing) text() string {
	what := "one sequence"
	if s.two {
		what = "sequences of the same slices"
	}
	return fmt.Sprintf("%s with the counts %v shared by mocks of %v, %v and %v, called in the order %v", what, shapesOf[s.shape],
		reflect.TypeOf(shared[s.ts[0]]), reflect.TypeOf(shared[s.ts[1]]), reflect.TypeOf(shared[s.ts[2]]), s.word)
}

func (s sharing) run(c *zz.Ctx) {
	var list []int
	vs := [][]interface{}{}
	for i, n := range shapesOf[s.shape] {
		vs = append(vs, []interface{}{60 + i})
		for k := 0; k < n; k++ {
			list = append(list, 60+i)
		}
	}
	sequence := func() mockey.SequenceOpt {
		q := mockey.Sequence(vs[0]...).Times(shapesOf[s.shape][0])
		for i, n := range shapesOf[s.shape][1:] {
			q = q.Then(vs[i+1]...).Times(n)
		}
		return q
	}
	one := sequence()
	var ms [3]*mockey.Mocker
	var pos [3]*int
	for i, t := range s.ts {
		pos[i] = pos[0]
		if i == 0 || s.two {
			pos[i] = new(int)
		}
		if i > 0 && s.two {
			one = sequence()
		}
		if t == 5 {
			ms[i] = mockey.Mock(s5).When(func(x bool) bool { return x }).Return(one).When(func(x bool) bool { return !x }).Return(one).Build()
		} else {
			ms[i] = mockey.Mock(shared[t]).Return(one).Build()
		}
	}
	for k, w := range s.word {
		c.Step()
		f := reflect.ValueOf(shared[s.ts[w]])
		var in []reflect.Value
		if f.Type().NumIn() > 0 {
			in = append(in, reflect.ValueOf(k%2 == 0))
		}
		t := f.Type().Out(0)
		want := reflect.New(t).Elem()
		want.Set(reflect.ValueOf(list[*pos[w]%len(list)]).Convert(t))
		*pos[w]++
		var got []reflect.Value
		if e := zz.Catch(func() { got = f.Call(in) }); e != nil {
			c.Fail("call %d panics: %v", k, e)
			break
		}
		if got[0].Interface() != want.Interface() {
			c.Fail("call %d gives %T %v, want %T %v", k, got[0].Interface(), got[0], want.Interface(), want)
			break
		}
	}
	for _, m := range ms {
		m.UnPatch()
	}
	c.State(zz.Hash(s.text()))
}

func init() {
	zz.Register("C06", zz.Suite{
		Name: "shared sequences",
		Bound: func(e *zz.Env) string {
			return fmt.Sprintf("%d shapes of a sequence (or of three with the same slices of values) shared by mocks of 3 of %d targets with different result types, all orders of %d calls", len(shapesOf), len(shared), e.Pick(3, 5, 7))
		},
		Gen: func(e *zz.Env, y func(zz.Case) bool) {
			n := e.Pick(3, 5, 7)
			words := 1
			for i := 0; i < n; i++ {
				words *= 3
			}
			for t := 0; t < len(shared); t++ {
				for u := 0; u < len(shared); u++ {
					for v := 0; v < len(shared); v++ {
						if t == u || u == v || t == v || e.Mini() && (t+u+v)%3 != 0 {
							continue
						}
						for sh := range shapesOf {
							if e.Mini() && sh != (t+2*u)%len(shapesOf) {
								continue
							}
							for w := 0; w < words; w++ {
								for _, two := range []bool{false, true} {
									var word []int
									for i, x := 0, w; i < n; i++ {
										word = append(word, x%3)
										x /= 3
									}
									s := sharing{[3]int{t, u, v}, sh, word, two}
									if !y(zz.Case{Text: s.text, Run: s.run}) {
										return
									}
								}
							}
						}
					}
				}
			}
		},
	})
}
