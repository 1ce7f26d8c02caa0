// Package callers applies mocks from every kind of function.
//
// Code generated by tools/gen_callers.py; DO NOT EDIT.
package callers

import (
	"reflect"
	"sort"
	"sync"

	"github.com/bytedance/mockey"
	. "github.com/bytedance/mockey/zzverif/callers/state"
)

func Plain(s *S) {
	switch s.Op {
	case 0:
		s.Line, s.M = Here(), s.B.Build()
	case 1:
		s.Line, s.M = Here(), s.M.Patch()
	case 2:
		s.Line, s.M = Here(), s.M.To(s.Hook)
	case 3:
		s.Line, s.M = Here(), s.M.Return(s.Ret...)
	case 4:
		s.Line, s.M = Here(), s.M.When(s.Cond)
	case 5:
		s.Line, s.M = Here(), s.M.Origin(s.Orig)
	case 6:
		s.Line, s.M = Here(), s.M.ExcludeCurrentGoRoutine()
	case 7:
		s.Line, s.M = Here(), s.M.IncludeCurrentGoRoutine()
	case 8:
		s.Line, s.M = Here(), s.M.FilterGoRoutine(mockey.Include, 1)
	case 9:
		s.Line, s.M = Here(), s.M.Release().Return(s.Ret...).Build()
	case 10:
		s.Line, s.V = Here(), s.V.To(s.Val)
	case 11:
		s.Line, s.V = Here(), s.V.Patch()
	case 12:
		s.Line, s.V = Here(), mockey.MockValue(s.Ptr).To(s.Val)
	}
}

type Val struct{ a, b int }

func (v Val) Do(s *S) {
	switch s.Op {
	case 0:
		s.Line, s.M = Here(), s.B.Build()
	case 1:
		s.Line, s.M = Here(), s.M.Patch()
	case 2:
		s.Line, s.M = Here(), s.M.To(s.Hook)
	case 3:
		s.Line, s.M = Here(), s.M.Return(s.Ret...)
	case 4:
		s.Line, s.M = Here(), s.M.When(s.Cond)
	case 5:
		s.Line, s.M = Here(), s.M.Origin(s.Orig)
	case 6:
		s.Line, s.M = Here(), s.M.ExcludeCurrentGoRoutine()
	case 7:
		s.Line, s.M = Here(), s.M.IncludeCurrentGoRoutine()
	case 8:
		s.Line, s.M = Here(), s.M.FilterGoRoutine(mockey.Include, 1)
	case 9:
		s.Line, s.M = Here(), s.M.Release().Return(s.Ret...).Build()
	case 10:
		s.Line, s.V = Here(), s.V.To(s.Val)
	case 11:
		s.Line, s.V = Here(), s.V.Patch()
	case 12:
		s.Line, s.V = Here(), mockey.MockValue(s.Ptr).To(s.Val)
	}
}

type Ptr struct{ a int }

func (p *Ptr) Do(s *S) {
	switch s.Op {
	case 0:
		s.Line, s.M = Here(), s.B.Build()
	case 1:
		s.Line, s.M = Here(), s.M.Patch()
	case 2:
		s.Line, s.M = Here(), s.M.To(s.Hook)
	case 3:
		s.Line, s.M = Here(), s.M.Return(s.Ret...)
	case 4:
		s.Line, s.M = Here(), s.M.When(s.Cond)
	case 5:
		s.Line, s.M = Here(), s.M.Origin(s.Orig)
	case 6:
		s.Line, s.M = Here(), s.M.ExcludeCurrentGoRoutine()
	case 7:
		s.Line, s.M = Here(), s.M.IncludeCurrentGoRoutine()
	case 8:
		s.Line, s.M = Here(), s.M.FilterGoRoutine(mockey.Include, 1)
	case 9:
		s.Line, s.M = Here(), s.M.Release().Return(s.Ret...).Build()
	case 10:
		s.Line, s.V = Here(), s.V.To(s.Val)
	case 11:
		s.Line, s.V = Here(), s.V.Patch()
	case 12:
		s.Line, s.V = Here(), mockey.MockValue(s.Ptr).To(s.Val)
	}
}

type Mocker struct{}

func (m *Mocker) Patch(s *S) {
	switch s.Op {
	case 0:
		s.Line, s.M = Here(), s.B.Build()
	case 1:
		s.Line, s.M = Here(), s.M.Patch()
	case 2:
		s.Line, s.M = Here(), s.M.To(s.Hook)
	case 3:
		s.Line, s.M = Here(), s.M.Return(s.Ret...)
	case 4:
		s.Line, s.M = Here(), s.M.When(s.Cond)
	case 5:
		s.Line, s.M = Here(), s.M.Origin(s.Orig)
	case 6:
		s.Line, s.M = Here(), s.M.ExcludeCurrentGoRoutine()
	case 7:
		s.Line, s.M = Here(), s.M.IncludeCurrentGoRoutine()
	case 8:
		s.Line, s.M = Here(), s.M.FilterGoRoutine(mockey.Include, 1)
	case 9:
		s.Line, s.M = Here(), s.M.Release().Return(s.Ret...).Build()
	case 10:
		s.Line, s.V = Here(), s.V.To(s.Val)
	case 11:
		s.Line, s.V = Here(), s.V.Patch()
	case 12:
		s.Line, s.V = Here(), mockey.MockValue(s.Ptr).To(s.Val)
	}
}

type MockBuilder struct{}

func (m MockBuilder) Build(s *S) {
	switch s.Op {
	case 0:
		s.Line, s.M = Here(), s.B.Build()
	case 1:
		s.Line, s.M = Here(), s.M.Patch()
	case 2:
		s.Line, s.M = Here(), s.M.To(s.Hook)
	case 3:
		s.Line, s.M = Here(), s.M.Return(s.Ret...)
	case 4:
		s.Line, s.M = Here(), s.M.When(s.Cond)
	case 5:
		s.Line, s.M = Here(), s.M.Origin(s.Orig)
	case 6:
		s.Line, s.M = Here(), s.M.ExcludeCurrentGoRoutine()
	case 7:
		s.Line, s.M = Here(), s.M.IncludeCurrentGoRoutine()
	case 8:
		s.Line, s.M = Here(), s.M.FilterGoRoutine(mockey.Include, 1)
	case 9:
		s.Line, s.M = Here(), s.M.Release().Return(s.Ret...).Build()
	case 10:
		s.Line, s.V = Here(), s.V.To(s.Val)
	case 11:
		s.Line, s.V = Here(), s.V.Patch()
	case 12:
		s.Line, s.V = Here(), mockey.MockValue(s.Ptr).To(s.Val)
	}
}

type Fn func()

func (f Fn) Do(s *S) {
	switch s.Op {
	case 0:
		s.Line, s.M = Here(), s.B.Build()
	case 1:
		s.Line, s.M = Here(), s.M.Patch()
	case 2:
		s.Line, s.M = Here(), s.M.To(s.Hook)
	case 3:
		s.Line, s.M = Here(), s.M.Return(s.Ret...)
	case 4:
		s.Line, s.M = Here(), s.M.When(s.Cond)
	case 5:
		s.Line, s.M = Here(), s.M.Origin(s.Orig)
	case 6:
		s.Line, s.M = Here(), s.M.ExcludeCurrentGoRoutine()
	case 7:
		s.Line, s.M = Here(), s.M.IncludeCurrentGoRoutine()
	case 8:
		s.Line, s.M = Here(), s.M.FilterGoRoutine(mockey.Include, 1)
	case 9:
		s.Line, s.M = Here(), s.M.Release().Return(s.Ret...).Build()
	case 10:
		s.Line, s.V = Here(), s.V.To(s.Val)
	case 11:
		s.Line, s.V = Here(), s.V.Patch()
	case 12:
		s.Line, s.V = Here(), mockey.MockValue(s.Ptr).To(s.Val)
	}
}

func (p *Ptr) Closure(s *S) {
	func() {
		switch s.Op {
		case 0:
			s.Line, s.M = Here(), s.B.Build()
		case 1:
			s.Line, s.M = Here(), s.M.Patch()
		case 2:
			s.Line, s.M = Here(), s.M.To(s.Hook)
		case 3:
			s.Line, s.M = Here(), s.M.Return(s.Ret...)
		case 4:
			s.Line, s.M = Here(), s.M.When(s.Cond)
		case 5:
			s.Line, s.M = Here(), s.M.Origin(s.Orig)
		case 6:
			s.Line, s.M = Here(), s.M.ExcludeCurrentGoRoutine()
		case 7:
			s.Line, s.M = Here(), s.M.IncludeCurrentGoRoutine()
		case 8:
			s.Line, s.M = Here(), s.M.FilterGoRoutine(mockey.Include, 1)
		case 9:
			s.Line, s.M = Here(), s.M.Release().Return(s.Ret...).Build()
		case 10:
			s.Line, s.V = Here(), s.V.To(s.Val)
		case 11:
			s.Line, s.V = Here(), s.V.Patch()
		case 12:
			s.Line, s.V = Here(), mockey.MockValue(s.Ptr).To(s.Val)
		}
	}()
}

var Global = func(s *S) {
	switch s.Op {
	case 0:
		s.Line, s.M = Here(), s.B.Build()
	case 1:
		s.Line, s.M = Here(), s.M.Patch()
	case 2:
		s.Line, s.M = Here(), s.M.To(s.Hook)
	case 3:
		s.Line, s.M = Here(), s.M.Return(s.Ret...)
	case 4:
		s.Line, s.M = Here(), s.M.When(s.Cond)
	case 5:
		s.Line, s.M = Here(), s.M.Origin(s.Orig)
	case 6:
		s.Line, s.M = Here(), s.M.ExcludeCurrentGoRoutine()
	case 7:
		s.Line, s.M = Here(), s.M.IncludeCurrentGoRoutine()
	case 8:
		s.Line, s.M = Here(), s.M.FilterGoRoutine(mockey.Include, 1)
	case 9:
		s.Line, s.M = Here(), s.M.Release().Return(s.Ret...).Build()
	case 10:
		s.Line, s.V = Here(), s.V.To(s.Val)
	case 11:
		s.Line, s.V = Here(), s.V.Patch()
	case 12:
		s.Line, s.V = Here(), mockey.MockValue(s.Ptr).To(s.Val)
	}
}

var Table = struct{ f []func(s *S) }{[]func(s *S){func(s *S) {
	switch s.Op {
	case 0:
		s.Line, s.M = Here(), s.B.Build()
	case 1:
		s.Line, s.M = Here(), s.M.Patch()
	case 2:
		s.Line, s.M = Here(), s.M.To(s.Hook)
	case 3:
		s.Line, s.M = Here(), s.M.Return(s.Ret...)
	case 4:
		s.Line, s.M = Here(), s.M.When(s.Cond)
	case 5:
		s.Line, s.M = Here(), s.M.Origin(s.Orig)
	case 6:
		s.Line, s.M = Here(), s.M.ExcludeCurrentGoRoutine()
	case 7:
		s.Line, s.M = Here(), s.M.IncludeCurrentGoRoutine()
	case 8:
		s.Line, s.M = Here(), s.M.FilterGoRoutine(mockey.Include, 1)
	case 9:
		s.Line, s.M = Here(), s.M.Release().Return(s.Ret...).Build()
	case 10:
		s.Line, s.V = Here(), s.V.To(s.Val)
	case 11:
		s.Line, s.V = Here(), s.V.Patch()
	case 12:
		s.Line, s.V = Here(), mockey.MockValue(s.Ptr).To(s.Val)
	}
}}}

var Maker = func() func(s *S) {
	return func(s *S) {
		switch s.Op {
		case 0:
			s.Line, s.M = Here(), s.B.Build()
		case 1:
			s.Line, s.M = Here(), s.M.Patch()
		case 2:
			s.Line, s.M = Here(), s.M.To(s.Hook)
		case 3:
			s.Line, s.M = Here(), s.M.Return(s.Ret...)
		case 4:
			s.Line, s.M = Here(), s.M.When(s.Cond)
		case 5:
			s.Line, s.M = Here(), s.M.Origin(s.Orig)
		case 6:
			s.Line, s.M = Here(), s.M.ExcludeCurrentGoRoutine()
		case 7:
			s.Line, s.M = Here(), s.M.IncludeCurrentGoRoutine()
		case 8:
			s.Line, s.M = Here(), s.M.FilterGoRoutine(mockey.Include, 1)
		case 9:
			s.Line, s.M = Here(), s.M.Release().Return(s.Ret...).Build()
		case 10:
			s.Line, s.V = Here(), s.V.To(s.Val)
		case 11:
			s.Line, s.V = Here(), s.V.Patch()
		case 12:
			s.Line, s.V = Here(), mockey.MockValue(s.Ptr).To(s.Val)
		}
	}
}()

func Deferred(s *S) {
	defer func() {
		switch s.Op {
		case 0:
			s.Line, s.M = Here(), s.B.Build()
		case 1:
			s.Line, s.M = Here(), s.M.Patch()
		case 2:
			s.Line, s.M = Here(), s.M.To(s.Hook)
		case 3:
			s.Line, s.M = Here(), s.M.Return(s.Ret...)
		case 4:
			s.Line, s.M = Here(), s.M.When(s.Cond)
		case 5:
			s.Line, s.M = Here(), s.M.Origin(s.Orig)
		case 6:
			s.Line, s.M = Here(), s.M.ExcludeCurrentGoRoutine()
		case 7:
			s.Line, s.M = Here(), s.M.IncludeCurrentGoRoutine()
		case 8:
			s.Line, s.M = Here(), s.M.FilterGoRoutine(mockey.Include, 1)
		case 9:
			s.Line, s.M = Here(), s.M.Release().Return(s.Ret...).Build()
		case 10:
			s.Line, s.V = Here(), s.V.To(s.Val)
		case 11:
			s.Line, s.V = Here(), s.V.Patch()
		case 12:
			s.Line, s.V = Here(), mockey.MockValue(s.Ptr).To(s.Val)
		}
	}()
	s.Nop()
}

func DeferredMethod(s *S) {
	defer (&Ptr{}).Do(s)
	s.Nop()
}

func Panicking(s *S) {
	defer func() {
		recover()
	}()
	defer func() {
		switch s.Op {
		case 0:
			s.Line, s.M = Here(), s.B.Build()
		case 1:
			s.Line, s.M = Here(), s.M.Patch()
		case 2:
			s.Line, s.M = Here(), s.M.To(s.Hook)
		case 3:
			s.Line, s.M = Here(), s.M.Return(s.Ret...)
		case 4:
			s.Line, s.M = Here(), s.M.When(s.Cond)
		case 5:
			s.Line, s.M = Here(), s.M.Origin(s.Orig)
		case 6:
			s.Line, s.M = Here(), s.M.ExcludeCurrentGoRoutine()
		case 7:
			s.Line, s.M = Here(), s.M.IncludeCurrentGoRoutine()
		case 8:
			s.Line, s.M = Here(), s.M.FilterGoRoutine(mockey.Include, 1)
		case 9:
			s.Line, s.M = Here(), s.M.Release().Return(s.Ret...).Build()
		case 10:
			s.Line, s.V = Here(), s.V.To(s.Val)
		case 11:
			s.Line, s.V = Here(), s.V.Patch()
		case 12:
			s.Line, s.V = Here(), mockey.MockValue(s.Ptr).To(s.Val)
		}
	}()
	panic(1)
}

func Gen[T any](t T, s *S) {
	switch s.Op {
	case 0:
		s.Line, s.M = Here(), s.B.Build()
	case 1:
		s.Line, s.M = Here(), s.M.Patch()
	case 2:
		s.Line, s.M = Here(), s.M.To(s.Hook)
	case 3:
		s.Line, s.M = Here(), s.M.Return(s.Ret...)
	case 4:
		s.Line, s.M = Here(), s.M.When(s.Cond)
	case 5:
		s.Line, s.M = Here(), s.M.Origin(s.Orig)
	case 6:
		s.Line, s.M = Here(), s.M.ExcludeCurrentGoRoutine()
	case 7:
		s.Line, s.M = Here(), s.M.IncludeCurrentGoRoutine()
	case 8:
		s.Line, s.M = Here(), s.M.FilterGoRoutine(mockey.Include, 1)
	case 9:
		s.Line, s.M = Here(), s.M.Release().Return(s.Ret...).Build()
	case 10:
		s.Line, s.V = Here(), s.V.To(s.Val)
	case 11:
		s.Line, s.V = Here(), s.V.Patch()
	case 12:
		s.Line, s.V = Here(), mockey.MockValue(s.Ptr).To(s.Val)
	}
}

func Gen2[K comparable, V any](k K, v V, s *S) {
	switch s.Op {
	case 0:
		s.Line, s.M = Here(), s.B.Build()
	case 1:
		s.Line, s.M = Here(), s.M.Patch()
	case 2:
		s.Line, s.M = Here(), s.M.To(s.Hook)
	case 3:
		s.Line, s.M = Here(), s.M.Return(s.Ret...)
	case 4:
		s.Line, s.M = Here(), s.M.When(s.Cond)
	case 5:
		s.Line, s.M = Here(), s.M.Origin(s.Orig)
	case 6:
		s.Line, s.M = Here(), s.M.ExcludeCurrentGoRoutine()
	case 7:
		s.Line, s.M = Here(), s.M.IncludeCurrentGoRoutine()
	case 8:
		s.Line, s.M = Here(), s.M.FilterGoRoutine(mockey.Include, 1)
	case 9:
		s.Line, s.M = Here(), s.M.Release().Return(s.Ret...).Build()
	case 10:
		s.Line, s.V = Here(), s.V.To(s.Val)
	case 11:
		s.Line, s.V = Here(), s.V.Patch()
	case 12:
		s.Line, s.V = Here(), mockey.MockValue(s.Ptr).To(s.Val)
	}
}

type Box[T any] struct{ v T }

func (b *Box[T]) Do(s *S) {
	switch s.Op {
	case 0:
		s.Line, s.M = Here(), s.B.Build()
	case 1:
		s.Line, s.M = Here(), s.M.Patch()
	case 2:
		s.Line, s.M = Here(), s.M.To(s.Hook)
	case 3:
		s.Line, s.M = Here(), s.M.Return(s.Ret...)
	case 4:
		s.Line, s.M = Here(), s.M.When(s.Cond)
	case 5:
		s.Line, s.M = Here(), s.M.Origin(s.Orig)
	case 6:
		s.Line, s.M = Here(), s.M.ExcludeCurrentGoRoutine()
	case 7:
		s.Line, s.M = Here(), s.M.IncludeCurrentGoRoutine()
	case 8:
		s.Line, s.M = Here(), s.M.FilterGoRoutine(mockey.Include, 1)
	case 9:
		s.Line, s.M = Here(), s.M.Release().Return(s.Ret...).Build()
	case 10:
		s.Line, s.V = Here(), s.V.To(s.Val)
	case 11:
		s.Line, s.V = Here(), s.V.Patch()
	case 12:
		s.Line, s.V = Here(), mockey.MockValue(s.Ptr).To(s.Val)
	}
}

func (b Box[T]) Val(s *S) {
	switch s.Op {
	case 0:
		s.Line, s.M = Here(), s.B.Build()
	case 1:
		s.Line, s.M = Here(), s.M.Patch()
	case 2:
		s.Line, s.M = Here(), s.M.To(s.Hook)
	case 3:
		s.Line, s.M = Here(), s.M.Return(s.Ret...)
	case 4:
		s.Line, s.M = Here(), s.M.When(s.Cond)
	case 5:
		s.Line, s.M = Here(), s.M.Origin(s.Orig)
	case 6:
		s.Line, s.M = Here(), s.M.ExcludeCurrentGoRoutine()
	case 7:
		s.Line, s.M = Here(), s.M.IncludeCurrentGoRoutine()
	case 8:
		s.Line, s.M = Here(), s.M.FilterGoRoutine(mockey.Include, 1)
	case 9:
		s.Line, s.M = Here(), s.M.Release().Return(s.Ret...).Build()
	case 10:
		s.Line, s.V = Here(), s.V.To(s.Val)
	case 11:
		s.Line, s.V = Here(), s.V.Patch()
	case 12:
		s.Line, s.V = Here(), mockey.MockValue(s.Ptr).To(s.Val)
	}
}

func GenClosure[T any](t T, s *S) {
	func() {
		switch s.Op {
		case 0:
			s.Line, s.M = Here(), s.B.Build()
		case 1:
			s.Line, s.M = Here(), s.M.Patch()
		case 2:
			s.Line, s.M = Here(), s.M.To(s.Hook)
		case 3:
			s.Line, s.M = Here(), s.M.Return(s.Ret...)
		case 4:
			s.Line, s.M = Here(), s.M.When(s.Cond)
		case 5:
			s.Line, s.M = Here(), s.M.Origin(s.Orig)
		case 6:
			s.Line, s.M = Here(), s.M.ExcludeCurrentGoRoutine()
		case 7:
			s.Line, s.M = Here(), s.M.IncludeCurrentGoRoutine()
		case 8:
			s.Line, s.M = Here(), s.M.FilterGoRoutine(mockey.Include, 1)
		case 9:
			s.Line, s.M = Here(), s.M.Release().Return(s.Ret...).Build()
		case 10:
			s.Line, s.V = Here(), s.V.To(s.Val)
		case 11:
			s.Line, s.V = Here(), s.V.Patch()
		case 12:
			s.Line, s.V = Here(), mockey.MockValue(s.Ptr).To(s.Val)
		}
	}()
}

type Outer struct{ *Ptr }

type doer interface{ Do(s *S) }

func Go(s *S) {
	c := make(chan int)
	go func() {
		defer close(c)
		switch s.Op {
		case 0:
			s.Line, s.M = Here(), s.B.Build()
		case 1:
			s.Line, s.M = Here(), s.M.Patch()
		case 2:
			s.Line, s.M = Here(), s.M.To(s.Hook)
		case 3:
			s.Line, s.M = Here(), s.M.Return(s.Ret...)
		case 4:
			s.Line, s.M = Here(), s.M.When(s.Cond)
		case 5:
			s.Line, s.M = Here(), s.M.Origin(s.Orig)
		case 6:
			s.Line, s.M = Here(), s.M.ExcludeCurrentGoRoutine()
		case 7:
			s.Line, s.M = Here(), s.M.IncludeCurrentGoRoutine()
		case 8:
			s.Line, s.M = Here(), s.M.FilterGoRoutine(mockey.Include, 1)
		case 9:
			s.Line, s.M = Here(), s.M.Release().Return(s.Ret...).Build()
		case 10:
			s.Line, s.V = Here(), s.V.To(s.Val)
		case 11:
			s.Line, s.V = Here(), s.V.Patch()
		case 12:
			s.Line, s.V = Here(), mockey.MockValue(s.Ptr).To(s.Val)
		}
	}()
	<-c
}

func GoPlain(s *S) {
	c := make(chan int)
	go plainIn(s, c)
	<-c
}

func plainIn(s *S, c chan int) {
	defer close(c)
	switch s.Op {
	case 0:
		s.Line, s.M = Here(), s.B.Build()
	case 1:
		s.Line, s.M = Here(), s.M.Patch()
	case 2:
		s.Line, s.M = Here(), s.M.To(s.Hook)
	case 3:
		s.Line, s.M = Here(), s.M.Return(s.Ret...)
	case 4:
		s.Line, s.M = Here(), s.M.When(s.Cond)
	case 5:
		s.Line, s.M = Here(), s.M.Origin(s.Orig)
	case 6:
		s.Line, s.M = Here(), s.M.ExcludeCurrentGoRoutine()
	case 7:
		s.Line, s.M = Here(), s.M.IncludeCurrentGoRoutine()
	case 8:
		s.Line, s.M = Here(), s.M.FilterGoRoutine(mockey.Include, 1)
	case 9:
		s.Line, s.M = Here(), s.M.Release().Return(s.Ret...).Build()
	case 10:
		s.Line, s.V = Here(), s.V.To(s.Val)
	case 11:
		s.Line, s.V = Here(), s.V.Patch()
	case 12:
		s.Line, s.V = Here(), mockey.MockValue(s.Ptr).To(s.Val)
	}
}

func Deep(n int, s *S) {
	if n > 0 {
		Deep(n-1, s)
		return
	}
	switch s.Op {
	case 0:
		s.Line, s.M = Here(), s.B.Build()
	case 1:
		s.Line, s.M = Here(), s.M.Patch()
	case 2:
		s.Line, s.M = Here(), s.M.To(s.Hook)
	case 3:
		s.Line, s.M = Here(), s.M.Return(s.Ret...)
	case 4:
		s.Line, s.M = Here(), s.M.When(s.Cond)
	case 5:
		s.Line, s.M = Here(), s.M.Origin(s.Orig)
	case 6:
		s.Line, s.M = Here(), s.M.ExcludeCurrentGoRoutine()
	case 7:
		s.Line, s.M = Here(), s.M.IncludeCurrentGoRoutine()
	case 8:
		s.Line, s.M = Here(), s.M.FilterGoRoutine(mockey.Include, 1)
	case 9:
		s.Line, s.M = Here(), s.M.Release().Return(s.Ret...).Build()
	case 10:
		s.Line, s.V = Here(), s.V.To(s.Val)
	case 11:
		s.Line, s.V = Here(), s.V.Patch()
	case 12:
		s.Line, s.V = Here(), mockey.MockValue(s.Ptr).To(s.Val)
	}
}

func Sorted(s *S) {
	done := false
	sort.Slice([]int{2, 1}, func(i, j int) bool {
		if done {
			return false
		}
		done = true
		switch s.Op {
		case 0:
			s.Line, s.M = Here(), s.B.Build()
		case 1:
			s.Line, s.M = Here(), s.M.Patch()
		case 2:
			s.Line, s.M = Here(), s.M.To(s.Hook)
		case 3:
			s.Line, s.M = Here(), s.M.Return(s.Ret...)
		case 4:
			s.Line, s.M = Here(), s.M.When(s.Cond)
		case 5:
			s.Line, s.M = Here(), s.M.Origin(s.Orig)
		case 6:
			s.Line, s.M = Here(), s.M.ExcludeCurrentGoRoutine()
		case 7:
			s.Line, s.M = Here(), s.M.IncludeCurrentGoRoutine()
		case 8:
			s.Line, s.M = Here(), s.M.FilterGoRoutine(mockey.Include, 1)
		case 9:
			s.Line, s.M = Here(), s.M.Release().Return(s.Ret...).Build()
		case 10:
			s.Line, s.V = Here(), s.V.To(s.Val)
		case 11:
			s.Line, s.V = Here(), s.V.Patch()
		case 12:
			s.Line, s.V = Here(), mockey.MockValue(s.Ptr).To(s.Val)
		}
		return false
	})
}

func Hooked(s *S) {
	m := mockey.Mock(Trigger).To(func() {
		switch s.Op {
		case 0:
			s.Line, s.M = Here(), s.B.Build()
		case 1:
			s.Line, s.M = Here(), s.M.Patch()
		case 2:
			s.Line, s.M = Here(), s.M.To(s.Hook)
		case 3:
			s.Line, s.M = Here(), s.M.Return(s.Ret...)
		case 4:
			s.Line, s.M = Here(), s.M.When(s.Cond)
		case 5:
			s.Line, s.M = Here(), s.M.Origin(s.Orig)
		case 6:
			s.Line, s.M = Here(), s.M.ExcludeCurrentGoRoutine()
		case 7:
			s.Line, s.M = Here(), s.M.IncludeCurrentGoRoutine()
		case 8:
			s.Line, s.M = Here(), s.M.FilterGoRoutine(mockey.Include, 1)
		case 9:
			s.Line, s.M = Here(), s.M.Release().Return(s.Ret...).Build()
		case 10:
			s.Line, s.V = Here(), s.V.To(s.Val)
		case 11:
			s.Line, s.V = Here(), s.V.Patch()
		case 12:
			s.Line, s.V = Here(), mockey.MockValue(s.Ptr).To(s.Val)
		}
	}).Build()
	Trigger()
	m.UnPatch()
}

func Condition(s *S) {
	m := mockey.Mock(Trigger).When(func() bool {
		switch s.Op {
		case 0:
			s.Line, s.M = Here(), s.B.Build()
		case 1:
			s.Line, s.M = Here(), s.M.Patch()
		case 2:
			s.Line, s.M = Here(), s.M.To(s.Hook)
		case 3:
			s.Line, s.M = Here(), s.M.Return(s.Ret...)
		case 4:
			s.Line, s.M = Here(), s.M.When(s.Cond)
		case 5:
			s.Line, s.M = Here(), s.M.Origin(s.Orig)
		case 6:
			s.Line, s.M = Here(), s.M.ExcludeCurrentGoRoutine()
		case 7:
			s.Line, s.M = Here(), s.M.IncludeCurrentGoRoutine()
		case 8:
			s.Line, s.M = Here(), s.M.FilterGoRoutine(mockey.Include, 1)
		case 9:
			s.Line, s.M = Here(), s.M.Release().Return(s.Ret...).Build()
		case 10:
			s.Line, s.V = Here(), s.V.To(s.Val)
		case 11:
			s.Line, s.V = Here(), s.V.Patch()
		case 12:
			s.Line, s.V = Here(), mockey.MockValue(s.Ptr).To(s.Val)
		}
		return true
	}).Return().Build()
	Trigger()
	m.UnPatch()
}

func Original(s *S) {
	m := mockey.Mock(Plain).When(func(s *S) bool { return false }).Return().Build()
	Plain(s)
	m.UnPatch()
}

func Once(s *S) {
	var o sync.Once
	o.Do(func() {
		switch s.Op {
		case 0:
			s.Line, s.M = Here(), s.B.Build()
		case 1:
			s.Line, s.M = Here(), s.M.Patch()
		case 2:
			s.Line, s.M = Here(), s.M.To(s.Hook)
		case 3:
			s.Line, s.M = Here(), s.M.Return(s.Ret...)
		case 4:
			s.Line, s.M = Here(), s.M.When(s.Cond)
		case 5:
			s.Line, s.M = Here(), s.M.Origin(s.Orig)
		case 6:
			s.Line, s.M = Here(), s.M.ExcludeCurrentGoRoutine()
		case 7:
			s.Line, s.M = Here(), s.M.IncludeCurrentGoRoutine()
		case 8:
			s.Line, s.M = Here(), s.M.FilterGoRoutine(mockey.Include, 1)
		case 9:
			s.Line, s.M = Here(), s.M.Release().Return(s.Ret...).Build()
		case 10:
			s.Line, s.V = Here(), s.V.To(s.Val)
		case 11:
			s.Line, s.V = Here(), s.V.Patch()
		case 12:
			s.Line, s.V = Here(), mockey.MockValue(s.Ptr).To(s.Val)
		}
	})
}

func Local(s *S) {
	type t struct{ f func() }
	v := &t{f: func() {
		switch s.Op {
		case 0:
			s.Line, s.M = Here(), s.B.Build()
		case 1:
			s.Line, s.M = Here(), s.M.Patch()
		case 2:
			s.Line, s.M = Here(), s.M.To(s.Hook)
		case 3:
			s.Line, s.M = Here(), s.M.Return(s.Ret...)
		case 4:
			s.Line, s.M = Here(), s.M.When(s.Cond)
		case 5:
			s.Line, s.M = Here(), s.M.Origin(s.Orig)
		case 6:
			s.Line, s.M = Here(), s.M.ExcludeCurrentGoRoutine()
		case 7:
			s.Line, s.M = Here(), s.M.IncludeCurrentGoRoutine()
		case 8:
			s.Line, s.M = Here(), s.M.FilterGoRoutine(mockey.Include, 1)
		case 9:
			s.Line, s.M = Here(), s.M.Release().Return(s.Ret...).Build()
		case 10:
			s.Line, s.V = Here(), s.V.To(s.Val)
		case 11:
			s.Line, s.V = Here(), s.V.Patch()
		case 12:
			s.Line, s.V = Here(), mockey.MockValue(s.Ptr).To(s.Val)
		}
	}}
	v.f()
}

var initialised = func() func(*S) {
	var fs [2]func(*S)
	for i := range fs {
		fs[i] = func(s *S) {
			switch s.Op {
			case 0:
				s.Line, s.M = Here(), s.B.Build()
			case 1:
				s.Line, s.M = Here(), s.M.Patch()
			case 2:
				s.Line, s.M = Here(), s.M.To(s.Hook)
			case 3:
				s.Line, s.M = Here(), s.M.Return(s.Ret...)
			case 4:
				s.Line, s.M = Here(), s.M.When(s.Cond)
			case 5:
				s.Line, s.M = Here(), s.M.Origin(s.Orig)
			case 6:
				s.Line, s.M = Here(), s.M.ExcludeCurrentGoRoutine()
			case 7:
				s.Line, s.M = Here(), s.M.IncludeCurrentGoRoutine()
			case 8:
				s.Line, s.M = Here(), s.M.FilterGoRoutine(mockey.Include, 1)
			case 9:
				s.Line, s.M = Here(), s.M.Release().Return(s.Ret...).Build()
			case 10:
				s.Line, s.V = Here(), s.V.To(s.Val)
			case 11:
				s.Line, s.V = Here(), s.V.Patch()
			case 12:
				s.Line, s.V = Here(), mockey.MockValue(s.Ptr).To(s.Val)
			}
		}
	}
	return fs[1]
}()

var byInit func(*S)

func init() {
	byInit = func(s *S) {
		switch s.Op {
		case 0:
			s.Line, s.M = Here(), s.B.Build()
		case 1:
			s.Line, s.M = Here(), s.M.Patch()
		case 2:
			s.Line, s.M = Here(), s.M.To(s.Hook)
		case 3:
			s.Line, s.M = Here(), s.M.Return(s.Ret...)
		case 4:
			s.Line, s.M = Here(), s.M.When(s.Cond)
		case 5:
			s.Line, s.M = Here(), s.M.Origin(s.Orig)
		case 6:
			s.Line, s.M = Here(), s.M.ExcludeCurrentGoRoutine()
		case 7:
			s.Line, s.M = Here(), s.M.IncludeCurrentGoRoutine()
		case 8:
			s.Line, s.M = Here(), s.M.FilterGoRoutine(mockey.Include, 1)
		case 9:
			s.Line, s.M = Here(), s.M.Release().Return(s.Ret...).Build()
		case 10:
			s.Line, s.V = Here(), s.V.To(s.Val)
		case 11:
			s.Line, s.V = Here(), s.V.Patch()
		case 12:
			s.Line, s.V = Here(), mockey.MockValue(s.Ptr).To(s.Val)
		}
	}
}

func init() {
	Add("function", func(s *S) {
		Plain(s)
	})
	Add("value method", func(s *S) {
		Val{}.Do(s)
	})
	Add("pointer method", func(s *S) {
		(&Ptr{}).Do(s)
	})
	Add("method named as mockey's", func(s *S) {
		(&Mocker{}).Patch(s)
	})
	Add("builder named as mockey's", func(s *S) {
		MockBuilder{}.Build(s)
	})
	Add("method of a function type", func(s *S) {
		Fn(nil).Do(s)
	})
	Add("closure", func(s *S) {
		func() {
			switch s.Op {
			case 0:
				s.Line, s.M = Here(), s.B.Build()
			case 1:
				s.Line, s.M = Here(), s.M.Patch()
			case 2:
				s.Line, s.M = Here(), s.M.To(s.Hook)
			case 3:
				s.Line, s.M = Here(), s.M.Return(s.Ret...)
			case 4:
				s.Line, s.M = Here(), s.M.When(s.Cond)
			case 5:
				s.Line, s.M = Here(), s.M.Origin(s.Orig)
			case 6:
				s.Line, s.M = Here(), s.M.ExcludeCurrentGoRoutine()
			case 7:
				s.Line, s.M = Here(), s.M.IncludeCurrentGoRoutine()
			case 8:
				s.Line, s.M = Here(), s.M.FilterGoRoutine(mockey.Include, 1)
			case 9:
				s.Line, s.M = Here(), s.M.Release().Return(s.Ret...).Build()
			case 10:
				s.Line, s.V = Here(), s.V.To(s.Val)
			case 11:
				s.Line, s.V = Here(), s.V.Patch()
			case 12:
				s.Line, s.V = Here(), mockey.MockValue(s.Ptr).To(s.Val)
			}
		}()
	})
	Add("closure in closures", func(s *S) {
		func() {
			func() {
				func() {
					switch s.Op {
					case 0:
						s.Line, s.M = Here(), s.B.Build()
					case 1:
						s.Line, s.M = Here(), s.M.Patch()
					case 2:
						s.Line, s.M = Here(), s.M.To(s.Hook)
					case 3:
						s.Line, s.M = Here(), s.M.Return(s.Ret...)
					case 4:
						s.Line, s.M = Here(), s.M.When(s.Cond)
					case 5:
						s.Line, s.M = Here(), s.M.Origin(s.Orig)
					case 6:
						s.Line, s.M = Here(), s.M.ExcludeCurrentGoRoutine()
					case 7:
						s.Line, s.M = Here(), s.M.IncludeCurrentGoRoutine()
					case 8:
						s.Line, s.M = Here(), s.M.FilterGoRoutine(mockey.Include, 1)
					case 9:
						s.Line, s.M = Here(), s.M.Release().Return(s.Ret...).Build()
					case 10:
						s.Line, s.V = Here(), s.V.To(s.Val)
					case 11:
						s.Line, s.V = Here(), s.V.Patch()
					case 12:
						s.Line, s.V = Here(), mockey.MockValue(s.Ptr).To(s.Val)
					}
				}()
			}()
		}()
	})
	Add("closure of a pointer method", func(s *S) {
		(&Ptr{}).Closure(s)
	})
	Add("package variable", func(s *S) {
		Global(s)
	})
	Add("package variable in a struct", func(s *S) {
		Table.f[0](s)
	})
	Add("closure made by a package variable", func(s *S) {
		Maker(s)
	})
	Add("deferred closure", func(s *S) {
		Deferred(s)
	})
	Add("deferred method", func(s *S) {
		DeferredMethod(s)
	})
	Add("deferred closure of a panic", func(s *S) {
		Panicking(s)
	})
	Add("generic function", func(s *S) {
		Gen("x", s)
	})
	Add("generic function of two types", func(s *S) {
		Gen2(1, []string{"x"}, s)
	})
	Add("generic method", func(s *S) {
		(&Box[int]{}).Do(s)
	})
	Add("generic value method", func(s *S) {
		Box[map[string]int]{}.Val(s)
	})
	Add("closure of a generic function", func(s *S) {
		GenClosure(1.5, s)
	})
	Add("promoted method by an interface", func(s *S) {
		doer(Outer{&Ptr{}}).Do(s)
	})
	Add("method value", func(s *S) {
		f := (&Ptr{}).Do
		f(s)
	})
	Add("method expression", func(s *S) {
		f := (*Ptr).Do
		f(&Ptr{}, s)
	})
	Add("goroutine", func(s *S) {
		Go(s)
	})
	Add("goroutine of a function", func(s *S) {
		GoPlain(s)
	})
	Add("deep recursion", func(s *S) {
		Deep(60, s)
	})
	Add("callback of package sort", func(s *S) {
		Sorted(s)
	})
	Add("function called by reflect", func(s *S) {
		reflect.ValueOf(Plain).Call([]reflect.Value{reflect.ValueOf(s)})
	})
	Add("function made by reflect", func(s *S) {
		reflect.MakeFunc(reflect.TypeOf(Plain), func(a []reflect.Value) []reflect.Value {
			switch s.Op {
			case 0:
				s.Line, s.M = Here(), s.B.Build()
			case 1:
				s.Line, s.M = Here(), s.M.Patch()
			case 2:
				s.Line, s.M = Here(), s.M.To(s.Hook)
			case 3:
				s.Line, s.M = Here(), s.M.Return(s.Ret...)
			case 4:
				s.Line, s.M = Here(), s.M.When(s.Cond)
			case 5:
				s.Line, s.M = Here(), s.M.Origin(s.Orig)
			case 6:
				s.Line, s.M = Here(), s.M.ExcludeCurrentGoRoutine()
			case 7:
				s.Line, s.M = Here(), s.M.IncludeCurrentGoRoutine()
			case 8:
				s.Line, s.M = Here(), s.M.FilterGoRoutine(mockey.Include, 1)
			case 9:
				s.Line, s.M = Here(), s.M.Release().Return(s.Ret...).Build()
			case 10:
				s.Line, s.V = Here(), s.V.To(s.Val)
			case 11:
				s.Line, s.V = Here(), s.V.Patch()
			case 12:
				s.Line, s.V = Here(), mockey.MockValue(s.Ptr).To(s.Val)
			}
			return nil
		}).Interface().(func(*S))(s)
	})
	Add("hook of a mock", func(s *S) {
		Hooked(s)
	})
	Add("condition of a mock", func(s *S) {
		Condition(s)
	})
	Add("original of a mock", func(s *S) {
		Original(s)
	})
	Add("once", func(s *S) {
		Once(s)
	})
	Add("literal of a local type", func(s *S) {
		Local(s)
	})
	Add("package initialiser", func(s *S) {
		initialised(s)
	})
	Add("init function", func(s *S) {
		byInit(s)
	})
}

//go:noinline
func Trigger() {
	use++
	use *= 3
	use += 4
}

var use int
