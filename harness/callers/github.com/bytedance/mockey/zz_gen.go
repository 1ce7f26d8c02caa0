// Package mockey has a path that ends like mockey's.
//
// Code generated by tools/gen_callers.py; DO NOT EDIT.
package mockey

import (
	"github.com/bytedance/mockey"
	. "github.com/bytedance/mockey/zzverif/callers/state"
)

func Plain(s *S) {
	switch s.Op {
	case 0:
		s.Line, s.M = Here(), s.B.Build()
	case 1:
		s.Line, s.M = Here(), s.M.Patch()
	case 2:
		s.Line, s.M = Here(), s.M.To(s.Hook)
	case 3:
		s.Line, s.M = Here(), s.M.Return(s.Ret...)
	case 4:
		s.Line, s.M = Here(), s.M.When(s.Cond)
	case 5:
		s.Line, s.M = Here(), s.M.Origin(s.Orig)
	case 6:
		s.Line, s.M = Here(), s.M.ExcludeCurrentGoRoutine()
	case 7:
		s.Line, s.M = Here(), s.M.IncludeCurrentGoRoutine()
	case 8:
		s.Line, s.M = Here(), s.M.FilterGoRoutine(mockey.Include, 1)
	case 9:
		s.Line, s.M = Here(), s.M.Release().Return(s.Ret...).Build()
	case 10:
		s.Line, s.V = Here(), s.V.To(s.Val)
	case 11:
		s.Line, s.V = Here(), s.V.Patch()
	case 12:
		s.Line, s.V = Here(), mockey.MockValue(s.Ptr).To(s.Val)
	}
}

type Val struct{ a, b int }

func (v Val) Do(s *S) {
	switch s.Op {
	case 0:
		s.Line, s.M = Here(), s.B.Build()
	case 1:
		s.Line, s.M = Here(), s.M.Patch()
	case 2:
		s.Line, s.M = Here(), s.M.To(s.Hook)
	case 3:
		s.Line, s.M = Here(), s.M.Return(s.Ret...)
	case 4:
		s.Line, s.M = Here(), s.M.When(s.Cond)
	case 5:
		s.Line, s.M = Here(), s.M.Origin(s.Orig)
	case 6:
		s.Line, s.M = Here(), s.M.ExcludeCurrentGoRoutine()
	case 7:
		s.Line, s.M = Here(), s.M.IncludeCurrentGoRoutine()
	case 8:
		s.Line, s.M = Here(), s.M.FilterGoRoutine(mockey.Include, 1)
	case 9:
		s.Line, s.M = Here(), s.M.Release().Return(s.Ret...).Build()
	case 10:
		s.Line, s.V = Here(), s.V.To(s.Val)
	case 11:
		s.Line, s.V = Here(), s.V.Patch()
	case 12:
		s.Line, s.V = Here(), mockey.MockValue(s.Ptr).To(s.Val)
	}
}

type Ptr struct{ a int }

func (p *Ptr) Do(s *S) {
	switch s.Op {
	case 0:
		s.Line, s.M = Here(), s.B.Build()
	case 1:
		s.Line, s.M = Here(), s.M.Patch()
	case 2:
		s.Line, s.M = Here(), s.M.To(s.Hook)
	case 3:
		s.Line, s.M = Here(), s.M.Return(s.Ret...)
	case 4:
		s.Line, s.M = Here(), s.M.When(s.Cond)
	case 5:
		s.Line, s.M = Here(), s.M.Origin(s.Orig)
	case 6:
		s.Line, s.M = Here(), s.M.ExcludeCurrentGoRoutine()
	case 7:
		s.Line, s.M = Here(), s.M.IncludeCurrentGoRoutine()
	case 8:
		s.Line, s.M = Here(), s.M.FilterGoRoutine(mockey.Include, 1)
	case 9:
		s.Line, s.M = Here(), s.M.Release().Return(s.Ret...).Build()
	case 10:
		s.Line, s.V = Here(), s.V.To(s.Val)
	case 11:
		s.Line, s.V = Here(), s.V.Patch()
	case 12:
		s.Line, s.V = Here(), mockey.MockValue(s.Ptr).To(s.Val)
	}
}

type Mocker struct{}

func (m *Mocker) Patch(s *S) {
	switch s.Op {
	case 0:
		s.Line, s.M = Here(), s.B.Build()
	case 1:
		s.Line, s.M = Here(), s.M.Patch()
	case 2:
		s.Line, s.M = Here(), s.M.To(s.Hook)
	case 3:
		s.Line, s.M = Here(), s.M.Return(s.Ret...)
	case 4:
		s.Line, s.M = Here(), s.M.When(s.Cond)
	case 5:
		s.Line, s.M = Here(), s.M.Origin(s.Orig)
	case 6:
		s.Line, s.M = Here(), s.M.ExcludeCurrentGoRoutine()
	case 7:
		s.Line, s.M = Here(), s.M.IncludeCurrentGoRoutine()
	case 8:
		s.Line, s.M = Here(), s.M.FilterGoRoutine(mockey.Include, 1)
	case 9:
		s.Line, s.M = Here(), s.M.Release().Return(s.Ret...).Build()
	case 10:
		s.Line, s.V = Here(), s.V.To(s.Val)
	case 11:
		s.Line, s.V = Here(), s.V.Patch()
	case 12:
		s.Line, s.V = Here(), mockey.MockValue(s.Ptr).To(s.Val)
	}
}

type MockBuilder struct{}

func (m MockBuilder) Build(s *S) {
	switch s.Op {
	case 0:
		s.Line, s.M = Here(), s.B.Build()
	case 1:
		s.Line, s.M = Here(), s.M.Patch()
	case 2:
		s.Line, s.M = Here(), s.M.To(s.Hook)
	case 3:
		s.Line, s.M = Here(), s.M.Return(s.Ret...)
	case 4:
		s.Line, s.M = Here(), s.M.When(s.Cond)
	case 5:
		s.Line, s.M = Here(), s.M.Origin(s.Orig)
	case 6:
		s.Line, s.M = Here(), s.M.ExcludeCurrentGoRoutine()
	case 7:
		s.Line, s.M = Here(), s.M.IncludeCurrentGoRoutine()
	case 8:
		s.Line, s.M = Here(), s.M.FilterGoRoutine(mockey.Include, 1)
	case 9:
		s.Line, s.M = Here(), s.M.Release().Return(s.Ret...).Build()
	case 10:
		s.Line, s.V = Here(), s.V.To(s.Val)
	case 11:
		s.Line, s.V = Here(), s.V.Patch()
	case 12:
		s.Line, s.V = Here(), mockey.MockValue(s.Ptr).To(s.Val)
	}
}

func (p *Ptr) Closure(s *S) {
	func() {
		switch s.Op {
		case 0:
			s.Line, s.M = Here(), s.B.Build()
		case 1:
			s.Line, s.M = Here(), s.M.Patch()
		case 2:
			s.Line, s.M = Here(), s.M.To(s.Hook)
		case 3:
			s.Line, s.M = Here(), s.M.Return(s.Ret...)
		case 4:
			s.Line, s.M = Here(), s.M.When(s.Cond)
		case 5:
			s.Line, s.M = Here(), s.M.Origin(s.Orig)
		case 6:
			s.Line, s.M = Here(), s.M.ExcludeCurrentGoRoutine()
		case 7:
			s.Line, s.M = Here(), s.M.IncludeCurrentGoRoutine()
		case 8:
			s.Line, s.M = Here(), s.M.FilterGoRoutine(mockey.Include, 1)
		case 9:
			s.Line, s.M = Here(), s.M.Release().Return(s.Ret...).Build()
		case 10:
			s.Line, s.V = Here(), s.V.To(s.Val)
		case 11:
			s.Line, s.V = Here(), s.V.Patch()
		case 12:
			s.Line, s.V = Here(), mockey.MockValue(s.Ptr).To(s.Val)
		}
	}()
}

var Global = func(s *S) {
	switch s.Op {
	case 0:
		s.Line, s.M = Here(), s.B.Build()
	case 1:
		s.Line, s.M = Here(), s.M.Patch()
	case 2:
		s.Line, s.M = Here(), s.M.To(s.Hook)
	case 3:
		s.Line, s.M = Here(), s.M.Return(s.Ret...)
	case 4:
		s.Line, s.M = Here(), s.M.When(s.Cond)
	case 5:
		s.Line, s.M = Here(), s.M.Origin(s.Orig)
	case 6:
		s.Line, s.M = Here(), s.M.ExcludeCurrentGoRoutine()
	case 7:
		s.Line, s.M = Here(), s.M.IncludeCurrentGoRoutine()
	case 8:
		s.Line, s.M = Here(), s.M.FilterGoRoutine(mockey.Include, 1)
	case 9:
		s.Line, s.M = Here(), s.M.Release().Return(s.Ret...).Build()
	case 10:
		s.Line, s.V = Here(), s.V.To(s.Val)
	case 11:
		s.Line, s.V = Here(), s.V.Patch()
	case 12:
		s.Line, s.V = Here(), mockey.MockValue(s.Ptr).To(s.Val)
	}
}

func Gen[T any](t T, s *S) {
	switch s.Op {
	case 0:
		s.Line, s.M = Here(), s.B.Build()
	case 1:
		s.Line, s.M = Here(), s.M.Patch()
	case 2:
		s.Line, s.M = Here(), s.M.To(s.Hook)
	case 3:
		s.Line, s.M = Here(), s.M.Return(s.Ret...)
	case 4:
		s.Line, s.M = Here(), s.M.When(s.Cond)
	case 5:
		s.Line, s.M = Here(), s.M.Origin(s.Orig)
	case 6:
		s.Line, s.M = Here(), s.M.ExcludeCurrentGoRoutine()
	case 7:
		s.Line, s.M = Here(), s.M.IncludeCurrentGoRoutine()
	case 8:
		s.Line, s.M = Here(), s.M.FilterGoRoutine(mockey.Include, 1)
	case 9:
		s.Line, s.M = Here(), s.M.Release().Return(s.Ret...).Build()
	case 10:
		s.Line, s.V = Here(), s.V.To(s.Val)
	case 11:
		s.Line, s.V = Here(), s.V.Patch()
	case 12:
		s.Line, s.V = Here(), mockey.MockValue(s.Ptr).To(s.Val)
	}
}

func init() {
	Add("function of a package whose path ends like mockey's", func(s *S) {
		Plain(s)
	})
	Add("value method of a package whose path ends like mockey's", func(s *S) {
		Val{}.Do(s)
	})
	Add("pointer method of a package whose path ends like mockey's", func(s *S) {
		(&Ptr{}).Do(s)
	})
	Add("method named as mockey's of a package whose path ends like mockey's", func(s *S) {
		(&Mocker{}).Patch(s)
	})
	Add("builder named as mockey's of a package whose path ends like mockey's", func(s *S) {
		MockBuilder{}.Build(s)
	})
	Add("closure of a package whose path ends like mockey's", func(s *S) {
		func() {
			switch s.Op {
			case 0:
				s.Line, s.M = Here(), s.B.Build()
			case 1:
				s.Line, s.M = Here(), s.M.Patch()
			case 2:
				s.Line, s.M = Here(), s.M.To(s.Hook)
			case 3:
				s.Line, s.M = Here(), s.M.Return(s.Ret...)
			case 4:
				s.Line, s.M = Here(), s.M.When(s.Cond)
			case 5:
				s.Line, s.M = Here(), s.M.Origin(s.Orig)
			case 6:
				s.Line, s.M = Here(), s.M.ExcludeCurrentGoRoutine()
			case 7:
				s.Line, s.M = Here(), s.M.IncludeCurrentGoRoutine()
			case 8:
				s.Line, s.M = Here(), s.M.FilterGoRoutine(mockey.Include, 1)
			case 9:
				s.Line, s.M = Here(), s.M.Release().Return(s.Ret...).Build()
			case 10:
				s.Line, s.V = Here(), s.V.To(s.Val)
			case 11:
				s.Line, s.V = Here(), s.V.Patch()
			case 12:
				s.Line, s.V = Here(), mockey.MockValue(s.Ptr).To(s.Val)
			}
		}()
	})
	Add("closure of a pointer method of a package whose path ends like mockey's", func(s *S) {
		(&Ptr{}).Closure(s)
	})
	Add("package variable of a package whose path ends like mockey's", func(s *S) {
		Global(s)
	})
	Add("generic function of a package whose path ends like mockey's", func(s *S) {
		Gen("x", s)
	})
}
