// Package state is what the calling functions of C17 work on.
package state

import (
	"fmt"
	"runtime"

	"github.com/bytedance/mockey"
)

// S holds the mock to apply, the operation to apply it with and where that has been done.
type S struct {
	Op   int
	B    *mockey.MockBuilder
	M    *mockey.Mocker
	V    *mockey.MockerVar
	Hook interface{}
	Ret  []interface{}
	Cond interface{}
	Orig interface{}
	Val  interface{}
	Ptr  interface{}
	Line string
}

func (s *S) Nop() {}

// Kind is a kind of calling function.
type Kind struct {
	Name string
	Do   func(s *S)
}

var Kinds []Kind

func Add(name string, do func(s *S)) { Kinds = append(Kinds, Kind{name, do}) }

// Here is the position of its caller.
func Here() string {
	_, file, line, _ := runtime.Caller(1)
	return fmt.Sprintf("%s:%d", file, line)
}
