// Package shapes holds the generated types of property C11 (tools/gen_shapes.py, compiled in by an overlay).
package shapes

// Canary is a direct call of one method or function.
type Canary struct {
	Key  string
	Call func(x int) int
	Base int
}

// Name is a name looked up on a type, and what it denotes there (Key is empty if nothing).
type Name struct {
	Name   string
	Key    string
	Direct bool // the method itself is found, not the wrapper in a method table
	Method bool
	Recv   string
	Call   func(x int) int
}

// Shape is a type with its instances and the names looked up on it.
type Shape struct {
	Desc  string
	Inst  func() (interface{}, interface{}, interface{})
	Names []Name
	Dyn   bool // what the names denote depends on values
	Nil   bool // an embedded pointer is nil
}

var (
	Canaries []Canary
	Shapes   []Shape
)

func add(desc string, inst func() (interface{}, interface{}, interface{}), names []Name, dyn, isNil bool) {
	Shapes = append(Shapes, Shape{desc, inst, names, dyn, isNil})
}
