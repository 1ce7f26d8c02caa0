// Command gm decides C11 on the generated types.
package main

import (
	"github.com/bytedance/mockey/zzverif/shaperun"
	"github.com/bytedance/mockey/zzverif/shapes"
	"github.com/bytedance/mockey/zzverif/zz"
)

func main() {
	zz.Register("C11", zz.Suite{Name: "type shapes", Bound: func(e *zz.Env) string {
		return shapes.Bound
	}, Gen: shaperun.Gen}, zz.Suite{Name: "special shapes", Bound: func(e *zz.Env) string {
		return "types that contain themselves, function fields of each kind, standard library types"
	}, Gen: shaperun.Special}, zz.Suite{Name: "names", Bound: func(e *zz.Env) string {
		return "names of up to 500 bytes and of several alphabets (many the beginning of others), on values, pointers, integers and embedded ones"
	}, Gen: shaperun.Names}, zz.Suite{Name: "one after the other", Bound: func(e *zz.Env) string {
		return "every ordered pair of names of instances of the same type and of types of the same name, with mocks of none, one or both"
	}, Gen: shaperun.Pairs})
	zz.Main()
}
