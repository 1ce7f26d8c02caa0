// instr writes instrumented versions of mockey's source files and a build overlay that puts them in place: a scheduling
// point before every statement that may touch shared memory, read-modify-write statements split in two, sync and
// sync/atomic replaced by versions the controlled scheduler knows.
//
//	instr OUTDIR PKGDIR...
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
)

const base = "github.com/bytedance/mockey/zzverif/vsched"

// files without state worth scheduling points
var skip = map[string]bool{"debug.go": true, "assert.go": true, "check.go": true, "caller.go": true}

type pkg struct {
	Dir, ImportPath, Export string
	GoFiles                 []string
}

func main() {
	out := os.Args[1]
	want := map[string]bool{}
	for _, d := range os.Args[2:] {
		want[d] = true
	}
	cmd := exec.Command("go", "list", "-export", "-deps", "-json=Dir,ImportPath,Export,GoFiles", "github.com/bytedance/mockey")
	cmd.Stderr = os.Stderr
	b, err := cmd.Output()
	must(err)
	exports := map[string]string{}
	var todo []pkg
	dec := json.NewDecoder(strings.NewReader(string(b)))
	for {
		var p pkg
		err := dec.Decode(&p)
		if err == io.EOF {
			break
		}
		must(err)
		exports[p.ImportPath] = p.Export
		if want[p.Dir] {
			todo = append(todo, p)
		}
	}
	replace := map[string]string{}
	for _, p := range todo {
		instrument(p, exports, out, replace)
	}
	j, _ := json.MarshalIndent(map[string]interface{}{"Replace": replace}, "", " ")
	write(filepath.Join(out, "overlay.json"), string(j))
}

type edit struct {
	pos, end int
	text     string
	rank     int
}

type inst struct {
	fset  *token.FileSet
	info  *types.Info
	pkg   *types.Package
	src   string
	file  *ast.File
	edits []edit
	fn    []ast.Node // enclosing functions
	n     int
}

func instrument(p pkg, exports map[string]string, out string, replace map[string]string) {
	fset := token.NewFileSet()
	var files []*ast.File
	var srcs []string
	for _, name := range p.GoFiles {
		b, err := os.ReadFile(filepath.Join(p.Dir, name))
		must(err)
		f, err := parser.ParseFile(fset, filepath.Join(p.Dir, name), b, parser.ParseComments)
		must(err)
		files = append(files, f)
		srcs = append(srcs, string(b))
	}
	info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Uses: map[*ast.Ident]types.Object{},
		Defs: map[*ast.Ident]types.Object{}, Selections: map[*ast.SelectorExpr]*types.Selection{}}
	conf := types.Config{Error: func(error) {}, Importer: importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
		e := exports[path]
		if e == "" {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(e)
	})}
	tp, _ := conf.Check(p.ImportPath, fset, files, info)
	for i, f := range files {
		if skip[p.GoFiles[i]] {
			continue
		}
		in := &inst{fset: fset, info: info, pkg: tp, src: srcs[i], file: f}
		text := in.run()
		dst := filepath.Join(out, strings.ReplaceAll(strings.Trim(p.ImportPath, "/"), "/", "_")+"__"+p.GoFiles[i])
		write(dst, text)
		replace[filepath.Join(p.Dir, p.GoFiles[i])] = dst
	}
}

func (in *inst) off(p token.Pos) int { return in.fset.Position(p).Offset }

func (in *inst) add(pos, end token.Pos, text string, rank int) {
	in.edits = append(in.edits, edit{in.off(pos), in.off(end), text, rank})
}

func (in *inst) text(n ast.Node) string { return in.src[in.off(n.Pos()):in.off(n.End())] }

func (in *inst) run() string {
	for _, im := range in.file.Imports {
		switch im.Path.Value {
		case `"sync"`:
			name := "sync"
			if im.Name != nil {
				name = im.Name.Name
			}
			in.add(im.Pos(), im.End(), name+` "`+base+`/vsync"`, 0)
		case `"sync/atomic"`:
			name := "atomic"
			if im.Name != nil {
				name = im.Name.Name
			}
			in.add(im.Pos(), im.End(), name+` "`+base+`/vatomic"`, 0)
		}
	}
	for _, d := range in.file.Decls {
		switch d := d.(type) {
		case *ast.FuncDecl:
			if d.Body != nil && d.Name.Name != "init" && !nosplit(d) {
				in.function(d, d.Body)
			}
		case *ast.GenDecl:
			ast.Inspect(d, func(n ast.Node) bool {
				if l, ok := n.(*ast.FuncLit); ok {
					in.function(l, l.Body)
					return false
				}
				return true
			})
		}
	}
	used := in.n > 0
	if used {
		in.add(in.file.Name.End(), in.file.Name.End(), "; import zzvsched \""+base+"\"", 0)
	}
	sort.SliceStable(in.edits, func(i, j int) bool {
		if in.edits[i].pos != in.edits[j].pos {
			return in.edits[i].pos < in.edits[j].pos
		}
		return in.edits[i].rank < in.edits[j].rank
	})
	var b strings.Builder
	at := 0
	for _, e := range in.edits {
		if e.pos < at {
			panic("overlapping edits in " + in.fset.Position(in.file.Pos()).Filename)
		}
		b.WriteString(in.src[at:e.pos])
		b.WriteString(e.text)
		at = e.end
	}
	b.WriteString(in.src[at:])
	return b.String()
}

func nosplit(d *ast.FuncDecl) bool {
	if d.Doc == nil {
		return false
	}
	for _, c := range d.Doc.List {
		if strings.HasPrefix(c.Text, "//go:nosplit") || strings.HasPrefix(c.Text, "//go:linkname") || strings.HasPrefix(c.Text, "//go:systemstack") {
			return true
		}
	}
	return false
}

func (in *inst) function(fn ast.Node, body *ast.BlockStmt) {
	in.fn = append(in.fn, fn)
	in.block(body.List)
	in.fn = in.fn[:len(in.fn)-1]
}

func (in *inst) block(list []ast.Stmt) {
	for _, s := range list {
		in.stmt(s)
	}
}

func (in *inst) point(s ast.Stmt) {
	in.n++
	in.add(s.Pos(), s.Pos(), "zzvsched.Point(); ", 1)
}

func (in *inst) stmt(s ast.Stmt) {
	switch x := s.(type) {
	case *ast.BlockStmt:
		in.block(x.List)
		return
	case *ast.LabeledStmt:
		switch y := x.Stmt.(type) {
		case *ast.ForStmt:
			in.loop(y.Init, y.Cond, y.Post, y.Body)
		case *ast.RangeStmt:
			in.exprs(y.X)
			in.block(y.Body.List)
		}
		return
	case *ast.DeclStmt, *ast.EmptyStmt, *ast.BranchStmt:
		if d, ok := s.(*ast.DeclStmt); ok {
			if in.shared(d) {
				in.point(s)
			}
			in.exprs(d)
		}
		return
	case *ast.IfStmt:
		in.ifs(x, true)
		return
	case *ast.ForStmt:
		if in.sharedAny(x.Init, x.Cond) {
			in.point(s)
		}
		in.loop(x.Init, x.Cond, x.Post, x.Body)
		return
	case *ast.RangeStmt:
		if in.shared(x.X) {
			in.point(s)
		}
		in.exprs(x.X)
		in.block(x.Body.List)
		return
	case *ast.SwitchStmt:
		if in.sharedAny(x.Init, x.Tag) {
			in.point(s)
		}
		in.exprs(x.Init, x.Tag)
		for _, c := range x.Body.List {
			for _, e := range c.(*ast.CaseClause).List {
				in.exprs(e)
			}
			in.block(c.(*ast.CaseClause).Body)
		}
		return
	case *ast.TypeSwitchStmt:
		if in.sharedAny(x.Init, x.Assign) {
			in.point(s)
		}
		for _, c := range x.Body.List {
			in.block(c.(*ast.CaseClause).Body)
		}
		return
	case *ast.SelectStmt:
		in.point(s)
		for _, c := range x.Body.List {
			in.block(c.(*ast.CommClause).Body)
		}
		return
	}
	if in.shared(s) && !in.shimmed(s) {
		in.point(s)
	}
	if in.split(s) {
		return
	}
	in.exprs(s)
}

func (in *inst) ifs(x *ast.IfStmt, first bool) {
	if first && in.sharedAny(x.Init, x.Cond) {
		in.point(x)
	}
	in.exprs(x.Init, x.Cond)
	in.block(x.Body.List)
	switch e := x.Else.(type) {
	case *ast.IfStmt:
		in.ifs(e, false)
	case *ast.BlockStmt:
		in.block(e.List)
	}
}

func (in *inst) loop(init ast.Stmt, cond ast.Expr, post ast.Stmt, body *ast.BlockStmt) {
	in.exprs(init, cond, post)
	if in.sharedAny(cond, post) && len(body.List) > 0 {
		in.n++
		in.add(body.Lbrace+1, body.Lbrace+1, "zzvsched.Point(); ", 0)
	}
	in.block(body.List)
}

// exprs instruments the function literals inside.
func (in *inst) exprs(ns ...ast.Node) {
	for _, n := range ns {
		if n == nil || isNil(n) {
			continue
		}
		ast.Inspect(n, func(n ast.Node) bool {
			if l, ok := n.(*ast.FuncLit); ok {
				in.function(l, l.Body)
				return false
			}
			return true
		})
	}
}

func isNil(n ast.Node) bool {
	switch x := n.(type) {
	case ast.Expr:
		return x == nil
	case ast.Stmt:
		return x == nil
	}
	return false
}

func (in *inst) sharedAny(ns ...ast.Node) bool {
	for _, n := range ns {
		if n != nil && in.shared(n) {
			return true
		}
	}
	return false
}

// shared tells whether n (function literals inside left out) may touch memory that other goroutines see.
func (in *inst) shared(n ast.Node) bool {
	found := false
	ast.Inspect(n, func(n ast.Node) bool {
		switch x := n.(type) {
		case nil:
			return false
		case *ast.FuncLit:
			return false
		case *ast.StarExpr, *ast.SendStmt:
			found = true
		case *ast.UnaryExpr:
			if x.Op == token.ARROW {
				found = true
			}
		case *ast.SelectorExpr:
			if sel := in.info.Selections[x]; sel == nil {
				if v, ok := in.info.Uses[x.Sel].(*types.Var); ok && !v.IsField() {
					found = true // a variable of another package
				}
			} else if sel.Kind() == types.FieldVal {
				found = true
			}
		case *ast.IndexExpr:
			if tv, ok := in.info.Types[x.X]; ok && tv.Type != nil {
				switch tv.Type.Underlying().(type) {
				case *types.Map, *types.Slice, *types.Pointer:
					found = true
				}
			}
		case *ast.Ident:
			if v, ok := in.info.Uses[x].(*types.Var); ok && !v.IsField() && in.outer(v) {
				found = true
			}
		}
		return !found
	})
	return found
}

// shimmed: a call of sync or sync/atomic, which has its own scheduling point.
func (in *inst) shimmed(s ast.Stmt) bool {
	var c *ast.CallExpr
	switch x := s.(type) {
	case *ast.ExprStmt:
		c, _ = x.X.(*ast.CallExpr)
	case *ast.DeferStmt:
		c = x.Call
	}
	if c == nil {
		return false
	}
	if f, ok := c.Fun.(*ast.SelectorExpr); ok {
		if o := in.info.Uses[f.Sel]; o != nil && o.Pkg() != nil {
			return o.Pkg().Path() == "sync" || o.Pkg().Path() == "sync/atomic"
		}
	}
	return false
}

// outer: declared outside the innermost enclosing function.
func (in *inst) outer(v *types.Var) bool {
	f := in.fn[len(in.fn)-1]
	return v.Pos() < f.Pos() || v.Pos() > f.End()
}

// split takes a read-modify-write statement apart.
func (in *inst) split(s ast.Stmt) bool {
	addressable := func(e ast.Expr) bool {
		if in.hasCall(e) {
			return false
		}
		switch x := e.(type) {
		case *ast.SelectorExpr:
			return true
		case *ast.StarExpr:
			return true
		case *ast.Ident:
			v, ok := in.info.Uses[x].(*types.Var)
			return ok && in.outer(v)
		case *ast.IndexExpr:
			if tv, ok := in.info.Types[x.X]; ok && tv.Type != nil {
				_, isSlice := tv.Type.Underlying().(*types.Slice)
				return isSlice
			}
		}
		return false
	}
	switch x := s.(type) {
	case *ast.IncDecStmt:
		if !addressable(x.X) {
			return false
		}
		op := "+"
		if x.Tok == token.DEC {
			op = "-"
		}
		in.n++
		in.add(s.Pos(), s.End(), "{ zzp := &"+in.text(x.X)+"; zzv := *zzp; zzvsched.Point(); *zzp = zzv "+op+" 1 }", 2)
		return true
	case *ast.AssignStmt:
		if len(x.Lhs) != 1 || len(x.Rhs) != 1 || hasLit(x) || !addressable(x.Lhs[0]) {
			return false
		}
		lt, ok := in.info.Types[x.Lhs[0]]
		rt, ok2 := in.info.Types[x.Rhs[0]]
		if !ok || !ok2 || rt.Value != nil || rt.IsNil() || rt.Type == nil {
			return false
		}
		if x.Tok == token.ASSIGN {
			if !in.shared(x.Rhs[0]) && !in.hasCall(x.Rhs[0]) || !types.Identical(lt.Type, rt.Type) {
				return false
			}
			in.n++
			in.add(s.Pos(), s.End(), "{ zzv := "+in.text(x.Rhs[0])+"; zzvsched.Point(); "+in.text(x.Lhs[0])+" = zzv }", 2)
			return true
		}
		if x.Tok == token.DEFINE {
			return false
		}
		op := strings.TrimSuffix(x.Tok.String(), "=")
		in.n++
		in.add(s.Pos(), s.End(), "{ zzp := &"+in.text(x.Lhs[0])+"; zzv := *zzp; zzvsched.Point(); *zzp = zzv "+op+" ("+in.text(x.Rhs[0])+") }", 2)
		return true
	}
	return false
}

func (in *inst) hasCall(e ast.Node) bool {
	found := false
	ast.Inspect(e, func(n ast.Node) bool {
		if _, ok := n.(*ast.CallExpr); ok {
			found = true
		}
		return !found
	})
	return found
}

func hasLit(e ast.Node) bool {
	found := false
	ast.Inspect(e, func(n ast.Node) bool {
		if _, ok := n.(*ast.FuncLit); ok {
			found = true
		}
		return !found
	})
	return found
}

func write(path, text string) {
	if b, err := os.ReadFile(path); err == nil && string(b) == text {
		return
	}
	must(os.WriteFile(path, []byte(text), 0644))
}

func must(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "instr:", err)
		os.Exit(1)
	}
}
