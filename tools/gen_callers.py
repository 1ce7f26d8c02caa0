"""Kinds of functions that apply a mock (C17): each contains every applying operation with its own line."""
import os, subprocess

OPS = ["s.Line, s.M = Here(), s.B.Build()",
       "s.Line, s.M = Here(), s.M.Patch()",
       "s.Line, s.M = Here(), s.M.To(s.Hook)",
       "s.Line, s.M = Here(), s.M.Return(s.Ret...)",
       "s.Line, s.M = Here(), s.M.When(s.Cond)",
       "s.Line, s.M = Here(), s.M.Origin(s.Orig)",
       "s.Line, s.M = Here(), s.M.ExcludeCurrentGoRoutine()",
       "s.Line, s.M = Here(), s.M.IncludeCurrentGoRoutine()",
       "s.Line, s.M = Here(), s.M.FilterGoRoutine(mockey.Include, 1)",
       "s.Line, s.M = Here(), s.M.Release().Return(s.Ret...).Build()",
       "s.Line, s.V = Here(), s.V.To(s.Val)",
       "s.Line, s.V = Here(), s.V.Patch()",
       "s.Line, s.V = Here(), mockey.MockValue(s.Ptr).To(s.Val)"]


def body(ind):
    t = "\t" * ind
    r = [t + "switch s.Op {"]
    for i, o in enumerate(OPS):
        r += [t + "case %d:" % i, t + "\t" + o]
    return "\n".join(r + [t + "}"])


KINDS = [
    # (name, declarations, call)
    ("function", "func Plain(s *S) {\n@1\n}", "Plain(s)"),
    ("value method", "type Val struct{ a, b int }\n\nfunc (v Val) Do(s *S) {\n@1\n}", "Val{}.Do(s)"),
    ("pointer method", "type Ptr struct{ a int }\n\nfunc (p *Ptr) Do(s *S) {\n@1\n}", "(&Ptr{}).Do(s)"),
    ("method named as mockey's", "type Mocker struct{}\n\nfunc (m *Mocker) Patch(s *S) {\n@1\n}", "(&Mocker{}).Patch(s)"),
    ("builder named as mockey's", "type MockBuilder struct{}\n\nfunc (m MockBuilder) Build(s *S) {\n@1\n}", "MockBuilder{}.Build(s)"),
    ("method of a function type", "type Fn func()\n\nfunc (f Fn) Do(s *S) {\n@1\n}", "Fn(nil).Do(s)"),
    ("closure", None, "func() {\n@2\n\t\t}()"),
    ("closure in closures", None, "func() {\n\t\t\tfunc() {\n\t\t\t\tfunc() {\n@5\n\t\t\t\t}()\n\t\t\t}()\n\t\t}()"),
    ("closure of a pointer method", "func (p *Ptr) Closure(s *S) {\n\tfunc() {\n@2\n\t}()\n}", "(&Ptr{}).Closure(s)"),
    ("package variable", "var Global = func(s *S) {\n@1\n}", "Global(s)"),
    ("package variable in a struct", "var Table = struct{ f []func(s *S) }{[]func(s *S){func(s *S) {\n@1\n}}}", "Table.f[0](s)"),
    ("closure made by a package variable", "var Maker = func() func(s *S) {\n\treturn func(s *S) {\n@2\n\t}\n}()", "Maker(s)"),
    ("deferred closure", "func Deferred(s *S) {\n\tdefer func() {\n@2\n\t}()\n\ts.Nop()\n}", "Deferred(s)"),
    ("deferred method", "func DeferredMethod(s *S) {\n\tdefer (&Ptr{}).Do(s)\n\ts.Nop()\n}", "DeferredMethod(s)"),
    ("deferred closure of a panic", "func Panicking(s *S) {\n\tdefer func() {\n\t\trecover()\n\t}()\n\tdefer func() {\n@2\n\t}()\n\tpanic(1)\n}", "Panicking(s)"),
    ("generic function", "func Gen[T any](t T, s *S) {\n@1\n}", 'Gen("x", s)'),
    ("generic function of two types", "func Gen2[K comparable, V any](k K, v V, s *S) {\n@1\n}", 'Gen2(1, []string{"x"}, s)'),
    ("generic method", "type Box[T any] struct{ v T }\n\nfunc (b *Box[T]) Do(s *S) {\n@1\n}", "(&Box[int]{}).Do(s)"),
    ("generic value method", "func (b Box[T]) Val(s *S) {\n@1\n}", "Box[map[string]int]{}.Val(s)"),
    ("closure of a generic function", "func GenClosure[T any](t T, s *S) {\n\tfunc() {\n@2\n\t}()\n}", "GenClosure(1.5, s)"),
    ("promoted method by an interface", "type Outer struct{ *Ptr }\n\ntype doer interface{ Do(s *S) }", "doer(Outer{&Ptr{}}).Do(s)"),
    ("method value", None, "f := (&Ptr{}).Do\n\t\tf(s)"),
    ("method expression", None, "f := (*Ptr).Do\n\t\tf(&Ptr{}, s)"),
    ("goroutine", "func Go(s *S) {\n\tc := make(chan int)\n\tgo func() {\n\t\tdefer close(c)\n@2\n\t}()\n\t<-c\n}", "Go(s)"),
    ("goroutine of a function", "func GoPlain(s *S) {\n\tc := make(chan int)\n\tgo plainIn(s, c)\n\t<-c\n}\n\nfunc plainIn(s *S, c chan int) {\n\tdefer close(c)\n@1\n}", "GoPlain(s)"),
    ("deep recursion", "func Deep(n int, s *S) {\n\tif n > 0 {\n\t\tDeep(n-1, s)\n\t\treturn\n\t}\n@1\n}", "Deep(60, s)"),
    ("callback of package sort", "func Sorted(s *S) {\n\tdone := false\n\tsort.Slice([]int{2, 1}, func(i, j int) bool {\n\t\tif done {\n\t\t\treturn false\n\t\t}\n\t\tdone = true\n@2\n\t\treturn false\n\t})\n}", "Sorted(s)"),
    ("function called by reflect", None, "reflect.ValueOf(Plain).Call([]reflect.Value{reflect.ValueOf(s)})"),
    ("function made by reflect", None, "reflect.MakeFunc(reflect.TypeOf(Plain), func(a []reflect.Value) []reflect.Value {\n@3\n\t\t\treturn nil\n\t\t}).Interface().(func(*S))(s)"),
    ("hook of a mock", "func Hooked(s *S) {\n\tm := mockey.Mock(Trigger).To(func() {\n@2\n\t}).Build()\n\tTrigger()\n\tm.UnPatch()\n}", "Hooked(s)"),
    ("condition of a mock", "func Condition(s *S) {\n\tm := mockey.Mock(Trigger).When(func() bool {\n@2\n\t\treturn true\n\t}).Return().Build()\n\tTrigger()\n\tm.UnPatch()\n}", "Condition(s)"),
    ("original of a mock", "func Original(s *S) {\n\tm := mockey.Mock(Plain).When(func(s *S) bool { return false }).Return().Build()\n\tPlain(s)\n\tm.UnPatch()\n}", "Original(s)"),
    ("once", "func Once(s *S) {\n\tvar o sync.Once\n\to.Do(func() {\n@2\n\t})\n}", "Once(s)"),
    ("literal of a local type", "func Local(s *S) {\n\ttype t struct{ f func() }\n\tv := &t{f: func() {\n@2\n\t}}\n\tv.f()\n}", "Local(s)"),
    ("package initialiser", "var initialised = func() func(*S) {\n\tvar fs [2]func(*S)\n\tfor i := range fs {\n\t\tfs[i] = func(s *S) {\n@3\n\t\t}\n\t}\n\treturn fs[1]\n}()", "initialised(s)"),
    ("init function", "var byInit func(*S)\n\nfunc init() {\n\tbyInit = func(s *S) {\n@2\n\t}\n}", "byInit(s)"),
]

OTHER = ["function", "value method", "pointer method", "method named as mockey's", "builder named as mockey's", "closure", "package variable", "generic function", "closure of a pointer method"]


def expand(t):
    while "@" in t:
        i = t.index("@")
        t = t[:i] + body(int(t[i + 1])) + t[i + 2:]
    return t


def package(name, kinds, where, doc):
    out = ["// Package %s %s" % (name, doc), "//", "// Code generated by tools/gen_callers.py; DO NOT EDIT.", "package " + name, ""]
    text = "\n\n".join(expand(d) for n, d, c in KINDS if n in kinds and d)
    reg = "\n\nfunc init() {\n"
    for n, d, c in KINDS:
        if n in kinds:
            reg += "\tAdd(%s, func(s *S) {\n\t\t%s\n\t})\n" % ('"' + n + where + '"', expand(c))
    reg += "}\n"
    trig = "\n\n//go:noinline\nfunc Trigger() {\n\tuse++\n\tuse *= 3\n\tuse += 4\n}\n\nvar use int\n" if "Trigger" in text else ""
    src = text + reg + trig
    imps = [i for i in ("reflect", "sort", "sync") if i + "." in src]
    out.append("import (")
    out += ['\t"%s"' % i for i in imps]
    if imps:
        out.append("")
    alias = "mockey " if name == "mockey" else ""
    out.append('\t%s"github.com/bytedance/mockey"' % "")
    out.append('\t. "github.com/bytedance/mockey/zzverif/callers/state"')
    out.append(")\n")
    return "\n".join(out) + "\n" + src


def main():
    base = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "harness", "callers")
    every = [k[0] for k in KINDS]
    for path, name, kinds, where, doc in (
            ("", "callers", every, "", "applies mocks from every kind of function."),
            ("v2.x/mockey", "mockey", OTHER, " of another package named mockey", "has the name of mockey and a path with a dot."),
            ("github.com/bytedance/mockey", "mockey", OTHER, " of a package whose path ends like mockey's", "has a path that ends like mockey's.")):
        f = os.path.join(base, path, "zz_gen.go")
        os.makedirs(os.path.dirname(f), exist_ok=True)
        src = subprocess.run(["gofmt"], input=package(name, kinds, where, doc), capture_output=True, text=True, check=True).stdout
        if not os.path.exists(f) or open(f).read() != src:
            open(f, "w").write(src)


if __name__ == "__main__":
    main()
