#!/usr/bin/env python3
"""Generates harness/abi/static.go: compiled functions and methods of many signatures with every way of calling them."""
import os, itertools
types = ["int", "string", "float64", "interface{}", "five", "mixed", "[]byte"]
recvs = [("func", None), ("ptr", "*rp"), ("small", "rs"), ("big", "rb"), ("float", "rf")]
out = ["// Code generated by tools/gen_abi.py. DO NOT EDIT.\n\npackage abi\n\nimport \"reflect\"\n"]
items = []
n = 0

fields = {}

def field(t):
    if t not in fields:
        fields[t] = "T%d" % len(fields)
    return fields[t]

def arg(i, t):
    return "a[%d]" % i if t == "interface{}" else "a[%d].(%s)" % (i, t)

def emit(ps, variadic, kind, rt):
    global n
    n += 1
    name = "M%d" % n
    decl = []
    for i, t in enumerate(ps):
        decl.append("p%d %s%s" % (i, "..." if variadic and i == len(ps) - 1 else "", t))
    res = list(reversed(ps))
    if variadic:
        res = ps[:-1] or ["int"]
    rdecl = "(" + ", ".join(res) + ")"
    rnames = ["r%d" % i for i in range(len(res))]
    w = out.append
    def ty(i):
        return "[]" + ps[i] if variadic and i == len(ps) - 1 else ps[i]
    def body(first, var):
        s = ""
        k = 0
        if first:
            s += "\tg%s[0].%s = r\n" % (field(rt), var)
            k = 1
        for i in range(len(ps)):
            s += "\tg%s[%d].%s = p%d\n" % (field(ty(i)), i + k, var, i)
        return s + "\treturn " + ", ".join("g%s[%d].R" % (field(t), i) for i, t in enumerate(res)) + "\n"
    if kind == "func":
        w("//go:nosplit\nfunc %s(%s) %s {\n%s}\n" % (name, ", ".join(decl), rdecl, body("", "O")))
        hook = "func(%s) %s {\n%s}" % (", ".join(decl), rdecl, body("", "H"))
        target = name
    else:
        w("//go:nosplit\nfunc (r %s) %s(%s) %s {\n%s}\n" % (rt, name, ", ".join(decl), rdecl, body("r", "O")))
        hook = "func(r %s, %s) %s {\n%s}" % (rt, ", ".join(decl), rdecl, body("r", "H"))
        target = "(%s).%s" % (rt, name)
    off = 0 if kind == "func" else 1
    call = []
    for i, t in enumerate(ps):
        if variadic and i == len(ps) - 1:
            call.append("a[%d].([]%s)..." % (i + off, t))
        else:
            call.append(arg(i + off, t))
    call = ", ".join(call)
    def path(label, expr, setup=""):
        return "\t\t{%s, func(a []interface{}) []interface{} {\n\t\t\t%s%s := %s\n\t\t\treturn []interface{}{%s}\n\t\t}},\n" % (
            '"%s"' % label, setup, ", ".join(rnames), expr, ", ".join(rnames))
    paths = ""
    if kind == "func":
        paths += path("direct", "%s(%s)" % (name, call))
        paths += path("function value", "f(%s)" % call, "f := %s\n\t\t\t" % name)
    else:
        paths += path("direct", "a[0].(%s).%s(%s)" % (rt, name, call))
        paths += path("method expression", "(%s).%s(a[0].(%s), %s)" % (rt, name, rt, call))
        paths += path("method expression value", "f(a[0].(%s), %s)" % (rt, call), "f := (%s).%s\n\t\t\t" % (rt, name))
        paths += path("method value", "f(%s)" % call, "f := a[0].(%s).%s\n\t\t\t" % (rt, name))
        paths += path("interface", "i.(interface { %s(%s) %s }).%s(%s)" % (name, ", ".join(decl), rdecl, name, call), "i := a[0]\n\t\t\t")
        paths += path("promoted", "e.%s(%s)" % (name, call), "e := struct {\n\t\t\t\tpad int\n\t\t\t\t%s\n\t\t\t}{1, a[0].(%s)}\n\t\t\t" % (rt, rt))
        if kind != "ptr":
            paths += path("through a pointer", "p.%s(%s)" % (name, call), "x := a[0].(%s)\n\t\t\tp := &x\n\t\t\t" % rt)
            paths += path("interface holding a pointer", "i.%s(%s)" % (name, call),
                          "x := a[0].(%s)\n\t\t\tvar i interface { %s(%s) %s } = &x\n\t\t\t" % (rt, name, ", ".join(decl), rdecl))
    items.append("\t{\"%s %s\", %s, %s, %s, []path{\n%s\t}},\n" % (
        kind, "(%s)" % ", ".join(decl), target, hook, "true" if variadic else "false", paths))


for kind, rt in recvs:
    sigs = [(list(p), False) for k in (1, 2) for p in itertools.product(types, repeat=k)]
    sigs += [([t], True) for t in types] + [(["float64", t], True) for t in types]
    sigs += [(["int"] * 10, False), (["float64"] * 17, False), (["string", "five", "int", "mixed", "int"], False)]
    if kind not in ("func", "ptr"):
        sigs = [s for s in sigs if len(s[0]) == 1 or s[1] or "five" in s[0] or len(s[0]) > 2 or s[0][0] == "mixed"]
    for ps, v in sigs:
        emit(ps, v, kind, rt)
for t, f in fields.items():
    out.append("var g%s [20]struct{ O, H, R %s }\n" % (f, t))
out.append("var globals = map[reflect.Type]interface{}{\n" + "".join("\treflect.TypeOf((*%s)(nil)).Elem(): &g%s,\n" % (t, f) for t, f in fields.items()) + "}\n")
text = "\n".join(out) + "\nvar statics = []static{\n" + "".join(items) + "}\n"
p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "harness/abi/gen_static.go")
open(p, "w").write(text)
