"""Generates the generic functions and methods of C14 with their instances and ways of calling them."""
import re

# one type argument
BASIS1 = ["int", "MyInt", "uint8", "bool", "string", "Str", "float64", "[]byte", "*A1", "*A2", "*int", "Pair", "Twin", "Big",
          "Empty", "Any", "interface{}", "error", "map[string]int", "Fn", "chan int", "[5]int16", "complex128", "Huge"]
FEW1 = ["int", "MyInt", "string", "*A1", "*A2", "Pair", "Twin", "Big", "error", "[5]int16", "Fn", "float64"]
NAMED = ["*A1", "*A2", "MyInt", "Str"]
NUMS = ["int", "MyInt", "string", "Str", "float64", "uint8"]
BASIS2 = [("int", "string"), ("string", "int"), ("MyInt", "string"), ("int", "Str"), ("*A1", "*A2"), ("*A2", "*A1"), ("*A1", "*A1"),
          ("Pair", "Twin"), ("Twin", "Pair"), ("Big", "error"), ("float64", "[]byte"), ("interface{}", "Fn"), ("int", "int")]
BASIS3 = [("int", "string", "float64"), ("*A1", "*A2", "*int"), ("*A2", "*int", "*A1"), ("MyInt", "Str", "float64"), ("Pair", "int", "Big"),
          ("error", "interface{}", "chan int"), ("uint8", "bool", "[5]int16"), ("Big", "Big", "Big")]

# parameters, results
P1 = [[], ["T"], ["*T"], ["[]T"], ["map[string]T"], ["func(T) T"], ["Box[T]"], ["*Box[T]"], ["int", "T"], ["T", "string", "T"], ["T"] * 9,
      ["int", "...T"], ["string", "...interface{}"], ["[3]T"], ["chan T"], ["interface{}", "error", "T"], ["T"] + ["float64"] * 16,
      ["[70]T"], ["int"], ["uint8", "T", "bool", "T", "int16"], ["struct { A T; B int }", "T"]]
R1 = [[], ["T"], ["T", "error"], ["*T", "[]T", "string"], ["Box[T]"], ["[70]T"], ["int"], ["map[string]T", "func(T) T"], ["T"] * 5]
RECV1 = ["struct { A T }", "struct{}", "struct { N int; A T; S string }", "[]T", "map[string]T", "func(T) T", "int", "struct { A [40]T }",
         "struct { P *T }", "chan T", "[2]T", "string"]
D2 = [(["T", "U"], ["U", "T"]), (["U", "T"], ["T"]), (["int"], ["string"]), (["U", "int"], ["U"]), (["bool"], ["U"]), (["map[string]T", "[]U"], ["U"]), (["T", "...U"], ["error"]), ([], ["T", "U"]), (["func(T) U"], []),
      (["U"], ["U"]), (["[20]T", "[20]U"], ["[30]U"]), (["*T", "Box[U]", "int"], ["T", "U", "string"])]
D3 = [([], []), (["int"], ["V"]), (["T", "U", "V"], ["V", "U", "T"]), (["V"], ["T", "U"]), (["[]T", "map[string]U", "V"], ["error"]), (["T", "U", "...V"], []),
      (["[9]T", "[9]U", "[9]V"], ["[9]V"])]
VARS = "TUV"


def sub(t, m):
    return re.sub(r"\b([TUV])\b", lambda x: m[x.group(1)], t)


class Decl:
    def __init__(self, form, n, params, results, insts, recv=None, cons=None, used=None, body="plain"):
        self.form, self.n, self.params, self.results, self.insts, self.recv = form, n, params, results, insts, recv
        self.cons = cons or ["any"] * n
        self.used = used
        self.body = body


def decls(thorough):
    ds = []
    full = BASIS1

    def add1(form, p, r, k, **kw):
        basis = full if thorough or k % 3 == 0 else FEW1
        if "[70]T" in p + r or "[40]T" in str(kw.get("recv")):
            basis = [b for b in basis if b != "Huge"]  # the stack would have to grow (KF-1)
        ds.append(Decl(form, 1, p, r, [(b,) for b in basis], used=[0] if k % 3 else None, **kw))
    k = 0
    for form in ("func", "value", "ptr"):
        recvs = [None] if form == "func" else RECV1
        done = set()

        def one(p, r):
            nonlocal k
            if (tuple(p), tuple(r)) in done:
                return
            done.add((tuple(p), tuple(r)))
            k += 1
            add1(form, p, r, k, recv=recvs[k % len(recvs)])
        for i, p in enumerate(P1):
            if thorough:
                for r in R1:
                    one(p, r)
            elif form == "func":
                one(p, R1[i % len(R1)])
                one(p, R1[(i * 2 + 4) % len(R1)])
            else:
                one(p, R1[(i + (3 if form == "ptr" else 5)) % len(R1)])
        for r in R1:
            one(["T"], r)
        if form != "func":
            for rc in RECV1:
                k += 1
                add1(form, ["T"], ["T", "int"], k, recv=rc)
                if thorough:
                    add1(form, [], [], k, recv=rc)
        for i, (p, r) in enumerate(D2):
            for used in ([0, 1], [1, 0]):
                rc = None if form == "func" else ["struct { A T; B U }", "map[string]U", "[]T", "struct{}", "func(U) T"][(i + used[0]) % 5]
                ds.append(Decl(form, 2, p, r, BASIS2 if thorough or i % 2 == used[0] else BASIS2[:8], recv=rc, used=used))
        for i, (p, r) in enumerate(D3):
            for used in ([0, 1, 2], [2, 0, 1], [1, 2, 0], [2, 1, 0]):
                if not thorough and (i + used[0]) % 2:
                    continue
                rc = None if form == "func" else ["struct { A T; B U; C V }", "[]V", "struct{}"][(i + used[0]) % 3]
                ds.append(Decl(form, 3, p, r, BASIS3, recv=rc, used=used))
        # constraints by method and by type set; bodies that use their parameter through other generic code only
        rc = None if form == "func" else "struct { A T }"
        ds.append(Decl(form, 1, ["T", "int"], ["T"], [(b,) for b in NAMED], recv=rc, cons=["Namer"], body="method"))
        ds.append(Decl(form, 1, ["T", "int"], ["T"], [(b,) for b in NUMS], recv=rc, cons=["Num"], used=[0]))
        ds.append(Decl(form, 1, ["T", "T"], ["T"], [(b,) for b in NUMS], recv=rc, cons=["Num"], body="less"))
        ds.append(Decl(form, 1, ["T"], ["[]T", "int"], [(b,) for b in FEW1], recv=rc, body="calls"))
        ds.append(Decl(form, 1, ["int"], ["int"], [(b,) for b in FEW1], recv=rc, body="unused"))
        ds.append(Decl(form, 1, ["*T", "T"], ["T"], [(b,) for b in FEW1], recv=rc, body="closure"))
    for i, d in enumerate(ds):
        d.id = i
    return ds


def ty(t):
    return "[]" + t[3:] if t.startswith("...") else t


def order(d):
    """The type parameters that come first in the dictionary: the compiler lists the types of the receiver, the parameters,
    the results and the variables of the body as they appear."""
    if d.used is None or d.form != "func":
        return None
    r = []
    for t in d.params + d.results + [VARS[i] for i in d.used]:
        if t in VARS[:d.n]:
            if VARS.index(t) not in r:
                r.append(VARS.index(t))
        elif re.search(r"\b[%s]\b" % VARS[:d.n], t):
            break
    return r or None


def emit(d):
    k = d.id
    tv = VARS[:d.n]
    tdecl = "[" + ", ".join("%s %s" % (a, c) for a, c in zip(tv, d.cons)) + "]"
    tuse = "[" + ", ".join(tv) + "]"
    method = d.form != "func"
    mname = ("M%d" if k % 2 else "m%d") % k
    rn = "R%d" % k
    recvt = ("*" if d.form == "ptr" else "") + rn + tuse
    ps = ", ".join("p%d %s" % (i, p) for i, p in enumerate(d.params))
    rs = ", ".join("r%d %s" % (i, r) for i, r in enumerate(d.results))
    rdecl = " (%s)" % rs if rs else ""
    args = ", ".join("p%d%s" % (i, "..." if p.startswith("...") else "") for i, p in enumerate(d.params))
    ret = "return " if d.results else ""
    o = []
    w = o.append
    # the original
    if method:
        w("type %s%s %s\n" % (rn, tdecl, d.recv))
        head = "func (r %s) %s(%s)%s" % (recvt, mname, ps, rdecl)
    else:
        head = "func F%d%s(%s)%s" % (k, tdecl, ps, rdecl)
    desc = head if method else head
    w(head + " {")
    alls = (["r"] if method else []) + ["p%d" % i for i in range(len(d.params))]
    used = ""
    if d.used is not None:
        for i in d.used:
            w("\tvar z%d %s" % (i, tv[i]))
        used = ", ".join("z%d" % i for i in d.used)
    if d.body == "method":
        w("\tif p1 == 12345 {\n\t\tprintln(p0.Name())\n\t}")
    elif d.body == "less":
        w("\tif p0 < p1 {\n\t\tp0, p1 = p1, p0\n\t\tp0, p1 = p1, p0\n\t}")
    if d.body == "calls":
        w("\tout := help%d(%s)" % (k, ", ".join(alls)))
    elif d.body == "unused":
        w("\tout := Enter(%d, nil, []interface{}{%s})" % (k, "r, p0" if False else ", ".join(alls)))
    elif d.body == "closure":
        w("\tvar out []interface{}\n\targs := []interface{}{%s}\n\tfor _, f := range []func(int){func(int) {}, func(n int) { args = args[:n] }} {\n\t\tf(len(args))\n\t}\n\tout = Enter(%d, nil, args)" % (", ".join(alls), k))
    elif d.used is not None:
        w("\tout := EnterAt(%d, []interface{}{%s}, []uintptr{%s})" % (k, used, ", ".join("uintptr(unsafe.Pointer(&%s))" % a for a in alls)))
    else:
        w("\tout := Enter(%d, nil, []interface{}{%s})" % (k, ", ".join(alls)))
    for i, r in enumerate(d.results):
        if d.used is not None:
            w("\tr%d = *(*%s)(out[%d])" % (i, ty(r), i))
        else:
            w("\tr%d, _ = out[%d].(%s)" % (i, i, r))
    if not d.results:
        w("\t_ = out")
    w("\treturn\n}\n")
    if d.body == "calls":
        hp = (["r " + recvt] if method else []) + ["p%d %s" % (i, p) for i, p in enumerate(d.params)]
        # the entry that is recorded is the caller's
        w("func help%d%s(%s) []interface{} {\n\tu := []interface{}{%s}\n\treturn EnterOf(%d, u)\n}\n" % (k, tdecl, ", ".join(hp), ", ".join(alls), k))
    # callers in other generic functions
    fullps = ", ".join((["r " + recvt] if method else []) + ["p%d %s" % (i, p) for i, p in enumerate(d.params)])
    fulltypes = ", ".join(([recvt] if method else []) + d.params)
    rtypes = " (%s)" % ", ".join(d.results) if d.results else ""
    call = "r.%s(%s)" % (mname, args) if method else "F%d%s(%s)" % (k, tuse, args)
    expr = ("(%s).%s" % (recvt, mname)) if method else "F%d%s" % (k, tuse)
    w("func C%d%s(%s)%s {\n\t%s%s\n}\n" % (k, tdecl, fullps, rdecl, ret, call))
    w("func V%d%s() func(%s)%s {\n\treturn %s\n}\n" % (k, tdecl, fulltypes, rtypes, expr))
    # instances
    w("func init() {\n\tAdd(&Decl{ID: %d, Desc: %s, Method: %s, Ptr: %s, Used: %s, Blank: %s, Insts: []Inst{" % (
        k, '"%s"' % (desc if not method or d.recv is None else desc + " on " + d.recv).replace('"', "'"),
        '"%s"' % (mname if method else ""), "true" if d.form == "ptr" else "false",
        "[]int{%s}" % ", ".join(map(str, order(d))) if order(d) else "nil",
        "true" if not method and d.used is None and not re.search(r"\b[TUV]\b", " ".join(d.params + d.results)) else "false"))
    for inst in d.insts:
        m = dict(zip(tv, inst))
        iu = "[" + ", ".join(inst) + "]"
        s = lambda t: sub(t, m)
        irecv = ("*" if d.form == "ptr" else "") + rn + iu
        ips = ", ".join((["r " + irecv] if method else []) + ["p%d %s" % (i, s(p)) for i, p in enumerate(d.params)])
        mps = ", ".join("p%d %s" % (i, s(p)) for i, p in enumerate(d.params))
        irt = " (%s)" % ", ".join(s(r) for r in d.results) if d.results else ""
        ftype = "func(%s)%s" % (ips, irt)
        itarget = "(%s).%s" % (irecv, mname) if method else "F%d%s" % (k, iu)
        w("\t\t{Name: \"%s\", Types: []reflect.Type{%s}, Target: %s, Alts: []Way{{\"made in a generic function\", V%d%s()}}, Ways: []Way{" % (
            ", ".join(inst), ", ".join("T((*%s)(nil))" % x for x in inst), itarget, k, iu))

        def way(name, setup, c):
            w("\t\t\t{\"%s\", %s {\n%s\t\t\t\t%s%s(%s)\n\t\t\t}}," % (name, ftype, setup, ret, c, args))
        w("\t\t\t{\"function value\", %s}," % itarget)
        w("\t\t\t{\"generic caller\", C%d%s}," % (k, iu))
        w("\t\t\t{\"value made in a generic function\", V%d%s()}," % (k, iu))
        if not method:
            way("direct", "", "F%d%s" % (k, iu))
            if d.params and d.form == "func":
                way("from a goroutine", "", "func(%s)%s { c := make(chan int); go func() { defer close(c); Grow(); %s }(); <-c; return }" % (
                    mps, (" (" + ", ".join("r%d %s" % (i, s(r)) for i, r in enumerate(d.results)) + ")") if d.results else "",
                    ("%s = " % ", ".join("r%d" % i for i in range(len(d.results))) if d.results else "") + "F%d%s(%s)" % (k, iu, args)))
        else:
            way("direct", "", "r.%s" % mname)
            way("method value", "\t\t\t\tf := r.%s\n" % mname, "f")
            ity = "interface{ %s(%s)%s }" % (mname, mps, irt)
            way("interface", "\t\t\t\tvar i %s = r\n" % ity, "i.%s" % mname)
            if d.form == "value":
                way("interface holding a pointer", "\t\t\t\tvar i %s = &r\n" % ity, "i.%s" % mname)
                way("through a pointer", "\t\t\t\tp := &r\n", "p.%s" % mname)
            way("promoted", "\t\t\t\te := struct {\n\t\t\t\t\tpad int\n\t\t\t\t\t%s\n\t\t\t\t}{1, r}\n" % irecv, "e.%s" % mname)
            way("promoted, interface", "\t\t\t\tvar i %s = struct {\n\t\t\t\t\tpad int\n\t\t\t\t\t%s\n\t\t\t\t}{1, r}\n" % (ity, irecv), "i.%s" % mname)
        w("\t\t}},")
    w("\t}})\n}\n")
    return "\n".join(o)


def generate(thorough, parts=8):
    """[(package name, text)]"""
    ds = decls(thorough)
    out = []
    for g in range(parts):
        text = "// Code generated by tools/gen_generics.py; DO NOT EDIT.\n\npackage g%d\n\nimport (\n\t\"reflect\"\n\t\"unsafe\"\n\n\t. \"github.com/bytedance/mockey/zzverif/gens\"\n)\n\n" % g
        text += "\n".join(emit(d) for d in ds if d.id % parts == g)
        text += "\nvar _ unsafe.Pointer\n"
        out.append(("g%d" % g, text))
    return out


if __name__ == "__main__":
    import sys
    n = sum(len(d.insts) for d in decls("thorough" in sys.argv))
    print(len(decls("thorough" in sys.argv)), "declarations", n, "instances")
