"""Go types for C11: every embedding chain up to a depth over a set of providers, and what each name denotes on them.

The resolution here is computed from the construction (Go's selector rules on shapes without shadowing), independently
of mockey and of package reflect."""

NAMES = ["M", "m", "_m", "É", "é", "X"]
SIG = {"M": "(x int) int", "m": "(x int, more ...int) int", "_m": "(s string, x int) int", "É": "(x int) int", "é": "(x int) int", "X": "(x int) int"}
ARGS = {"M": "x", "m": "x, 1, 2", "_m": '"s", x', "É": "x", "é": "x", "X": "x"}
IALL = [n for n in NAMES if n != "X"]

# kind: (underlying type, literal, its print)
KINDS = {
    "struct": ("struct{ a, b int }", "{11, 22}", "{11 22}"),
    "big": ("struct{ a [9]int; s string }", '{[9]int{1, 2, 3, 4, 5, 6, 7, 8, 9}, "z"}', "{[1 2 3 4 5 6 7 8 9] z}"),
    "zero": ("struct{}", "{}", "{}"),
    "int": ("int", "(33)", "33"),
    "float": ("float64", "(2.5)", "2.5"),
    "string": ("string", '("str")', "str"),
    "slice": ("[]int", "{44, 45}", "[44 45]"),
    "array": ("[3]int8", "{1, 2, 3}", "[1 2 3]"),
    "chan": ("chan int", "(nil)", "<nil>"),
    "func": ("func(int) string", "(nil)", "<nil>"),
    "map": ("map[string]int", '{"k": 1}', "map[k:1]"),
    "bool": ("bool", "(true)", "true"),
}
LINKS = ["V", "P", "v", "p", "IV", "IP", "Vsib", "Psib", "Vfield", "Vdecoy", "Pnil", "F", "IX"]


class T:
    """A type: its name, its value expressions (with and without nil pointers), its method sets and what it provides."""

    def __init__(self, name, desc):
        self.name, self.desc = name, desc
        self.vs, self.ps = set(), set()     # method sets of T and *T
        self.has = {}                       # name -> (key, direct, is method, dynamic)
        self.lit = self.full = None
        self.nil = False                    # a pointer on the way is nil
        self.dyn = False                    # an interface on the way
        self.depth = 0


def generate(depth, wide_depth):
    out, types, canaries = [], [], []
    w = out.append
    w("package shapes\n")
    w("import \"fmt\"\n")
    w("type IAll interface {")
    for n in IALL:
        w("\t%s%s" % (n, SIG[n]))
    w("}\ntype iAll interface{ IAll }\ntype IX interface{ X(x int) int }\ntype iY interface{ Y(x int) int }\n")
    uid = [0]

    def method(recv, typ, n, key, body=None):
        uid[0] += 1
        w("func (r %s%s) %s%s { fmt.Sprint(x); return %d000 + x }" % (recv, typ, n, SIG.get(n, "(x int) int"), uid[0]))
        return uid[0]

    providers = []
    for kind, (under, lit, show) in KINDS.items():
        for recv in ("", "*"):
            for exported in (True, False):
                if not exported and kind not in ("struct", "int", "slice"):
                    continue
                name = ("P" if exported else "q") + kind.capitalize() + ("P" if recv else "V")
                w("type %s %s" % (name, under))
                t = T(name, recv + name)
                for n in NAMES:
                    key = name + "." + n
                    u = method(recv, name, n, key)
                    canaries.append((key, "func(x int) int { v := %s; return v.%s(%s) }" % (name + lit, n, ARGS[n]), u))
                    t.has[n] = (key, True, True, ("?" if kind == "map" and not recv and n not in ("M", "É", "X") else "") + show)
                t.ps = set(NAMES)
                t.vs = set(NAMES) if not recv else set()
                t.lit = t.full = name + lit
                t.kind = kind
                t.wide = kind in ("struct",)
                providers.append(t)
    # function fields
    for exported in (True, False):
        name = "PFields" if exported else "qFields"
        w("type %s struct {" % name)
        for n in NAMES:
            w("\t%s func%s" % (n, SIG[n]))
        w("}")
        t = T(name, name)
        vals = []
        for n in NAMES:
            uid[0] += 1
            w("func mk%s%d() func%s { y := 0; return func%s { y++; fmt.Sprint(x); return %d000 + x } }" % (name, NAMES.index(n), SIG[n], SIG[n], uid[0]))
            vals.append("mk%s%d()" % (name, NAMES.index(n)))
            key = name + "." + n
            canaries.append((key, "func(x int) int { return mk%s%d()(%s) }" % (name, NAMES.index(n), ARGS[n]), uid[0]))
            t.has[n] = (key, True, False, None)
        t.lit = t.full = name + "{" + ", ".join(vals) + "}"
        t.kind, t.wide = "fields", True
        providers.append(t)
    # neighbours
    for name in ("Sib", "sib2"):
        w("type %s struct{ s int }" % name)
        n = "Y" if name == "Sib" else "Z"
        uid[0] += 1
        w("func (r %s%s) %s(x int) int { fmt.Sprint(x); return %d000 + x }" % ("" if name == "Sib" else "*", name, n, uid[0]))
        canaries.append((name + "." + n, "func(x int) int { v := %s{1}; return v.%s(x) }" % (name, n), uid[0]))
    w("type decoy struct{ d int }")
    for n in NAMES + ["Y"]:
        u = method("", "decoy", n, None)
        canaries.append(("decoy." + n, "func(x int) int { v := decoy{1}; return v.%s(%s) }" % (n, ARGS.get(n, "x")), u))

    def link(inner, kind, i):
        exported = {"V": True, "P": True, "v": False, "p": False}.get(kind, i % 2 == 0)
        name = ("T%d" if exported else "t%d") % i
        t = T(name, "%s(%s)" % (kind, inner.desc))
        t.has, t.vs, t.ps = dict(inner.has), set(inner.vs), set(inner.ps)
        t.nil, t.dyn, t.kind, t.wide, t.depth = inner.nil, inner.dyn, inner.kind, inner.wide, inner.depth + 1
        m, lit, full = inner.name, inner.lit, inner.full
        addr = "&" + lit if lit.endswith("}") else "ptr%s()" % m
        faddr = "&" + full if full.endswith("}") else "ptr%s()" % m
        if kind in ("V", "v"):
            body, t.lit, t.full = "%s; tail int" % m, "{%s, 7}" % lit, "{%s, 7}" % full
        elif kind in ("P", "p"):
            body, t.lit, t.full = "head string; *%s" % m, '{"h", %s}' % addr, '{"h", %s}' % faddr
            t.vs = set(t.ps)
        elif kind == "Vsib":
            body, t.lit, t.full = "Sib; %s; *sib2" % m, "{Sib{1}, %s, &sib2{2}}" % lit, "{Sib{1}, %s, &sib2{2}}" % full
        elif kind == "Psib":
            body, t.lit, t.full = "*sib2; *%s; Sib" % m, "{&sib2{2}, %s, Sib{1}}" % addr, "{&sib2{2}, %s, Sib{1}}" % faddr
            t.vs = set(t.ps)
        elif kind == "Vfield":
            body, t.lit, t.full = "d decoy; pd *decoy; id IAll; %s" % m, "{decoy{1}, &decoy{1}, decoy{1}, %s}" % lit, "{decoy{1}, &decoy{1}, decoy{1}, %s}" % full
        elif kind == "Vdecoy":
            body, t.lit, t.full = "iY; %s" % m, "{decoy{1}, %s}" % lit, "{decoy{1}, %s}" % full
            t.dynnil = True
        elif kind == "Pnil":
            body, t.lit, t.full = "a int; *%s" % m, "{1, nil}", "{1, %s}" % faddr
            t.vs = set(t.ps)
            t.nil = True
            if inner.dyn or inner.nil:
                return None
        elif kind == "F":
            body, t.lit, t.full = "f %s" % m, "{%s}" % lit, "{%s}" % full
            t.has, t.vs, t.ps = {}, set(), set()
        elif kind in ("IV", "IP"):
            ok = inner.vs if kind == "IV" else inner.ps
            if not set(IALL) <= ok:
                return None
            body = "c int; IAll" if exported else "c int; iAll"
            v, fv = (lit, full) if kind == "IV" else (addr, faddr)
            t.lit, t.full = "{3, %s}" % v, "{3, %s}" % fv
            t.has = {n: (k, d and (kind == "IV" or inner.depth == 0 and n not in inner.vs), mth, show) for n, (k, d, mth, show) in inner.has.items() if n in IALL}
            t.vs = t.ps = set(IALL)
            t.dyn = True
        elif kind == "IX":
            if "X" not in inner.ps:
                return None
            body, t.lit, t.full = "IX", "{%s}" % addr, "{%s}" % faddr
            t.has = {"X": (inner.has["X"][0], inner.has["X"][1] and inner.depth == 0 and "X" not in inner.vs, True, inner.has["X"][3])}
            t.vs = t.ps = {"X"}
            t.dyn = True
        t.lit, t.full = name + t.lit, name + t.full
        w("type %s struct { %s }" % (name, body))
        return t

    # pointers to values that have no composite literal
    for p in providers:
        if not p.lit.endswith("}"):
            w("func ptr%s() *%s { v := %s; return &v }" % (p.name, p.name, p.lit))
    level, n = list(providers), 0
    types += level
    for d in range(1, depth + 1):
        nxt = []
        for inner in level:
            if d > wide_depth and not (inner.wide and inner.kind in ("struct", "fields")):
                continue
            for kind in LINKS:
                if d > wide_depth and kind in ("v", "p", "Psib", "F", "IX"):
                    continue
                n += 1
                t = link(inner, kind, n)
                if t:
                    nxt.append(t)
        types += nxt
        level = nxt

    w("const Bound = \"every chain of up to %d embeddings (%d kinds of link: value, pointer, interface holding a value or pointer, nil pointer, non-embedded field; with neighbours) around %d provider types (depth %d and more: struct providers only), %d types; value, pointer and nil pointer instances, %d names and missing names\"" % (depth, len(LINKS), len(providers), wide_depth + 1, len(types), len(NAMES)))
    w("func init() {")
    for key, call, u in canaries:
        w("\tCanaries = append(Canaries, Canary{%s, %s, %d000})" % (q(key), call, u))
    w("}\n")
    for i, t in enumerate(types):
        w("func init() {")
        w("\tadd(%s, func() (interface{}, interface{}, interface{}) { v := %s; return v, &v, (*%s)(nil) }, []Name{" % (q(t.desc), t.lit, t.name))
        for nm in NAMES:
            if nm in t.has:
                key, direct, mth, show = t.has[nm]
                w("\t\t{%s, %s, %s, %s, %s, func(x int) int { v := %s; return v.%s(%s) }}," % (q(nm), q(key), b(direct), b(mth), q(show or ""), t.full, nm, ARGS[nm]))
            else:
                w("\t\t{Name: %s}," % q(nm))
        w("\t\t{Name: \"Nope\"}, {Name: \"nope\"},")
        w("\t}, %s, %s)" % (b(t.dyn), b(t.nil)))
        w("}")
    return "\n".join(out) + "\n"


def q(s):
    return '"' + s.replace('"', '\\"') + '"'


def b(x):
    return "true" if x else "false"


if __name__ == "__main__":
    import sys
    sys.stdout.write(generate(int(sys.argv[1]), int(sys.argv[2])))
