#!/usr/bin/env python3
"""Writes harness/shaperun/chains_gen.go: long chains of embedded fields and structs with many of them (C11)."""
import os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
N, W = 24, 24
out = ["// Code generated by tools/gen_chains.py. DO NOT EDIT.", "", "package shaperun", "", 'import "fmt"', ""]
specs = []
k = 0


def w(*l):
    out.extend(l)


def method(recv, typ, name):
    global k
    k += 1
    w("func (r %s%s) %s(x int) int { fmt.Sprint(x); return x + %d }" % (recv, typ, name, 10000 + k))


# a decoy that lies on the way at every depth
w("type decoyD struct{ v int }", "")
for n in ("Decoy", "decoy"):
    method("", "decoyD", n)
kinds = {"v": lambda i: False, "p": lambda i: True, "m": lambda i: i % 2 == 0}
for kind, isptr in kinds.items():
    base = "c%s0" % kind
    w("", "type %s struct {" % base, "\tv int", "\tDeepField%s func(int) int" % kind.upper(), "}", "")
    for n in ("Deep", "deep"):
        method("", base, n)
    for n in ("DeepP", "deepP"):
        method("*", base, n)
    for i in range(1, N + 1):
        t, u = "c%s%d" % (kind, i), "c%s%d" % (kind, i - 1)
        # the decoy comes before the chain in some, an own method of another name in all
        w("", "type %s struct {" % t, "\tk int", *(["\t*decoyD"] if i == 1 else []), "\t%s%s" % ("*" if isptr(i) else "", u), "}", "")
        method("*" if i % 3 else "", t, "Own%d" % i)
        method("", t, "own%d" % i)
    lit = "%s{v: 1, DeepField%s: func(x int) int { fmt.Sprint(x); return x + 31 }}" % (base, kind.upper())
    for i in range(1, N + 1):
        t = "c%s%d" % (kind, i)
        w("", "var val%s = %s{k: %d, %s%sc%s%d: %s}" % (t, t, i, "decoyD: &decoyD{2}, " if i == 1 else "", "", kind, i - 1, ("&" if isptr(i) else "") + ("val" + "c%s%d" % (kind, i - 1) if i > 1 else lit)))
        for n in ["Deep", "deep", "DeepP", "deepP", "DeepField%s" % kind.upper(), "Decoy", "decoy"] + ["%s%d" % (o, j) for o in ("Own", "own") for j in {1, 2, i // 2 or 1, max(i - 1, 1), i} if j <= i]:
            for ptr in (True, False):
                free = {"Deep": "deep", "deep": "Deep", "DeepP": "deepP", "deepP": "DeepP"}.get(n, "Deep")
                specs.append('{"chain of %d %s fields", val(%s), "%s", func() bool { return is(val%s.%s(1)) }, five, func() bool { return is(val%s.%s(1)) }},' % (
                    i, {"v": "embedded", "p": "embedded pointer", "m": "mixed"}[kind], ("&" if ptr else "") + "val" + t, n, t, n, t, free))
        for n in ("Nope", "nope"):
            specs.append('{"chain of %d fields", val(&val%s), "%s", nil, nil, nil},' % (i, t, n))
# many embedded fields
for i in range(W):
    w("", "type wide%d struct{ v int }" % i, "")
    method("*" if i % 2 else "", "wide%d" % i, "Wide%d" % i)
    method("*" if i % 3 else "", "wide%d" % i, "wide%d_" % i)
w("", "type wideAll struct {", *["\t%swide%d" % ("*" if i % 5 == 4 else "", i) for i in range(W)], "}", "",
  "type wideTop struct {", "\tk int", "\t*wideAll", "}", "",
  "var valWide = wideTop{1, &wideAll{%s}}" % ", ".join(("&" if i % 5 == 4 else "") + "wide%d{%d}" % (i, i) for i in range(W)))
for i in range(W):
    for n, o in (("Wide%d", "wide%d_"), ("wide%d_", "Wide%d")):
        for e in ("valWide", "&valWide", "valWide.wideAll"):
            specs.append('{"%d embedded fields", val(%s), "%s", func() bool { return is(valWide.%s(1)) }, five, func() bool { return is(valWide.%s(1)) || is(valWide.%s(1)) }},' % (
                W, e, n % i, n % i, o % i, n % ((i + 1) % W)))
w("", "func chainSpecials() []special {", "\tval := func(v interface{}) func() interface{} { return func() interface{} { return v } }",
  "\tis := func(x int) bool { return x == -5 }", "\tfive := []interface{}{-5}", "\treturn []special{")
w(*["\t\t" + s for s in specs])
w("\t}", "}", "")
open(os.path.join(HERE, "harness", "shaperun", "chains_gen.go"), "w").write("\n".join(out))
