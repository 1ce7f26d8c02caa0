#!/usr/bin/env python3
"""Writes harness/scale/params_gen.go: functions and methods with every number of parameters and results up to a bound."""
import os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PATTERNS = [["int"], ["uint8", "string", "float64", "int16", "interface{}", "[3]byte", "bool", "float32", "[]int"], ["pair", "int32"]]
N = 64
SLOT = {"int": "gInt", "uint8": "gU8", "string": "gStr", "float64": "gF64", "int16": "gI16", "interface{}": "gAny", "[3]byte": "gArr", "bool": "gBool", "float32": "gF32", "[]int": "gSl",
        "pair": "gPair", "int32": "gI32"}
out = ["// Code generated by tools/gen_scale.py. DO NOT EDIT.", "", "package scale", "", "var ("]
out += ["\t%s [%d]%s" % (v, N + 1, t) for t, v in SLOT.items()] + [")", ""]
reg = []
for k, pat in enumerate(PATTERNS):
    for n in range(1, N + 1):  # one without parameters would begin with a relative access (see known_findings.txt)
        ts = [pat[(i * i + i) // 2 % len(pat)] if k else pat[0] for i in range(n)]
        ps = ", ".join("p%d %s" % (i, t) for i, t in enumerate(ts))
        res = ts[:56]  # package reflect makes functions of 128 parameters and results
        rs = " (%s)" % ", ".join(res)
        body = ["\t%s[%d] = p%d" % (SLOT[t], i, i) for i, t in enumerate(ts)] + ["\tseen++"]
        body.append("\treturn " + ", ".join("%s[%d]" % (SLOT[t], i) for i, t in enumerate(res)))
        for recv in (0, 1, 2):
            if recv and k == 0 and n % 2:
                continue
            name = "P%d_%d" % (k, n)
            out += ["//go:nosplit", "func %s%s(%s)%s {" % (("", "(r *recvP) ", "(r recvV) ")[recv], name, ps, rs)]
            out += body[:1] + (["\tgRecv = r.k"] if recv else []) + body[1:] + ["}", ""]
            reg.append((("", "(*recvP).", "recvV.")[recv] + name, recv))
out += ["var many = []struct {", "\tf    interface{}", "\trecv bool", "}{"] + ["\t{%s, %s}," % (f, "true" if r else "false") for f, r in reg] + ["}", ""]
open(os.path.join(HERE, "harness", "scale", "params_gen.go"), "w").write("\n".join(out))
