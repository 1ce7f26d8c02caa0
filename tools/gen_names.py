#!/usr/bin/env python3
"""Writes harness/shaperun/names_gen.go: types whose methods have names of special lengths, alphabets and prefixes."""
import os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
names = []
for n in (1, 2, 3, 31, 32, 63, 64, 65, 126, 127, 128, 129, 130, 254, 255, 256, 257, 383, 384, 500):
    names += ["a" * n, "B" * n]
names += ["b" * 126 + "c", "b" * 127 + "c", "b" * 128 + "c", "_", "__", "_a", "_A", "é", "éa", "ée", "É", "Éa", "世", "世界", "aé", "Aé", "aÉ", "x1", "x10", "x100", "X1", "X10",
          "string", "String", "error", "Error", "len", "init_", "main", "glob", "func1", "é" * 63, "é" * 64, "é" * 65]
names += ["m%d" % i for i in range(200)]  # more than a byte can count
names = [n for n in dict.fromkeys(names) if n != "_"]
out = ["// Code generated by tools/gen_names.py. DO NOT EDIT.", "", "package shaperun", "", 'import "fmt"', ""]
out += ["type nameV struct{ k int }", "", "type nameP struct{ k int }", "", "type nameI int", "", "type nameE struct {", "\tk int", "\tnameV", "}", "",
        "type nameQ struct {", "\tk int", "\t*nameP", "}", ""]
for t, r in (("nameV", "nameV"), ("nameP", "*nameP"), ("nameI", "nameI")):
    for i, n in enumerate(names):
        out += ["func (v %s) %s(x int) int { fmt.Sprint(x); return x + %d }" % (r, n, 1000 + i), ""]
out += ["var methodNames = []string{"] + ['\t"%s",' % n for n in names] + ["}", ""]
out += ["// nameCalls calls each of the methods by the language's rules.", "var nameCalls = []struct {", "\twhat string", "\tinst func() interface{}", "\tcall []func(x int) int", "}{"]
for what, e in (("value", "nv"), ("pointer", "np"), ("integer", "ni"), ("embedded value", "ne"), ("embedded pointer", "nq")):
    out += ['\t{"%s", func() interface{} { return %s }, []func(x int) int{' % (what, e)]
    out += ["\t\tfunc(x int) int { return %s.%s(x) }," % (e, n) for n in names] + ["\t}},"]
out += ["}", "", "var (", "\tnv = nameV{1}", "\tnp = &nameP{2}", "\tni = nameI(3)", "\tne = nameE{4, nv}", "\tnq = &nameQ{5, np}", ")", ""]
open(os.path.join(HERE, "harness", "shaperun", "names_gen.go"), "w").write("\n".join(out))
