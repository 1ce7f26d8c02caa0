#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os, sys
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [VERIF, os.path.join(VERIF, "tools")]
sys.argv = ["check"]
import importlib.util
from importlib.machinery import SourceFileLoader
m = SourceFileLoader("check", os.path.join(VERIF, "check")).load_module()
sys.modules["check"] = m
import checks

SEQ = "explicit enumeration of all %s up to a bound on the real code, each step compared with a reference model"
TECH = {
    "C01": SEQ % "scope/mock programs",
    "C02": SEQ % "rule chains, forms, paths and argument vectors",
    "C03": SEQ % "lifecycle histories",
    "C04": SEQ % "histories with refused requests at every point",
    "C05": SEQ % "call/lifecycle histories",
    "C06": SEQ % "sequence declarations and call histories",
    "C07": SEQ % "filter settings and calls over goroutines",
    "C08": SEQ % "hook programs around calls of the original",
    "C09": SEQ % "variable mock histories",
    "C16": SEQ % "mock programs over related targets (bystanders, text and data compared)",
    "C18": SEQ % "scope/mock programs with UnPatchAll",
}
NOTE = "Exhaustive within the bounds recorded in the evidence (suites); trusts the Go runtime, reflect, and the reference model in /verif/harness. Targets are compiled with -l -N; recorded findings: see known_findings.txt."
exec(open(os.path.join(VERIF, "tools", "manifest_extra.py")).read()) if os.path.exists(os.path.join(VERIF, "tools", "manifest_extra.py")) else None
props = [json.loads(l)["id"] for l in open(os.path.join(VERIF, "properties.jsonl"))]
claimed = [p for p in props if p in checks.CHECKS]
out = dict(version=1, setup_cmd="./check setup",
           checks=[dict(property=p, quick_cmd="./check " + p, thorough_cmd="VERIF_TIER=thorough ./check " + p,
                        evidence_file="evidence/%s.json" % p, technique=TECH[p], level="model_checking", level_note=NOTE) for p in claimed],
           not_applicable=[dict(property=p, reason="check under construction") for p in props if p not in claimed],
           notes="Every check is an exhaustive bounded exploration of the real code; no hooks in /repo are needed, instrumentation goes in through go build -overlay.")
json.dump(out, open(os.path.join(VERIF, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(VERIF, "MANIFEST.json"), "a").write("\n")
