#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props.py (single source for titles, statements and claims)."""
import json
import os
import sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(os.path.dirname(HERE), "sym"))
from props import PROPS

V = os.path.dirname(HERE)
NOTE = ("Bounded symbolic execution of LLVM IR compiled from /repo on every run; every path merged into SMT obligations decided by z3 and cvc5; counterexamples are "
        "replayed on a native build of the same sources before they are reported. ")


def main():
    out = []
    checks, na = [], []
    ids = set()
    for p in PROPS:
        assert p["id"] not in ids, p["id"]
        ids.add(p["id"])
        assert len(p["title"]) <= 80, p["title"]
        out.append(dict(id=p["id"], title=p["title"], statement=p["statement"],
                        quantifier=dict(over=p["over"], text=p["all"]), why_tests_cant=p["why"],
                        anchors=dict(files=p["files"], mechanism=[dict(name=n, where=w) for n, w in p["mech"]])))
        if p.get("na"):
            na.append(dict(property=p["id"], reason=p["na"]))
        else:
            checks.append(dict(property=p["id"], quick_cmd="python3-vt sym/check.py %s quick" % p["id"],
                               thorough_cmd="python3-vt sym/check.py %s thorough" % p["id"],
                               technique=p.get("technique", "symbolic execution of compiled IR + SMT (z3/cvc5)"), level="other",
                               level_note=NOTE + p["note"]))
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for o in out:
            f.write(json.dumps(o) + "\n")
    m = dict(version=1, setup_cmd="python3-vt sym/selftest.py", checks=checks, not_applicable=na,
             notes="Checks read /repo's working tree; VH_REPO overrides its location. Scratch files go to a temporary directory removed on exit.")
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")
    print(len(out), "properties,", len(checks), "checks,", len(na), "n/a")


main()
