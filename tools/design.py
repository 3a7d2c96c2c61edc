#!/usr/bin/env python3-vt
"""Rewrites the generated parts of DESIGN.md: what decides each property, and which check catches which planted bug."""
import json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools")); sys.path.insert(0, os.path.join(V, "sym"))
from props import PROPS
from specs import SPECS
MODE = {"fp": "bit-precise IEEE 754 and bit-vectors", "uf": "bit-precise control with floating-point operations uninterpreted", "poly": "polynomial normal forms over the reals", "real": "nonlinear real arithmetic"}
seeds = {}
for s in sorted(os.listdir(os.path.join(V, "seeded"))):
    m = json.load(open(os.path.join(V, "seeded", s, "meta.json")))
    seeds.setdefault(m["property"], []).append((s, m["needs"]))
out, tab = [], []
for p in PROPS:
    i = p["id"]
    if p.get("na"):
        out.append("### %s %s\n\nNot applicable: %s\n" % (i, p["title"], p["na"])); continue
    sp = SPECS[i]
    modes, n, files = [], 0, []
    for h, jobs in sp["harnesses"]:
        js = jobs if isinstance(jobs, list) else jobs
        n += len(js)
        files.append("`%s` over %s" % (h.cpp, ", ".join("`%s`" % s for s in h.repo_srcs)))
        for j in js:
            for m in (getattr(j, "modes", None) or ("fp",)):
                if m not in modes: modes.append(m)
    out.append("### %s %s\n\n%s\n" % (i, p["title"], p["statement"]))
    out.append("- Encoded: %s.\n- Quantified over: %s.\n- Bounds: %s\n- Assumptions: %s.\n- Decided by: %s; %d jobs.\n- Beyond the tests: %s." % ("; ".join(files), p["all"], sp["bounds"], "; ".join(sp["assumptions"]) or "none beyond the bounds", ", then ".join(MODE.get(m, m) for m in modes), n, p["why"]))
    if p.get("note"): out.append("- Note: %s" % p["note"])
    out.append("")
    for s, needs in seeds.get(i, []): tab.append("| %s | %s | %s |" % (s, i, needs))
f = os.path.join(V, "DESIGN.md"); t = open(f).read()
def put(t, name, body):
    a, b = "<!-- begin %s -->" % name, "<!-- end %s -->" % name
    return t[:t.index(a) + len(a)] + "\n" + body + "\n" + t[t.index(b):]
t = put(t, "properties", "\n".join(out)); t = put(t, "seeds", "| planted bug | property and check that catches it | needs |\n|---|---|---|\n" + "\n".join(tab))
open(f, "w").write(t)
