"""Helper to write planted bugs: S(id, property, needs, breaks, [(file, old, new)...], demo_cpp, srcs, flags)."""
import json, os, subprocess, shutil, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
DEMO = '''#!/bin/bash
set -e
here=$(cd "$(dirname "$0")" && pwd); t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
g++ -std=c++14 -O0 -w %(flags)s -fno-access-control -DECL_STANDALONE '-DMODULE_NAME="ecl"' -I"$PWD" -I"$PWD/EKF" -I"$here" "$here/demo.cpp" %(srcs)s -o "$t/demo"
timeout 120 "$t/demo"
'''


def S(id, prop, needs, breaks, edits, demo, srcs=(), flags="", stub=False, ekf=False):
    d = os.path.join(V, "seeded", id)
    os.makedirs(d, exist_ok=True)
    t = tempfile.mkdtemp()
    try:
        subprocess.check_call("cd %s && git archive HEAD | tar x -C %s && cd %s && git init -q . && git add -A && git -c user.name=x -c user.email=x@x commit -qm x" % (REPO, t, t), shell=True)
        for f, old, new in edits:
            p = os.path.join(t, f)
            s = open(p).read()
            assert s.count(old) == 1, (id, f, old, s.count(old))
            open(p, "w").write(s.replace(old, new))
        open(os.path.join(d, "patch.diff"), "wb").write(subprocess.check_output(["git", "-C", t, "diff"]))
    finally:
        shutil.rmtree(t)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(os.path.join(d, "meta.json"), "w"), indent=1)
    if ekf:
        srcs, demo = ["EKF/*.cpp", "geo/geo.cpp", "geo_lookup/geo_mag_declination.cpp"], '#include "ekf_demo.h"\n' + demo
    open(os.path.join(d, "demo.cpp"), "w").write(demo.strip("\n") + "\n")
    open(os.path.join(d, "demo.sh"), "w").write(DEMO % dict(flags=flags, srcs=" ".join(srcs)))
    if ekf:
        shutil.copy(os.path.join(V, "tools/ekf_demo.h"), os.path.join(d, "ekf_demo.h"))
    if stub or ekf:
        os.makedirs(os.path.join(d, "matrix"), exist_ok=True)
        shutil.copy(os.path.join(V, "stub/matrix/math.hpp"), os.path.join(d, "matrix/math.hpp"))
