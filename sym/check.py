"""Job runner: build harness -> LLVM IR -> symbolic execution -> SMT -> replay -> verdict, evidence."""
import json
import multiprocessing as mp
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile
import time
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import numpy as np
import terms as T
import ir
import exec as X
import smt
import ceval
from intervals import Env

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VH_REPO", "/repo")
CXX = "clang++-18" if shutil.which("clang++-18") else "clang++"
LINK = "llvm-link-18" if shutil.which("llvm-link-18") else "llvm-link"
OPT = "opt-18" if shutil.which("opt-18") else "opt"
OBJCOPY = "objcopy" if shutil.which("objcopy") else "llvm-objcopy-18"
BASE = ["-std=c++14", "-ffp-contract=off", "-fno-math-errno", "-fno-exceptions", "-fno-rtti", "-fno-strict-aliasing",
        "-fno-threadsafe-statics", "-DECL_STANDALONE", "-DMODULE_NAME=\"ecl\"", "-I" + REPO, "-I" + REPO + "/EKF", "-I" + VERIF + "/stub", "-I" + VERIF + "/harness", "-w"]
IRFLAGS = ["-O1", "-fno-pic", "-fno-pie", "-fno-vectorize", "-fno-slp-vectorize", "-fno-unroll-loops", "-g0", "-fno-inline-functions", "-fno-access-control",
           "-fsanitize=float-cast-overflow,integer-divide-by-zero,array-bounds", "-fsanitize-trap=all",
           "-fno-builtin-printf"]


class Job:
    def __init__(self, fn, a0=0, a1=0, modes=("fp",), timeout=60, loop=40, fold=True, kinds=("assert", "bounds", "null", "div0", "unwind", "unreachable", "trap"),
                 solvers=("z3", "cvc5"), i2r="exact", name=None, chunk=8, nreplay=12, dist=None, cross=True, group=True, sweep=False, tier="quick", gtimeout=30):
        self.__dict__.update(locals())
        del self.__dict__["self"]
        self.name = name or ("%s(%d,%d)" % (fn, a0, a1))


class Harness:
    """stubs: functions defined in the harness replace those of the repository sources (compositional checks)"""

    def __init__(self, cpp, repo_srcs=(), flags=(), native_flags=(), stubs=False):
        self.cpp, self.repo_srcs, self.flags, self.native_flags, self.stubs = cpp, list(repo_srcs), list(flags), list(native_flags), stubs


class BuildError(Exception):
    pass


def sh(cmd, timeout=300):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    return p.returncode, p.stdout


class Build:
    def __init__(self, h, wd):
        self.h, self.wd = h, wd
        self.tag = os.path.basename(h.cpp).replace(".cpp", "")
        self.native_p = None

    def interpose(self, own):
        return ["-fPIC", "-fsemantic-interposition", "-fno-inline"] if self.h.stubs and not own else []

    def start(self):
        self.bcs = []
        self.procs = []
        srcs = [(os.path.join(VERIF, "harness", self.h.cpp), True)] + [(os.path.join(REPO, s), False) for s in self.h.repo_srcs]
        for s, own in srcs:
            o = os.path.join(self.wd, "%s__%s.bc" % (self.tag, os.path.basename(s)))
            log = open(o + ".log", "w")
            self.procs.append((s, o, subprocess.Popen([CXX] + BASE + IRFLAGS + self.interpose(own) + self.h.flags + ["-emit-llvm", "-c", s, "-o", o], stdout=log, stderr=log)))
            self.bcs.append(o)

    def finish(self):
        for s, o, p in self.procs:
            if p.wait() != 0:
                with open(o + ".log") as f:
                    raise BuildError("compiling %s failed:\n%s" % (s, f.read()[:3000]))
        allbc = os.path.join(self.wd, self.tag + ".all.bc")
        ll = os.path.join(self.wd, self.tag + ".ll")
        rc, out = sh([LINK] + self.bcs[1:] + ["--override=" + self.bcs[0], "-o", allbc] if self.h.stubs else [LINK] + self.bcs + ["-o", allbc])
        if rc:
            raise BuildError(out)
        rc, out = sh([OPT, "-S", allbc, "-o", ll])
        if rc:
            raise BuildError(out)
        self.mod = ir.Module(ll)
        return self.mod

    def native(self):
        if self.native_p is None:
            exe = os.path.join(self.wd, self.tag + ".native")
            if os.path.exists(exe):
                self.native_p = exe
                return exe
            objs = []
            ps = []
            srcs = [os.path.join(VERIF, "harness", self.h.cpp), os.path.join(VERIF, "harness", "vh_native.cpp")] + [os.path.join(REPO, s) for s in self.h.repo_srcs]
            for s in srcs:
                o = os.path.join(self.wd, "%s__n_%s.%d.o" % (self.tag, os.path.basename(s), os.getpid()))
                objs.append(o)
                ps.append((s, subprocess.Popen([CXX] + BASE + ["-O1", "-DVH_NATIVE", "-fno-access-control", "-fno-inline-functions"] + self.interpose(s.startswith(VERIF)) + self.h.flags + self.h.native_flags + ["-c", s, "-o", o],
                                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))
            for s, p in ps:
                out, _ = p.communicate()
                if p.returncode:
                    raise BuildError("native build of %s: %s" % (s, out[:2000]))
            if self.h.stubs:
                for o in objs[2:]:
                    rc, out = sh([OBJCOPY, "--weaken", o])
                    if rc:
                        raise BuildError(out)
            tmp = exe + ".%d" % os.getpid()
            rc, out = sh([CXX] + objs + ["-o", tmp, "-lm", "-no-pie", "-Wl,--unresolved-symbols=ignore-all"])
            if rc:
                raise BuildError("native link: " + out[:2000])
            os.rename(tmp, exe)
            self.native_p = exe
        return self.native_p


# ------------------------------------------------------------------ replay
def input_lines(ex, asg):
    """asg: name -> raw bits"""
    out = []
    for nm, sort, v in ex.inputs:
        b = asg.get(nm, 0)
        out.append("V %s %x" % (nm, int(b)))
    for nm, leaves in ex.havocs:
        for off, n, v in leaves:
            b = int(asg.get(v.val, 0))
            out.append("H %s %d %d %x" % (nm, off, n, b & 1 if v.val in ex.boolvars else b))
    return out


def native_run(exe, job, lines, path, timeout=20):
    with open(path, "w") as f:
        f.write("# harness=%s a0=%d a1=%d\n" % (job.fn, job.a0, job.a1))
        f.write("\n".join(lines) + "\n")
    try:
        p = subprocess.run([exe, job.fn, str(job.a0), str(job.a1), path], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout, errors="replace")
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired:
        return -99, "timeout"


def cone_vars(ts):
    return [t for t in T.topo(ts) if t.op == "var"]


IDX2 = re.compile(r"^(.*)\[(\d+)\]\[(\d+)\]$")


def structured(vs, N, rng):
    """positive definite values for groups of variables that form a 24x24 covariance, unit values for quaternions"""
    grp = {}
    for v in vs:
        if v.sort == "f":
            m = IDX2.match(v.val)
            if m:
                grp.setdefault(m.group(1), {})[(int(m.group(2)), int(m.group(3)))] = v.val
    out = {}
    for pre, d in grp.items():
        n = max(max(k) for k in d) + 1
        if n == 24 and len(d) > 8:
            sd = np.exp(rng.uniform(np.log(0.003), np.log(0.7), (N, 24)))
            M = rng.standard_normal((N, 24, 30)) + rng.standard_normal((N, 24, 1)) * rng.uniform(0, 2, (N, 1, 1))
            C = M @ np.swapaxes(M, 1, 2)
            r = np.sqrt(np.einsum("kii->ki", C))
            C = C / r[:, :, None] / r[:, None, :] * sd[:, :, None] * sd[:, None, :]
            for (i, j), nm in d.items():
                out[nm] = C[:, i, j]
        elif n == 4 and all(k[1] == 0 for k in d):
            q = rng.standard_normal((N, 4))
            q /= np.linalg.norm(q, axis=1)[:, None]
            for (i, _), nm in d.items():
                out[nm] = q[:, i]
    return out


def sample(vs, env, N, rng, base=None, dist=None, consts=()):
    """numpy sample arrays for vars (raw typed values)"""
    out = {}
    pre = structured(vs, N, rng)
    for v in vs:
        s = v.sort
        if s == "B":
            x = rng.random(N) < 0.5
        elif s in ("f", "d"):
            lo, hi, _ = env.f(v) if env else (-np.inf, np.inf, True)
            if np.isfinite(lo) and np.isfinite(hi) and hi - lo < 1e12:
                x = rng.uniform(lo, hi, N)
                e = rng.random(N)
                x = np.where(e < 0.03, lo, np.where(e < 0.06, hi, x))
                if lo <= 0 <= hi:
                    x = np.where((e > 0.06) & (e < 0.1), 0.0, x)
                if hi / (abs(lo) + 1e-30) > 1e4 and lo > 0:
                    lg = np.exp(rng.uniform(np.log(lo), np.log(hi), N))
                    x = np.where(rng.random(N) < 0.5, lg, x)
            else:
                x = rng.standard_normal(N) * np.exp(rng.uniform(-3, 3, N))
                if np.isfinite(lo):
                    x = lo + np.abs(x)
                elif np.isfinite(hi):
                    x = hi - np.abs(x)
                e = rng.random(N)
                x = np.where(e < 0.05, 0.0, x)
            if v.val in pre:
                x = np.where((pre[v.val] >= lo) & (pre[v.val] <= hi), pre[v.val], x) if rng.random() < 0.9 else x
            x = x.astype(np.float32 if s == "f" else np.float64)
        else:
            lo, hi = env.u(v) if env else (0, (1 << s) - 1)
            if s > 64:
                continue
            span = hi - lo
            x = np.array([lo + rng.integers(0, min(span, (1 << 62)) + 1) for _ in range(N)], dtype=np.uint64)
            small = np.array([min(hi, lo + int(k)) for k in rng.integers(0, 4, N)], dtype=np.uint64)
            x = np.where(rng.random(N) < 0.3, small, x)
            if s == 64:
                mid = np.array([min(hi, max(lo, int(k))) for k in rng.integers(0, 20000000, N)], dtype=np.uint64)
                x = np.where(rng.random(N) < 0.5, mid, x)
        if base is not None and v.val in base:
            b = base[v.val]
            if s == "B":
                bx = np.full(N, bool(b))
            elif s == "f":
                bx = np.full(N, b, dtype=np.uint32).view(np.float32)
            elif s == "d":
                bx = np.full(N, b, dtype=np.uint64).view(np.float64)
            else:
                bx = np.full(N, b & ((1 << s) - 1), dtype=np.uint64)
            p = rng.random(N) * rng.random(N)
            keep = rng.random(N) > p
            keep[0] = True
            x = np.where(keep, bx, x).astype(x.dtype)
        out[v.val] = x
    return out


def raw(v, x):
    if v.sort == "B":
        return int(bool(x))
    if v.sort == "f":
        return int(np.asarray(x, dtype=np.float32).view(np.uint32))
    if v.sort == "d":
        return int(np.asarray(x, dtype=np.float64).view(np.uint64))
    return int(x)


def obligation_goal(ex, o, precise):
    """list of conjuncts whose satisfiability violates the obligation"""
    g = list(o.guard)
    if o.eq is not None:
        a, b = o.eq
        g.append(T.not_(T.feq(a, b)) if a is not b else T.FALSE)
    else:
        g.append(T.not_(o.cond))
    return g


def violated_samples(ex, o, env, rng, base, N=1500, rounds=6, strict=True):
    """concrete inputs (evaluated with IEEE semantics) under which the obligation fails; best first"""
    roots = list(o.guard) + [o.cond] + (list(o.eq) if o.eq else [])
    vs = cone_vars(roots)
    found = []
    for r in range(rounds):
        inp = sample(vs, env, N, rng, base if r < rounds - 2 else None)
        try:
            val = ceval.evaluate(roots, inp, N)
        except (KeyError, OverflowError, TypeError):
            return []
        ok = np.ones(N, dtype=bool)
        for g in o.guard:
            ok &= val[g.id]
        if o.eq:
            a, b = val[o.eq[0].id].astype(np.float64), val[o.eq[1].id].astype(np.float64)
            with np.errstate(all="ignore"):
                d = np.abs(a - b) / (1.0 + np.minimum(np.abs(a), np.abs(b)))
                d = np.where(np.isnan(a) | np.isnan(b), np.inf, np.where(a == b, 0, d))
            bad = ok & (d > (o.tol or 0))
            score = d
        else:
            bad = ok & ~val[o.cond.id]
            score = np.ones(N)
        idx = np.nonzero(bad)[0]
        idx = idx[np.argsort(-np.where(np.isfinite(score[idx]), score[idx], 0), kind="stable")][:8]
        for k in idx:
            found.append((float(score[k]), {v.val: raw(v, inp[v.val][k]) for v in vs if v.val in inp}))
        if len(found) >= 8:
            break
    found.sort(key=lambda x: -(x[0] if np.isfinite(x[0]) else 0))
    return [f[1] for f in found[:12]]


# ------------------------------------------------------------------ worker
G = {}


def split(o):
    return o


def job_worker(args):
    pid, ji, deadline, seed, tier = args
    bi, job = G["jobs"][ji]
    build = G["builds"][bi]
    res = dict(job=job.name, fn=job.fn, results=[], error=None, stats=None, obs=0, trivial=0, discharged=0, covers=0, functions=[], ninstr=0)
    t0 = time.time()
    if stopped():
        res.update(t_exec=0, stats=None, vacuous=[], wall=0)
        return res
    smt.STATS = {"queries": 0, "solver_s": 0.0, "unsat": 0, "sat": 0, "unknown": 0, "by": {}}
    try:
        ex = X.run(build.mod, job.fn, (job.a0, job.a1), loop_bound=job.loop, fold=job.fold)
        res["t_exec"] = time.time() - t0
        res["functions"] = sorted(ex.fn_count)
        res["ninstr"] = ex.ninstr
        obs = [o for o in ex.obs if o.kind in job.kinds]
        res["obs"] = len(obs)
        pend = []
        for o in obs:
            if o.cond is T.TRUE or (o.eq and o.eq[0] is o.eq[1]):
                res["trivial"] += 1
                res["discharged"] += 1
            elif any(g is T.FALSE for g in o.guard):
                res["trivial"] += 1
                res["discharged"] += 1
            else:
                pend.append(o)
        decide(ex, build, job, pend, res, deadline, seed)
        # reachability witnesses
        vac = []
        for lab, guard in ex.covers:
            if not witness(ex, guard, job, deadline, seed):
                vac.append(lab)
            else:
                res["covers"] += 1
        res["vacuous"] = vac
        if job.cross and G["cross"]:
            res["cross"] = cross_validate(ex, build, job, seed)
    except X.Unsupported as e:
        res["error"] = "unsupported: %s" % e
    except Exception as e:
        res["error"] = "internal: " + traceback.format_exc()
    res["stats"] = smt.STATS
    res["wall"] = time.time() - t0
    return res


def witness(ex, guard, job, deadline, seed):
    if not guard:
        return True
    rng = np.random.default_rng(seed + 7)
    env = Env(guard)
    vs = cone_vars(guard)
    for r in range(3):
        inp = sample(vs, env, 500, rng)
        try:
            val = ceval.evaluate(guard, inp, 500)
            ok = np.ones(500, dtype=bool)
            for g in guard:
                ok &= val[g.id]
            if ok.any():
                return True
        except (KeyError, TypeError, OverflowError):
            break
    for mode in job.modes:
        v, m, who, dt = smt.check(list(guard), mode, min(5 if mode == "poly" else 900, job.timeout, max(1, deadline - time.time())), job.solvers, env, job.i2r)
        if v == "sat":
            return True
        if v == "unsat":
            return False
    return True  # undecided: not reported as vacuous


def decide(ex, build, job, pend, res, deadline, seed):
    todo = [list(pend)]
    # group by label prefix/guard in chunks
    if job.group and len(pend) > 1:
        todo = [pend[i:i + job.chunk] for i in range(0, len(pend), job.chunk)]
    else:
        todo = [[o] for o in pend]
    while todo:
        grp = todo.pop(0)
        left = deadline - time.time()
        if stopped():
            for o in grp:
                res["results"].append(dict(label=o.label, kind=o.kind, fn=o.fn, verdict="skipped", note="a violation was already confirmed"))
            continue
        if left < 3:
            for o in grp:
                res["results"].append(dict(label=o.label, kind=o.kind, fn=o.fn, verdict="timeout", note="global deadline"))
            continue
        if len(grp) > 1:
            # common guard prefix
            n = 0
            while all(len(o.guard) > n and o.guard[n] is grp[0].guard[n] for o in grp):
                n += 1
            pre = list(grp[0].guard[:n])
            alts = []
            for o in grp:
                g = obligation_goal(ex, o, True)
                alts.append(T.and_(*g[n:]))
            goal = pre + [T.or_(*alts)]
            v = "unknown"
            for mode in job.modes[:1]:
                v, m, who, dt = smt.check(goal, mode, min(8 if mode == "poly" else job.gtimeout if len(job.modes) > 1 else job.timeout, job.timeout, left), job.solvers, Env(tuple(pre)), job.i2r, len(pre))
            if v == "unsat":
                res["discharged"] += len(grp)
                continue
            h = max(1, len(grp) // 2) if len(grp) > 4 else 1
            todo = [grp[i:i + h] for i in range(0, len(grp), h)] + todo
            continue
        o = grp[0]
        single(ex, build, job, o, res, deadline, seed)


def stopped():
    s = G.get("stop")
    return s is not None and s.value


def violated(res, job, o, r, used):
    res["results"].append(dict(label=o.label, kind=o.kind, fn=o.fn, verdict="violated", replay=r[0], out=r[1], queries=used))
    if G.get("stop") is not None and not finding_for(G.get("findings", []), G["pid"], job.name, o.label):
        G["stop"].value = 1


def finding_for(kf, pid, job, label):
    for k in kf:
        if k[0] == pid and k[1] and k[1] in job and k[2] in label:
            return k
    return None


def tolerance_goal(o):
    a, b = o.eq
    d = T.fop("fabs", T.fop("fsub", a, b))
    one, tol = (T.f32(1), T.f32(o.tol)) if a.sort == "f" else (T.f64(1), T.f64(o.tol))
    bound = T.fop("fmul", tol, T.fop("fadd", one, T.fop("fmin", T.fop("fabs", a), T.fop("fabs", b))))
    return list(o.guard) + [T.not_(T.fle(d, bound))]


def single(ex, build, job, o, res, deadline, seed):
    goal = obligation_goal(ex, o, True)
    env = Env(o.guard)
    last = "unknown"
    used = []
    for mode in job.modes:
        left = deadline - time.time()
        if left < 2:
            break
        if mode == "poly" and o.eq and o.tol:
            # constants rounded by the code leave a difference within the tolerance: decided without the exact question
            v, m, who, dt = smt.check(goal, mode, min(1.5, left), job.solvers, env, job.i2r, len(o.guard))
            used.append((mode, v, who, round(dt, 2)))
            if v == "unknown":
                v, m, who, dt = smt.check(tolerance_goal(o), mode, min(3, left), job.solvers, env, job.i2r, len(o.guard))
                used.append((mode + "-tol", v, who, round(dt, 2)))
            if v == "unsat":
                res["discharged"] += 1
                return
            left = deadline - time.time()
            if left < 2:
                break
        quick = 5 if mode in ("poly", "real") and job.timeout > 8 else job.timeout
        v, m, who, dt = smt.check(goal, mode, min(quick, left), job.solvers, env, job.i2r, len(o.guard))
        used.append((mode, v, who, round(dt, 2)))
        if v == "unknown" and quick < job.timeout:
            # an easily found concrete violation saves the long query
            r = replay(ex, build, job, o, violated_samples(ex, o, env, np.random.default_rng(seed + 5), None))
            if r:
                violated(res, job, o, r, used)
                return
            v, m, who, dt = smt.check(goal, mode, min(job.timeout, left), job.solvers, env, job.i2r, len(o.guard))
            used.append((mode, v, who, round(dt, 2)))
        if v != "unsat" and mode in ("real", "poly") and o.eq and o.tol:
            # exact equality over the reals does not hold (or was not decided): is the difference within the stated tolerance?
            v2, m2, who, dt = smt.check(tolerance_goal(o), mode, min(job.timeout, left), job.solvers, env, job.i2r, len(o.guard))
            used.append((mode + "-tol", v2, who, round(dt, 2)))
            if v2 in ("sat", "unsat"):
                v, m = v2, m2
        if v == "unsat":
            res["discharged"] += 1
            return
        last = v
        # find a concrete, replayable violation
        cands = []
        rng = np.random.default_rng(seed)
        if v == "sat" and m is not None:
            cands.append(m)
        cands += violated_samples(ex, o, env, rng, m if v == "sat" else None)
        r = replay(ex, build, job, o, cands)
        if r:
            violated(res, job, o, r, used)
            return
    res["results"].append(dict(label=o.label, kind=o.kind, fn=o.fn, verdict="sat-unconfirmed" if last == "sat" else "unknown", queries=used))


def replay(ex, build, job, o, cands):
    if not cands:
        return None
    flags = []
    exe = build.native()
    for i, c in enumerate(cands[:job.nreplay]):
        lines = input_lines(ex, c)
        path = os.path.join(G["wd"], "replay.%d.%d.txt" % (os.getpid(), i))
        rc, out = native_run(exe, job, lines, path)
        ok = False
        if o.kind == "assert":
            ok = ("FAIL " + o.label) in out
        elif rc < 0 and rc != -99 or rc in (132, 133, 134, 139):
            ok = True
        elif o.kind in ("trap", "bounds", "null", "div0", "unwind"):
            # rebuild with sanitizers for confirmation
            exe2 = build_san(build)
            rc, out = native_run(exe2, job, lines, path)
            ok = rc not in (0, 1, 3) or "runtime error" in out or "AddressSanitizer" in out
        if os.environ.get("VH_DBG"):
            with open(os.environ["VH_DBG"], "a") as f:
                try:
                    vv = cone_vars(list(o.guard) + ([o.cond] if not o.eq else list(o.eq)))
                    import numpy as _n
                    cv = {"bv": None}
                    inp = {}
                    for v in vv:
                        b = c.get(v.val, 0)
                        st = v.sort
                        inp[v.val] = ceval.evaluate([T.bits_to(v, b)], {}, 1) if hasattr(T, "bits_to") else (_n.array([b], dtype=_n.uint32).view(_n.float32) if st == "f" else b)
                    f.write("vars %s\n" % [(v.val, v.sort, hex(c.get(v.val, 0))) for v in vv])
                    if all(not isinstance(x, int) for x in inp.values()):
                        val = ceval.evaluate(list(o.guard) + [o.cond], inp, 1)
                        f.write("encoding: guard %s cond %s\n" % ([bool(val[g.id][0]) for g in o.guard], val[o.cond.id]))
                        f.write("%s\n" % T.show(o.cond) if hasattr(T, "show") else "")
                except Exception as e:
                    f.write("dbg failed %r\n" % e)
                f.write("== %s %s rc=%d\n%s\n%s\n" % (job.name, o.label, rc, "\n".join(lines), out))
        if ok:
            keep = os.path.join(VERIF, "replay")
            os.makedirs(keep, exist_ok=True)
            lab = "".join(ch if ch.isalnum() else "_" for ch in o.label)[:60]
            dst = os.path.join(keep, "%s-%s-%s.txt" % (G["pid"], job.fn, lab))
            shutil.copy(path, dst)
            with open(dst, "a") as f:
                f.write("# obligation: %s\n# native output tail: %s\n" % (o.label, " | ".join([l for l in out.splitlines() if "FAIL" in l or "error" in l][:5])))
            return dst, "\n".join([l for l in out.splitlines() if "FAIL" in l or "error" in l][:6])
    return None


def build_san(build):
    b = getattr(build, "san", None)
    if b is None:
        h = Harness(build.h.cpp, build.h.repo_srcs, build.h.flags, ["-fsanitize=address,undefined", "-fno-sanitize=vptr,function", "-fno-sanitize-recover=all"])
        wd = os.path.join(build.wd, "san")
        os.makedirs(wd, exist_ok=True)
        b = Build(h, wd)
        # link flags need the sanitizer too
        global CXX
        old = CXX
        exe = os.path.join(wd, b.tag + ".native")
        if not os.path.exists(exe):
            objs = []
            for s in [os.path.join(VERIF, "harness", h.cpp), os.path.join(VERIF, "harness", "vh_native.cpp")] + [os.path.join(REPO, s) for s in h.repo_srcs]:
                o = os.path.join(wd, os.path.basename(s) + ".%d.o" % os.getpid())
                rc, out = sh([CXX] + BASE + ["-O1", "-g", "-DVH_NATIVE", "-fno-access-control"] + h.flags + h.native_flags + ["-c", s, "-o", o])
                if rc:
                    raise BuildError(out[:2000])
                objs.append(o)
            rc, out = sh([CXX] + objs + h.native_flags + ["-o", exe + ".%d" % os.getpid(), "-lm"])
            if rc:
                raise BuildError(out[:2000])
            os.rename(exe + ".%d" % os.getpid(), exe)
        b.native_p = exe
        build.san = b
    return b.native_p


def cross_validate(ex, build, job, seed, n=3):
    """translator validation: random inputs through the encoding and through the native code must agree"""
    asserts = [o for o in ex.obs if o.kind == "assert"]
    roots = []
    for o in asserts:
        roots += list(o.guard) + (list(o.eq) if o.eq else [o.cond])
    guard = ex.final.guard if ex.final is not None else ()
    roots += list(guard)
    roots = list({t.id: t for t in roots}.values())
    vs = cone_vars(roots)
    allv = {v.val: v for _, _, v in ex.inputs}
    for _, leaves in ex.havocs:
        for _, _, v in leaves:
            allv[v.val] = v
    if any(v.val not in allv for v in vs):
        return dict(runs=0, note="uninitialised values in cone")
    rng = np.random.default_rng(seed + 13)
    env = Env(guard)
    N = 200
    runs = agree = compared = 0
    bad = []
    try:
        inp = sample(list(allv.values()), env, N, rng)
        val = ceval.evaluate(roots, inp, N)
    except (KeyError, TypeError, OverflowError) as e:
        return dict(runs=0, note="evaluator: %s" % e)
    ok = np.ones(N, dtype=bool)
    for g in guard:
        ok &= val[g.id]
    exe = build.native()
    for k in np.nonzero(ok)[0][:n]:
        asg = {nm: raw(v, inp[nm][k]) for nm, v in allv.items() if nm in inp}
        path = os.path.join(G["wd"], "cross.%d.txt" % os.getpid())
        rc, out = native_run(exe, job, input_lines(ex, asg), path)
        if "DONE" not in out:
            bad.append("native run ended with %s" % rc)
            continue
        runs += 1
        exp = []
        for o in asserts:
            if all(val[g.id][k] for g in o.guard):
                if o.eq:
                    exp.append((o.label, "E", val[o.eq[0].id][k], val[o.eq[1].id][k]))
                else:
                    exp.append((o.label, "A", val[o.cond.id][k]))
        got = [l.split() for l in out.splitlines() if l.startswith(("E ", "A "))]
        # native prints in execution order; match by label multiset
        from collections import defaultdict
        D = defaultdict(list)
        for g in got:
            D[" ".join(g[1:-2]) if g[0] == "E" else " ".join(g[1:-1])].append(g)
        for e in exp:
            L = D.get(e[0])
            if not L:
                bad.append("no native record for " + e[0])
                continue
            compared += 1
            match = False
            for g in L:
                if e[1] == "A":
                    match |= bool(int(g[-1])) == bool(e[2])
                else:
                    w = len(g[-1])
                    x = [np.uint32(int(z, 16)).view(np.float32) if w == 8 else np.uint64(int(z, 16)).view(np.float64) for z in g[-2:]]
                    match |= all((np.isnan(p) and np.isnan(q)) or p == q or abs(float(p) - float(q)) <= 1e-4 * (1 + abs(float(p))) for p, q in zip(x, e[2:]))
            if match:
                agree += 1
            else:
                bad.append("%s: encoding %s native %s" % (e[0], e[2:], L[0][-2:]))
    return dict(runs=runs, compared=compared, agree=agree, mismatches=bad[:5])


# ------------------------------------------------------------------ top level
def known_findings():
    """/verif/known-findings.txt lines: finding: property=ID match=<substring of job/label> :: text"""
    out = []
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for L in open(p):
            L = L.strip()
            if L.startswith("finding:"):
                head, _, text = L[8:].partition("::")
                kv = dict(x.split("=", 1) for x in head.split() if "=" in x)
                out.append((kv.get("property"), kv.get("job", ""), kv.get("label", "").replace("+", " "), text.strip()))
    return out


def run_property(pid, spec, tier, seed):
    t0 = time.time()
    budget = spec.get("budget", 600 if tier == "quick" else 840)
    deadline = t0 + budget
    wd = tempfile.mkdtemp(prefix="vh.%s." % pid)
    G.clear()
    G.update(pid=pid, wd=wd, jobs=[], builds=[], cross=True, stop=mp.Value("i", 0), findings=known_findings())
    out = dict(violations=[], findings=[], inconclusive=[], results=[])
    try:
        try:
            bs = []
            for h, jobs in spec["harnesses"]:
                b = Build(h, wd)
                b.start()
                bs.append((b, jobs))
            for b, jobs in bs:
                b.finish()
                G["builds"].append(b)
                for j in jobs:
                    if j.tier == "thorough" and tier != "thorough":
                        continue
                    G["jobs"].append((len(G["builds"]) - 1, j))
            t_build = time.time() - t0
            if tier == "thorough":
                for _, j in G["jobs"]:
                    j.timeout *= 3
            # build native binaries early in the parent so workers share them
            for b in G["builds"]:
                b.native()
        except BuildError as e:
            out["inconclusive"].append("harness does not build against this tree: " + str(e)[:1500])
            t_build = time.time() - t0
            G["jobs"] = []
        rs = []
        if G["jobs"]:
            nproc = spec.get("procs", 6)
            with mp.Pool(min(nproc, len(G["jobs"])), maxtasksperchild=spec.get("maxtasks", 20)) as pool:
                its = [pool.apply_async(job_worker, ((pid, i, deadline, seed, tier),)) for i in range(len(G["jobs"]))]
                for i, a in enumerate(its):
                    try:
                        rs.append(a.get(timeout=max(5, deadline + 20 - time.time())))
                    except mp.TimeoutError:
                        rs.append(dict(job=G["jobs"][i][1].name, fn=G["jobs"][i][1].fn, results=[], error="timed out", stats=None, obs=0, trivial=0, discharged=0, covers=0, functions=[], ninstr=0))
                pool.terminate()
        kf = known_findings()
        for r in rs:
            if r["error"]:
                out["inconclusive"].append("%s: %s" % (r["job"], r["error"]))
            for x in r.get("vacuous") or []:
                out["inconclusive"].append("%s: cover point %s unreachable (vacuous)" % (r["job"], x))
            cv = r.get("cross")
            if cv and cv.get("mismatches"):
                out["inconclusive"].append("%s: translator validation mismatch: %s" % (r["job"], cv["mismatches"][:3]))
            for x in r["results"]:
                if x["verdict"] == "violated":
                    hit = finding_for(kf, pid, r["job"], x["label"])
                    (out["findings"] if hit else out["violations"]).append((r["job"], x, hit))
                elif x["verdict"] != "skipped":
                    out["inconclusive"].append("%s: %s [%s] %s %s" % (r["job"], x["label"], x["kind"], x["verdict"], x.get("queries", x.get("note"))))
        write_evidence(pid, spec, tier, seed, rs, out, time.time() - t0, t_build)
    finally:
        if not os.environ.get("VH_KEEPWD"):
            shutil.rmtree(wd, ignore_errors=True)
    return out, rs


def write_evidence(pid, spec, tier, seed, rs, out, wall, t_build):
    S = {"queries": 0, "solver_s": 0.0, "unsat": 0, "sat": 0, "unknown": 0}
    by = {}
    fns = set()
    for r in rs:
        fns.update(r["functions"])
        if r["stats"]:
            for k in S:
                S[k] += r["stats"][k]
            for k, v in r["stats"]["by"].items():
                by[k] = by.get(k, 0) + v
    obs = sum(r["obs"] for r in rs)
    dis = sum(r["discharged"] for r in rs)
    try:
        dem = subprocess.run(["c++filt"], input="\n".join(sorted(fns)), text=True, stdout=subprocess.PIPE).stdout.split("\n")
        dem = [d for d in dem if d and not d.startswith("vh_")]
    except OSError:
        dem = sorted(fns)
    cv = [r["cross"] for r in rs if r.get("cross")]
    ev = dict(
        property=pid, tier=tier, seed=seed, level=spec.get("level", "other"),
        coverage=dict(
            explanation="Bounded symbolic execution of the repository's functions (LLVM IR regenerated from the working tree on this run) with every path merged "
                        "into SMT obligations; " + spec["bounds"],
            jobs=len(rs), obligations=obs, discharged=dis, discharged_by_simplifier=sum(r["trivial"] for r in rs),
            solver_queries=S["queries"], unsat=S["unsat"], sat=S["sat"], unknown=S["unknown"], solver_seconds=round(S["solver_s"], 2), decided_by=by,
            ir_instructions_executed=sum(r["ninstr"] for r in rs), reachability_witnesses=sum(r["covers"] for r in rs),
            functions_encoded=dem[:400],
            translator_validation=dict(native_runs=sum(c["runs"] for c in cv), values_compared=sum(c.get("compared", 0) for c in cv), agreeing=sum(c.get("agree", 0) for c in cv)),
            build_seconds=round(t_build, 2),
            inconclusive=out["inconclusive"][:40],
            known_findings=[f[1]["label"] for f in out["findings"]],
            samples=[dict(job=r["job"], obligations=r["obs"], discharged=r["discharged"], seconds=round(r.get("wall", 0), 2)) for r in rs[:25]],
        ),
        assumptions=spec.get("assumptions", []), wall_s=round(wall, 2), violations=len(out["violations"]))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)


def main(argv):
    import specs
    pid = argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    for a in argv[2:]:
        if a in ("quick", "thorough"):
            tier = a
    seed = int(os.environ.get("VERIF_SEED", "1"))
    spec = specs.SPECS[pid]
    if callable(spec):
        spec = spec()
    only = [a[5:] for a in argv if a.startswith("only=")]
    if only:
        spec = dict(spec)
        spec["harnesses"] = [(h, [j for j in js if any(o in j.name for o in only)]) for h, js in spec["harnesses"]]
        spec["harnesses"] = [(h, js) for h, js in spec["harnesses"] if js]
    out, rs = run_property(pid, spec, tier, seed)
    seen = set()
    for job, x, hit in out["findings"]:
        if (job, x["label"]) not in seen:
            seen.add((job, x["label"]))
            print("KNOWN-FINDING: property=%s %s: %s (%s)" % (pid, job, x["label"], hit[3]))
    for m in out["inconclusive"]:
        print("INCONCLUSIVE property=%s %s" % (pid, m))
    obs = sum(r["obs"] for r in rs)
    dis = sum(r["discharged"] for r in rs)
    q = sum(r["stats"]["queries"] for r in rs if r["stats"])
    ss = sum(r["stats"]["solver_s"] for r in rs if r["stats"])
    print("property=%s jobs=%d obligations=%d discharged=%d queries=%d solver=%.1fs covers=%d" % (pid, len(rs), obs, dis, q, ss, sum(r["covers"] for r in rs)))
    if os.environ.get("VH_VERBOSE"):
        for r in rs:
            print("  %-40s obs=%d triv=%d dis=%d exec=%.1fs wall=%.1fs q=%s cross=%s" % (r["job"], r["obs"], r["trivial"], r["discharged"], r.get("t_exec", 0), r.get("wall", 0), r["stats"] and r["stats"]["queries"], r.get("cross")))
    if out["violations"]:
        for job, x, _ in out["violations"]:
            print("  violated in %s: %s [%s in %s] %s" % (job, x["label"], x["kind"], x["fn"], x["out"].replace("\n", " | ")))
        print("VIOLATION property=%s replay=%s" % (pid, out["violations"][0][1]["replay"]))
        return 1
    return 0


if __name__ == "__main__":
    sys.exit(main(sys.argv))
