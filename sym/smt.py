"""Lowering of term DAGs to SMT-LIB2 (several float interpretations) and a solver portfolio."""
import ctypes
import os
import re
import subprocess
import tempfile
import threading
import time
from fractions import Fraction
import terms as T
from intervals import Env

FP = {"f": "(_ FloatingPoint 8 24)", "d": "(_ FloatingPoint 11 53)"}
TOFP = {"f": "(_ to_fp 8 24)", "d": "(_ to_fp 11 53)"}
TOFPU = {"f": "(_ to_fp_unsigned 8 24)", "d": "(_ to_fp_unsigned 11 53)"}


def q(name):
    return "|%s|" % name.replace("|", "_").replace("\\", "_")


def rat(x):
    f = Fraction(x)
    s = "%d.0" % abs(f.numerator)
    if f.denominator != 1:
        s = "(/ %s %d.0)" % (s, f.denominator)
    return "(- %s)" % s if f < 0 else s



def libm_const(t):
    """value of a libm call on constants, computed by the same libm the native build uses"""
    try:
        lib = ctypes.CDLL("libm.so.6")
        f = getattr(lib, t.val + ("f" if t.sort == "f" else ""))
    except (OSError, AttributeError):
        return None
    ct = ctypes.c_float if t.sort == "f" else ctypes.c_double
    if any(x.sort != t.sort for x in t.args):
        return None
    f.restype = ct
    f.argtypes = [ct] * len(t.args)
    return T.fbits(t.sort, f(*[T.fval(x.sort, x.val) for x in t.args]))


class Lower:
    """mode: 'fp' exact IEEE; 'real' floats as reals; 'uf' IEEE comparisons, uninterpreted arithmetic"""

    def __init__(self, mode, env=None, i2r="exact"):
        self.mode = mode
        self.decl = []
        self.defs = []
        self.side = []
        self.done = {}
        self.ufs = {}
        self.vars = {}
        self.env = env
        self.i2r = i2r
        self.aux = 0
        self.side_pending = []
        self.angles = []

    def sort(self, s):
        if s == "B":
            return "Bool"
        if s in ("f", "d"):
            return "Real" if self.mode == "real" else FP[s]
        return "(_ BitVec %d)" % s

    def fn(self, name, args, ret):
        if name not in self.ufs:
            self.ufs[name] = 1
            self.decl.append("(declare-fun %s (%s) %s)" % (q(name), " ".join(args), ret))
        return q(name)

    def fresh(self, sort):
        self.aux += 1
        n = "aux!%d" % self.aux
        self.decl.append("(declare-fun %s () %s)" % (n, sort))
        return n

    def lower(self, roots):
        for t in T.topo(roots):
            if t.id in self.done:
                continue
            e = self.node(t)
            if t.args and len(e) > 24:
                n = "t%d" % t.id
                self.defs.append("(define-fun %s () %s %s)" % (n, self.sort(t.sort), e))
                e = n
            self.done[t.id] = e
            while self.side_pending:
                self.defs.append("(assert %s)" % self.side_pending.pop(0))
        return [self.done[r.id] for r in roots]

    def node(self, t):
        op = t.op
        a = [str(self.done[x.id]) for x in t.args]
        s = t.sort
        if op == "const":
            if s == "B":
                return "true" if t.val else "false"
            if s in ("f", "d"):
                if self.mode == "real":
                    v = T.fval(s, t.val)
                    if v != v:
                        return self.fresh("Real")
                    if v in (float("inf"), float("-inf")):
                        return "1%s.0" % ("0" * 45) if v > 0 else "(- 1%s.0)" % ("0" * 45)
                    return rat(v)
                n = T.fsortbits(s)
                v = T.fval(s, t.val)
                if v != v:
                    return "(_ NaN %s)" % ("8 24" if s == "f" else "11 53")
                return "(%s #b%s)" % (TOFP[s], format(t.val, "0%db" % n))
            return "#b" + format(t.val, "0%db" % s) if s % 4 else "#x" + format(t.val, "0%dx" % (s // 4))
        if op == "var":
            n = q(t.val)
            if t.val not in self.vars:
                self.vars[t.val] = t
                self.decl.append("(declare-fun %s () %s)" % (n, self.sort(s)))
            return n
        if op in ("not", "and", "or", "ite"):
            return "(%s %s)" % (op, " ".join(a))
        if op in ("iff", "eq"):
            return "(= %s)" % " ".join(a)
        bvm = {"add": "bvadd", "sub": "bvsub", "mul": "bvmul", "udiv": "bvudiv", "sdiv": "bvsdiv", "urem": "bvurem",
               "srem": "bvsrem", "shl": "bvshl", "lshr": "bvlshr", "ashr": "bvashr", "bvand": "bvand", "bvor": "bvor",
               "bvxor": "bvxor", "bvnot": "bvnot", "ult": "bvult", "slt": "bvslt", "concat": "concat"}
        if op in bvm:
            return "(%s %s)" % (bvm[op], " ".join(a))
        if op == "extract":
            return "((_ extract %d %d) %s)" % (t.val[0], t.val[1], a[0])
        if op == "zext":
            return "((_ zero_extend %d) %s)" % (s - t.args[0].sort, a[0])
        if op == "sext":
            return "((_ sign_extend %d) %s)" % (s - t.args[0].sort, a[0])
        if self.mode == "real":
            return self.real(t, op, a)
        return self.fp(t, op, a)

    def fp(self, t, op, a):
        s = t.sort
        uf = self.mode == "uf"
        if op in ("feq", "flt", "fle"):
            return "(fp.%s %s)" % ({"feq": "eq", "flt": "lt", "fle": "leq"}[op], " ".join(a))
        if op == "fisnan":
            return "(fp.isNaN %s)" % a[0]
        if op == "fneg":
            return "(fp.neg %s)" % a[0]
        if op == "fabs":
            return "(fp.abs %s)" % a[0]
        if op in ("fmin", "fmax"):
            c = "fp.lt" if op == "fmin" else "fp.gt"
            return "(ite (fp.isNaN {0}) {1} (ite (fp.isNaN {1}) {0} (ite ({2} {0} {1}) {0} {1})))".format(a[0], a[1], c)
        if op == "bitcast":
            if s in ("f", "d"):
                return "(%s %s)" % (TOFP[s], a[0])
            b = self.fresh(self.sort(s))
            self.side_pending.append("(= (%s %s) %s)" % (TOFP[t.args[0].sort], b, a[0]))
            return b
        if op == "uf" and t.args and all(x.op == "const" for x in t.args):
            c = libm_const(t)
            if c is not None:
                return self.node(T.fbitsconst(s, c))
        if op in ("uf", "frem", "ffma"):
            nm = "uf_" + (t.val or op) + s
            f = self.fn(nm, [self.sort(x.sort) for x in t.args], self.sort(s))
            return "(%s %s)" % (f, " ".join(a)) if a else f
        if uf and op in ("fadd", "fsub", "fmul", "fdiv", "fsqrt", "ffloor", "fceil", "ftrunc", "frint", "fround", "fpext", "fptrunc",
                         "sitofp", "uitofp", "fptosi", "fptoui"):
            nm = "%s_%s_%s" % (op, t.args[0].sort, s)
            f = self.fn(nm, [self.sort(x.sort) for x in t.args], self.sort(s))
            return "(%s %s)" % (f, " ".join(a))
        m = {"fadd": "fp.add RNE", "fsub": "fp.sub RNE", "fmul": "fp.mul RNE", "fdiv": "fp.div RNE", "fsqrt": "fp.sqrt RNE",
             "ffloor": "fp.roundToIntegral RTN", "fceil": "fp.roundToIntegral RTP", "ftrunc": "fp.roundToIntegral RTZ",
             "frint": "fp.roundToIntegral RNE", "fround": "fp.roundToIntegral RNA"}
        if op in m:
            return "(%s %s)" % (m[op], " ".join(a))
        if op in ("fpext", "fptrunc"):
            return "(%s RNE %s)" % (TOFP[s], a[0])
        if op == "sitofp":
            return "(%s RNE %s)" % (TOFP[s], a[0])
        if op == "uitofp":
            return "(%s RNE %s)" % (TOFPU[s], a[0])
        if op == "fptosi":
            return "((_ fp.to_sbv %d) RTZ %s)" % (s, a[0])
        if op == "fptoui":
            return "((_ fp.to_ubv %d) RTZ %s)" % (s, a[0])
        raise KeyError(op)

    def real(self, t, op, a):
        s = t.sort
        m = {"fadd": "+", "fsub": "-", "fmul": "*", "fneg": "-"}
        if op in m:
            return "(%s %s)" % (m[op], " ".join(a))
        if op == "fdiv":
            if T.isc(t.args[1]) and t.args[1].val:
                v = T.fval(s, t.args[1].val)
                if v == v and abs(v) != float("inf") and v != 0:
                    return "(* %s %s)" % (rat(1 / Fraction(v)), a[0])
            return "(/ %s)" % " ".join(a)
        if op in ("feq", "flt", "fle"):
            return "(%s %s)" % ({"feq": "=", "flt": "<", "fle": "<="}[op], " ".join(a))
        if op == "fisnan":
            return "false"
        if op == "fabs":
            return "(ite (< {0} 0.0) (- {0}) {0})".format(a[0])
        if op in ("fmin", "fmax"):
            return "(ite ({2} {0} {1}) {0} {1})".format(a[0], a[1], "<" if op == "fmin" else ">")
        if op == "fsqrt":
            n = self.fresh("Real")
            self.side_pending.append("(and (>= {0} 0.0) (=> (>= {1} 0.0) (= (* {0} {0}) {1})))".format(n, a[0]))
            return n
        if op in ("fpext", "fptrunc"):
            return a[0]
        if op in ("ffloor", "fptoui", "fptosi") and self.env is not None:
            lo, hi, nan = self.env.f(t.args[0])
            if abs(lo) < 1e6 and abs(hi) < 1e6:
                import math
                l, h = (math.floor(lo), math.floor(hi)) if op == "ffloor" else (math.trunc(lo), math.trunc(hi))
                if h - l <= 6 and (op == "ffloor" or l >= 0):
                    c = (lambda k: rat(k)) if op == "ffloor" else (lambda k: "(_ bv%d %d)" % (k % (1 << s), s))
                    e = c(h)
                    for k in range(h - 1, l - 1, -1):
                        e = "(ite (< %s %s) %s %s)" % (a[0], rat(k + 1), c(k), e)
                    return e
        if op == "ffloor":
            return "(to_real (to_int %s))" % a[0]
        if op == "fceil":
            return "(- (to_real (to_int (- %s))))" % a[0]
        if op == "ftrunc":
            return "(ite (>= {0} 0.0) (to_real (to_int {0})) (- (to_real (to_int (- {0})))))".format(a[0])
        if op in ("frint", "fround"):
            f = self.fn(op, ["Real"], "Real")
            return "(%s %s)" % (f, a[0])
        if op in ("sitofp", "uitofp"):
            x = t.args[0]
            n = x.sort
            if self.i2r == "exact":
                e = "(to_real (bv2nat %s))" % a[0]
                if op == "sitofp":
                    e = "(ite (bvslt {0} {1}) (- {2} {3}.0) {2})".format(a[0], "(_ bv0 %d)" % n, e, 1 << n)
                return e
            f = self.fn("i2r_%s%d" % (op[0], n), [self.sort(n)], "Real")
            r = "(%s %s)" % (f, a[0])
            env = self.env or Env(())
            lo, hi = env.u(x)
            if op == "uitofp" or hi < 1 << (n - 1):
                self.side_pending.append("(and (<= %s %s) (<= %s %s))" % (rat(lo), r, r, rat(hi)))
            return r
        if op in ("fptosi", "fptoui"):
            f = self.fn("r2i_%s%d" % (op[4:], s), ["Real"], self.sort(s))
            return "(%s %s)" % (f, a[0])
        if op == "bitcast":
            x = t.args[0]
            f = self.fn("bc_%s_%s" % (x.sort, s), [self.sort(x.sort)], self.sort(s))
            return "(%s %s)" % (f, a[0])
        if op in ("uf", "frem", "ffma"):
            nm = "uf_" + (t.val or op)
            f = self.fn(nm, ["Real"] * len(a), "Real")
            r = "(%s %s)" % (f, " ".join(a)) if a else f
            self.trig(t.val, r, a)
            return r
        raise KeyError(op)

    # exact facts about the real functions (idealised libm), instantiated for the occurring applications
    def u1(self, nm, x):
        return "(%s %s)" % (self.fn("uf_" + nm, ["Real"], "Real"), x)

    def trig(self, nm, r, a):
        P = self.side_pending.append
        if nm in ("sin", "cos"):
            self.circle(a[0])
        elif nm == "atan2":
            y, x = a
            self.circle(r)
            n = self.fresh("Real")
            P("(and (>= {0} 0.0) (= (* {0} {0}) (+ (* {1} {1}) (* {2} {2}))))".format(n, y, x))
            P("(and (= (* {n} {s}) {y}) (= (* {n} {c}) {x}))".format(n=n, s=self.u1("sin", r), c=self.u1("cos", r), y=y, x=x))
            P("(and (<= (- 3.1415926536) {0}) (<= {0} 3.1415926536))".format(r))
            P("(=> (and (= {0} 0.0) (= {1} 0.0)) (= {2} 0.0))".format(y, x, r))
            P("(= (>= {0} 0.0) (>= {1} 0.0))".format(r, y))
        elif nm == "asin":
            self.circle(r)
            P("(=> (and (<= (- 1.0) {0}) (<= {0} 1.0)) (and (= {1} {0}) (>= {2} 0.0)))".format(a[0], self.u1("sin", r), self.u1("cos", r)))
            P("(and (<= (- 1.5707963268) {0}) (<= {0} 1.5707963268))".format(r))
        elif nm == "acos":
            self.circle(r)
            P("(=> (and (<= (- 1.0) {0}) (<= {0} 1.0)) (and (= {1} {0}) (>= {2} 0.0)))".format(a[0], self.u1("cos", r), self.u1("sin", r)))
            P("(and (<= 0.0 {0}) (<= {0} 3.1415926536))".format(r))
        elif nm == "tan":
            self.circle(a[0])
            P("(= (* {0} {1}) {2})".format(r, self.u1("cos", a[0]), self.u1("sin", a[0])))
        elif nm == "exp":
            P("(> %s 0.0)" % r)

    def circle(self, x):
        if x in self.angles:
            return
        P = self.side_pending.append
        s, c = self.u1("sin", x), self.u1("cos", x)
        P("(= (+ (* {0} {0}) (* {1} {1})) 1.0)".format(s, c))
        P("(=> (= {0} 0.0) (and (= {1} 0.0) (= {2} 1.0)))".format(x, s, c))
        if len(self.angles) < 12:
            for y in self.angles:
                P("(=> (= {0} (- {1})) (and (= {2} (- {4})) (= {3} {5})))".format(x, y, s, c, self.u1("sin", y), self.u1("cos", y)))
        self.angles.append(x)

    def script(self, goal_exprs, logic=None, get=None):
        out = []
        if logic:
            out.append("(set-logic %s)" % logic)
        out += self.decl
        out += self.defs
        for g in goal_exprs:
            out.append("(assert %s)" % g)
        return "\n".join(out)


# ------------------------------------------------------------------ solver processes
Z3NEW = "z3-new"
STATS = {"queries": 0, "solver_s": 0.0, "unsat": 0, "sat": 0, "unknown": 0, "by": {}}
_lock = threading.Lock()
KEEP = os.environ.get("VH_KEEP")


def commands(solver, path, timeout):
    if solver == "z3":
        return [Z3NEW, "-T:%d" % max(1, int(timeout)), path]
    if solver == "z3old":
        return ["z3", "-T:%d" % max(1, int(timeout)), path]
    if solver == "cvc5":
        return ["cvc5", "--tlimit=%d" % int(timeout * 1000), path]
    if solver == "cvc5real":
        return ["cvc5", "--nl-cov", "--tlimit=%d" % int(timeout * 1000), path]
    raise KeyError(solver)


def variants(text, solver, vals, mode):
    """full script for a solver"""
    pre = ["(set-option :produce-models true)"]
    body = text
    if solver.startswith("cvc5"):
        pre.append("(set-logic ALL)")
        body = body
    else:
        pre.append("(set-option :pp.decimal true)")
        pre.append("(set-option :pp.decimal_precision 20)")
    chk = "(check-sat)"
    if solver == "z3" and mode == "real":
        chk = "(check-sat)"
    post = chk
    if vals:
        post += "\n(get-value (%s))" % " ".join(vals)
    return "\n".join(pre) + "\n" + body + "\n" + post + "\n"


def solve(text, vals, mode, timeout, solvers=("z3", "cvc5")):
    """-> (verdict, model dict or None, solver, seconds)"""
    t0 = time.time()
    procs = []
    d = tempfile.mkdtemp(prefix="vhq.")
    try:
        for s in solvers:
            p = os.path.join(d, s + ".smt2")
            with open(p, "w") as f:
                f.write(variants(text, s, vals, mode))
            o = open(p + ".out", "w")
            procs.append((s, subprocess.Popen(commands(s, p, timeout), stdout=o, stderr=subprocess.STDOUT), p, o))
        verdict, model, who = "unknown", None, None
        live = list(procs)
        deadline = t0 + timeout + 5
        delay = 0.002
        while live and verdict == "unknown":
            for x in list(live):
                s, pr, p, o = x
                if pr.poll() is not None:
                    live.remove(x)
                    o.flush()
                    with open(p + ".out") as f:
                        out = f.read()
                    first = out.lstrip().split("\n", 1)[0].strip()
                    if first in ("sat", "unsat"):
                        if first == "unsat" and "(error" in out and not re.search(r"error.*(model|get-value)", out, re.I):
                            continue
                        verdict, who = first, s
                        if first == "sat":
                            model = parse_model(out.lstrip().split("\n", 1)[1] if "\n" in out.lstrip() else "")
                        break
                    elif "(error" in out:
                        STATS.setdefault("errors", []).append(out[:300])
            if verdict == "unknown" and live:
                if time.time() > deadline:
                    break
                time.sleep(delay)
                delay = min(0.05, delay * 1.5)
        for s, pr, p, o in procs:
            if pr.poll() is None:
                pr.kill()
                pr.wait()
            o.close()
    finally:
        if KEEP:
            print("kept", d)
        else:
            for s, pr, p, o in procs:
                for x in (p, p + ".out"):
                    if os.path.exists(x):
                        os.unlink(x)
            os.rmdir(d)
    dt = time.time() - t0
    with _lock:
        STATS["queries"] += 1
        STATS["solver_s"] += dt
        STATS[verdict] += 1
        if who:
            STATS["by"][who] = STATS["by"].get(who, 0) + 1
    return verdict, model, who, dt


# ------------------------------------------------------------------ model parsing
def sexp(s):
    toks = re.findall(r'\|[^|]*\||"[^"]*"|[()]|[^\s()]+', s)
    i = 0

    def rd():
        nonlocal i
        t = toks[i]
        i += 1
        if t == "(":
            r = []
            while toks[i] != ")":
                r.append(rd())
            i += 1
            return r
        return t
    out = []
    while i < len(toks):
        try:
            out.append(rd())
        except IndexError:
            break
    return out


def parse_val(v):
    """-> ('bv',n) / ('bool',b) / ('fp',sign,exp,mant strings) / ('real',Fraction)"""
    if isinstance(v, str):
        if v == "true":
            return True
        if v == "false":
            return False
        if v.startswith("#b"):
            return ("bv", int(v[2:], 2), len(v) - 2)
        if v.startswith("#x"):
            return ("bv", int(v[2:], 16), 4 * (len(v) - 2))
        v = v.rstrip("?")
        try:
            return Fraction(v)
        except ValueError:
            return None
    if not v:
        return None
    if v[0] == "fp":
        b = "".join(x[2:] if x.startswith("#b") else format(int(x[2:], 16), "0%db" % (4 * (len(x) - 2))) for x in v[1:4])
        return ("fpbits", int(b, 2))
    if v[0] == "_":
        if v[1] == "+zero":
            return ("fpbits", 0)
        if v[1] == "-zero":
            return ("fpbits", 0x80000000 if v[2] == "8" else 1 << 63)
        if v[1] == "+oo":
            return ("fpbits", 0x7F800000 if v[2] == "8" else 0x7FF << 52)
        if v[1] == "-oo":
            return ("fpbits", 0xFF800000 if v[2] == "8" else 0xFFF << 52)
        if v[1] == "NaN":
            return ("fpbits", 0x7FC00000 if v[2] == "8" else 0x7FF8 << 48)
        if v[1].startswith("bv"):
            return ("bv", int(v[1][2:]), int(v[2]))
        if v[1] == "real_algebraic_number" or v[1] == "witness":
            return None
    if v[0] == "-" and len(v) == 2:
        x = parse_val(v[1])
        return -x if isinstance(x, Fraction) else None
    if v[0] == "/" and len(v) == 3:
        x, y = parse_val(v[1]), parse_val(v[2])
        return x / y if isinstance(x, Fraction) and isinstance(y, Fraction) and y else None
    return None


def parse_model(s):
    m = {}
    for e in sexp(s):
        if isinstance(e, list):
            for kv in e:
                if isinstance(kv, list) and len(kv) == 2 and isinstance(kv[0], str):
                    m[kv[0].strip("|")] = parse_val(kv[1])
    return m


def to_bits(t, v):
    """model value -> raw bits / bool for the variable term t"""
    if v is None:
        return 0 if t.sort != "B" else False
    if t.sort == "B":
        return bool(v)
    if isinstance(v, tuple):
        return v[1]
    if isinstance(v, Fraction):
        if t.sort == "f":
            return T._round_frac("f", v) if v else 0
        if t.sort == "d":
            return T._round_frac("d", v) if v else 0
        return int(v) & ((1 << t.sort) - 1)
    return 0


def presimp(guard, goal, env):
    """rewrite goal using interval facts implied by guard (guard itself stays asserted)"""
    m = {}

    def rebuild(t, na):
        if t.op == "ite":
            c = env.c(t.args[0])
            if c is True:
                return na[1]
            if c is False:
                return na[2]
        r = T.build(t, na)
        return r
    for t in T.topo(goal):
        if t.id in m:
            continue
        if t.sort == "B" and t.op != "const" and env.c(t) is not None and t.op in ("flt", "fle", "feq", "eq", "ult", "slt", "fisnan"):
            m[t.id] = T.bool_(env.c(t))
        elif not t.args:
            m[t.id] = t
        else:
            m[t.id] = rebuild(t, tuple(m[a.id] for a in t.args))
    return [m[g.id] for g in goal]


def check(goal, mode, timeout, solvers=("z3", "cvc5"), env=None, i2r="exact", nguard=None):
    """goal: list of bool terms (conjunction). -> verdict, model{name: bits}, solver, secs"""
    if any(g is T.FALSE for g in goal):
        return "unsat", None, "simplifier", 0.0
    if env is not None and nguard is not None:
        goal = list(goal[:nguard]) + presimp(goal[:nguard], list(goal[nguard:]), env)
        if any(g is T.FALSE for g in goal):
            return "unsat", None, "intervals", 0.0
    if mode == "poly":
        from poly import PolyLower
        L = PolyLower(env, i2r)
        es = L.lower(list(goal), nguard or 0)
        u = L.find_units()
        if u:
            L = PolyLower(env, i2r)
            L.units = u
            es = L.lower(list(goal), nguard or 0)
        if any(e == "false" for e in es):
            v, m, who, dt = solve("(assert false)", [], mode, timeout, solvers)
            return v, None, who, dt
    else:
        L = Lower(mode, env, i2r)
        es = L.lower(list(goal))
    txt = L.script(es)
    vals = [q(n) for n in L.vars]
    v, m, who, dt = solve(txt, vals, mode, timeout, solvers)
    model = None
    if v == "sat":
        model = {}
        for n, t in L.vars.items():
            model[n] = to_bits(t, m.get(n) if m else None)
    return v, model, who, dt
