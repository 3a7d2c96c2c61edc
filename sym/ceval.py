"""Vectorised concrete evaluation of term DAGs with the real IEEE semantics (numpy), used to turn a solver
verdict into a concrete, replayable input."""
import numpy as np
import terms as T

DT = {"f": np.float32, "d": np.float64, "B": np.bool_}


def mask(n):
    return np.uint64((1 << n) - 1) if n < 64 else np.uint64(0xFFFFFFFFFFFFFFFF)


def signed(x, n):
    if n == 64:
        return x.astype(np.int64)
    y = x.astype(np.int64)
    return np.where(y >> (n - 1) & 1, y - (1 << n), y)


def const(t, N):
    if t.sort == "B":
        return np.full(N, t.val)
    if t.sort == "f":
        return np.full(N, t.val, dtype=np.uint32).view(np.float32)
    if t.sort == "d":
        return np.full(N, t.val, dtype=np.uint64).view(np.float64)
    if t.sort > 64:
        return np.array([t.val] * N, dtype=object)
    return np.full(N, t.val, dtype=np.uint64)


UF = {"sin": np.sin, "cos": np.cos, "tan": np.tan, "asin": np.arcsin, "acos": np.arccos, "atan": np.arctan,
      "atan2": np.arctan2, "exp": np.exp, "log": np.log, "pow": np.power, "log10": np.log10, "exp2": np.exp2, "hypot": np.hypot,
      "sinh": np.sinh, "cosh": np.cosh, "tanh": np.tanh, "log2": np.log2}


def evaluate(roots, inputs, N, real64=False):
    """inputs: name -> numpy array; returns dict id -> array. real64: evaluate binary32 in binary64 (near-real)"""
    val = {}
    F32 = np.float64 if real64 else np.float32
    with np.errstate(all="ignore"):
        for t in T.topo(roots):
            val[t.id] = ev(t, [val[a.id] for a in t.args], inputs, N, F32)
    return val


def ev(t, a, inputs, N, F32):
    op, s = t.op, t.sort
    if op == "const":
        c = const(t, N)
        return c.astype(F32) if s == "f" else c
    if op == "var":
        x = inputs.get(t.val)
        if x is None:
            x = np.zeros(N, dtype=DT.get(s, np.uint64))
        return x.astype(F32) if s == "f" else x
    if op == "not":
        return ~a[0]
    if op == "and":
        r = a[0]
        for x in a[1:]:
            r = r & x
        return r
    if op == "or":
        r = a[0]
        for x in a[1:]:
            r = r | x
        return r
    if op in ("iff", "eq", "feq"):
        return a[0] == a[1]
    if op == "ite":
        return np.where(a[0], a[1], a[2])
    if op in ("flt",):
        return a[0] < a[1]
    if op == "fle":
        return a[0] <= a[1]
    if op == "fisnan":
        return np.isnan(a[0])
    if s in ("f", "d"):
        D = F32 if s == "f" else np.float64
        if op == "fadd":
            return a[0] + a[1]
        if op == "fsub":
            return a[0] - a[1]
        if op == "fmul":
            return a[0] * a[1]
        if op == "fdiv":
            return a[0] / a[1]
        if op == "fneg":
            return -a[0]
        if op == "fabs":
            return np.abs(a[0])
        if op == "fsqrt":
            return np.sqrt(a[0])
        if op == "ffloor":
            return np.floor(a[0])
        if op == "fceil":
            return np.ceil(a[0])
        if op == "ftrunc":
            return np.trunc(a[0])
        if op == "frint":
            return np.rint(a[0])
        if op == "fround":
            return np.copysign(np.floor(np.abs(a[0]) + D(0.5)), a[0]).astype(D)
        if op == "fmin":
            return np.fmin(a[0], a[1])
        if op == "fmax":
            return np.fmax(a[0], a[1])
        if op == "frem":
            return np.fmod(a[0], a[1])
        if op == "fpext":
            return a[0].astype(np.float64)
        if op == "fptrunc":
            return a[0].astype(F32)
        if op == "uitofp":
            return a[0].astype(D)
        if op == "sitofp":
            return signed(a[0], t.args[0].sort).astype(D)
        if op == "bitcast":
            if s == "f":
                return a[0].astype(np.uint32).view(np.float32).astype(F32)
            return a[0].astype(np.uint64).view(np.float64)
        if op == "uf":
            if not a:
                return np.zeros(N, dtype=D)
            if s == "f":
                return UF[t.val](*[x.astype(np.float64) for x in a]).astype(F32)
            return UF[t.val](*a)
        raise KeyError(op)
    if op in ("ult", "slt"):
        n = t.args[0].sort
        if op == "ult":
            return a[0] < a[1]
        return signed(a[0], n) < signed(a[1], n)
    big = s > 64 or any(x.sort not in ("f", "d", "B") and x.sort > 64 for x in t.args)
    if big:
        n = s
        A = [[int(v) for v in x] for x in a]
        if op == "concat":
            r = []
            for k in range(N):
                v = 0
                for x, arr in zip(t.args, A):
                    v = (v << x.sort) | arr[k]
                r.append(v)
        elif op == "extract":
            r = [(v >> t.val[1]) & ((1 << s) - 1) for v in A[0]]
        elif op == "zext":
            r = A[0]
        elif op == "sext":
            m = t.args[0].sort
            r = [T.sgn(v, m) & ((1 << n) - 1) for v in A[0]]
        else:
            f = {"add": lambda x, y: x + y, "sub": lambda x, y: x - y, "mul": lambda x, y: x * y}[op]
            r = [f(x, y) & ((1 << n) - 1) for x, y in zip(*A)]
        return np.array(r, dtype=np.uint64 if s <= 64 else object)
    M = mask(s)
    if op == "add":
        return (a[0] + a[1]) & M
    if op == "sub":
        return (a[0] - a[1]) & M
    if op == "mul":
        return (a[0] * a[1]) & M
    if op == "udiv":
        return np.where(a[1] == 0, M, a[0] // np.maximum(a[1], np.uint64(1)))
    if op == "urem":
        return np.where(a[1] == 0, a[0], a[0] % np.maximum(a[1], np.uint64(1)))
    if op in ("sdiv", "srem"):
        x, y = signed(a[0], s), signed(a[1], s)
        y1 = np.where(y == 0, 1, y)
        qq = (np.abs(x) // np.abs(y1)) * np.sign(x) * np.sign(y1)
        r = qq if op == "sdiv" else x - qq * y1
        return r.astype(np.uint64) & M
    if op == "bvand":
        return a[0] & a[1]
    if op == "bvor":
        return a[0] | a[1]
    if op == "bvxor":
        return a[0] ^ a[1]
    if op == "bvnot":
        return ~a[0] & M
    if op == "shl":
        return np.where(a[1] >= s, np.uint64(0), (a[0] << np.minimum(a[1], np.uint64(63))) & M)
    if op == "lshr":
        return np.where(a[1] >= s, np.uint64(0), a[0] >> np.minimum(a[1], np.uint64(63)))
    if op == "ashr":
        return (signed(a[0], s) >> np.minimum(a[1], np.uint64(s - 1)).astype(np.int64)).astype(np.uint64) & M
    if op == "concat":
        r = np.zeros(N, dtype=np.uint64)
        for x, arr in zip(t.args, a):
            r = (r << np.uint64(x.sort)) | arr if x.sort < 64 else arr
        return r
    if op == "extract":
        return (a[0] >> np.uint64(t.val[1])) & M
    if op == "zext":
        return a[0]
    if op == "sext":
        return signed(a[0], t.args[0].sort).astype(np.uint64) & M
    if op == "bitcast":
        if s == 32:
            return a[0].astype(np.float32).view(np.uint32).astype(np.uint64)
        return a[0].astype(np.float64).view(np.uint64)
    if op in ("fptosi", "fptoui"):
        x = np.trunc(a[0].astype(np.float64))
        x = np.where(np.isfinite(x), x, 0)
        x = np.clip(x, -9e18, 1.8e19)
        if op == "fptosi":
            return x.astype(np.int64).astype(np.uint64) & M
        return np.where(x < 0, 0, x).astype(np.uint64) & M
    raise KeyError(op)
