"""Sound interval evaluation of terms under a path condition (used only to prune candidate
indices / infeasible branches; every pruned index also leaves a bounds obligation for the solver)."""
import math
import struct
import terms as T

INF = math.inf


def r32(x):
    try:
        return struct.unpack("<f", struct.pack("<f", x))[0]
    except OverflowError:
        return math.copysign(INF, x)


class Env:
    def __init__(self, guard):
        self.b = {}      # id -> (lo,hi,nan) for floats, (lo,hi) unsigned for bvs
        self.true = set()
        self.memo = {}
        for _ in range(2):
            self.memo = {}
            for g in guard:
                self.learn(g, True)
        self.memo = {}

    def learn(self, g, pol):
        if g.op == "not":
            return self.learn(g.args[0], not pol)
        if g.op == "and" and pol:
            for a in g.args:
                self.learn(a, True)
            return
        if g.op == "or" and not pol:
            for a in g.args:
                self.learn(a, False)
            return
        self.true.add((g.id, pol))
        if g.op in ("flt", "fle", "feq"):
            a, b = g.args
            A, B = self.f(a), self.f(b)
            if pol:
                if g.op == "feq":
                    lo, hi = max(A[0], B[0]), min(A[1], B[1])
                    self.setf(a, lo, hi, False)
                    self.setf(b, lo, hi, False)
                else:
                    self.setf(a, A[0], min(A[1], B[1]), False)
                    self.setf(b, max(A[0], B[0]), B[1], False)
            elif g.op != "feq" and not A[2] and not B[2]:
                # a >= b
                self.setf(a, max(A[0], B[0]), A[1], False)
                self.setf(b, B[0], min(A[1], B[1]), False)
        elif g.op == "fisnan" and not pol:
            A = self.f(g.args[0])
            self.setf(g.args[0], A[0], A[1], False)
        elif g.op == "ult":
            a, b = g.args
            A, B = self.u(a), self.u(b)
            if pol:
                self.setu(a, A[0], min(A[1], B[1] - 1))
                self.setu(b, max(B[0], A[0] + 1), B[1])
            else:
                self.setu(a, max(A[0], B[0]), A[1])
                self.setu(b, B[0], min(B[1], A[1]))
        elif g.op == "eq" and pol:
            a, b = g.args
            A, B = self.u(a), self.u(b)
            lo, hi = max(A[0], B[0]), min(A[1], B[1])
            self.setu(a, lo, hi)
            self.setu(b, lo, hi)
        elif g.op == "eq" and not pol and g.args[1].op == "const":
            A = self.u(g.args[0])
            k = g.args[1].val
            if A[0] == k:
                self.setu(g.args[0], k + 1, A[1])
            elif A[1] == k:
                self.setu(g.args[0], A[0], k - 1)

    def setf(self, t, lo, hi, nan):
        if t.op == "const":
            return
        o = self.b.get(t.id)
        if o:
            lo, hi, nan = max(lo, o[0]), min(hi, o[1]), nan and o[2]
        self.b[t.id] = (lo, hi, nan)
        self.memo = {}
        if t.op == "fneg":
            self.setf(t.args[0], -hi, -lo, nan)
        elif t.op == "fabs" and not nan:
            self.setf(t.args[0], -hi, hi, False)

    def setu(self, t, lo, hi):
        if t.op == "const" or lo > hi:
            return
        o = self.b.get(t.id)
        if o:
            lo, hi = max(lo, o[0]), min(hi, o[1])
        if lo > hi:
            return
        self.b[t.id] = (lo, hi)
        self.memo = {}
        if t.op in ("zext",):
            self.setu(t.args[0], lo, hi)

    # ---- unsigned bit-vector interval
    def u(self, t):
        r = self.memo.get(t.id)
        if r is None:
            self.run(t)
            r = self.memo[t.id]
        return r

    f = u

    def c(self, t):
        """three-valued bool: True/False/None"""
        r = self.memo.get(t.id, 0)
        if r == 0:
            self.run(t)
            r = self.memo[t.id]
        return r

    def run(self, root):
        memo = self.memo
        st = [root]
        while st:
            t = st[-1]
            if t.id in memo:
                st.pop()
                continue
            todo = [a for a in t.args if a.id not in memo]
            if todo:
                st.extend(todo)
                continue
            v = self.ev(t)
            if t.sort != "B":
                o = self.b.get(t.id)
                if o:
                    if t.sort in ("f", "d"):
                        v = (max(v[0], o[0]), min(v[1], o[1]), v[2] and o[2])
                    else:
                        lo, hi = max(v[0], o[0]), min(v[1], o[1])
                        if lo <= hi:
                            v = (lo, hi)
            else:
                if (t.id, True) in self.true:
                    v = True
                elif (t.id, False) in self.true:
                    v = False
            memo[t.id] = v
            st.pop()

    def ev(self, t):
        m = self.memo
        op = t.op
        s = t.sort
        if s == "B":
            return self.evb(t)
        if s in ("f", "d"):
            return self.evf(t)
        full = (1 << s) - 1
        if op == "const":
            return (t.val, t.val)
        A = [m[a.id] for a in t.args]
        if op == "add":
            lo, hi = A[0][0] + A[1][0], A[0][1] + A[1][1]
            if hi <= full:
                return (lo, hi)
            if lo > full and hi <= 2 * full + 1:
                return (lo - full - 1, hi - full - 1)
        elif op == "sub":
            lo, hi = A[0][0] - A[1][1], A[0][1] - A[1][0]
            if lo >= 0:
                return (lo, hi)
        elif op == "mul":
            hi = A[0][1] * A[1][1]
            if hi <= full:
                return (A[0][0] * A[1][0], hi)
        elif op == "udiv" and A[1][0] > 0:
            return (A[0][0] // A[1][1], A[0][1] // A[1][0])
        elif op == "urem" and A[1][0] > 0:
            if A[0][1] < A[1][0]:
                return A[0]
            return (0, min(A[0][1], A[1][1] - 1))
        elif op == "bvand":
            return (0, min(A[0][1], A[1][1]))
        elif op == "bvor":
            return (max(A[0][0], A[1][0]), min(full, (1 << max(A[0][1].bit_length(), A[1][1].bit_length())) - 1))
        elif op == "zext":
            return A[0]
        elif op == "sext":
            n = t.args[0].sort
            if A[0][1] < 1 << (n - 1):
                return A[0]
            if A[0][0] >= 1 << (n - 1):
                d = (1 << s) - (1 << n)
                return (A[0][0] + d, A[0][1] + d)
        elif op == "concat":
            lo = hi = 0
            for a, x in zip(t.args, A):
                lo = (lo << a.sort) | x[0]
                hi = (hi << a.sort) | x[1]
            return (lo, hi)
        elif op == "extract":
            hi_, lo_ = t.val
            if lo_ == 0 and A[0][1] <= full:
                return A[0]
            if A[0][1] >> lo_ <= full:
                return (A[0][0] >> lo_, A[0][1] >> lo_)
        elif op == "ite":
            c = m[t.args[0].id]
            if c is True:
                return A[1]
            if c is False:
                return A[2]
            return (min(A[1][0], A[2][0]), max(A[1][1], A[2][1]))
        elif op in ("fptoui", "fptosi"):
            lo, hi, nan = A[0]
            if not nan and lo > -INF and hi < INF:
                l, h = math.trunc(lo), math.trunc(hi)
                if op == "fptosi":
                    if -(1 << (s - 1)) <= l and h < 1 << (s - 1):
                        if l >= 0:
                            return (l, h)
                        if h < 0:
                            return (l + full + 1, h + full + 1)
                elif l >= 0 and h <= full:
                    return (l, h)
        return (0, full)

    def evb(self, t):
        m = self.memo
        op = t.op
        A = [m[a.id] for a in t.args]
        if op == "const":
            return t.val
        if op == "not":
            return None if A[0] is None else not A[0]
        if op == "and":
            if any(x is False for x in A):
                return False
            return True if all(x is True for x in A) else None
        if op == "or":
            if any(x is True for x in A):
                return True
            return False if all(x is False for x in A) else None
        if op == "iff":
            return None if None in A else A[0] == A[1]
        if op == "ite":
            if A[0] is True:
                return A[1]
            if A[0] is False:
                return A[2]
            return A[1] if A[1] == A[2] else None
        if op == "ult":
            if A[0][1] < A[1][0]:
                return True
            if A[0][0] >= A[1][1]:
                return False
        if op == "slt":
            n = t.args[0].sort
            h = 1 << (n - 1)
            if all(x[1] < h for x in A) or all(x[0] >= h for x in A):
                if A[0][1] < A[1][0]:
                    return True
                if A[0][0] >= A[1][1]:
                    return False
            elif A[0][0] >= h and A[1][1] < h:
                return True
            elif A[1][0] >= h and A[0][1] < h:
                return False
        if op == "eq":
            if A[0][1] < A[1][0] or A[1][1] < A[0][0]:
                return False
            if A[0][0] == A[0][1] == A[1][0] == A[1][1]:
                return True
        if op == "fisnan":
            if not A[0][2]:
                return False
        if op in ("flt", "fle", "feq"):
            (al, ah, an), (bl, bh, bn) = A
            if op == "flt":
                if al >= bh:
                    return False
                if ah < bl and not an and not bn:
                    return True
            elif op == "fle":
                if al > bh:
                    return False
                if ah <= bl and not an and not bn:
                    return True
            else:
                if ah < bl or bh < al:
                    return False
        return None

    def evf(self, t):
        m = self.memo
        op = t.op
        R = r32 if t.sort == "f" else (lambda x: x)
        if op == "const":
            v = T.fval(t.sort, t.val)
            return (-INF, INF, True) if v != v else (v, v, False)
        A = [m[a.id] for a in t.args]
        full = (-INF, INF, True)
        try:
            if op in ("fadd", "fsub"):
                (a, b, n1), (c, d, n2) = A
                if op == "fsub":
                    c, d = -d, -c
                lo, hi = a + c, b + d
                nan = n1 or n2 or math.isinf(a) or math.isinf(b) or math.isinf(c) or math.isinf(d)
                if lo != lo or hi != hi:
                    return full
                return (R(lo), R(hi), nan)
            if op == "fmul":
                (a, b, n1), (c, d, n2) = A
                if any(map(math.isinf, (a, b, c, d))):
                    return full
                if t.args[0] is t.args[1]:
                    xs = [a * a, b * b] + ([0.0] if a <= 0 <= b else [])
                else:
                    xs = [a * c, a * d, b * c, b * d]
                return (R(min(xs)), R(max(xs)), n1 or n2)
            if op == "fdiv":
                (a, b, n1), (c, d, n2) = A
                if c <= 0 <= d or any(map(math.isinf, (a, b, c, d))):
                    return full
                xs = [a / c, a / d, b / c, b / d]
                return (R(min(xs)), R(max(xs)), n1 or n2)
            if op == "fneg":
                return (-A[0][1], -A[0][0], A[0][2])
            if op == "fabs":
                a, b, n = A[0]
                return (0.0 if a <= 0 <= b else min(abs(a), abs(b)), max(abs(a), abs(b)), n)
            if op == "fsqrt":
                a, b, n = A[0]
                if a < 0:
                    return (-0.0, R(math.sqrt(b)) if 0 <= b < INF else INF, True)
                return (R(math.sqrt(a)), R(math.sqrt(b)) if b < INF else INF, n)
            if op in ("ffloor", "fceil", "ftrunc"):
                g = {"ffloor": math.floor, "fceil": math.ceil, "ftrunc": math.trunc}[op]
                a, b, n = A[0]
                return (a if math.isinf(a) else float(g(a)), b if math.isinf(b) else float(g(b)), n)
            if op == "ite":
                c = m[t.args[0].id]
                if c is True:
                    return A[1]
                if c is False:
                    return A[2]
                x, y = self.refine(t.args[0], t.args[1], A[1], True), self.refine(t.args[0], t.args[2], A[2], False)
                if x is None:
                    return y or full
                if y is None:
                    return x
                return (min(x[0], y[0]), max(x[1], y[1]), x[2] or y[2])
            if op in ("fpext",):
                return A[0]
            if op == "fptrunc":
                return (r32(A[0][0]), r32(A[0][1]), A[0][2])
            if op == "uitofp":
                return (R(float(A[0][0])), R(float(A[0][1])), False)
            if op == "sitofp":
                n = t.args[0].sort
                l, h = A[0]
                if h < 1 << (n - 1):
                    return (R(float(l)), R(float(h)), False)
                if l >= 1 << (n - 1):
                    return (R(float(l - (1 << n))), R(float(h - (1 << n))), False)
                return (R(-float(1 << (n - 1))), R(float((1 << (n - 1)) - 1)), False)
            if op == "fmin":
                if not A[0][2] and not A[1][2]:
                    return (min(A[0][0], A[1][0]), min(A[0][1], A[1][1]), False)
            if op == "fmax":
                if not A[0][2] and not A[1][2]:
                    return (max(A[0][0], A[1][0]), max(A[0][1], A[1][1]), False)
            if op == "uf" and t.val in ("sin", "cos") and not A[0][2] and abs(A[0][0]) < INF and abs(A[0][1]) < INF:
                return (-1.0, 1.0, False)
        except (OverflowError, ValueError, ZeroDivisionError):
            pass
        return full

    def refine(self, c, t, iv, pol):
        """interval of t in the branch where c == pol (clamp idioms: c compares t itself with something)"""
        lo, hi, nan = iv
        if c.op == "not":
            return self.refine(c.args[0], t, iv, not pol)
        if c.op in ("flt", "fle"):
            a, b = c.args
            A, B = self.memo[a.id], self.memo[b.id]
            if a is t:
                if pol:
                    hi, nan = min(hi, B[1]), False
                elif not nan and not B[2]:
                    lo = max(lo, B[0])
            elif b is t:
                if pol:
                    lo, nan = max(lo, A[0]), False
                elif not nan and not A[2]:
                    hi = min(hi, A[1])
            elif t.op == "ite":
                # inner ite value t = ite(c2, k, x): bound x by the outer condition
                x = t.args[2]
                k = t.args[1]
                if (a is x or b is x) and self.memo.get(x.id) is not None:
                    X = self.refine(c, x, self.memo[x.id], pol)
                    K = self.memo[k.id]
                    if X is not None:
                        X = self.refine(t.args[0], x, X, False)
                    if X is None:
                        return K
                    return (min(X[0], K[0]), max(X[1], K[1]), X[2] or K[2])
            if lo > hi:
                return None if not nan else (lo, lo, True)
        return (lo, hi, nan)
