"""Lowering over the reals with arithmetic in polynomial normal form.

Every real-valued term is rewritten as a polynomial with rational coefficients over atoms (inputs, if-then-else values, reciprocals,
square roots, library functions). Equal polynomials become the same SMT expression, equalities are stated with denominators
multiplied out, sin^2 is reduced to 1-cos^2, sqrt(x)^2 to x, sums inside sin/cos are expanded, and sin/cos of asin/atan2 are eliminated. Denominators
are assumed non-zero and square root arguments non-negative (elsewhere the IEEE result is inf/NaN and outside the real claim)."""
from fractions import Fraction
import math
import terms as T
from smt import Lower, rat, q

ONE = ()
F1 = 1  # coefficients are Python integers where possible, Fractions otherwise


def fr(a, b=1):
    """exact quotient"""
    r = Fraction(a, b) if b != 1 or not isinstance(a, int) else a
    return r.numerator if r.denominator == 1 else r


ARITH = {"fadd", "fsub", "fmul", "fneg", "fdiv", "fsqrt", "fpext", "fptrunc", "fabs", "ffloor"}


class TooBig(Exception):
    pass


class PolyLower(Lower):
    LIM = 30000

    def __init__(self, env=None, i2r="exact"):
        super().__init__("real", env, i2r)
        self.pm = {}        # term id -> poly
        self.atoms = []     # idx -> (smt name, kind, data, T or None)
        self.akey = {}
        self.sq = {}        # atom idx -> poly of its square
        self.sdone = {}
        self.angles2 = {}
        self.stage = ""
        self.facts = {}
        self.units = {}     # angle monomial -> finest coefficient in use
        self.coefs = {}
        self.folding = False
        self.invi = {}

    # ---------------------------------------------------------------- polynomial arithmetic
    def atom(self, key, name, kind, data=None, term=None):
        i = self.akey.get(key)
        if i is None:
            i = len(self.atoms)
            self.akey[key] = i
            self.atoms.append((name() if callable(name) else name, kind, data, term))
            if kind == "inv" and isinstance(data, int):
                self.invi[i] = data
        elif term is not None and self.atoms[i][3] is None:
            self.atoms[i] = self.atoms[i][:3] + (term,)
        return i

    @staticmethod
    def const(c):
        return {ONE: fr(c)} if c else {}

    @staticmethod
    def one(i):
        return {((i, 1),): F1}

    @staticmethod
    def one_m(m):
        return {m: F1}

    @staticmethod
    def addp(a, b, k=1):
        r = dict(a)
        for m, c in b.items():
            v = r.get(m, 0) + k * c
            if v:
                r[m] = v
            else:
                r.pop(m, None)
        return r

    @staticmethod
    def scale(a, k):
        return {m: c * k for m, c in a.items()} if k else {}

    def mulm(self, m, n):
        if not m:
            return n
        if not n:
            return m
        d = dict(m)
        for i, e in n:
            d[i] = d.get(i, 0) + e
        # x * (1/x)
        for i in [i for i in d if i in self.invi] if self.invi else ():
            if i in d:
                j = self.invi[i]
                if j in d:
                    k = min(d[i], d[j])
                    for z in (i, j):
                        d[z] -= k
                        if not d[z]:
                            del d[z]
        return tuple(sorted(d.items()))

    def mulp(self, a, b):
        if not a or not b:
            return {}
        if len(a) * len(b) > 400000:
            raise TooBig()
        if len(b) == 1 and ONE in b:
            return self.scale(a, b[ONE])
        if len(a) == 1 and ONE in a:
            return self.scale(b, a[ONE])
        r = {}
        mulm, get, bi = self.mulm, r.get, list(b.items())
        for m, c in a.items():
            for n, e in bi:
                k = mulm(m, n)
                v = get(k, 0) + c * e
                if v:
                    r[k] = v
                else:
                    r.pop(k, None)
        if len(r) > self.LIM:
            raise TooBig()
        return self.reduce(r)

    def reduce(self, r):
        """apply square rules"""
        while True:
            todo = None
            for m in r:
                for i, e in m:
                    if e >= 2 and i in self.sq:
                        todo = m
                        break
                if todo is not None:
                    break
            if todo is None:
                return r
            out = {}
            for m, c in r.items():
                hit = None
                for i, e in m:
                    if e >= 2 and i in self.sq:
                        hit = (i, e)
                        break
                if hit is None:
                    v = out.get(m, 0) + c
                    if v:
                        out[m] = v
                    else:
                        out.pop(m, None)
                    continue
                else:
                    i, e = hit
                    rest = {tuple(x for x in m if x[0] != i) if e % 2 == 0 else tuple((x[0], 1) if x[0] == i else x for x in m): c}
                    p = rest
                    for _ in range(e // 2):
                        nr = {}
                        for mm, cc in p.items():
                            for nn, ee in self.sq[i].items():
                                k = self.mulm(mm, nn)
                                v = nr.get(k, 0) + cc * ee
                                if v:
                                    nr[k] = v
                                else:
                                    nr.pop(k, None)
                        p = nr
                for mm, cc in p.items():
                    v = out.get(mm, 0) + cc
                    if v:
                        out[mm] = v
                    else:
                        out.pop(mm, None)
            if len(out) > self.LIM:
                raise TooBig()
            r = out

    def key(self, p):
        return tuple(sorted(p.items()))

    def str(self, p):
        if not p:
            return "0.0"
        ts = []
        for m, c in sorted(p.items()):
            fs = []
            for i, e in m:
                fs += [self.atoms[i][0]] * e
            if c != 1 or not fs:
                fs = [rat(c)] + fs
            ts.append(fs[0] if len(fs) == 1 else "(* %s)" % " ".join(fs))
        s = ts[0] if len(ts) == 1 else "(+ %s)" % " ".join(ts)
        if len(s) > 200:
            k = self.key(p)
            n = self.sdone.get(k)
            if n is None:
                n = "p!%d" % len(self.sdone)
                self.sdone[k] = n
                self.defs.append("(define-fun %s () Real %s)" % (n, s))
            return n
        return s

    def ass(self, s):
        self.defs.append("(assert %s)" % s)

    # ---------------------------------------------------------------- bounds of polynomials
    def abound(self, i):
        nm, kind, data, term = self.atoms[i]
        lo, hi = -math.inf, math.inf
        if term is not None and self.env is not None:
            try:
                lo, hi, nan = self.env.f(term)
            except Exception:
                pass
        if kind in ("sin", "cos"):
            lo, hi = max(lo, -1.0), min(hi, 1.0)
            l, h = self.bound(data)
            if kind == "cos" and max(abs(l), abs(h)) <= math.pi:
                lo = max(lo, math.cos(max(abs(l), abs(h))) - 1e-12)
            if kind == "sin" and -math.pi / 2 <= l and h <= math.pi / 2:
                lo, hi = max(lo, math.sin(l) - 1e-12), min(hi, math.sin(h) + 1e-12)
            elif kind == "sin" and l >= 0 and h <= math.pi:
                lo = max(lo, min(math.sin(l), math.sin(h)) - 1e-12, 0.0)
            if kind == "sin" and 0 <= l and h <= math.pi:
                lo = max(lo, 0.0)
        if kind == "atan2":
            (yl, yh), (xl, xh) = self.bound(data[0]), self.bound(data[1])
            lo, hi = max(lo, -math.pi), min(hi, math.pi)
            if yl >= 0:
                lo = max(lo, math.atan2(yl, xh) - 1e-12 if yl > 0 and xh < math.inf and xh > 0 else 0.0)
                if yl > 0 and xl > -math.inf:
                    hi = min(hi, math.atan2(yl, xl) + 1e-12)
            elif yh <= 0:
                hi = min(hi, math.atan2(yh, xh) + 1e-12 if yh < 0 and xh < math.inf and xh > 0 else 0.0)
                if yh < 0 and xl > -math.inf:
                    lo = max(lo, math.atan2(yh, xl) - 1e-12)
            if xl >= 0:
                lo, hi = max(lo, -math.pi / 2), min(hi, math.pi / 2)
        if kind in ("acos", "asin"):
            l, h = self.bound(data)
            l, h = max(l, -1.0), min(h, 1.0)
            if kind == "acos":
                lo, hi = max(lo, math.acos(h) * (1 - 1e-9) if h >= -1 else 0.0), min(hi, math.acos(l) * (1 + 1e-9) if l <= 1 else math.pi)
            elif l <= h:
                lo, hi = max(lo, math.asin(l) - 1e-12), min(hi, math.asin(h) + 1e-12)
        if kind in ("sqrt", "abs"):
            lo = max(lo, 0.0)
            b = self.bound(data)[1] if data is not None else math.inf
            if kind == "abs" and data is not None:
                l = self.bound(data)[0]
                hi = min(hi, max(abs(l), abs(b)))
            if kind == "sqrt" and b >= 0 and b < math.inf:
                hi = min(hi, math.sqrt(b) * (1 + 1e-12))
        if kind == "inv":
            b = self.abound(data) if isinstance(data, int) else self.bound(dict(data))
            if b[0] > 0 or b[1] < 0:
                lo, hi = max(lo, 1.0 / b[1] if abs(b[1]) != math.inf else 0.0), min(hi, 1.0 / b[0] if abs(b[0]) != math.inf else 0.0)
        return lo, hi

    def bound(self, p):
        lo, hi = self.bound1(p)
        if self.facts:
            q = dict(p)
            c0 = q.pop(ONE, Fraction(0))
            if q:
                lead = q[min(q)]
                f = self.facts.get(self.key(self.scale(q, fr(1, lead))))
                if f is not None:
                    l, h = (f if lead > 0 else (f[1], f[0]))
                    if l is not None:
                        lo = max(lo, float(lead * l + c0))
                    if h is not None:
                        hi = min(hi, float(lead * h + c0))
        return lo, hi

    def bound1(self, p):
        lo = hi = 0.0
        cache = {}
        for m, c in p.items():
            a, b = float(c), float(c)
            for i, e in m:
                if i not in cache:
                    cache[i] = self.abound(i)
                l, h = cache[i]
                if e % 2 == 0:
                    L = 0.0 if l <= 0 <= h else min(l ** e, h ** e)
                    H = max(abs(l), abs(h)) ** e
                    l, h = L, H
                elif e > 1:
                    l, h = math.copysign(abs(l) ** e, l), math.copysign(abs(h) ** e, h)
                v = [x * y if x and y else 0.0 for x in (a, b) for y in (l, h)]
                a, b = min(v), max(v)
            lo += a
            hi += b
        if lo != lo:
            lo = -math.inf
        if hi != hi:
            hi = math.inf
        w = 1e-12 * (abs(lo) if lo != -math.inf else 0) + 0.0
        return lo - w, hi + 1e-12 * (abs(hi) if hi != math.inf else 0)

    def tbound(self, t, p):
        lo, hi = self.bound(p)
        if self.env is not None:
            try:
                l, h, nan = self.env.f(t)
                lo, hi = max(lo, l), min(hi, h)
            except Exception:
                pass
        return lo, hi

    # ---------------------------------------------------------------- terms
    def opaque(self, t, expr=None, kind="opaque"):
        """atom for a term that is not arithmetic (or too large)"""
        return self.one(self.atom(("t", t.id), lambda: self.defname(t, expr), kind, None, t))

    def defname(self, t, expr):
        if expr is None:
            if t.op == "var":
                super().node(t)
                return q(t.val)
            expr = self.raw(t)
        if len(expr) <= 24:
            return expr
        n = "t%d%s" % (t.id, self.stage)
        self.defs.append("(define-fun %s () Real %s)" % (n, expr))
        return n

    def raw(self, t):
        """lower one node from its (already lowered) arguments"""
        a = [str(self.done[x.id]) for x in t.args]
        return "(ite %s)" % " ".join(a) if t.op == "ite" else super().real(t, t.op, a)

    def invt(self, t):
        """1/t, factor by factor where the denominator is written as a product"""
        if t.op == "fmul":
            return self.mulp(self.invt(t.args[0]), self.invt(t.args[1]))
        if t.op in ("fpext", "fptrunc"):
            return self.invt(t.args[0])
        return self.inv(self.poly(t), t)

    def inv(self, p, t):
        """polynomial for 1/p"""
        if len(p) == 1:
            (m, c), = p.items()
            r = {ONE: fr(1, c)}
            for i, e in m:
                if self.atoms[i][1] == "inv" and isinstance(self.atoms[i][2], int):
                    x = self.one(self.atoms[i][2])
                elif self.atoms[i][1] == "inv":
                    x = dict(self.atoms[i][2])
                else:
                    nm = self.atoms[i][0]

                    def mk():
                        n = self.fresh("Real")
                        self.ass("(= (* %s %s) 1.0)" % (n, nm))
                        return n
                    x = self.one(self.atom(("inv", i), mk, "inv", i))
                for _ in range(e):
                    r = self.mulp(r, x)
            return r
        c = p[min(p)]
        # prefer a positive denominator
        ph = self.scale(p, fr(1, c))
        k = self.key(ph)
        for i, q in self.sq.items():
            # the square of a known root: 1/p = (1/root)^2
            if len(q) == len(p) and self.atoms[i][1] == "sqrt":
                mq = min(q)
                if self.key(self.scale(q, fr(1, q[mq]))) == k:
                    x = self.inv(self.one(i), None)
                    return self.scale(self.mulp(x, x), fr(q[mq], c))

        def mk():
            n = self.fresh("Real")
            self.ass("(= (* %s %s) 1.0)" % (n, self.str(ph)))
            return n
        return self.scale(self.one(self.atom(("invp", k), mk, "inv", k)), fr(1, c))

    @staticmethod
    def divide(n, d):
        """exact quotient of two polynomials, or None"""
        if not d:
            return None
        vs = sorted({i for m in n for i, _ in m} | {i for m in d for i, _ in m})
        pos = {v: k for k, v in enumerate(vs)}

        def vec(m):
            e = [0] * len(vs)
            for i, x in m:
                e[pos[i]] = x
            return tuple(e)
        N = {vec(m): c for m, c in n.items()}
        D = {vec(m): c for m, c in d.items()}
        ld = max(D)
        cd = D[ld]
        Q = {}
        for _ in range(4000):
            if not N:
                return {tuple((vs[k], e) for k, e in enumerate(m) if e): c for m, c in Q.items()}
            ln = max(N)
            q = tuple(x - y for x, y in zip(ln, ld))
            if min(q, default=0) < 0:
                return None
            c = fr(N[ln], cd)
            Q[q] = Q.get(q, 0) + c
            for m, e in D.items():
                k = tuple(x + y for x, y in zip(q, m))
                v = N.get(k, 0) - c * e
                if v:
                    N[k] = v
                else:
                    N.pop(k, None)
        return None

    def cancel(self, p):
        """drop denominators that divide their numerator exactly"""
        for _ in range(6):
            mx = {}
            for m in p:
                for i, e in m:
                    if self.atoms[i][1] == "inv":
                        mx[i] = max(mx.get(i, 0), e)
            if not mx or len(p) > 600:
                return p
            done = False
            for i, k in mx.items():
                data = self.atoms[i][2]
                den = self.one(data) if isinstance(data, int) else dict(data)
                D = self.const(1)
                for _ in range(k):
                    D = self.mulp(D, den)
                N = {}
                for m, c in p.items():
                    e = dict(m).get(i, 0)
                    x = {tuple(z for z in m if z[0] != i): c}
                    for _ in range(k - e):
                        x = self.mulp(x, den)
                    N = self.addp(N, x)
                if len(N) > 2000:
                    continue
                r = self.divide(N, D)
                if r is not None:
                    p = self.reduce(r)
                    done = True
                    break
            if not done:
                return p
        return p

    def sqrt(self, p, t):
        if not p:
            return {}
        try:
            p = self.cancel(p)
        except TooBig:
            pass
        if len(p) == 2 and ONE in p:
            for i, sq in self.sq.items():
                if sq == p and self.atoms[i][1] in ("sin", "cos"):
                    lo, hi = self.abound(i)
                    x = self.one(i)
                    return x if lo >= 0 else self.scale(x, -1) if hi <= 0 else self.absp(x)
        if len(p) == 1:
            (m, c), = p.items()
            if all(e % 2 == 0 for _, e in m):
                rn, rd = math.isqrt(c.numerator) if c > 0 else 0, math.isqrt(c.denominator)
                if c > 0 and rn * rn == c.numerator and rd * rd == c.denominator:
                    r = {ONE: fr(rn, rd)}
                    for i, e in m:
                        lo, hi = self.abound(i)
                        x = {((i, 1),): F1}
                        for _ in range(e // 2):
                            r = self.mulp(r, x)
                    s = self.bound(r)
                    if s[0] >= 0:
                        return r
                    if s[1] <= 0:
                        return self.scale(r, -1)
                    return self.absp(r)
        if len(p) > 1:
            # pull out squared factors common to all monomials
            com = None
            for m in p:
                d = dict(m)
                com = {i: e - e % 2 for i, e in d.items()} if com is None else {i: min(e, d.get(i, 0) - d.get(i, 0) % 2) for i, e in com.items()}
            com = {i: e for i, e in com.items() if e}
            if com:
                rest = {tuple((i, e - com.get(i, 0)) for i, e in m if e - com.get(i, 0)): c for m, c in p.items()}
                out = self.one_m(tuple(sorted((i, e // 2) for i, e in com.items())))
                lo, hi = self.bound(out)
                out = out if lo >= 0 else self.scale(out, -1) if hi <= 0 else self.absp(out)
                return self.mulp(out, self.sqrt(rest, t if False else None))
        k = self.key(p)

        def mk():
            n = self.fresh("Real")
            s = self.str(p)
            self.ass("(and (>= {0} 0.0) (= (* {0} {0}) {1}))".format(n, s))
            return n
        i = self.atom(("sqrt", k), mk, "sqrt", p, t)
        self.sq[i] = p
        return self.one(i)

    def absp(self, p):
        if not p:
            return p
        if p[min(p)] < 0:
            p = self.scale(p, -1)
        lo, hi = self.bound(p)
        if lo >= 0:
            return p
        if hi <= 0:
            return self.scale(p, -1)
        k = self.key(p)

        def mk():
            n = self.fresh("Real")
            s = self.str(p)
            self.ass("(= {0} (ite (< {1} 0.0) (- {1}) {1}))".format(n, s))
            return n
        i = self.atom(("abs", k), mk, "abs", p)
        try:
            self.sq[i] = self.mulp(p, p)
        except TooBig:
            pass
        return self.one(i)

    def sincos(self, fn, p, t):
        if not p:
            return self.const(1 if fn == "cos" else 0)
        # sign normalisation
        c0 = p[min(p)]
        if c0 < 0:
            r = self.sincos(fn, self.scale(p, -1), None)
            return self.scale(r, -1) if fn == "sin" else r
        if len(p) == 1:
            (m, c), = p.items()
            if len(m) == 1 and m[0][1] == 1 and c == 1:
                nm, kind, data, _ = self.atoms[m[0][0]]
                if kind == "asin":
                    return data if fn == "sin" else self.sqrt(self.addp(self.const(1), self.mulp(data, data), -1), None)
                if kind == "acos":
                    return data if fn == "cos" else self.sqrt(self.addp(self.const(1), self.mulp(data, data), -1), None)
                if kind == "atan2":
                    y, x = data
                    h = self.sqrt(self.addp(self.mulp(x, x), self.mulp(y, y)), None)
                    return self.mulp(y if fn == "sin" else x, self.inv(h, None))
                if kind in ("asin", "acos", "atan2"):
                    pass
            elif len(m) == 1 and m[0][1] == 1 and self.atoms[m[0][0]][1] in ("asin", "acos", "atan2") and c.denominator == 1 and c <= 6:
                return self.multiple(fn, {m: F1}, int(c))
            if m != ONE:
                self.coefs.setdefault(m, set()).add(c)
                u = self.units.get(self.ukey(m))
                if u is not None and u != c and fr(c, u).denominator == 1 and 1 < fr(c, u) <= 8:
                    return self.multiple(fn, {m: u}, int(fr(c, u)))
        elif 1 < len(p) <= 4:
            m = max(p)
            a = {m: p[m]}
            b = {k: v for k, v in p.items() if k != m}
            if ONE in (m,) or ONE in b and len(b) == 1 and m == ONE:
                pass
            sa, ca, sb, cb = self.sincos("sin", a, None), self.sincos("cos", a, None), self.sincos("sin", b, None), self.sincos("cos", b, None)
            if fn == "sin":
                return self.addp(self.mulp(sa, cb), self.mulp(ca, sb))
            return self.addp(self.mulp(ca, cb), self.mulp(sa, sb), -1)
        k = self.key(p)
        s = self.str(p)
        ks, kc = ("sin", k), ("cos", k)
        new = ks not in self.akey
        i = self.atom(ks, lambda: self.u1("sin", s), "sin", p, t if fn == "sin" else None)
        j = self.atom(kc, lambda: self.u1("cos", s), "cos", p, t if fn == "cos" else None)
        if new:
            self.circle(s)
            self.sq[i] = {ONE: F1, ((j, 2),): -F1}
            if t is not None and self.env is not None:
                pass
            for a in (i, j):
                lo, hi = self.abound(a)
                self.ass("(and (<= %s %s) (<= %s %s))" % (rat(lo), self.atoms[a][0], self.atoms[a][0], rat(hi)))
            # sine and cosine signs from the range of the angle
            lo, hi = self.bound(p)
            if -math.pi / 2 <= lo and hi <= math.pi / 2:
                self.ass("(>= %s 0.0)" % self.atoms[j][0])
            if 0 <= lo and hi <= math.pi:
                self.ass("(>= %s 0.0)" % self.atoms[i][0])
        return self.one(i if fn == "sin" else j)

    def ukey(self, m):
        return tuple((self.atoms[i][0], e) for i, e in m)

    def multiple(self, fn, p, n):
        s1, c1 = self.sincos("sin", p, None), self.sincos("cos", p, None)
        s, c = s1, c1
        for _ in range(n - 1):
            s, c = self.addp(self.mulp(s, c1), self.mulp(c, s1)), self.addp(self.mulp(c, c1), self.mulp(s, s1), -1)
        return s if fn == "sin" else c

    def find_units(self):
        """angles that occur with several multiples are all written in the finest one"""
        u = {}
        for m, cs in self.coefs.items():
            if len(cs) > 1:
                lo = min(cs)
                if any(c != lo and fr(c, lo).denominator == 1 and fr(c, lo) <= 8 for c in cs):
                    u[self.ukey(m)] = lo
        return u

    def trig_inverse(self, kind, args):
        """atan2(k sin p, k cos p) = p, acos(cos p) = p, asin(sin p) = p within the principal range"""
        def single(p):
            if len(p) == 1:
                (m, c), = p.items()
                return m, c
            return None, None
        if kind in ("acos", "asin"):
            m, c = single(args[0])
            if m is not None and c == 1 and len(m) == 1 and m[0][1] == 1 and self.atoms[m[0][0]][1] == ("cos" if kind == "acos" else "sin"):
                p = self.atoms[m[0][0]][2]
                lo, hi = self.bound(p)
                if kind == "acos" and 0 <= lo and hi <= math.pi or kind == "asin" and -math.pi / 2 <= lo and hi <= math.pi / 2:
                    return p
            return None
        if not args[0] and self.bound(args[1])[0] >= 0:
            return {}
        (my, cy), (mx, cx) = single(args[0]), single(args[1])
        if my is None or mx is None:
            return None
        for i, e in my:
            if self.atoms[i][1] == "sin" and e == 1:
                p = self.atoms[i][2]
                for j, f in mx:
                    if self.atoms[j][1] == "cos" and f == 1 and self.atoms[j][2] == p:
                        ry, rx = tuple(z for z in my if z[0] != i), tuple(z for z in mx if z[0] != j)
                        if ry == rx and abs(cy) == cx:
                            lo, hi = self.bound(p)
                            f = self.bound({ry: cx})
                            if lo > -math.pi and hi < math.pi and f[0] > 0:
                                return p if cy > 0 else self.scale(p, -1)
        return None

    def func(self, t, kind, args):
        if kind in ("acos", "asin", "atan2"):
            r = self.trig_inverse(kind, args)
            if r is not None:
                return r
        k = (kind,) + tuple(self.key(a) for a in args)
        ss = [self.str(a) for a in args]
        new = k not in self.akey

        def mk():
            f = self.fn("uf_" + kind, ["Real"] * len(ss), "Real")
            return "(%s %s)" % (f, " ".join(ss)) if ss else f
        i = self.atom(k, mk, kind, (args[0] if len(args) == 1 else tuple(args)), t)
        if new:
            r = self.atoms[i][0]
            if kind in ("atan2", "asin", "acos", "exp"):
                self.trig(kind, r, ss)
                while self.side_pending:
                    self.ass(self.side_pending.pop(0))
            if kind == "asin":
                c = self.str(self.sincos("cos", self.one(i), None))
                self.ass("(and (<= {0} (- 1.5707963268 {1})) (<= {0} (+ 1.5707963268 {1})))".format(c, r))
        return self.one(i)

    def poly(self, t):
        p = self.pm.get(t.id)
        if p is not None:
            return p
        try:
            p = self.poly1(t)
        except TooBig:
            p = self.opaque(t)
        self.pm[t.id] = p
        return p

    def poly1(self, t):
        op, a = t.op, t.args
        if op == "const":
            v = T.fval(t.sort, t.val)
            if v != v or abs(v) == math.inf:
                return self.opaque(t, super().node(t))
            return self.const(Fraction(v))
        if op == "var" and "@" in t.val and "/" in t.val:
            return self.const(Fraction(t.val.split("@")[1]))
        if op in ("fpext", "fptrunc"):
            return self.poly(a[0])
        if op == "fadd":
            return self.addp(self.poly(a[0]), self.poly(a[1]))
        if op == "fsub":
            return self.addp(self.poly(a[0]), self.poly(a[1]), -1)
        if op == "fneg":
            return self.scale(self.poly(a[0]), -1)
        if op == "fmul":
            x = self.poly(a[1])
            return self.mulp(self.poly(a[0]), x) if x else x
        if op == "fdiv":
            n, d = self.poly(a[0]), self.poly(a[1])
            if not d:
                return self.opaque(t)
            if len(d) == 1 and ONE in d:
                return self.scale(n, fr(1, d[ONE]))
            # exact quotient by a scalar multiple
            if n and len(n) == len(d) and n.keys() == d.keys():
                m = min(n)
                r = fr(n[m], d[m])
                if all(n[x] == r * d[x] for x in n):
                    return self.const(r)
            return self.mulp(n, self.invt(a[1]))
        if op == "fsqrt":
            return self.sqrt(self.poly(a[0]), t)
        if op == "fabs":
            p = self.poly(a[0])
            lo, hi = self.tbound(a[0], p)
            if lo >= 0:
                return p
            if hi <= 0:
                return self.scale(p, -1)
            return self.absp(p)
        if op == "ffloor" and self.folding:
            lo, hi = self.bound(self.poly(a[0]))
            if -1e9 < lo <= hi < 1e9 and math.floor(lo) == math.floor(hi):
                return self.const(math.floor(lo))
        if op == "uf":
            if t.val in ("sin", "cos"):
                return self.sincos(t.val, self.poly(a[0]), t)
            if t.val == "tan":
                x = self.poly(a[0])
                return self.mulp(self.sincos("sin", x, None), self.inv(self.sincos("cos", x, None), None))
            return self.func(t, t.val, [self.poly(x) for x in a])
        if op == "ite":
            c = str(self.done.get(a[0].id))
            if c == "true":
                return self.poly(a[1])
            if c == "false":
                return self.poly(a[2])
            x, y = self.poly(a[1]), self.poly(a[2])
            if x == y:
                return x
            return self.opaque(t)
        if op in ("fmin", "fmax"):
            x, y = self.poly(a[0]), self.poly(a[1])
            if x == y:
                return x
            if self.folding:
                lo, hi = self.bound(self.addp(x, y, -1))
                if lo >= 0 or hi <= 0:
                    return x if (lo >= 0) == (op == "fmax") else y
            return self.opaque(t)
        return self.opaque(t)

    # ---------------------------------------------------------------- driver
    def lower(self, roots, nguard=0):
        """the guard itself is stated as it is; facts implied by it may be used to fold the rest"""
        self.folding = False
        self.unit_groups(roots[:nguard])
        g = self.lower1(roots[:nguard])
        self.folding = True
        self.done, self.pm = {}, {}
        self.stage = "g"
        self.learn(roots[:nguard])
        return g + self.lower1(roots[nguard:])

    def unit_groups(self, guards):
        """vh_assume_unit: a sum of squares assumed to be one (tolerance 1.5e-6 in the guard, exact here)"""
        st = list(guards)
        while st:
            t = st.pop()
            if t.op == "and":
                st += list(t.args)
            elif t.op == "fle" and t.args[1].op == "const" and t.args[0].op == "fabs" and T.fval(t.args[1].sort, t.args[1].val) == 1.5e-6:
                p = self.poly(t.args[0].args[0])
                rest = {m: c for m, c in p.items() if m != ONE}
                if p.get(ONE) == -1 and all(c == 1 and len(m) == 1 and m[0][1] == 2 for m, c in rest.items()):
                    i = max(m[0][0] for m in rest)
                    self.sq[i] = self.addp(self.const(1), {m: c for m, c in rest.items() if m[0][0] != i}, -1)
                    self.ass("(= %s 0.0)" % self.str(p))
        self.done, self.pm = {}, {}

    def learn(self, guards):
        """inequalities of the guard as bounds on polynomials; used to decide later comparisons of the same polynomial"""
        st = list(guards)
        pend = []
        while st:
            t = st.pop()
            if t.op == "and":
                st += list(t.args)
            elif t.op in ("fle", "flt"):
                pend.append((t.args[0], t.args[1]))
            elif t.op == "not" and t.args[0].op in ("fle", "flt"):
                pend.append((t.args[0].args[1], t.args[0].args[0]))
        for a, b in pend:
            if (a.op == "const" and b.op == "var") or (b.op == "const" and a.op == "var"):
                continue
            try:
                self.lower1([a, b])
                d = self.addp(self.poly(a), self.poly(b), -1)
            except TooBig:
                continue
            c0 = d.pop(ONE, Fraction(0))
            if not d or len(d) > 20000:
                continue
            lead = d[min(d)]
            k = self.key(self.scale(d, fr(1, lead)))
            v = fr(-c0, lead)
            lo, hi = self.facts.get(k, (None, None))
            if lead > 0:
                hi = v if hi is None else min(hi, v)
            else:
                lo = v if lo is None else max(lo, v)
            self.facts[k] = (lo, hi)

    def lower1(self, roots):
        for t in T.topo(roots):
            if t.id in self.done:
                continue
            if t.sort in ("f", "d"):
                p = self.poly(t)
                # atoms that are opaque refer to done[] of their arguments, which is filled bottom-up
                self.done[t.id] = LazyStr(self, p)
                continue
            if t.op in ("feq", "flt", "fle"):
                e = self.compare(t)
            else:
                e = self.node(t)
            e = str(e)
            if t.args and len(e) > 24:
                n = "t%d%s" % (t.id, self.stage)
                self.defs.append("(define-fun %s () %s %s)" % (n, self.sort(t.sort), e))
                e = n
            self.done[t.id] = e
            while self.side_pending:
                self.ass(self.side_pending.pop(0))
        return [str(self.done[r.id]) for r in roots]

    def node(self, t):
        if t.op in ("and", "or"):
            a = [str(self.done[x.id]) for x in t.args]
            dom, neu = ("false", "true") if t.op == "and" else ("true", "false")
            if dom in a:
                return dom
            a = [x for x in a if x != neu]
            return neu if not a else a[0] if len(a) == 1 else "(%s %s)" % (t.op, " ".join(a))
        if t.op == "not":
            a = str(self.done[t.args[0].id])
            return "false" if a == "true" else "true" if a == "false" else "(not %s)" % a
        if t.op == "ite" and t.sort not in ("f", "d"):
            c = str(self.done[t.args[0].id])
            if c in ("true", "false"):
                return str(self.done[t.args[1 if c == "true" else 2].id])
        return super().node(t)

    def compare(self, t):
        # numbers are finite in this reading: comparisons with an infinity are decided by its sign
        for k in (0, 1):
            c, o = t.args[k], t.args[1 - k]
            if T.isc(c) and not T.isc(o):
                v = T.fval(c.sort, c.val)
                if v in (math.inf, -math.inf):
                    if t.op == "feq":
                        return "false"
                    return "true" if (v > 0) == (k == 1) else "false"
                if v != v:
                    return "false"
        if self.folding and t.op in ("fle", "flt"):
            # comparisons with a maximum or minimum are decided operand by operand
            for k in (0, 1):
                m = t.args[k]
                if m.op in ("fmin", "fmax"):
                    r = []
                    for x in m.args:
                        y = (T.fle if t.op == "fle" else T.flt)(*((x, t.args[1]) if k == 0 else (t.args[0], x)))
                        if y is T.TRUE or y is T.FALSE:
                            r.append("true" if y is T.TRUE else "false")
                        elif y.id in self.done:
                            r.append(str(self.done[y.id]))
                        else:
                            r.append(self.compare(y) if y.op in ("fle", "flt") else "?")
                    conj = (m.op == "fmax") == (k == 0)
                    if conj and r == ["true", "true"] or not conj and "true" in r:
                        return "true"
                    if conj and "false" in r or not conj and r == ["false", "false"]:
                        return "false"
        d = self.addp(self.poly(t.args[0]), self.poly(t.args[1]), -1)
        if t.op == "feq":
            d = self.clear(d)
            if not d:
                return "true"
            lo, hi = self.bound(d) if self.folding else (-1, 1)
            if lo > 0 or hi < 0:
                return "false"
            return "(= %s 0.0)" % self.str(d)
        if not self.folding:
            return "(%s %s 0.0)" % ("<" if t.op == "flt" else "<=", self.str(d))
        lo, hi = self.bound(d)
        if t.op == "flt":
            if hi < 0:
                return "true"
            if lo >= 0:
                return "false"
            return "(< %s 0.0)" % self.str(d)
        if hi <= 0:
            return "true"
        if lo > 0:
            return "false"
        return "(<= %s 0.0)" % self.str(d)

    def clear(self, d):
        """multiply an equation's polynomial by its denominators"""
        try:
            for _ in range(8):
                mx = {}
                for m in d:
                    for i, e in m:
                        if self.atoms[i][1] == "inv":
                            mx[i] = max(mx.get(i, 0), e)
                if not mx:
                    return d
                i = max(mx)
                data = self.atoms[i][2]
                den = self.one(data) if isinstance(data, int) else dict(data)
                k = mx[i]
                pw = [self.const(1)]
                for _ in range(k):
                    pw.append(self.mulp(pw[-1], den))
                out = {}
                parts = {}
                for m, c in d.items():
                    e = dict(m).get(i, 0)
                    mm = tuple(x for x in m if x[0] != i)
                    parts.setdefault(k - e, {})[mm] = c
                for e, p in parts.items():
                    out = self.addp(out, self.mulp(p, pw[e]))
                d = out
                if not d:
                    return d
            return d
        except TooBig:
            return d


class LazyStr:
    __slots__ = ("L", "p")

    def __init__(self, L, p):
        self.L, self.p = L, p

    def __str__(self):
        return self.L.str(self.p)

    def __len__(self):
        return len(str(self))

    def __format__(self, spec):
        return str(self)
