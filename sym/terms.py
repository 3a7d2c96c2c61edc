"""Hash-consed term DAG for the symbolic executor: booleans, bit-vectors, IEEE floats.

Sorts: 'B' (bool), n (int: bit-vector of n bits), 'f' (binary32), 'd' (binary64).
Constants: bool -> python bool, bv -> unsigned int, floats -> raw IEEE bits (int).
Constant folding follows IEEE-754 round-to-nearest-even exactly.
"""
import math
import struct
from fractions import Fraction

_table = {}
_next = [0]


class T:
    __slots__ = ("op", "sort", "val", "args", "id", "_iv", "__weakref__")

    def __repr__(self):
        return show(self)


def mk(op, sort, val, args):
    k = (op, sort, val, tuple(a.id for a in args))
    t = _table.get(k)
    if t is None:
        t = T()
        t.op = op
        t.sort = sort
        t.val = val
        t.args = args
        t.id = _next[0]
        t._iv = None
        _next[0] += 1
        _table[k] = t
    return t


def show(t, depth=6):
    if t.op == "const":
        if t.sort == "f":
            return repr(bits_to_f32(t.val)) + "f"
        if t.sort == "d":
            return repr(bits_to_f64(t.val))
        return str(t.val)
    if t.op == "var":
        return t.val
    if depth == 0:
        return "..."
    v = "" if t.val is None else "<%s>" % (t.val,)
    return "(%s%s %s)" % (t.op, v, " ".join(show(a, depth - 1) for a in t.args))


# ---------------------------------------------------------------- float helpers
def f32_to_bits(x):
    """round python float (binary64) to binary32 bits"""
    try:
        return struct.unpack("<I", struct.pack("<f", x))[0]
    except OverflowError:
        return 0x7F800000 if x > 0 else 0xFF800000


def bits_to_f32(b):
    return struct.unpack("<f", struct.pack("<I", b))[0]


def f64_to_bits(x):
    return struct.unpack("<Q", struct.pack("<d", x))[0]


def bits_to_f64(b):
    return struct.unpack("<d", struct.pack("<Q", b))[0]


def fval(sort, bits):
    return bits_to_f32(bits) if sort == "f" else bits_to_f64(bits)


NAN = {"f": 0x7FC00000, "d": 0x7FF8000000000000}


def fbits(sort, x):
    if x != x:
        return NAN[sort]
    return f32_to_bits(x) if sort == "f" else f64_to_bits(x)


def fsortbits(sort):
    return 32 if sort == "f" else 64


def _round_frac(sort, q):
    """round an exact nonzero Fraction to nearest-even, return bits"""
    if sort == "f":
        p, emin, emax = 24, -126, 127
    else:
        p, emin, emax = 53, -1022, 1023
    neg = q < 0
    q = abs(q)
    e = q.numerator.bit_length() - q.denominator.bit_length()
    if Fraction(2) ** e > q:
        e -= 1
    if Fraction(2) ** (e + 1) <= q:
        e += 1
    ex = max(e, emin)
    ulp = Fraction(2) ** (ex - p + 1)
    m = q / ulp
    n = m.numerator // m.denominator
    r = m - n
    if r > Fraction(1, 2) or (r == Fraction(1, 2) and n & 1):
        n += 1
    if n >= 1 << p:
        n >>= 1
        ex += 1
    if ex > emax:
        mag = (255 << 23) if sort == "f" else (2047 << 52)
    elif n < 1 << (p - 1):
        mag = n
    else:
        mag = ((ex - emin + 1) << (p - 1)) | (n - (1 << (p - 1)))
    if neg:
        mag |= 1 << (31 if sort == "f" else 63)
    return mag


def c_fop(op, sort, a, b=None):
    """IEEE constant operation on bits"""
    x = fval(sort, a)
    y = fval(sort, b) if b is not None else None
    if op == "fadd":
        if sort == "d":
            return fbits(sort, x + y)
        return fbits(sort, x + y)  # double rounding is innocuous for + - * / sqrt (53 >= 2*24+2)
    if op == "fsub":
        return fbits(sort, x - y)
    if op == "fmul":
        return fbits(sort, x * y)
    if op == "fdiv":
        if y == 0:
            if x == 0 or x != x:
                return NAN[sort]
            s = (math.copysign(1, x) * math.copysign(1, y))
            return fbits(sort, math.inf * s)
        return fbits(sort, x / y)
    if op == "fneg":
        return a ^ (1 << (31 if sort == "f" else 63))
    if op == "fabs":
        return a & ~(1 << (31 if sort == "f" else 63))
    if op == "fsqrt":
        if x != x or x < 0:
            return NAN[sort]
        return fbits(sort, math.sqrt(x)) if x != 0 else a
    if op in ("ffloor", "fceil", "ftrunc", "frint", "fround"):
        if x != x:
            return NAN[sort]
        if math.isinf(x) or x == 0:
            return a
        r = {"ffloor": math.floor, "fceil": math.ceil, "ftrunc": math.trunc, "frint": round,
             "fround": lambda v: math.floor(abs(v) + 0.5) * (1 if v > 0 else -1) if abs(v) < 2**52 else int(v)}[op](x)
        return fbits(sort, math.copysign(float(r), x))
    if op == "fmin":
        if x != x:
            return b
        if y != y:
            return a
        return a if x < y else b
    if op == "fmax":
        if x != x:
            return b
        if y != y:
            return a
        return a if x > y else b
    if op == "frem":
        if x != x or y != y or math.isinf(x) or y == 0:
            return NAN[sort]
        return fbits(sort, math.fmod(x, y))
    raise KeyError(op)


# ---------------------------------------------------------------- constructors
def bool_(v):
    return TRUE if v else FALSE


def bv(v, n):
    return mk("const", n, v & ((1 << n) - 1), ())


def fbitsconst(sort, bits):
    return mk("const", sort, bits, ())


def f32(x):
    return mk("const", "f", fbits("f", x), ())


def f64(x):
    return mk("const", "d", fbits("d", x), ())


TRUE = mk("const", "B", True, ())
FALSE = mk("const", "B", False, ())


def var(name, sort):
    return mk("var", sort, name, ())


def isc(t):
    return t.op == "const"


def sgn(v, n):
    return v - (1 << n) if v >> (n - 1) else v


# ---------------------------------------------------------------- booleans
def not_(a):
    if a is TRUE:
        return FALSE
    if a is FALSE:
        return TRUE
    if a.op == "not":
        return a.args[0]
    return mk("not", "B", None, (a,))


def and_(*xs):
    out = []
    seen = set()
    st = list(reversed(xs))
    while st:
        x = st.pop()
        if x is TRUE:
            continue
        if x is FALSE:
            return FALSE
        if x.op == "and":
            st.extend(reversed(x.args))
            continue
        if x.id in seen:
            continue
        seen.add(x.id)
        out.append(x)
    for x in out:
        if x.op == "not" and x.args[0].id in seen:
            return FALSE
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    out.sort(key=lambda t: t.id)
    return mk("and", "B", None, tuple(out))


def or_(*xs):
    out = []
    seen = set()
    st = list(reversed(xs))
    while st:
        x = st.pop()
        if x is FALSE:
            continue
        if x is TRUE:
            return TRUE
        if x.op == "or":
            st.extend(reversed(x.args))
            continue
        if x.id in seen:
            continue
        seen.add(x.id)
        out.append(x)
    for x in out:
        if x.op == "not" and x.args[0].id in seen:
            return TRUE
    if not out:
        return FALSE
    if len(out) == 1:
        return out[0]
    # absorption: (a) or (not a and b) -> a or b ; (a or (a and b)) -> a
    if len(out) == 2:
        for x, y in ((out[0], out[1]), (out[1], out[0])):
            if y.op == "and":
                ids = {a.id for a in y.args}
                if x.id in ids:
                    return x
                nx = not_(x)
                if nx.id in ids:
                    return or_(x, and_(*[a for a in y.args if a.id != nx.id]))
                if x.op == "and":
                    xids = {a.id for a in x.args}
                    common = ids & xids
                    if common:
                        ca = [a for a in y.args if a.id in common]
                        ya = [a for a in y.args if a.id not in common]
                        xa = [a for a in x.args if a.id not in common]
                        return and_(*ca, or_(and_(*xa), and_(*ya)))
    out.sort(key=lambda t: t.id)
    return mk("or", "B", None, tuple(out))


def xor_(a, b):
    if isc(a):
        a, b = b, a
    if b is FALSE:
        return a
    if b is TRUE:
        return not_(a)
    if a is b:
        return FALSE
    if not_(a) is b:
        return TRUE
    return not_(iff(a, b))


def iff(a, b):
    if a is b:
        return TRUE
    if a is TRUE:
        return b
    if b is TRUE:
        return a
    if a is FALSE:
        return not_(b)
    if b is FALSE:
        return not_(a)
    if a is not_(b):
        return FALSE
    if a.id > b.id:
        a, b = b, a
    return mk("iff", "B", None, (a, b))


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if c.op == "not":
        return ite(c.args[0], b, a)
    if a.sort == "B":
        if a is TRUE:
            return or_(c, b)
        if a is FALSE:
            return and_(not_(c), b)
        if b is TRUE:
            return or_(not_(c), a)
        if b is FALSE:
            return and_(c, a)
        if a is not_(b):
            return iff(c, a)
    # nested same condition
    if a.op == "ite" and a.args[0] is c:
        a = a.args[1]
    if b.op == "ite" and b.args[0] is c:
        b = b.args[2]
    if a is b:
        return a
    if b.op == "ite" and b.args[1] is a:
        return ite(or_(c, b.args[0]), a, b.args[2])
    if a.op == "ite" and a.args[2] is b:
        return ite(and_(c, a.args[0]), a.args[1], b)
    return mk("ite", a.sort, None, (c, a, b))


# ---------------------------------------------------------------- bit-vectors
def _c2(a, b):
    return a.op == "const" and b.op == "const"


def add(a, b):
    n = a.sort
    if _c2(a, b):
        return bv(a.val + b.val, n)
    if isc(a):
        a, b = b, a
    if isc(b):
        if b.val == 0:
            return a
        if a.op == "add" and isc(a.args[1]):
            return add(a.args[0], bv(a.args[1].val + b.val, n))
        if a.op == "ite" and (isc(a.args[1]) or isc(a.args[2])):
            return ite(a.args[0], add(a.args[1], b), add(a.args[2], b))
    elif a.id > b.id:
        a, b = b, a
    return mk("add", n, None, (a, b))


def sub(a, b):
    if a is b:
        return bv(0, a.sort)
    if isc(b):
        return add(a, bv(-b.val, a.sort))
    if _c2(a, b):
        return bv(a.val - b.val, a.sort)
    # (x + c) - x
    if a.op == "add" and isc(a.args[1]) and a.args[0] is b:
        return a.args[1]
    return mk("sub", a.sort, None, (a, b))


def mul(a, b):
    n = a.sort
    if _c2(a, b):
        return bv(a.val * b.val, n)
    if isc(a):
        a, b = b, a
    if isc(b):
        if b.val == 0:
            return b
        if b.val == 1:
            return a
        if a.op == "ite" and (isc(a.args[1]) or isc(a.args[2])):
            return ite(a.args[0], mul(a.args[1], b), mul(a.args[2], b))
        if a.op == "add" and isc(a.args[1]):
            return add(mul(a.args[0], b), bv(a.args[1].val * b.val, n))
    elif a.id > b.id:
        a, b = b, a
    return mk("mul", n, None, (a, b))


def udiv(a, b):
    if _c2(a, b) and b.val:
        return bv(a.val // b.val, a.sort)
    if isc(b) and b.val == 1:
        return a
    return mk("udiv", a.sort, None, (a, b))


def urem(a, b):
    if _c2(a, b) and b.val:
        return bv(a.val % b.val, a.sort)
    if isc(b) and b.val == 1:
        return bv(0, a.sort)
    return mk("urem", a.sort, None, (a, b))


def sdiv(a, b):
    n = a.sort
    if _c2(a, b) and b.val:
        x, y = sgn(a.val, n), sgn(b.val, n)
        q = abs(x) // abs(y)
        return bv(q if (x < 0) == (y < 0) else -q, n)
    return mk("sdiv", n, None, (a, b))


def srem(a, b):
    n = a.sort
    if _c2(a, b) and b.val:
        x, y = sgn(a.val, n), sgn(b.val, n)
        r = abs(x) % abs(y)
        return bv(-r if x < 0 else r, n)
    return mk("srem", n, None, (a, b))


def shl(a, b):
    n = a.sort
    if isc(b):
        if b.val == 0:
            return a
        if b.val >= n:
            return bv(0, n)
        if isc(a):
            return bv(a.val << b.val, n)
        return concat(extract(a, n - 1 - b.val, 0), bv(0, b.val))
    return mk("shl", n, None, (a, b))


def lshr(a, b):
    n = a.sort
    if isc(b):
        if b.val == 0:
            return a
        if b.val >= n:
            return bv(0, n)
        if isc(a):
            return bv(a.val >> b.val, n)
        return zext(extract(a, n - 1, b.val), n)
    return mk("lshr", n, None, (a, b))


def ashr(a, b):
    n = a.sort
    if _c2(a, b):
        return bv(sgn(a.val, n) >> min(b.val, n - 1), n)
    if isc(b) and b.val == 0:
        return a
    return mk("ashr", n, None, (a, b))


def _pieces(t):
    """split a bv term into (term, width) pieces, most significant first, through concat"""
    if t.op == "concat":
        r = []
        for a in t.args:
            r += _pieces(a)
        return r
    return [t]


def _bitmaskable(t):
    return t.op in ("concat", "const", "ite") or t.op == "zext"


def bvand(a, b):
    n = a.sort
    if _c2(a, b):
        return bv(a.val & b.val, n)
    if a is b:
        return a
    if isc(a):
        a, b = b, a
    if isc(b):
        m = (1 << n) - 1
        if b.val == 0:
            return b
        if b.val == m:
            return a
        # decompose constant mask into runs
        return _maskruns(a, b.val, n)
    elif a.id > b.id:
        a, b = b, a
    return mk("bvand", n, None, (a, b))


def _maskruns(a, m, n):
    parts = []
    i = 0
    while i < n:
        bit = (m >> i) & 1
        j = i
        while j < n and ((m >> j) & 1) == bit:
            j += 1
        parts.append(extract(a, j - 1, i) if bit else bv(0, j - i))
        i = j
    r = parts[-1]
    for p in reversed(parts[:-1]):
        r = concat(r, p)
    return r


def bvor(a, b):
    n = a.sort
    if _c2(a, b):
        return bv(a.val | b.val, n)
    if a is b:
        return a
    if isc(a):
        a, b = b, a
    if isc(b):
        m = (1 << n) - 1
        if b.val == 0:
            return a
        if b.val == m:
            return b
        parts = []
        i = 0
        while i < n:
            bit = (b.val >> i) & 1
            j = i
            while j < n and ((b.val >> j) & 1) == bit:
                j += 1
            parts.append(bv((1 << (j - i)) - 1, j - i) if bit else extract(a, j - 1, i))
            i = j
        r = parts[-1]
        for p in reversed(parts[:-1]):
            r = concat(r, p)
        return r
    # disjoint pieces (bit-field assembly)
    pa, pb = _pieces(a), _pieces(b)
    if len(pa) > 1 or len(pb) > 1:
        # cut points
        cuts = set()
        for ps in (pa, pb):
            o = 0
            for p in reversed(ps):
                o += p.sort
                cuts.add(o)
        cuts = sorted(cuts)
        lo = 0
        parts = []
        ok = True
        for c in cuts:
            x = extract(a, c - 1, lo)
            y = extract(b, c - 1, lo)
            if isc(x) and x.val == 0:
                parts.append(y)
            elif isc(y) and y.val == 0:
                parts.append(x)
            elif x is y:
                parts.append(x)
            elif isc(x) or isc(y):
                parts.append(bvor(x, y))
            else:
                parts.append(mk("bvor", x.sort, None, (x, y) if x.id < y.id else (y, x)))
            lo = c
        r = parts[-1]
        for p in reversed(parts[:-1]):
            r = concat(r, p)
        return r
    if a.op == "zext" and b.op == "zext" and a.args[0].sort == b.args[0].sort:
        return zext(bvor(a.args[0], b.args[0]), n)
    if n == 1:
        return bool2bv(or_(bv2bool(a), bv2bool(b)))
    if a.id > b.id:
        a, b = b, a
    return mk("bvor", n, None, (a, b))


def bvxor(a, b):
    n = a.sort
    if _c2(a, b):
        return bv(a.val ^ b.val, n)
    if a is b:
        return bv(0, n)
    if isc(a):
        a, b = b, a
    if isc(b) and b.val == 0:
        return a
    if n == 1:
        return bool2bv(xor_(bv2bool(a), bv2bool(b)))
    if isc(b):
        m = b.val
        parts = []
        i = 0
        while i < n:
            bit = (m >> i) & 1
            j = i
            while j < n and ((m >> j) & 1) == bit:
                j += 1
            e = extract(a, j - 1, i)
            parts.append(bvnot(e) if bit else e)
            i = j
        r = parts[-1]
        for p in reversed(parts[:-1]):
            r = concat(r, p)
        return r
    if a.id > b.id:
        a, b = b, a
    return mk("bvxor", n, None, (a, b))


def bvnot(a):
    if isc(a):
        return bv(~a.val, a.sort)
    if a.op == "bvnot":
        return a.args[0]
    if a.sort == 1:
        return bool2bv(not_(bv2bool(a)))
    return mk("bvnot", a.sort, None, (a,))


def concat(hi, lo):
    n = hi.sort + lo.sort
    if _c2(hi, lo):
        return bv((hi.val << lo.sort) | lo.val, n)
    # adjacent extracts
    h = hi.args[-1] if hi.op == "concat" else hi
    l0 = lo.args[0] if lo.op == "concat" else lo
    if h.op == "extract" and l0.op == "extract" and h.args[0] is l0.args[0] and h.val[1] == l0.val[0] + 1:
        m = extract(h.args[0], h.val[0], l0.val[1])
        ps = (list(hi.args[:-1]) if hi.op == "concat" else []) + [m] + (list(lo.args[1:]) if lo.op == "concat" else [])
        return _mkconcat(ps)
    if isc(h) and isc(l0):
        m = bv((h.val << l0.sort) | l0.val, h.sort + l0.sort)
        ps = (list(hi.args[:-1]) if hi.op == "concat" else []) + [m] + (list(lo.args[1:]) if lo.op == "concat" else [])
        return _mkconcat(ps)
    return _mkconcat((list(hi.args) if hi.op == "concat" else [hi]) + (list(lo.args) if lo.op == "concat" else [lo]))


def _mkconcat(ps):
    if len(ps) == 1:
        return ps[0]
    return mk("concat", sum(p.sort for p in ps), None, tuple(ps))


def extract(a, hi, lo):
    w = hi - lo + 1
    if w == a.sort:
        return a
    if isc(a):
        return bv(a.val >> lo, w)
    if a.op == "extract":
        return extract(a.args[0], a.val[1] + hi, a.val[1] + lo)
    if a.op == "concat":
        o = 0
        parts = []
        for p in reversed(a.args):
            s, e = o, o + p.sort - 1
            if e >= lo and s <= hi:
                parts.append(extract(p, min(hi, e) - s, max(lo, s) - s))
            o += p.sort
        r = parts[-1]
        for p in reversed(parts[:-1]):
            r = concat(r, p)
        return r
    if a.op == "zext":
        x = a.args[0]
        if hi < x.sort:
            return extract(x, hi, lo)
        if lo >= x.sort:
            return bv(0, w)
        return zext(extract(x, x.sort - 1, lo), w)
    if a.op == "ite":
        x, y = a.args[1], a.args[2]
        if isc(x) or isc(y) or x.op in ("concat", "zext") or y.op in ("concat", "zext"):
            return ite(a.args[0], extract(x, hi, lo), extract(y, hi, lo))
    if a.op == "sext" and hi < a.args[0].sort:
        return extract(a.args[0], hi, lo)
    if a.op in ("bvor", "bvand", "bvxor"):
        f = {"bvor": bvor, "bvand": bvand, "bvxor": bvxor}[a.op]
        return f(extract(a.args[0], hi, lo), extract(a.args[1], hi, lo))
    if a.op == "bvnot":
        return bvnot(extract(a.args[0], hi, lo))
    if lo == 0 and a.op in ("add", "sub", "mul"):
        f = {"add": add, "sub": sub, "mul": mul}[a.op]
        return f(extract(a.args[0], hi, 0), extract(a.args[1], hi, 0))
    return mk("extract", w, (hi, lo), (a,))


def zext(a, n):
    if n == a.sort:
        return a
    if isc(a):
        return bv(a.val, n)
    if a.op == "zext":
        return zext(a.args[0], n)
    if a.op == "ite" and (isc(a.args[1]) or isc(a.args[2])):
        return ite(a.args[0], zext(a.args[1], n), zext(a.args[2], n))
    if a.op == "concat" and isc(a.args[0]) and a.args[0].val == 0:
        return zext(_mkconcat(list(a.args[1:])), n)
    return mk("zext", n, None, (a,))


def sext(a, n):
    if n == a.sort:
        return a
    if isc(a):
        return bv(sgn(a.val, a.sort), n)
    if a.op == "ite" and (isc(a.args[1]) or isc(a.args[2])):
        return ite(a.args[0], sext(a.args[1], n), sext(a.args[2], n))
    if a.op == "zext":
        return zext(a.args[0], n)
    return mk("sext", n, None, (a,))


def bool2bv(b, n=1):
    return ite(b, bv(1, n), bv(0, n))


def bv2bool(a):
    """bv of width 1 -> bool"""
    if isc(a):
        return bool_(a.val)
    return eq(a, bv(1, 1))


def eq(a, b):
    if a.sort == "B":
        return iff(a, b)
    if a is b:
        return TRUE
    if _c2(a, b):
        return bool_(a.val == b.val)
    if isc(a):
        a, b = b, a
    if isc(b):
        if a.op == "ite":
            x, y = a.args[1], a.args[2]
            if isc(x) or isc(y) or a.sort == 1:
                return ite(a.args[0], eq(x, b), eq(y, b))
        if a.op == "zext":
            if b.val >> a.args[0].sort:
                return FALSE
            return eq(a.args[0], bv(b.val, a.args[0].sort))
        if a.op == "concat":
            o = 0
            cs = []
            for p in reversed(a.args):
                cs.append(eq(p, bv(b.val >> o, p.sort)))
                o += p.sort
            return and_(*cs)
        if a.op == "add" and isc(a.args[1]):
            return eq(a.args[0], bv(b.val - a.args[1].val, a.sort))
        if a.sort == 1 and b.val == 0:
            return not_(eq(a, bv(1, 1)))
        if a.op == "bvor" and b.val == 0:
            return and_(eq(a.args[0], b), eq(a.args[1], b))
    if a.op == "zext" and b.op == "zext" and a.args[0].sort == b.args[0].sort:
        return eq(a.args[0], b.args[0])
    if a.sort == 1 and not isc(b):
        return iff(bv2bool(a), bv2bool(b))
    if not isc(b) and a.id > b.id:
        a, b = b, a
    return mk("eq", "B", None, (a, b))


def ult(a, b):
    n = a.sort
    if a is b:
        return FALSE
    if _c2(a, b):
        return bool_(a.val < b.val)
    if isc(b):
        if b.val == 0:
            return FALSE
        if b.val == 1:
            return eq(a, bv(0, n))
    if isc(a):
        if a.val == (1 << n) - 1:
            return FALSE
        if a.val == 0:
            return not_(eq(b, a))
    if a.op == "ite" and isc(b) and (isc(a.args[1]) or isc(a.args[2])):
        return ite(a.args[0], ult(a.args[1], b), ult(a.args[2], b))
    if b.op == "ite" and isc(a) and (isc(b.args[1]) or isc(b.args[2])):
        return ite(b.args[0], ult(a, b.args[1]), ult(a, b.args[2]))
    if a.op == "zext":
        m = a.args[0].sort
        if isc(b):
            if b.val >> m:
                return TRUE
            return ult(a.args[0], bv(b.val, m))
        if b.op == "zext" and b.args[0].sort == m:
            return ult(a.args[0], b.args[0])
    if b.op == "zext" and isc(a):
        m = b.args[0].sort
        if a.val >= (1 << m) - 1:
            return FALSE
        return ult(bv(a.val, m), b.args[0])
    return mk("ult", "B", None, (a, b))


def ule(a, b):
    return not_(ult(b, a))


def slt(a, b):
    n = a.sort
    if a is b:
        return FALSE
    if _c2(a, b):
        return bool_(sgn(a.val, n) < sgn(b.val, n))
    if a.op == "ite" and isc(b) and (isc(a.args[1]) or isc(a.args[2])):
        return ite(a.args[0], slt(a.args[1], b), slt(a.args[2], b))
    if b.op == "ite" and isc(a) and (isc(b.args[1]) or isc(b.args[2])):
        return ite(b.args[0], slt(a, b.args[1]), slt(a, b.args[2]))
    if a.op == "zext" and isc(b):
        if sgn(b.val, n) <= 0:
            return FALSE
        return ult(a, b)
    if b.op == "zext" and isc(a):
        if sgn(a.val, n) < 0:
            return TRUE
        return ult(a, b)
    if a.op == "zext" and b.op == "zext":
        return ult(a, b)
    return mk("slt", "B", None, (a, b))


def sle(a, b):
    return not_(slt(b, a))


# ---------------------------------------------------------------- floats
def isnanc(t):
    return isc(t) and fval(t.sort, t.val) != fval(t.sort, t.val)


_COMM = {"fadd", "fmul"}


def fop(op, *args):
    s = args[0].sort
    if all(a.op == "const" for a in args):
        return fbitsconst(s, c_fop(op, s, *[a.val for a in args]))
    if op in _COMM and args[0].id > args[1].id:
        args = (args[1], args[0])
    if op == "fneg" and args[0].op == "fneg":
        return args[0].args[0]
    if op == "fabs" and args[0].op in ("fabs", "fneg"):
        return fop("fabs", args[0].args[0])
    if op == "fmul":
        for x, y in ((args[0], args[1]), (args[1], args[0])):
            if isc(x) and fval(s, x.val) == 1.0:
                return y
            if isc(x) and fval(s, x.val) == -1.0:
                return fop("fneg", y)
    if op == "fdiv" and isc(args[1]) and fval(s, args[1].val) == 1.0:
        return args[0]
    if op == "fsub" and isc(args[1]) and args[1].val == 0:
        return args[0]
    return mk(op, s, None, tuple(args))


def feq(a, b):
    if _c2(a, b):
        return bool_(fval(a.sort, a.val) == fval(b.sort, b.val))
    if isnanc(a) or isnanc(b):
        return FALSE
    if a is b:
        return not_(fisnan(a))
    if a.id > b.id:
        a, b = b, a
    return mk("feq", "B", None, (a, b))


def flt(a, b):
    if _c2(a, b):
        return bool_(fval(a.sort, a.val) < fval(b.sort, b.val))
    if isnanc(a) or isnanc(b) or a is b:
        return FALSE
    return mk("flt", "B", None, (a, b))


def fle(a, b):
    if _c2(a, b):
        return bool_(fval(a.sort, a.val) <= fval(b.sort, b.val))
    if isnanc(a) or isnanc(b):
        return FALSE
    if a is b:
        return not_(fisnan(a))
    return mk("fle", "B", None, (a, b))


def fisnan(a):
    if isc(a):
        return bool_(isnanc(a))
    if a.op in ("sitofp", "uitofp"):
        return FALSE
    if a.op in ("fneg", "fabs", "ffloor", "fceil", "ftrunc", "frint", "fpext", "fptrunc"):
        return fisnan(a.args[0])
    if a.op == "ite" and (isc(a.args[1]) or isc(a.args[2])):
        return ite(a.args[0], fisnan(a.args[1]), fisnan(a.args[2]))
    return mk("fisnan", "B", None, (a,))


def funo(a, b):
    return or_(fisnan(a), fisnan(b))


def bitcast(a, sort):
    """between bv and float of same width"""
    if a.sort == sort:
        return a
    if isc(a):
        return mk("const", sort, a.val, ())
    if a.op == "bitcast":
        return bitcast(a.args[0], sort)
    if a.op == "ite" and all(x.op == "bitcast" or isc(x) for x in a.args[1:]):
        u, v = bitcast(a.args[1], sort), bitcast(a.args[2], sort)
        if u.op != "bitcast" and v.op != "bitcast":
            return ite(a.args[0], u, v)
    return mk("bitcast", sort, None, (a,))


def fpext(a):
    if isc(a):
        return f64(bits_to_f32(a.val))
    return mk("fpext", "d", None, (a,))


def fptrunc(a):
    if isc(a):
        return f32(bits_to_f64(a.val))
    if a.op == "fpext":
        return a.args[0]
    return mk("fptrunc", "f", None, (a,))


_i2f_memo = {}


def int2fp(a, sort, signed):
    if isc(a):
        v = sgn(a.val, a.sort) if signed else a.val
        if v == 0:
            return fbitsconst(sort, 0)
        return fbitsconst(sort, _round_frac(sort, Fraction(v)))
    if signed and a.op == "zext":
        return int2fp(a.args[0], sort, False)
    if not signed and a.op == "zext":
        return int2fp(a.args[0], sort, False)
    if signed and a.op == "sext":
        return int2fp(a.args[0], sort, True)
    if a.op == "ite":
        k = (a.id, sort, signed)
        r = _i2f_memo.get(k)
        if r is None:
            r = ite(a.args[0], int2fp(a.args[1], sort, signed), int2fp(a.args[2], sort, signed))
            _i2f_memo[k] = r
        return r
    return mk("sitofp" if signed else "uitofp", sort, None, (a,))


def fp2int(a, n, signed):
    if isc(a):
        x = fval(a.sort, a.val)
        if x == x and not math.isinf(x):
            v = math.trunc(x)
            lo, hi = (-(1 << (n - 1)), (1 << (n - 1)) - 1) if signed else (0, (1 << n) - 1)
            if lo <= v <= hi:
                return bv(v, n)
        return bv(0x80000000 if n == 32 else 1 << (n - 1), n)  # poison: value irrelevant (obligation guards it)
    return mk("fptosi" if signed else "fptoui", n, None, (a,))


_EXACT = {"sin": (0.0, 0.0), "cos": (0.0, 1.0), "tan": (0.0, 0.0), "asin": (0.0, 0.0), "atan": (0.0, 0.0), "exp": (0.0, 1.0), "log": (1.0, 0.0), "acos": (1.0, 0.0)}


def uf(name, sort, *args):
    if len(args) == 1 and args[0].op == "const" and name in _EXACT and sort in ("f", "d"):
        x, y = _EXACT[name]
        v = args[0].val
        if v == fbits(sort, x):
            return fbitsconst(sort, fbits(sort, y))
    return mk("uf", sort, name, tuple(args))


# ---------------------------------------------------------------- traversal
def topo(roots):
    seen = set()
    out = []
    st = [(r, 0) for r in reversed(list(roots))]
    while st:
        t, ph = st.pop()
        if ph == 1:
            out.append(t)
            continue
        if t.id in seen:
            continue
        seen.add(t.id)
        st.append((t, 1))
        for a in t.args:
            if a.id not in seen:
                st.append((a, 0))
    return out


def subst(roots, env, rebuild):
    """rebuild DAG bottom-up with mapping env (id->term)"""
    m = dict(env)
    for t in topo(roots):
        if t.id in m:
            continue
        if not t.args:
            m[t.id] = t
            continue
        na = tuple(m[a.id] for a in t.args)
        if all(x is y for x, y in zip(na, t.args)):
            m[t.id] = t
        else:
            m[t.id] = rebuild(t, na)
    return [m[r.id] for r in roots]


_B = {"add": add, "sub": sub, "mul": mul, "udiv": udiv, "sdiv": sdiv, "urem": urem, "srem": srem,
      "shl": shl, "lshr": lshr, "ashr": ashr, "bvand": bvand, "bvor": bvor, "bvxor": bvxor, "bvnot": bvnot,
      "eq": eq, "ult": ult, "slt": slt, "feq": feq, "flt": flt, "fle": fle, "fisnan": fisnan,
      "not": not_, "and": and_, "or": or_, "iff": iff, "ite": ite, "fpext": fpext, "fptrunc": fptrunc}


def build(t, na):
    op = t.op
    f = _B.get(op)
    if f:
        return f(*na)
    if op == "concat":
        r = na[0]
        for x in na[1:]:
            r = concat(r, x)
        return r
    if op == "extract":
        return extract(na[0], *t.val)
    if op == "zext":
        return zext(na[0], t.sort)
    if op == "sext":
        return sext(na[0], t.sort)
    if op == "bitcast":
        return bitcast(na[0], t.sort)
    if op in ("sitofp", "uitofp"):
        return int2fp(na[0], t.sort, op == "sitofp")
    if op in ("fptosi", "fptoui"):
        return fp2int(na[0], t.sort, op == "fptosi")
    if op == "uf":
        return uf(t.val, t.sort, *na)
    return fop(op, *na)
