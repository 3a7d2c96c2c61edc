"""Symbolic executor for LLVM IR with state merging at control-flow joins (all paths in one pass)."""
import heapq
import sys
import terms as T
from ir import Reg, Const, Ty, I, F32, F64, PTR
from intervals import Env

sys.setrecursionlimit(20000)


class Unsupported(Exception):
    pass


class _Undef:
    def __repr__(self):
        return "UNDEF"


UNDEF = _Undef()


class Ptr:
    __slots__ = ("obj", "off")

    def __init__(self, obj, off=0):
        self.obj, self.off = obj, off

    def __repr__(self):
        return "Ptr(%s,%s)" % (self.obj, self.off)


class PSet:
    """guarded pointers, mutually exclusive conditions"""
    __slots__ = ("alts",)

    def __init__(self, alts):
        self.alts = alts


class PtrInt:
    __slots__ = ("p",)

    def __init__(self, p):
        self.p = p


NULL = Ptr(0, 0)


class Obj:
    __slots__ = ("size", "cells", "name", "const")

    def __init__(self, size, name, const=False):
        self.size, self.name, self.const = size, name, const
        self.cells = {}

    def copy(self):
        o = Obj(self.size, self.name, self.const)
        o.cells = dict(self.cells)
        return o


class State:
    __slots__ = ("guard", "mem", "own")

    def __init__(self, guard, mem, own):
        self.guard, self.mem, self.own = guard, mem, own

    def fork(self):
        self.own = set()
        return State(self.guard, dict(self.mem), set())


class Ob:
    __slots__ = ("kind", "label", "guard", "cond", "eq", "fn", "tol", "seq", "nassume")

    def __init__(self, kind, label, guard, cond, eq=None, fn=None, tol=None):
        self.kind, self.label, self.guard, self.cond, self.eq, self.fn, self.tol = kind, label, guard, cond, eq, fn, tol


def sort_of(ty):
    k = ty.k
    if k == "i":
        return "B" if ty.n == 1 else ty.n
    if k == "float":
        return "f"
    if k == "double":
        return "d"
    raise Unsupported("sort of %r" % ty)


def tbytes(t):
    """byte size of a cell value"""
    if isinstance(t, (Ptr, PSet, PtrInt)):
        return 8
    if t.sort == "f":
        return 4
    if t.sort == "d":
        return 8
    return t.sort // 8


def as_bv(t):
    if t.sort in ("f", "d"):
        return T.bitcast(t, T.fsortbits(t.sort))
    return t


class Exec:
    def __init__(self, mod, loop_bound=40, fold=False, stubs=None, track_bounds=True):
        self.m = mod
        self.loop_bound = loop_bound
        self.fold = fold
        self.obs = []
        self.covers = []
        self.assumes = []
        self.inputs = []       # (name, kind, term)
        self.havocs = []       # (name, [(off,size,term)])
        self.boolvars = set()  # byte inputs that hold a C++ bool
        self.events = []       # replay event order
        self.fresh_n = {}
        self.next_obj = 1
        self.gobj = {}
        self.gmem = {}
        self.fobj = {}
        self.fn_count = {}
        self.ninstr = 0
        self.stubs = stubs or {}
        self.stack = []
        self.names = {}
        self.envc = {}
        self.records = {}
        self.init_done = False

    # ------------------------------------------------------------ helpers
    def fresh(self, base, sort):
        k = self.fresh_n.get(base, 0)
        self.fresh_n[base] = k + 1
        nm = base if k == 0 else "%s#%d" % (base, k)
        if sort == "B":
            return T.var(nm, "B")
        return T.var(nm, sort)

    def env(self, guard):
        e = self.envc.get(guard)
        if e is None:
            e = Env(guard)
            if len(self.envc) > 200:
                self.envc.clear()
            self.envc[guard] = e
        return e

    def obligation(self, kind, label, st, cond, eq=None, tol=None):
        if cond is T.TRUE:
            self.trivial = getattr(self, "trivial", 0) + 1
            if kind != "assert":
                return
        cond = self.simp(cond, st.guard)
        o = Ob(kind, label, st.guard, cond, eq, self.stack[-1] if self.stack else None, tol)
        o.seq = len(self.events)
        o.nassume = len(self.assumes)
        self.obs.append(o)

    def simp(self, c, guard):
        if c is T.TRUE or c is T.FALSE:
            return c
        gs = {g.id for g in guard}
        if c.id in gs:
            return T.TRUE
        if T.not_(c).id in gs:
            return T.FALSE
        if c.op == "and":
            r = [x for x in c.args if x.id not in gs]
            if any(T.not_(x).id in gs for x in r):
                return T.FALSE
            if len(r) != len(c.args):
                return T.and_(*r)
        if c.op == "or":
            if any(x.id in gs for x in c.args):
                return T.TRUE
            r = [x for x in c.args if T.not_(x).id not in gs]
            if len(r) != len(c.args):
                return T.or_(*r)
        if c.op == "not" and c.args[0].op in ("and", "or"):
            return T.not_(self.simp(c.args[0], guard))
        return c

    def sel(self, c, a, b):
        """merge two values"""
        if a is b:
            return a
        if a is UNDEF:
            return b
        if b is UNDEF:
            return a
        if isinstance(a, tuple):
            return tuple(self.sel(c, x, y) for x, y in zip(a, b))
        if isinstance(a, (Ptr, PSet)) or isinstance(b, (Ptr, PSet)):
            a, b = self.toptr(a), self.toptr(b)
            if isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj == b.obj:
                if a.off is b.off or (isinstance(a.off, int) and a.off == b.off):
                    return a
            alts = []
            for cc, p in ((c, a), (T.not_(c), b)):
                if isinstance(p, Ptr):
                    alts.append((cc, p))
                else:
                    alts += [(T.and_(cc, x), q) for x, q in p.alts]
            out = []
            for x, q in alts:
                if x is T.FALSE:
                    continue
                for i, (y, r) in enumerate(out):
                    if r.obj == q.obj and (r.off is q.off or (isinstance(r.off, int) and r.off == q.off)):
                        out[i] = (T.or_(x, y), r)
                        break
                else:
                    out.append((x, q))
            if len(out) == 1:
                return out[0][1]
            return PSet(out)
        if isinstance(a, PtrInt):
            return PtrInt(self.sel(c, a.p, b.p if isinstance(b, PtrInt) else self.toptr(b)))
        if a.sort != b.sort:
            if a.sort in ("f", "d") and b.sort not in ("f", "d", "B"):
                b = T.bitcast(b, a.sort)
            elif b.sort in ("f", "d"):
                a = T.bitcast(a, b.sort)
            else:
                raise Unsupported("merge sorts %s %s" % (a.sort, b.sort))
        return T.ite(c, a, b)

    def toptr(self, v):
        if isinstance(v, (Ptr, PSet)):
            return v
        if isinstance(v, PtrInt):
            return v.p
        if v is UNDEF:
            return NULL
        if T.isc(v) and v.val == 0:
            return NULL
        raise Unsupported("int as pointer: %r" % v)

    # ------------------------------------------------------------ memory
    def new_obj(self, st, size, name, const=False):
        i = self.next_obj
        self.next_obj += 1
        st.mem[i] = Obj(size, name, const)
        st.own.add(i)
        return i

    def getobj(self, st, i):
        o = st.mem.get(i)
        if o is None:
            o = self.gmem.get(i)
        return o

    def wobj(self, st, i):
        if i in st.own:
            return st.mem[i]
        o = self.getobj(st, i)
        if o is None:
            return None
        o = o.copy()
        st.mem[i] = o
        st.own.add(i)
        return o

    def global_ptr(self, name):
        if name in self.gobj:
            return Ptr(self.gobj[name], 0)
        if name in self.m.fn_src or name in self.m.decls:
            i = self.next_obj
            self.next_obj += 1
            self.gobj[name] = i
            o = Obj(1, "fn:" + name, True)
            self.gmem[i] = o
            self.fobj[i] = name
            return Ptr(i, 0)
        g = self.m.globals.get(name)
        if g is None:
            raise Unsupported("unknown global " + name)
        if g[0] == "alias":
            return self.global_ptr(g[1])
        ty, init, const = g
        i = self.next_obj
        self.next_obj += 1
        self.gobj[name] = i
        o = Obj(self.m.size(ty), "@" + name, const)
        self.gmem[i] = o
        if init is not None:
            self.init_cells(o, 0, ty, init)
        elif name in ("stderr", "stdout"):
            j = self.next_obj
            self.next_obj += 1
            self.gmem[j] = Obj(1, "FILE", True)
            o.cells[0] = Ptr(j, 0)
        return Ptr(i, 0)

    def init_cells(self, o, off, ty, c):
        k = ty.k
        if k in ("arr", "vec"):
            es = self.m.size(ty.el)
            if c.k in ("zero", "undef"):
                for j in range(ty.n):
                    self.init_cells(o, off + j * es, ty.el, c)
            else:
                for j, (et, ev) in enumerate(c.v):
                    self.init_cells(o, off + j * es, et, ev)
        elif k == "struct":
            offs = self.m.offs(ty)
            if c.k in ("zero", "undef"):
                for j, et in enumerate(ty.els):
                    self.init_cells(o, off + offs[j], et, c)
            else:
                for j, (et, ev) in enumerate(c.v):
                    self.init_cells(o, off + self.m.offs(ty)[j], et, ev)
        else:
            if c.k == "undef":
                return
            v = self.const(ty, c)
            if isinstance(v, T.T) and v.sort == "B":
                v = T.bool2bv(v, 8)
            o.cells[off] = v

    def cell_at(self, o, off):
        """(start, value) of the cell covering byte off, or None"""
        c = o.cells
        v = c.get(off)
        if v is not None:
            return off, v
        for d in range(1, 8):
            v = c.get(off - d)
            if v is not None:
                if tbytes(v) > d:
                    return off - d, v
                return None
        return None

    def read(self, o, off, n, oid=None):
        """read n bytes -> cell value (Term bv / float / Ptr) or UNDEF"""
        v = o.cells.get(off)
        if v is not None and tbytes(v) == n:
            return v
        parts = []
        p = off
        end = off + n
        while p < end:
            c = self.cell_at(o, p)
            if c is None:
                if p == off:
                    # wholly uninitialised?
                    if not any((p + k) in o.cells for k in range(1, n)):
                        t = self.fresh("uninit:" + o.name, n * 8)
                        for k in range(n):
                            o.cells[off + k] = T.extract(t, 8 * k + 7, 8 * k)
                        if n in (1, 2, 4, 8):
                            for k in range(n):
                                del o.cells[off + k]
                            o.cells[off] = t
                        return t
                t = self.fresh("uninit:" + o.name, 8)
                o.cells[p] = t
                parts.append(t)
                p += 1
                continue
            s, v = c
            if isinstance(v, (Ptr, PSet, PtrInt)):
                raise Unsupported("partial pointer read in %s+%d" % (o.name, off))
            v = as_bv(v)
            w = v.sort // 8
            a = p - s
            b = min(end - s, w)
            parts.append(T.extract(v, 8 * b - 1, 8 * a))
            p = s + b
        r = parts[-1]
        for q in reversed(parts[:-1]):
            r = T.concat(r, q)
        return r

    def clear(self, o, off, n):
        """make [off,off+n) free of cells (splitting partial overlaps)"""
        cells = o.cells
        c = self.cell_at(o, off)
        if c is not None and c[0] < off:
            s, v = c
            if isinstance(v, (Ptr, PSet, PtrInt)):
                raise Unsupported("partial pointer overwrite")
            v = as_bv(v)
            w = v.sort // 8
            del cells[s]
            for k in range(0, off - s):
                cells[s + k] = T.extract(v, 8 * k + 7, 8 * k)
            for k in range(off - s, w):
                cells[s + k] = T.extract(v, 8 * k + 7, 8 * k)
        e = off + n
        c = self.cell_at(o, e)
        if c is not None and c[0] < e:
            s, v = c
            if isinstance(v, (Ptr, PSet, PtrInt)):
                raise Unsupported("partial pointer overwrite")
            v = as_bv(v)
            w = v.sort // 8
            del cells[s]
            for k in range(w):
                cells[s + k] = T.extract(v, 8 * k + 7, 8 * k)
        if n <= 16:
            for k in range(n):
                cells.pop(off + k, None)
        else:
            if n < len(cells):
                for k in range(n):
                    cells.pop(off + k, None)
            else:
                for k in [k for k in cells if off <= k < e]:
                    del cells[k]

    def write(self, o, off, v):
        n = tbytes(v)
        old = o.cells.get(off)
        if old is not None and tbytes(old) == n:
            o.cells[off] = v
            return
        self.clear(o, off, n)
        o.cells[off] = v

    def conv(self, v, ty):
        """cell value -> register value of type"""
        if v is UNDEF:
            return v
        k = ty.k
        if k == "ptr":
            if isinstance(v, T.T) and v.op == "ite":
                return self.sel(v.args[0], self.conv(v.args[1], ty), self.conv(v.args[2], ty))
            return self.toptr(v)
        if isinstance(v, (Ptr, PSet)):
            return PtrInt(v)
        if isinstance(v, PtrInt):
            return v
        if k == "float":
            return T.bitcast(v, "f")
        if k == "double":
            return T.bitcast(v, "d")
        if k == "i":
            v = as_bv(v)
            if ty.n == 1:
                return T.bv2bool(T.extract(v, 0, 0))
            if v.sort != ty.n:
                v = T.extract(v, ty.n - 1, 0)
            return v
        raise Unsupported("load type %r" % ty)

    def deref(self, st, p, n, what):
        """-> list of (cond, objid, concrete offset); emits bounds obligations"""
        p = self.toptr(p)
        alts = p.alts if isinstance(p, PSet) else [(T.TRUE, p)]
        out = []
        for c, q in alts:
            if q.obj == 0:
                self.obligation("null", "%s through null pointer" % what, st, T.not_(c))
                continue
            o = self.getobj(st, q.obj)
            if o is None:
                raise Unsupported("dangling object")
            if isinstance(q.off, int):
                if q.off < 0 or q.off + n > o.size:
                    self.obligation("bounds", "%s outside %s" % (what, o.name), st, T.not_(c))
                    continue
                out.append((c, q.obj, q.off))
            else:
                x, scale, base = self.decompose(q.off, st.guard)
                if base >= 1 << 63:
                    base -= 1 << 64
                lo, hi = self.env(st.guard).u(x)
                fit = lambda i: 0 <= base + scale * i and base + scale * i + n <= o.size
                kmin = max(lo, (-base + scale - 1) // scale)
                kmax = min(hi, (o.size - n - base) // scale)
                conds = []
                if lo < kmin:
                    conds.append(T.ule(T.bv(kmin, x.sort), x))
                if hi > kmax:
                    conds.append(T.ule(x, T.bv(max(kmax, 0), x.sort)) if kmax >= 0 else T.FALSE)
                # always record the real bounds fact for the solver
                ok = T.and_(T.ule(T.bv(max((-base + scale - 1) // scale, 0), x.sort), x) if base < 0 else T.TRUE,
                            T.ule(x, T.bv(min(max((o.size - n - base) // scale, 0), (1 << x.sort) - 1), x.sort)))
                self.obligation("bounds", "%s index within %s" % (what, o.name), st, T.or_(T.not_(c), ok))
                combos = self.enum(q.off, st.guard) if kmax - kmin > 3 else None
                if combos is not None:
                    for cc, v in combos:
                        v = T.sgn(v, 64)
                        if 0 <= v and v + n <= o.size:
                            out.append((T.and_(c, cc), q.obj, v))
                    continue
                for i in range(kmin, kmax + 1):
                    out.append((T.and_(c, T.eq(x, T.bv(i, x.sort))) if kmax > kmin or conds else c, q.obj, base + scale * i))
                if len(out) > 5000:
                    raise Unsupported("symbolic index too wide")
        return out

    def enum(self, t, guard):
        """offset as function of few small-range integer atoms -> [(cond, value)] or None"""
        atoms = []
        seen = set()

        def walk(x):
            if x.id in seen or T.isc(x):
                return
            seen.add(x.id)
            if x.op in ("add", "sub", "mul", "zext", "sext", "concat"):
                for a in x.args:
                    walk(a)
            else:
                atoms.append(x)
        walk(t)
        env = self.env(guard)
        ranges = []
        tot = 1
        for a in atoms:
            lo, hi = env.u(a)
            tot *= hi - lo + 1
            if tot > 800:
                return None
            ranges.append(range(lo, hi + 1))
        import itertools
        out = []
        for combo in itertools.product(*ranges):
            sub = {a.id: T.bv(k, a.sort) for a, k in zip(atoms, combo)}
            v = T.subst([t], sub, T.build)[0]
            cond = T.and_(*[T.eq(a, T.bv(k, a.sort)) if len(r) > 1 else T.TRUE for a, k, r in zip(atoms, combo, ranges)])
            if not T.isc(v):
                return None
            out.append((cond, v.val))
        return out

    def decompose(self, t, guard):
        """t(64) == base + scale*x (mod 2^64), x returned as a small bv where no wrap occurs"""
        base = 0
        scale = 1
        while True:
            if t.op == "add" and T.isc(t.args[1]):
                base += scale * t.args[1].val
                t = t.args[0]
            elif t.op == "mul" and T.isc(t.args[1]) and t.args[1].val < 1 << 31:
                lo, hi = self.env(guard).u(t.args[0])
                if hi * t.args[1].val >= 1 << t.sort:
                    break
                scale *= t.args[1].val
                t = t.args[0]
            elif t.op == "concat" and T.isc(t.args[-1]) and t.args[-1].val == 0:
                z = t.args[-1].sort
                rest = T._mkconcat(list(t.args[:-1]))
                scale <<= z
                t = rest
            elif t.op in ("zext",):
                t = t.args[0]
            elif t.op == "sext":
                n = t.args[0].sort
                lo, hi = self.env(guard).u(t.args[0])
                if hi >= 1 << (n - 1):
                    # x + 2^(n-1) unsigned trick
                    y = T.add(t.args[0], T.bv(1 << (n - 1), n))
                    l2, h2 = 0, 0
                    base -= scale * (1 << (n - 1))
                    t = y
                    break
                t = t.args[0]
            else:
                break
        return t, scale, base % (1 << 64)

    def load(self, st, p, ty):
        n = self.m.size(ty)
        k = ty.k
        if k in ("vec", "arr"):
            es = self.m.size(ty.el)
            return tuple(self.load(st, self.padd(p, j * es), ty.el) for j in range(ty.n))
        if k == "struct":
            return tuple(self.load(st, self.padd(p, o), e) for o, e in zip(self.m.offs(ty), ty.els))
        ds = self.deref(st, p, n, "load")
        if not ds:
            return T.bv(0, n * 8) if k == "i" and ty.n > 1 else self.zero(ty)
        res = None
        # group identical values (tables)
        vals = []
        for c, oid, off in ds:
            v = self.conv(self.read(self.getobj(st, oid), off, n), ty)
            vals.append((c, v))
        res = vals[-1][1]
        for c, v in reversed(vals[:-1]):
            res = self.sel(c, v, res)
        return res

    def zero(self, ty):
        k = ty.k
        if k == "ptr":
            return NULL
        if k in ("vec", "arr"):
            return tuple(self.zero(ty.el) for _ in range(ty.n))
        if k == "struct":
            return tuple(self.zero(e) for e in ty.els)
        s = sort_of(ty)
        return T.FALSE if s == "B" else T.mk("const", s, 0, ())

    def store(self, st, p, ty, v):
        n = self.m.size(ty)
        k = ty.k
        if k in ("vec", "arr"):
            es = self.m.size(ty.el)
            if v is UNDEF:
                return
            for j in range(ty.n):
                self.store(st, self.padd(p, j * es), ty.el, v[j])
            return
        if k == "struct":
            if v is UNDEF:
                return
            for o, e, x in zip(self.m.offs(ty), ty.els, v):
                self.store(st, self.padd(p, o), e, x)
            return
        if v is UNDEF:
            v = self.fresh("undef", n * 8) if k != "ptr" else NULL
        if isinstance(v, T.T):
            if v.sort == "B":
                v = T.bool2bv(v, 8)
            elif v.sort not in ("f", "d") and v.sort != n * 8:
                v = T.zext(v, n * 8)
        ds = self.deref(st, p, n, "store")
        for c, oid, off in ds:
            o = self.wobj(st, oid)
            if o.const:
                self.obligation("bounds", "store to constant " + o.name, st, T.not_(c))
                continue
            if c is T.TRUE:
                self.write(o, off, v)
            else:
                old = self.read(o, off, n)
                self.write(o, off, self.sel(c, v, old))

    def padd(self, p, k):
        if isinstance(p, PSet):
            return PSet([(c, self.padd(q, k)) for c, q in p.alts])
        if isinstance(k, int) and k == 0:
            return p
        off = p.off
        if isinstance(off, int) and isinstance(k, int):
            return Ptr(p.obj, off + k)
        a = T.bv(off, 64) if isinstance(off, int) else off
        b = T.bv(k, 64) if isinstance(k, int) else k
        r = T.add(a, b)
        if T.isc(r):
            return Ptr(p.obj, T.sgn(r.val, 64))
        return Ptr(p.obj, r)

    def memcpy(self, st, d, s, n):
        if not T.isc(n):
            raise Unsupported("symbolic memcpy size")
        n = n.val
        if n == 0:
            return
        ss = self.deref(st, s, n, "memcpy read")
        dd = self.deref(st, d, n, "memcpy write")
        if len(ss) > 1:
            # guarded source: read piecewise by common granularity
            srcs = [(c, self.snap(st, oid, off, n)) for c, oid, off in ss]
            cells = srcs[-1][1]
            for c, x in reversed(srcs[:-1]):
                cells = self.merge_cells(c, x, cells, "memcpy")
        elif ss:
            cells = self.snap(st, ss[0][1], ss[0][2], n)
        else:
            return
        for c, oid, off in dd:
            o = self.wobj(st, oid)
            cs = cells
            if c is not T.TRUE:
                cs = self.merge_cells(c, cells, self.snap(st, oid, off, n), "memcpy")
            self.clear(o, off, n)
            for k, v in cs.items():
                o.cells[off + k] = v

    def snap(self, st, oid, off, n):
        o = self.getobj(st, oid)
        # split partial edges
        for e in (off, off + n):
            c = self.cell_at(o, e)
            if c is not None and c[0] < e:
                o = self.wobj(st, oid)
                s, v = c
                v = as_bv(v)
                w = v.sort // 8
                del o.cells[s]
                for k in range(w):
                    o.cells[s + k] = T.extract(v, 8 * k + 7, 8 * k)
        if n < len(o.cells):
            return {k: o.cells[off + k] for k in range(n) if off + k in o.cells}
        return {k - off: v for k, v in o.cells.items() if off <= k < off + n}

    def merge_cells(self, c, A, B, name):
        if A is B:
            return A
        out = {}
        odd = []
        for k, v in A.items():
            w = B.get(k)
            if w is v:
                out[k] = v
            elif w is not None and tbytes(w) == tbytes(v):
                out[k] = self.sel(c, v, w)
            else:
                odd.append(k)
        for k in B:
            if k not in A:
                odd.append(k)
        if odd:
            oa, ob = Obj(1 << 60, name), Obj(1 << 60, name)
            oa.cells, ob.cells = dict(A), dict(B)
            done = set(out)
            for k in sorted(set(odd)):
                ca, cb = self.cell_at(oa, k), self.cell_at(ob, k)
                if ca is None or cb is None:
                    # uninitialised on one side: any value is allowed there
                    s, v = ca or cb
                    if s == k and isinstance(v, (Ptr, PSet, PtrInt)):
                        out[k] = v
                    elif s == k:
                        # may be covered partially on the other side: byte-wise
                        o2 = ob if ca else oa
                        if any((k + j) in o2.cells for j in range(1, tbytes(v))):
                            v = as_bv(v)
                            for j in range(v.sort // 8):
                                b = T.extract(v, 8 * j + 7, 8 * j)
                                c2 = self.cell_at(o2, k + j)
                                if c2 is not None:
                                    b2 = T.extract(as_bv(c2[1]), 8 * (k + j - c2[0]) + 7, 8 * (k + j - c2[0]))
                                    b = T.ite(c, b, b2) if ca else T.ite(c, b2, b)
                                out[k + j] = b
                        else:
                            out[k] = v
                    continue
                # both covered with different granularity: use bytes at the finer one
                sa, va = ca
                sb, vb = cb
                e = min(sa + tbytes(va), sb + tbytes(vb))
                n = e - k
                if n in (1, 2, 4, 8):
                    x, y = self.read(oa, k, n), self.read(ob, k, n)
                    out[k] = self.sel(c, x, y)
                    k2 = e
                else:
                    for j in range(n):
                        out[k + j] = self.sel(c, self.read(oa, k + j, 1), self.read(ob, k + j, 1))
                # continue the rest if one cell is longer
                while k2 < max(sa + tbytes(va), sb + tbytes(vb)) if n in (1, 2, 4, 8) else False:
                    if k2 in oa.cells and k2 in ob.cells:
                        break
                    ca, cb = self.cell_at(oa, k2), self.cell_at(ob, k2)
                    if ca is None or cb is None:
                        break
                    e2 = min(ca[0] + tbytes(ca[1]), cb[0] + tbytes(cb[1]))
                    n2 = e2 - k2
                    out[k2] = self.sel(c, self.read(oa, k2, n2), self.read(ob, k2, n2))
                    k2 = e2
        return out

    def memset(self, st, d, v, n):
        if not T.isc(n):
            raise Unsupported("symbolic memset size")
        n = n.val
        if n == 0:
            return
        for c, oid, off in self.deref(st, d, n, "memset"):
            if c is not T.TRUE:
                raise Unsupported("guarded memset")
            o = self.wobj(st, oid)
            self.clear(o, off, n)
            k = 0
            b = v
            while k < n:
                w = 4 if (off + k) % 4 == 0 and n - k >= 4 else 1
                x = b
                for _ in range(w - 1):
                    x = T.concat(x, b)
                o.cells[off + k] = x
                k += w

    # ------------------------------------------------------------ merging of states
    def merge(self, A, ra, B, rb, name=""):
        """merge states (and reg dicts) of two paths"""
        ga, gb = A.guard, B.guard
        i = 0
        while i < len(ga) and i < len(gb) and ga[i] is gb[i]:
            i += 1
        pa, pb = ga[i:], gb[i:]
        g = ga[:i]
        if not pa or not pb:
            # one guard implies the other (can happen after an assume); use the longer as selector
            if not pa and not pb:
                raise Unsupported("merging identical guards")
            if not pa:
                cond = T.not_(T.and_(*pb))
            else:
                cond = T.and_(*pa)
        else:
            d = T.or_(T.and_(*pa), T.and_(*pb))
            # selector: first complementary literal suffices
            if T.not_(pa[0]) is pb[0]:
                cond = pa[0]
            else:
                nb = {T.not_(x).id for x in pb}
                cond = None
                for x in pa:
                    if x.id in nb:
                        cond = x
                        break
                if cond is None:
                    cond = T.and_(*pa)
            if d is not T.TRUE:
                if d.op == "and":
                    g = g + tuple(x for x in d.args)
                else:
                    g = g + (d,)
        mem = A.mem
        own = set()
        for k, ob in B.mem.items():
            oa = mem.get(k)
            if oa is ob:
                continue
            if oa is None:
                oa = self.gmem.get(k)
                if oa is None:
                    mem[k] = ob
                    continue
            mem[k] = self.merge_obj(cond, oa, ob)
            own.add(k)
        for k, oa in list(mem.items()):
            if k not in B.mem:
                ob = self.gmem.get(k)
                if ob is not None:
                    mem[k] = self.merge_obj(cond, oa, ob)
                    own.add(k)
        st = State(g, mem, own)
        regs = None
        if ra is not None:
            regs = ra
            if rb is not ra:
                regs = dict(ra)
                for k, v in rb.items():
                    w = regs.get(k)
                    if w is None:
                        regs[k] = v
                    elif w is not v:
                        regs[k] = self.sel(cond, w, v)
        return st, regs, cond

    def merge_obj(self, c, a, b):
        o = Obj(a.size, a.name, a.const)
        o.cells = self.merge_cells(c, a.cells, b.cells, a.name)
        if o.cells is a.cells:
            o.cells = dict(a.cells)
        return o

    # ------------------------------------------------------------ constants / operands
    def const(self, ty, c):
        k = c.k
        if k == "int":
            if ty.n == 1:
                return T.bool_(c.v)
            return T.bv(c.v, ty.n)
        if k == "fp":
            return T.mk("const", "f" if ty.k == "float" else "d", c.v, ())
        if k == "null":
            return NULL
        if k == "undef":
            if ty.k in ("vec", "arr"):
                return tuple(UNDEF for _ in range(ty.n))
            if ty.k == "struct":
                return tuple(self.const(e, c) for e in ty.els)
            return UNDEF
        if k == "zero":
            return self.zero(ty)
        if k == "agg":
            return tuple(self.const(t, v) for t, v in c.v)
        if k == "global":
            return self.global_ptr(c.v)
        if k == "gep":
            bt, base, idx = c.v
            return self.gep(bt, self.const(PTR, base), [(t, self.const(t, v)) for t, v in idx])
        if k == "cast":
            op, ft, v, tt = c.v
            return self.cast(op, ft, self.const(ft, v), tt)
        if k == "bin":
            op, t, a, b = c.v
            return self.binop(op, t, self.const(t, a), self.const(t, b), None)
        raise Unsupported("const " + k)

    def val(self, ty, v, regs):
        if v.__class__ is Reg:
            return regs[v.n]
        return self.const(ty, v)

    def gep(self, bt, p, idx):
        p = self.toptr(p)
        t = bt
        off = 0
        sym = None
        first = True
        for it, iv in idx:
            if first:
                es = self.m.size(bt)
                first = False
            elif t.k == "struct":
                k = iv.val
                off += self.m.offs(t)[k]
                t = t.els[k]
                continue
            else:
                t = t.el
                es = self.m.size(t)
            if iv is UNDEF:
                iv = T.bv(0, it.n)
            if isinstance(iv, PtrInt):
                raise Unsupported("pointer as index")
            if T.isc(iv):
                off += T.sgn(iv.val, iv.sort) * es
            else:
                x = T.sext(iv, 64) if iv.sort < 64 else iv
                x = T.mul(x, T.bv(es, 64))
                sym = x if sym is None else T.add(sym, x)
        r = self.padd(p, off)
        if sym is not None:
            r = self.padd(r, sym)
        return r

    def mat(self, v, ty):
        """materialise UNDEF"""
        if v is UNDEF:
            if ty.k == "ptr":
                return NULL
            return self.fresh("undef", sort_of(ty))
        return v

    # ------------------------------------------------------------ ops
    def binop(self, op, ty, a, b, st):
        if ty.k == "vec":
            return tuple(self.binop(op, ty.el, x, y, st) for x, y in zip(a, b))
        if isinstance(a, PtrInt) or isinstance(b, PtrInt):
            if op == "sub" and isinstance(a, PtrInt) and isinstance(b, PtrInt):
                p, q = a.p, b.p
                if isinstance(p, Ptr) and isinstance(q, Ptr) and p.obj == q.obj:
                    x = p.off if not isinstance(p.off, int) else T.bv(p.off, 64)
                    y = q.off if not isinstance(q.off, int) else T.bv(q.off, 64)
                    return T.sub(x, y)
            if op == "add" and isinstance(a, PtrInt) and isinstance(b, T.T):
                return PtrInt(self.padd(a.p, b if not T.isc(b) else T.sgn(b.val, 64)))
            raise Unsupported("pointer arithmetic " + op)
        a, b = self.mat(a, ty), self.mat(b, ty)
        if ty.k == "i" and ty.n == 1:
            if op == "and":
                return T.and_(a, b)
            if op == "or":
                return T.or_(a, b)
            if op in ("xor", "add", "sub"):
                return T.xor_(a, b)
            if op == "mul":
                return T.and_(a, b)
            raise Unsupported("i1 " + op)
        if op in ("fadd", "fsub", "fmul", "fdiv", "frem"):
            return T.fop(op, a, b)
        if op in ("udiv", "sdiv", "urem", "srem") and st is not None and not (T.isc(b) and b.val):
            self.obligation("div0", "division by zero", st, T.not_(T.eq(b, T.bv(0, ty.n))))
        return {"add": T.add, "sub": T.sub, "mul": T.mul, "udiv": T.udiv, "sdiv": T.sdiv, "urem": T.urem,
                "srem": T.srem, "shl": T.shl, "lshr": T.lshr, "ashr": T.ashr, "and": T.bvand, "or": T.bvor,
                "xor": T.bvxor}[op](a, b)

    def cast(self, op, ft, v, tt):
        if ft.k == "vec" and tt.k == "vec" and op != "bitcast":
            return tuple(self.cast(op, ft.el, x, tt.el) for x in v)
        if op == "ptrtoint":
            return PtrInt(self.toptr(v))
        if op == "inttoptr":
            return self.toptr(v)
        if op in ("addrspacecast",) or (op == "bitcast" and ft.k == "ptr"):
            return v
        if isinstance(v, PtrInt):
            if op == "zext" or (op == "trunc" and tt.n == 64):
                return v
            raise Unsupported("cast of pointer int")
        if op == "bitcast":
            if ft.k == "vec" or tt.k == "vec":
                # via concat
                if ft.k == "vec":
                    xs = [as_bv(self.mat(x, ft.el)) for x in v]
                    r = xs[-1]
                    for x in reversed(xs[:-1]):
                        r = T.concat(r, x)
                else:
                    r = as_bv(self.mat(v, ft))
                if tt.k == "vec":
                    n = self.m.size(tt.el) * 8
                    out = []
                    for j in range(tt.n):
                        e = T.extract(r, n * j + n - 1, n * j)
                        out.append(T.bitcast(e, "f") if tt.el.k == "float" else T.bitcast(e, "d") if tt.el.k == "double" else e)
                    return tuple(out)
                return self.conv(r, tt)
            return self.conv(as_bv(self.mat(v, ft)), tt)
        if v is UNDEF:
            return UNDEF
        if op == "trunc":
            if tt.n == 1:
                return T.bv2bool(T.extract(v, 0, 0))
            return T.extract(v, tt.n - 1, 0)
        if op == "zext":
            if ft.n == 1:
                return T.bool2bv(v, tt.n)
            return T.zext(v, tt.n)
        if op == "sext":
            if ft.n == 1:
                return T.ite(v, T.bv(-1, tt.n), T.bv(0, tt.n))
            return T.sext(v, tt.n)
        if op == "fpext":
            return T.fpext(v)
        if op == "fptrunc":
            return T.fptrunc(v)
        if op in ("uitofp", "sitofp"):
            s = "f" if tt.k == "float" else "d"
            if v.sort == "B":
                one = T.f32(1.0) if s == "f" else T.f64(1.0)
                if op == "sitofp":
                    one = T.fop("fneg", one)
                return T.ite(v, one, T.mk("const", s, 0, ()))
            return T.int2fp(v, s, op == "sitofp")
        if op in ("fptosi", "fptoui"):
            n = tt.n
            r = T.fp2int(v, max(n, 8), op == "fptosi")
            if n == 1:
                return T.bv2bool(T.extract(r, 0, 0))
            return r
        raise Unsupported("cast " + op)

    def icmp(self, pred, a, b, ty):
        if ty.k == "vec":
            return tuple(self.icmp(pred, x, y, ty.el) for x, y in zip(a, b))
        if isinstance(a, PtrInt):
            a = a.p
        if isinstance(b, PtrInt):
            b = b.p
        if isinstance(a, (Ptr, PSet)) or isinstance(b, (Ptr, PSet)):
            a, b = self.toptr(a), self.toptr(b)
            A = a.alts if isinstance(a, PSet) else [(T.TRUE, a)]
            B = b.alts if isinstance(b, PSet) else [(T.TRUE, b)]
            r = T.FALSE
            for c, p in A:
                for d, q in B:
                    if p.obj == q.obj:
                        x = p.off if not isinstance(p.off, int) else T.bv(p.off, 64)
                        y = q.off if not isinstance(q.off, int) else T.bv(q.off, 64)
                        e = self.icmp("eq" if pred in ("eq", "ne") else pred, x, y, I(64))
                    elif pred in ("eq", "ne"):
                        e = T.FALSE
                    else:
                        raise Unsupported("pointer order across objects")
                    r = T.or_(r, T.and_(c, d, e))
            return T.not_(r) if pred == "ne" else r
        a, b = self.mat(a, ty), self.mat(b, ty)
        if ty.k == "i" and ty.n == 1:
            if pred == "eq":
                return T.iff(a, b)
            if pred == "ne":
                return T.xor_(a, b)
            a, b = T.bool2bv(a), T.bool2bv(b)
        if pred == "eq":
            return T.eq(a, b)
        if pred == "ne":
            return T.not_(T.eq(a, b))
        if pred == "ult":
            return T.ult(a, b)
        if pred == "ugt":
            return T.ult(b, a)
        if pred == "ule":
            return T.ule(a, b)
        if pred == "uge":
            return T.ule(b, a)
        if pred == "slt":
            return T.slt(a, b)
        if pred == "sgt":
            return T.slt(b, a)
        if pred == "sle":
            return T.sle(a, b)
        return T.sle(b, a)

    def fcmp(self, pred, a, b, ty):
        if ty.k == "vec":
            return tuple(self.fcmp(pred, x, y, ty.el) for x, y in zip(a, b))
        a, b = self.mat(a, ty), self.mat(b, ty)
        if pred == "true":
            return T.TRUE
        if pred == "false":
            return T.FALSE
        if pred == "ord":
            return T.not_(T.funo(a, b))
        if pred == "uno":
            return T.funo(a, b)
        if pred[0] == "o":
            if pred == "oeq":
                return T.feq(a, b)
            if pred == "olt":
                return T.flt(a, b)
            if pred == "ole":
                return T.fle(a, b)
            if pred == "ogt":
                return T.flt(b, a)
            if pred == "oge":
                return T.fle(b, a)
            if pred == "one":
                return T.or_(T.flt(a, b), T.flt(b, a))
        # unordered = negation of the ordered complement
        neg = {"ueq": "one", "ult": "oge", "ule": "ogt", "ugt": "ole", "uge": "olt", "une": "oeq"}[pred]
        return T.not_(self.fcmp(neg, a, b, ty))

    # ------------------------------------------------------------ function execution
    def call(self, name, args, st):
        """-> (state or None, value)"""
        f = self.m.fn(name)
        if name in self.stubs:
            return self.stubs[name](self, st, args)
        if f is None:
            return self.extern(name, args, st)
        self.fn_count[name] = self.fn_count.get(name, 0) + 1
        self.stack.append(name)
        if len(self.stack) > 300:
            raise Unsupported("recursion")
        regs = {}
        for (t, pn, byval), a in zip(f.params, args):
            if byval is not None:
                oid = self.new_obj(st, self.m.size(byval), "byval")
                p = Ptr(oid, 0)
                self.memcpy(st, p, a, T.bv(self.m.size(byval), 64))
                a = p
            regs[pn] = a
        pend = {}    # key -> list [state, regs, block, phis]
        heap = []
        retst = None
        retval = None
        base_len = len(st.guard)
        allocas = []

        def push(key, blk, stt, rg, frm):
            # evaluate phis on the edge
            newregs = rg
            ins = f.blocks[blk]
            upd = None
            for q in ins:
                if q.op != "phi":
                    break
                for v, b in q.x:
                    if b == frm:
                        if upd is None:
                            upd = {}
                        upd[q.dst] = self.val(q.ty, v, rg)
                        break
            if upd:
                newregs = dict(rg)
                newregs.update(upd)
            e = pend.get(key)
            if e is None:
                pend[key] = [stt, newregs, blk]
                heapq.heappush(heap, key)
            else:
                s2, r2, _ = self.merge(e[0], e[1], stt, newregs, f.name)
                e[0], e[1] = s2, r2

        def key_of(blk, iters):
            k = []
            for h in f.nest[blk]:
                k += [f.rpo[h], iters[h]]
            k.append(f.rpo[blk])
            return tuple(k)

        e_key = key_of(f.entry, {h: 0 for h in f.nest[f.entry]})
        pend[e_key] = [st, regs, f.entry]
        heap.append(e_key)
        loopguard = {}
        while heap:
            key = heapq.heappop(heap)
            stt, rg, blk = pend.pop(key)
            iters = {}
            for j, h in enumerate(f.nest[blk]):
                iters[h] = key[2 * j + 1]
            out = self.run_block(f, blk, stt, rg, allocas)
            if out is None:
                continue
            if out[0] == "ret":
                _, stt, v = out
                if retst is None:
                    retst, retval = stt, v
                else:
                    retst, _, c = self.merge(retst, None, stt, None, f.name)
                    if v is not None:
                        retval = self.sel(c, retval, v)
                continue
            edges = out[1]
            live = []
            for cond, tgt, s2, r2 in edges:
                live.append((tgt, s2, r2))
            for tgt, s2, r2 in live:
                it2 = {}
                dead = False
                for h in f.nest[tgt]:
                    if h in iters and (h != tgt):
                        it2[h] = iters[h]
                    elif h == tgt:
                        if h in iters and blk in f.loops[h]:
                            it2[h] = iters[h] + 1
                            # concrete iterations (path condition unchanged) are free
                            lk = (tgt, tuple(sorted((x, y) for x, y in it2.items() if x != h)))
                            prev = loopguard.get(lk)
                            if prev is None:
                                prev = loopguard[lk] = [None, 0]
                            if prev[0] is not s2.guard and prev[0] != s2.guard:
                                prev[1] += 1
                                prev[0] = s2.guard
                            if prev[1] > self.loop_bound or it2[h] > 100000:
                                self.obligation("unwind", "loop bound %d in %s" % (self.loop_bound, f.name), s2, T.FALSE)
                                dead = True
                        else:
                            it2[h] = 0
                    else:
                        raise Unsupported("jump into loop")
                if not dead:
                    push(key_of(tgt, it2), tgt, s2, r2, blk)
        self.stack.pop()
        if retst is not None:
            for oid in allocas:
                retst.mem.pop(oid, None)
        return retst, retval

    def run_block(self, f, blk, st, regs, allocas):
        regs = dict(regs)
        ins = f.blocks[blk]
        for q in ins:
            op = q.op
            self.ninstr += 1
            if op == "phi":
                continue
            if op == "load":
                v = self.load(st, self.val(PTR, q.a[0], regs), q.ty)
                if q.x is not None and q.ty.k == "i" and q.ty.n == 8 and self.m.meta.get(q.x, "").replace(" ", "") == "i80,i82":
                    if isinstance(v, T.T) and not T.isc(v):
                        if v.op == "var":
                            self.boolvars.add(v.val)
                        v = T.zext(T.extract(v, 0, 0), 8)
                regs[q.dst] = v
            elif op == "store":
                self.store(st, self.val(PTR, q.a[1], regs), q.ty, self.val(q.ty, q.a[0], regs))
            elif op == "getelementptr":
                regs[q.dst] = self.gep(q.ty, self.val(PTR, q.a[0], regs), [(t, self.val(t, v, regs)) for t, v in q.x])
            elif op == "alloca":
                n = 1
                if q.x is not None:
                    nv = self.val(q.x[0], q.x[1], regs)
                    if not T.isc(nv):
                        raise Unsupported("vla")
                    n = nv.val
                oid = self.new_obj(st, self.m.size(q.ty) * n, "%s:%s" % (f.name[:40], q.dst))
                allocas.append(oid)
                regs[q.dst] = Ptr(oid, 0)
            elif op == "call":
                args = [None if v is None else self.val(t, v, regs) for t, v, _ in q.a]
                for j, (t, v, bvl) in enumerate(q.a):
                    pass
                cal = q.x
                if isinstance(cal, Reg):
                    p = self.toptr(regs[cal.n])
                    if isinstance(p, PSet) or p.obj not in self.fobj:
                        raise Unsupported("indirect call")
                    name = self.fobj[p.obj]
                else:
                    name = cal.v
                    g = self.m.globals.get(name)
                    if g and g[0] == "alias":
                        name = g[1]
                if name.startswith("llvm."):
                    r = self.intrinsic(name, q, args, st, regs)
                    if r is DEAD:
                        return None
                    if q.dst:
                        regs[q.dst] = r
                else:
                    st, r = self.call(name, args, st)
                    if st is None:
                        return None
                    if q.dst:
                        regs[q.dst] = r
            elif op == "br":
                if not q.a:
                    return ("br", [(T.TRUE, q.x[0], st, regs)])
                c = self.mat(self.val(I(1), q.a[0], regs), I(1))
                c = self.simp(c, st.guard)
                if self.fold and not T.isc(c):
                    r = self.env(st.guard).c(c)
                    if r is not None:
                        c = T.bool_(r)
                if c is T.TRUE:
                    return ("br", [(T.TRUE, q.x[0], st, regs)])
                if c is T.FALSE:
                    return ("br", [(T.TRUE, q.x[1], st, regs)])
                if q.x[0] == q.x[1]:
                    # phi may differ per edge? identical predecessor block: same value
                    return ("br", [(T.TRUE, q.x[0], st, regs)])
                s2 = st.fork()
                st.guard = st.guard + self.conj(c)
                s2.guard = s2.guard + self.conj(T.not_(c))
                return ("br", [(c, q.x[0], st, regs), (T.not_(c), q.x[1], s2, regs)])
            elif op == "switch":
                c = self.mat(self.val(q.ty, q.a[0], regs), q.ty)
                d, cases = q.x
                if T.isc(c):
                    cv = c.val if c.sort != "B" else int(c.val)
                    for v, l in cases:
                        if v == cv:
                            return ("br", [(T.TRUE, l, st, regs)])
                    return ("br", [(T.TRUE, d, st, regs)])
                edges = {}
                order = []
                rest = T.TRUE
                for v, l in cases:
                    e = T.eq(c, T.bv(v, q.ty.n)) if q.ty.n > 1 else (c if v else T.not_(c))
                    e = self.simp(e, st.guard)
                    if l not in edges:
                        order.append(l)
                    edges[l] = T.or_(edges.get(l, T.FALSE), e)
                    rest = T.and_(rest, T.not_(e))
                if d not in edges:
                    order.append(d)
                edges[d] = T.or_(edges.get(d, T.FALSE), rest)
                out = []
                for l in order:
                    e = self.simp(edges[l], st.guard)
                    if e is T.FALSE:
                        continue
                    s2 = st.fork()
                    if e is not T.TRUE:
                        s2.guard = s2.guard + self.conj(e)
                    out.append((e, l, s2, regs))
                return ("br", out)
            elif op == "ret":
                if q.a:
                    return ("ret", st, self.val(q.ty, q.a[0], regs))
                return ("ret", st, None)
            elif op == "icmp":
                regs[q.dst] = self.icmp(q.x, self.val(q.ty, q.a[0], regs), self.val(q.ty, q.a[1], regs), q.ty)
            elif op == "fcmp":
                regs[q.dst] = self.fcmp(q.x, self.val(q.ty, q.a[0], regs), self.val(q.ty, q.a[1], regs), q.ty)
            elif op == "select":
                c = self.val(q.x, q.a[0], regs)
                a, b = self.val(q.ty, q.a[1], regs), self.val(q.ty, q.a[2], regs)
                if isinstance(c, tuple):
                    regs[q.dst] = tuple(self.sel(x, y, z) for x, y, z in zip(c, a, b))
                else:
                    c = self.simp(self.mat(c, I(1)), st.guard)
                    if self.fold and not T.isc(c):
                        ec = self.env(st.guard).c(c)
                        if ec is not None:
                            c = T.bool_(ec)
                    if c is T.TRUE:
                        regs[q.dst] = a
                    elif c is T.FALSE:
                        regs[q.dst] = b
                    else:
                        if q.ty.k == "i" and q.ty.n == 1:
                            a, b = self.mat(a, q.ty), self.mat(b, q.ty)
                        regs[q.dst] = self.sel(c, a, b)
            elif op == "fneg":
                v = self.val(q.ty, q.a[0], regs)
                if q.ty.k == "vec":
                    regs[q.dst] = tuple(T.fop("fneg", self.mat(x, q.ty.el)) for x in v)
                else:
                    regs[q.dst] = T.fop("fneg", self.mat(v, q.ty))
            elif op == "freeze":
                v = self.val(q.ty, q.a[0], regs)
                regs[q.dst] = self.mat(v, q.ty) if not isinstance(v, tuple) else v
            elif op == "extractvalue":
                v = self.val(q.ty, q.a[0], regs)
                for k in q.x:
                    v = v[k]
                regs[q.dst] = v
            elif op == "insertvalue":
                v = self.val(q.ty, q.a[0], regs)
                e = self.val(q.x[1], q.a[1], regs)
                regs[q.dst] = self.ins(v, q.x[0], e)
            elif op == "extractelement":
                v = self.val(q.ty, q.a[0], regs)
                i = self.val(q.x, q.a[1], regs)
                if not T.isc(i):
                    raise Unsupported("symbolic extractelement")
                regs[q.dst] = v[i.val]
            elif op == "insertelement":
                v = self.val(q.ty, q.a[0], regs)
                e = self.val(q.ty.el, q.a[1], regs)
                i = self.val(q.x, q.a[2], regs)
                regs[q.dst] = self.ins(v, [i.val], e)
            elif op == "shufflevector":
                a = self.val(q.ty, q.a[0], regs)
                b = self.val(q.ty, q.a[1], regs)
                ab = tuple(a) + tuple(b)
                mt, mask = q.x
                if mask.k == "zero":
                    ms = [0] * mt.n
                elif mask.k == "undef":
                    ms = [None] * mt.n
                else:
                    ms = [None if v.k == "undef" else v.v for _, v in mask.v]
                regs[q.dst] = tuple(UNDEF if k is None else ab[k] for k in ms)
            elif op == "unreachable":
                self.obligation("unreachable", "reached unreachable code in " + f.name, st, T.FALSE)
                return None
            elif q.op in ("trunc", "zext", "sext", "fptrunc", "fpext", "fptoui", "fptosi", "uitofp", "sitofp",
                          "ptrtoint", "inttoptr", "bitcast", "addrspacecast"):
                regs[q.dst] = self.cast(op, q.x, self.val(q.x, q.a[0], regs), q.ty)
                if self.fold and op in ("fptoui", "fptosi") and isinstance(regs[q.dst], T.T) and not T.isc(regs[q.dst]):
                    iv = self.env(st.guard).u(regs[q.dst])
                    if iv and iv[0] == iv[1]:
                        regs[q.dst] = T.bv(iv[0], q.ty.n)
            else:
                regs[q.dst] = self.binop(op, q.ty, self.val(q.ty, q.a[0], regs), self.val(q.ty, q.a[1], regs), st)
        raise Unsupported("block without terminator")

    def conj(self, c):
        if c.op == "and":
            return c.args
        if c.op == "not" and c.args[0].op == "or":
            return tuple(T.not_(x) for x in c.args[0].args)
        return (c,)

    def ins(self, v, idx, e):
        v = list(v)
        if len(idx) == 1:
            v[idx[0]] = e
        else:
            v[idx[0]] = self.ins(v[idx[0]], idx[1:], e)
        return tuple(v)

    # ------------------------------------------------------------ intrinsics / externs
    def intrinsic(self, name, q, args, st, regs):
        b = name[5:]
        base = b.split(".")[0]
        if base in ("lifetime", "dbg", "experimental", "stackrestore", "prefetch", "invariant", "va_start", "va_end",
                    "va_copy", "donothing", "sideeffect"):
            return UNDEF
        if base == "assume":
            return UNDEF
        if base in ("memcpy", "memmove"):
            self.memcpy(st, args[0], args[1], args[2])
            return UNDEF
        if base == "memset":
            self.memset(st, args[0], args[1], args[2])
            return UNDEF
        if base in ("ubsantrap", "trap", "debugtrap"):
            code = args[0].val if args else -1
            nm = {2: "overflow", 3: "divrem/overflow", 5: "float-cast-overflow", 18: "array-bounds", 10: "load-invalid-value"}.get(code, str(code))
            self.obligation("trap", "undefined behaviour trap (%s)" % nm, st, T.FALSE)
            return DEAD
        if base == "is" and b.startswith("is.fpclass"):
            return self.fpclass(self.mat(args[0], q.a[0][0]), args[1].val)
        if base in ("fabs", "sqrt", "floor", "ceil", "trunc", "rint", "nearbyint", "roundeven", "round", "minnum", "maxnum", "copysign",
                    "fmuladd", "fma", "sin", "cos", "exp", "log", "pow", "exp2", "log2", "log10", "tan"):
            if q.ty.k == "vec":
                return tuple(self.fintr(base, [x[i] for x in args]) for i in range(q.ty.n))
            args = [self.mat(a, t) for a, (t, _, _) in zip(args, q.a)]
            return self.fintr(base, args)
        if base in ("umin", "umax", "smin", "smax"):
            x, y = args
            f = T.ult if base[0] == "u" else T.slt
            return T.ite(f(x, y), x, y) if base.endswith("min") else T.ite(f(y, x), x, y)
        if base == "abs":
            x = args[0]
            return T.ite(T.slt(x, T.bv(0, x.sort)), T.sub(T.bv(0, x.sort), x), x)
        if base == "usub" and ".sat" in b:
            x, y = args
            return T.ite(T.ult(x, y), T.bv(0, x.sort), T.sub(x, y))
        if base == "uadd" and ".sat" in b:
            x, y = args
            s = T.add(x, y)
            return T.ite(T.ult(s, x), T.bv(-1, x.sort), s)
        if ".with.overflow" in b:
            x, y = args
            n = x.sort
            op = base[1:]
            w = 2 * n
            ex = T.sext if base[0] == "s" else T.zext
            f = {"add": T.add, "sub": T.sub, "mul": T.mul}[op]
            r = f(x, y)
            if base == "usub":
                return (r, T.ult(x, y))
            if base == "uadd":
                return (r, T.ult(r, x))
            wide = f(ex(x, w), ex(y, w))
            return (r, T.not_(T.eq(wide, ex(r, w))))
        if base == "ctpop":
            x = args[0]
            r = T.bv(0, x.sort)
            for i in range(x.sort):
                r = T.add(r, T.zext(T.extract(x, i, i), x.sort))
            return r
        if base == "fshl" or base == "fshr":
            x, y, s = args
            n = x.sort
            if not T.isc(s):
                raise Unsupported(name)
            k = s.val % n
            w = T.concat(x, y)
            return T.extract(w, 2 * n - 1 - k, n - k) if base == "fshl" else T.extract(w, n - 1 + k, k)
        if base == "expect":
            return args[0]
        if base == "stacksave":
            return NULL
        if base == "bswap":
            x = args[0]
            n = x.sort
            r = None
            for i in range(0, n, 8):
                p = T.extract(x, i + 7, i)
                r = p if r is None else T.concat(r, p)
            return r
        if base == "vector" and "reduce" in b:
            v = args[-1]
            kind = b.split(".")[2]
            ops = {"add": T.add, "or": T.bvor, "and": T.bvand, "xor": T.bvxor}
            if kind in ("fadd",):
                r = args[0]
                for x in args[1]:
                    r = T.fop("fadd", r, x)
                return r
            r = v[0]
            for x in v[1:]:
                r = (T.or_(r, x) if kind == "or" else T.and_(r, x)) if r.sort == "B" else ops[kind](r, x)
            return r
        raise Unsupported("intrinsic " + name)

    def fpclass(self, x, mask):
        s = x.sort
        n = T.fsortbits(s)
        inf = T.mk("const", s, 0x7F800000 if s == "f" else 0x7FF << 52, ())
        ninf = T.fop("fneg", inf)
        zero = T.mk("const", s, 0, ())
        mn = T.mk("const", s, 0x00800000 if s == "f" else 1 << 52, ())
        neg = T.bv2bool(T.extract(T.bitcast(x, n), n - 1, n - 1))
        ax = T.fop("fabs", x)
        cls = [
            (0x3, T.fisnan(x)),
            (0x204, T.feq(ax, inf)),
            (0x108, T.and_(T.fle(mn, ax), T.flt(ax, inf))),
            (0x90, T.and_(T.flt(zero, ax), T.flt(ax, mn))),
            (0x60, T.feq(x, zero)),
        ]
        # finite = 0x1F8, nan = 3, inf = 0x204
        if mask == 3:
            return T.fisnan(x)
        if mask == 0x204:
            return T.feq(ax, inf)
        if mask == 0x1F8:
            return T.flt(ax, inf)
        if mask == (0x3FF & ~0x1F8):
            return T.not_(T.flt(ax, inf))
        r = T.FALSE
        for m, c in cls:
            if m == 3:
                if mask & 3:
                    r = T.or_(r, c)
                continue
            hi = {0x204: (0x200, 0x4), 0x108: (0x100, 0x8), 0x90: (0x80, 0x10), 0x60: (0x40, 0x20)}[m]
            p, q = mask & hi[0], mask & hi[1]
            if p and q:
                r = T.or_(r, c)
            elif p:
                r = T.or_(r, T.and_(c, T.not_(neg)))
            elif q:
                r = T.or_(r, T.and_(c, neg))
        return r

    def fintr(self, base, a):
        m = {"fabs": "fabs", "sqrt": "fsqrt", "floor": "ffloor", "ceil": "fceil", "trunc": "ftrunc", "rint": "frint",
             "nearbyint": "frint", "roundeven": "frint", "round": "fround", "minnum": "fmin", "maxnum": "fmax"}
        if base in m:
            return T.fop(m[base], *a)
        if base == "copysign":
            x, y = a
            n = T.fsortbits(x.sort)
            return T.bitcast(T.concat(T.extract(T.bitcast(y, n), n - 1, n - 1), T.extract(T.bitcast(x, n), n - 2, 0)), x.sort)
        if base == "fmuladd":
            return T.fop("fadd", T.fop("fmul", a[0], a[1]), a[2])
        if base == "fma":
            return T.mk("ffma", a[0].sort, None, tuple(a))
        return T.uf(base, a[0].sort, *a)

    LIBM = {"sin", "cos", "tan", "asin", "acos", "atan", "atan2", "exp", "log", "pow", "sinh", "cosh", "tanh", "log10",
            "exp2", "log2", "hypot", "cbrt", "erf", "expm1", "log1p"}

    def cstr(self, st, p):
        o = self.getobj(st, p.obj)
        s = b""
        k = p.off
        while True:
            v = self.read(o, k, 1)
            if v.val == 0:
                return s.decode()
            s += bytes([v.val])
            k += 1

    def extern(self, name, args, st):
        if name.startswith("vh_"):
            return self.vh(name, args, st)
        bare = name[:-1] if name.endswith("f") and name not in ("printf", "fprintf", "snprintf") else name
        if bare in self.LIBM:
            a = [self.mat(x, F32 if name.endswith("f") and name != "erf" else F64) for x in args]
            return st, T.uf(bare, a[0].sort, *a)
        m = {"sqrt": "fsqrt", "fabs": "fabs", "floor": "ffloor", "ceil": "fceil", "trunc": "ftrunc", "fmod": "frem",
             "fmin": "fmin", "fmax": "fmax", "rint": "frint", "round": "fround"}
        if bare in m:
            return st, T.fop(m[bare], *args)
        if bare == "copysign":
            return st, self.fintr("copysign", args)
        if name in ("_Znam", "_Znwm", "_ZnamRKSt9nothrow_t", "_ZnwmRKSt9nothrow_t", "malloc"):
            n = args[0]
            if not T.isc(n):
                raise Unsupported("symbolic allocation size")
            return st, Ptr(self.new_obj(st, n.val, "heap%d" % self.next_obj), 0)
        if name in ("_ZdaPv", "_ZdlPv", "_ZdlPvm", "_ZdaPvm", "free"):
            return st, None
        if name in ("memcpy", "memmove"):
            self.memcpy(st, args[0], args[1], args[2])
            return st, args[0]
        if name == "memset":
            self.memset(st, args[0], T.extract(args[1], 7, 0), args[2])
            return st, args[0]
        if name in ("printf", "puts", "putchar", "fprintf", "fflush", "fputc", "fwrite"):
            return st, T.bv(0, 32)
        if name in ("__cxa_atexit",):
            return st, T.bv(0, 32)
        if name in ("abort", "__assert_fail", "_ZSt9terminatev", "__cxa_pure_virtual"):
            self.obligation("trap", "call to " + name, st, T.FALSE)
            return None, None
        raise Unsupported("external function " + name)

    def input_name(self, nm):
        k = self.names.get(nm, 0)
        self.names[nm] = k + 1
        return nm if k == 0 else "%s~%d" % (nm, k)

    def vh(self, name, args, st):
        if name in ("vh_f32", "vh_f64", "vh_u8", "vh_u16", "vh_u32", "vh_u64", "vh_i32", "vh_bool"):
            nm = self.input_name(self.cstr(st, args[0]))
            sort = {"vh_f32": "f", "vh_f64": "d", "vh_u8": 8, "vh_u16": 16, "vh_u32": 32, "vh_u64": 64, "vh_i32": 32,
                    "vh_bool": "B"}[name]
            v = T.var(nm, sort)
            self.inputs.append((nm, sort, v))
            return st, v
        if name == "vh_havoc":
            return self.havoc(args, st)
        if name == "vh_assume":
            c = self.mat(args[0], I(1))
            c = self.simp(c, st.guard)
            if c is T.FALSE:
                return None, None
            if c is not T.TRUE:
                st.guard = st.guard + self.conj(c)
                if self.fold and self.env(st.guard).c(c) is False:
                    return None, None
            self.assumes.append(c)
            return st, None
        if name == "vh_assert":
            self.obligation("assert", self.cstr(st, args[1]), st, self.mat(args[0], I(1)))
            return st, None
        if name in ("vh_assert_eq", "vh_assert_eqd"):
            a, b, tol, lab = args
            self.obligation("assert", self.cstr(st, lab), st, T.feq(a, b) if a is not b else T.TRUE, eq=(a, b), tol=T.fval("d", tol.val))
            return st, None
        if name == "vh_cover":
            self.covers.append((self.cstr(st, args[0]), st.guard))
            return st, None
        if name == "vh_dump":
            print("DUMP", self.cstr(st, args[0]), args[1])
            return st, None
        raise Unsupported(name)

    def havoc(self, args, st):
        p, tyname, label = self.toptr(args[0]), self.cstr(st, args[1]), self.cstr(st, args[2])
        ty = None
        for cand in ("%" + tyname, '%"' + tyname + '"'):
            if cand in self.m.types:
                ty = self.m.named(cand)
        if ty is None:
            raise Unsupported("havoc type " + tyname)
        nm = self.input_name(label)
        leaves = []

        def walk(t, off, path):
            k = t.k
            if k == "struct":
                for i, (e, o) in enumerate(zip(t.els, self.m.offs(t))):
                    walk(e, off + o, path + ".%d" % i)
            elif k in ("arr", "vec"):
                es = self.m.size(t.el)
                for i in range(t.n):
                    walk(t.el, off + i * es, path + "[%d]" % i)
            elif k == "ptr":
                return
            else:
                leaves.append((off, self.m.size(t), T.var("%s%s" % (nm, path), "f" if k == "float" else "d" if k == "double" else self.m.size(t) * 8)))
        walk(ty, 0, "")
        oid, base = p.obj, p.off
        o = self.wobj(st, oid)
        for off, n, v in leaves:
            self.write(o, base + off, v)
        self.havocs.append((nm, leaves))
        return st, None


class _Dead:
    pass


DEAD = _Dead()


def run(mod, fname, args=(), **kw):
    ex = Exec(mod, **kw)
    st = State((), {}, set())
    f = mod.fn(fname)
    a = []
    for (t, _, _), v in zip(f.params, args):
        a.append(T.bv(v, t.n))
    st2, _ = ex.call(fname, a, st)
    ex.final = st2
    return ex
