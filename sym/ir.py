"""Parser for textual LLVM 18 IR (the subset clang emits for this code base)."""
import re
import struct

TOK = re.compile(r'''
  \s*(?:
   (?P<str>c?"(?:[^"])*") |
   (?P<name>[%@](?:"[^"]*"|[-a-zA-Z$._0-9]+)) |
   (?P<meta>![-a-zA-Z$._0-9]*) |
   (?P<attr>\#\d+) |
   (?P<num>-?\d+\.\d+e[+-]\d+|0x[KLMHR]?[0-9A-Fa-f]+|-?\d+) |
   (?P<word>[a-zA-Z_][-a-zA-Z$._0-9]*) |
   (?P<dots>\.\.\.) |
   (?P<p><\{|\}>|[\[\]{}()<>,=*|:])
  )''', re.X)


def tokenize(s):
    out = []
    i = 0
    n = len(s)
    while i < n:
        if s[i] in " \t":
            i += 1
            continue
        if s[i] == ";":
            break
        m = TOK.match(s, i)
        if not m:
            raise SyntaxError("tok: %r" % s[i:i + 60])
        out.append(m.group(m.lastgroup))
        i = m.end()
    return out


# ------------------------------------------------------------ types
class Ty:
    __slots__ = ("k", "n", "el", "els", "name", "packed", "_sz", "_al", "_offs")

    def __init__(self, k, n=0, el=None, els=None, name=None, packed=False):
        self.k, self.n, self.el, self.els, self.name, self.packed = k, n, el, els, name, packed
        self._sz = self._al = self._offs = None

    def __repr__(self):
        if self.k == "i":
            return "i%d" % self.n
        if self.k == "arr":
            return "[%d x %r]" % (self.n, self.el)
        if self.k == "vec":
            return "<%d x %r>" % (self.n, self.el)
        if self.k == "struct":
            return self.name or "{%s}" % ", ".join(map(repr, self.els))
        return self.k


VOID = Ty("void")
F32 = Ty("float")
F64 = Ty("double")
PTR = Ty("ptr")
LABEL = Ty("label")
META = Ty("metadata")
_ints = {}


def I(n):
    if n not in _ints:
        _ints[n] = Ty("i", n)
    return _ints[n]


class Const:
    """constant operand: kinds int, fp(bits), null, undef, zero, agg, global, expr, str"""
    __slots__ = ("k", "v")

    def __init__(self, k, v=None):
        self.k, self.v = k, v

    def __repr__(self):
        return "C(%s,%r)" % (self.k, self.v)


class Reg:
    __slots__ = ("n",)

    def __init__(self, n):
        self.n = n

    def __repr__(self):
        return self.n


class Instr:
    __slots__ = ("op", "dst", "ty", "a", "x", "line")

    def __init__(self, op, dst, ty, a, x=None):
        self.op, self.dst, self.ty, self.a, self.x = op, dst, ty, a, x


class Fn:
    def __init__(self):
        self.blocks = None
        self.order = None


LINKAGE = {"private", "internal", "available_externally", "linkonce", "weak", "common", "appending",
           "extern_weak", "linkonce_odr", "weak_odr", "external", "dso_local", "dso_preemptable", "default",
           "hidden", "protected", "unnamed_addr", "local_unnamed_addr", "thread_local", "fastcc", "ccc", "coldcc",
           "tail", "musttail", "notail", "fast", "nnan", "ninf", "nsz", "arcp", "contract", "afn", "reassoc"}
PATTR = {"noundef", "nonnull", "zeroext", "signext", "inreg", "nocapture", "readonly", "readnone", "writeonly",
         "returned", "noalias", "immarg", "nofree", "swiftself", "nest", "mustprogress", "noreturn", "nounwind",
         "allocalign", "allocptr", "writable", "dead_on_unwind"}
PATTRP = {"align", "dereferenceable", "dereferenceable_or_null", "sret", "byval", "range", "elementtype", "initializes", "captures"}


class Module:
    def __init__(self, path):
        self.types = {}
        self.globals = {}
        self.fn_src = {}
        self.decls = {}
        self._fns = {}
        self.meta = {}
        self.load(path)

    def load(self, path):
        with open(path) as f:
            lines = f.read().split("\n")
        i = 0
        n = len(lines)
        gl = []
        while i < n:
            L = lines[i]
            c = L[:1]
            if c == "%":
                m = re.match(r'(%(?:"[^"]*"|[-\w$.]+)) = type (.*)', L)
                if m:
                    self.types[m.group(1)] = m.group(2)
            elif c == "@":
                gl.append(L)
            elif c == "!":
                m = re.match(r'(!\d+) = (?:distinct )?!\{(.*)\}', L)
                if m:
                    self.meta[m.group(1)] = m.group(2)
            elif L.startswith("define "):
                j = i + 1
                while lines[j] != "}":
                    j += 1
                m = re.search(r'@("[^"]*"|[-\w$.]+)\s*\(', L)
                self.fn_src[m.group(1).strip('"')] = (L, lines[i + 1:j])
                i = j
            elif L.startswith("declare "):
                m = re.search(r'@("[^"]*"|[-\w$.]+)\s*\(', L)
                self.decls[m.group(1).strip('"')] = L
            i += 1
        self._ty = {}
        for k in list(self.types):
            self.named(k)
        for L in gl:
            self.parse_global(L)

    def named(self, name):
        t = self._ty.get(name)
        if t is None:
            t = Ty("struct", name=name)
            self._ty[name] = t
            src = self.types[name]
            if src == "opaque":
                t.els = []
            else:
                p = P(self, tokenize(src))
                u = p.type()
                t.els = u.els
                t.packed = u.packed
        return t

    def parse_global(self, L):
        toks = tokenize(L)
        p = P(self, toks)
        name = p.next()[1:].strip('"')
        p.expect("=")
        const = False
        while True:
            t = p.peek()
            if t in ("constant", "global"):
                const = t == "constant"
                p.next()
                break
            if t == "alias":
                p.next()
                p.type()
                p.expect(",")
                p.type()
                self.globals[name] = ("alias", p.next()[1:].strip('"'), None)
                return
            p.next()
            if t == "thread_local" and p.peek() == "(":
                p.skip_paren()
        ty = p.type()
        init = None
        t = p.peek()
        if t is not None and t not in (",", "section", "align", "comdat"):
            init = p.value(ty)
        self.globals[name] = (ty, init, const)

    def fn(self, name):
        f = self._fns.get(name)
        if f is None:
            src = self.fn_src.get(name)
            if src is None:
                return None
            f = parse_fn(self, name, src)
            self._fns[name] = f
        return f

    # ---------------- layout
    def size(self, t):
        if t._sz is None:
            k = t.k
            if k == "i":
                b = (t.n + 7) // 8
                s = 1
                while s < b:
                    s *= 2
                t._sz, t._al = s, s
                if t.n > 64:
                    t._al = 16
            elif k == "float":
                t._sz = t._al = 4
            elif k in ("double", "ptr"):
                t._sz = t._al = 8
            elif k == "arr":
                t._sz = t.n * self.size(t.el)
                t._al = t.el._al
            elif k == "vec":
                s = t.n * self.size(t.el)
                t._sz = t._al = s
            elif k == "struct":
                o = 0
                al = 1
                offs = []
                for e in t.els:
                    sz = self.size(e)
                    a = 1 if t.packed else e._al
                    al = max(al, a)
                    o = (o + a - 1) // a * a
                    offs.append(o)
                    o += sz
                o = (o + al - 1) // al * al
                t._sz, t._al, t._offs = o, al, offs
            else:
                raise TypeError(k)
        return t._sz

    def offs(self, t):
        self.size(t)
        return t._offs


class P:
    def __init__(self, mod, toks):
        self.m = mod
        self.t = toks
        self.i = 0

    def peek(self, k=0):
        j = self.i + k
        return self.t[j] if j < len(self.t) else None

    def next(self):
        x = self.t[self.i]
        self.i += 1
        return x

    def expect(self, x):
        y = self.next()
        if y != x:
            raise SyntaxError("expected %r got %r in %s" % (x, y, " ".join(self.t)))

    def accept(self, x):
        if self.peek() == x:
            self.i += 1
            return True
        return False

    def skip_paren(self):
        d = 0
        while True:
            t = self.next()
            if t in "([{<" or t == "<{":
                d += 1
            elif t in ")]}>" or t == "}>":
                d -= 1
                if d == 0:
                    return

    def type(self):
        t = self.next()
        if t == "void":
            r = VOID
        elif t == "float":
            r = F32
        elif t == "double":
            r = F64
        elif t == "ptr":
            r = PTR
            if self.peek() == "addrspace":
                self.next()
                self.skip_paren()
        elif t == "label":
            r = LABEL
        elif t == "metadata":
            r = META
        elif t == "x86_fp80":
            r = Ty("x86_fp80")
        elif re.fullmatch(r"i\d+", t):
            r = I(int(t[1:]))
        elif t == "[":
            n = int(self.next())
            self.expect("x")
            e = self.type()
            self.expect("]")
            r = Ty("arr", n, e)
        elif t == "<":
            n = int(self.next())
            self.expect("x")
            e = self.type()
            self.expect(">")
            r = Ty("vec", n, e)
        elif t in ("{", "<{"):
            end = "}" if t == "{" else "}>"
            els = []
            if not self.accept(end):
                while True:
                    els.append(self.type())
                    if self.accept(end):
                        break
                    self.expect(",")
            r = Ty("struct", els=els, packed=t == "<{")
        elif t[0] == "%":
            r = self.m.named(t)
        else:
            raise SyntaxError("type %r in %s" % (t, " ".join(self.t)))
        # function type
        while self.peek() == "(":
            save = self.i
            self.skip_paren()
            r = Ty("fn", el=r)
        return r

    def attrs(self):
        al = None
        while True:
            t = self.peek()
            if t in PATTR:
                self.next()
            elif t in PATTRP:
                self.next()
                if self.peek() == "(":
                    self.skip_paren()
                elif t == "align":
                    self.next()
            elif t is not None and (t.startswith("#") or t[0] == '"'):
                self.next()
            elif t in LINKAGE:
                self.next()
            elif t == "nofpclass":
                self.next()
                self.skip_paren()
            else:
                return

    def value(self, ty):
        t = self.next()
        if t[0] == "%":
            return Reg(t)
        if t[0] == "@":
            return Const("global", t[1:].strip('"'))
        k = ty.k
        if t == "true":
            return Const("int", 1)
        if t == "false":
            return Const("int", 0)
        if t == "null":
            return Const("null")
        if t in ("undef", "poison"):
            return Const("undef")
        if t == "zeroinitializer":
            return Const("zero")
        if t == "splat":
            self.expect("(")
            et = self.type()
            v = self.value(et)
            self.expect(")")
            return Const("agg", [(et, v)] * ty.n)
        if t[0] in 'c"' and t.endswith('"'):
            s = t[2:-1]
            bs = []
            i = 0
            while i < len(s):
                if s[i] == "\\":
                    if s[i + 1] == "\\":
                        bs.append(92)
                        i += 2
                    else:
                        bs.append(int(s[i + 1:i + 3], 16))
                        i += 3
                else:
                    bs.append(ord(s[i]))
                    i += 1
            return Const("agg", [(I(8), Const("int", b)) for b in bs])
        if t in ("[", "{", "<", "<{"):
            end = {"[": "]", "{": "}", "<": ">", "<{": "}>"}[t]
            out = []
            if not self.accept(end):
                while True:
                    et = self.type()
                    out.append((et, self.value(et)))
                    if self.accept(end):
                        break
                    self.expect(",")
            return Const("agg", out)
        if k == "i" and t.lstrip("-").isdigit():
            return Const("int", int(t) & ((1 << ty.n) - 1))
        if k in ("float", "double"):
            if t.startswith("0x"):
                d = struct.unpack("<d", struct.pack("<Q", int(t, 16)))[0]
            else:
                d = float(t)
            if k == "float":
                if d != d:
                    b = 0x7FC00000
                else:
                    b = struct.unpack("<I", struct.pack("<f", d))[0]
            else:
                b = struct.unpack("<Q", struct.pack("<d", d))[0]
            return Const("fp", b)
        # constant expressions
        if t == "getelementptr":
            self.accept("inbounds")
            while self.peek() in ("nuw", "nusw"):
                self.next()
            if self.peek() == "inrange":
                self.next()
                self.skip_paren()
            self.expect("(")
            bt = self.type()
            self.expect(",")
            self.type()
            base = self.value(PTR)
            idx = []
            while self.accept(","):
                while self.peek() == "inrange":
                    self.next()
                it = self.type()
                idx.append((it, self.value(it)))
            self.expect(")")
            return Const("gep", (bt, base, idx))
        if t in ("ptrtoint", "inttoptr", "bitcast", "trunc", "zext", "sext"):
            self.expect("(")
            ft = self.type()
            v = self.value(ft)
            self.expect("to")
            tt = self.type()
            self.expect(")")
            return Const("cast", (t, ft, v, tt))
        if t in ("add", "sub", "mul", "and", "or", "xor", "shl"):
            while self.peek() in ("nuw", "nsw"):
                self.next()
            self.expect("(")
            t1 = self.type()
            v1 = self.value(t1)
            self.expect(",")
            t2 = self.type()
            v2 = self.value(t2)
            self.expect(")")
            return Const("bin", (t, t1, v1, v2))
        raise SyntaxError("value %r in %s" % (t, " ".join(self.t)))

    def tv(self):
        ty = self.type()
        self.attrs()
        return ty, self.value(ty)


BIN = {"add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "shl", "lshr", "ashr", "and", "or", "xor",
       "fadd", "fsub", "fmul", "fdiv", "frem"}
CAST = {"trunc", "zext", "sext", "fptrunc", "fpext", "fptoui", "fptosi", "uitofp", "sitofp", "ptrtoint",
        "inttoptr", "bitcast", "addrspacecast"}
FLAGS = {"nuw", "nsw", "exact", "fast", "nnan", "ninf", "nsz", "arcp", "contract", "afn", "reassoc", "disjoint", "nneg",
         "inbounds", "volatile", "samesign"}


def parse_fn(mod, name, src):
    head, body = src
    f = Fn()
    f.name = name
    p = P(mod, tokenize(head[7:]))
    # return type
    p.attrs()
    while p.peek() in LINKAGE or p.peek() in PATTR or p.peek() in PATTRP:
        p.attrs()
    f.ret = p.type()
    p.next()  # name
    p.expect("(")
    f.params = []
    if not p.accept(")"):
        while True:
            if p.accept("..."):
                p.expect(")")
                break
            t = p.type()
            byval = None
            while p.peek() in PATTR or p.peek() in PATTRP or p.peek() == "nofpclass":
                if p.peek() == "byval":
                    p.next()
                    p.expect("(")
                    byval = p.type()
                    p.expect(")")
                else:
                    p.attrs() if p.peek() != "byval" else None
            f.params.append((t, p.next(), byval))
            if p.accept(")"):
                break
            p.expect(",")
    f.blocks = {}
    f.order = []
    cur = None
    nparam = len(f.params)
    first = True
    i = 0
    lines = body
    while i < len(lines):
        L = lines[i]
        i += 1
        if not L or L.startswith(";"):
            continue
        m = re.match(r'^("[^"]*"|[-\w$.]+):', L)
        if m:
            cur = "%" + m.group(1)
            f.blocks[cur] = []
            f.order.append(cur)
            first = False
            continue
        if first:
            # unnamed entry: number after params (unnamed params consume numbers)
            k = 0
            for _, pn, _b in f.params:
                if re.fullmatch(r"%\d+", pn):
                    k += 1
            cur = "%%%d" % k
            f.blocks[cur] = []
            f.order.append(cur)
            first = False
        s = L.strip()
        if s.startswith("switch") and s.endswith("["):
            while not lines[i].strip().startswith("]"):
                s += " " + lines[i].strip()
                i += 1
            s += " " + lines[i].strip()
            i += 1
        if s.startswith("#dbg"):
            continue
        try:
            f.blocks[cur].append(parse_instr(mod, s))
        except Exception as e:
            raise SyntaxError("%s\n in %s: %s" % (e, name, s))
    analyse(f)
    return f


def skipflags(p):
    while p.peek() in FLAGS:
        p.next()


def parse_instr(mod, s):
    p = P(mod, tokenize(s))
    dst = None
    if p.peek()[0] == "%" and p.peek(1) == "=":
        dst = p.next()
        p.next()
    op = p.next()
    if op in ("tail", "musttail", "notail"):
        op = p.next()
    if op in BIN:
        skipflags(p)
        ty = p.type()
        a = p.value(ty)
        p.expect(",")
        b = p.value(ty)
        return Instr(op, dst, ty, (a, b))
    if op in CAST:
        skipflags(p)
        ft = p.type()
        v = p.value(ft)
        p.expect("to")
        tt = p.type()
        return Instr(op, dst, tt, (v,), ft)
    if op == "fneg":
        skipflags(p)
        ty = p.type()
        return Instr(op, dst, ty, (p.value(ty),))
    if op == "freeze":
        ty = p.type()
        return Instr(op, dst, ty, (p.value(ty),))
    if op in ("icmp", "fcmp"):
        skipflags(p)
        pred = p.next()
        ty = p.type()
        a = p.value(ty)
        p.expect(",")
        b = p.value(ty)
        return Instr(op, dst, ty, (a, b), pred)
    if op == "select":
        skipflags(p)
        ct, c = p.tv()
        p.expect(",")
        t1, a = p.tv()
        p.expect(",")
        t2, b = p.tv()
        return Instr(op, dst, t1, (c, a, b), ct)
    if op == "phi":
        skipflags(p)
        ty = p.type()
        inc = []
        while True:
            p.expect("[")
            v = p.value(ty)
            p.expect(",")
            b = p.next()
            p.expect("]")
            inc.append((v, b))
            if not p.accept(","):
                break
        return Instr(op, dst, ty, None, inc)
    if op == "load":
        skipflags(p)
        ty = p.type()
        p.expect(",")
        _, v = p.tv()
        rng = None
        rest = p.t[p.i:]
        if "!range" in rest:
            rng = rest[rest.index("!range") + 1]
        return Instr(op, dst, ty, (v,), rng)
    if op == "store":
        skipflags(p)
        ty, v = p.tv()
        p.expect(",")
        _, q = p.tv()
        return Instr(op, None, ty, (v, q))
    if op == "alloca":
        p.accept("inalloca")
        ty = p.type()
        n = None
        if p.accept(",") and p.peek() != "align":
            n = p.tv()
        return Instr(op, dst, ty, (), n)
    if op == "getelementptr":
        skipflags(p)
        ty = p.type()
        p.expect(",")
        _, b = p.tv()
        idx = []
        while p.accept(","):
            if p.peek().startswith("!"):
                break
            idx.append(p.tv())
        return Instr(op, dst, ty, (b,), idx)
    if op == "br":
        if p.accept("label"):
            return Instr(op, None, None, (), [p.next()])
        ty, c = p.tv()
        p.expect(",")
        p.expect("label")
        a = p.next()
        p.expect(",")
        p.expect("label")
        b = p.next()
        return Instr(op, None, None, (c,), [a, b])
    if op == "switch":
        ty, c = p.tv()
        p.expect(",")
        p.expect("label")
        d = p.next()
        p.expect("[")
        cases = []
        while not p.accept("]"):
            t, v = p.tv()
            p.expect(",")
            p.expect("label")
            cases.append((v.v, p.next()))
        return Instr(op, None, ty, (c,), (d, cases))
    if op == "ret":
        ty = p.type()
        if ty.k == "void":
            return Instr(op, None, ty, ())
        return Instr(op, None, ty, (p.value(ty),))
    if op == "unreachable":
        return Instr(op, None, None, ())
    if op in ("extractvalue",):
        ty, v = p.tv()
        idx = []
        while p.accept(","):
            if p.peek().startswith("!"):
                break
            idx.append(int(p.next()))
        return Instr(op, dst, ty, (v,), idx)
    if op == "insertvalue":
        ty, v = p.tv()
        p.expect(",")
        et, e = p.tv()
        idx = []
        while p.accept(","):
            if p.peek().startswith("!"):
                break
            idx.append(int(p.next()))
        return Instr(op, dst, ty, (v, e), (idx, et))
    if op == "extractelement":
        ty, v = p.tv()
        p.expect(",")
        it, i = p.tv()
        return Instr(op, dst, ty, (v, i), it)
    if op == "insertelement":
        ty, v = p.tv()
        p.expect(",")
        et, e = p.tv()
        p.expect(",")
        it, i = p.tv()
        return Instr(op, dst, ty, (v, e, i), it)
    if op == "shufflevector":
        ty, v = p.tv()
        p.expect(",")
        _, w = p.tv()
        p.expect(",")
        mt, mask = p.tv()
        return Instr(op, dst, ty, (v, w), (mt, mask))
    if op == "call":
        skipflags(p)
        while p.peek() in LINKAGE or p.peek() in PATTR or p.peek() in PATTRP or p.peek() == "nofpclass":
            p.attrs()
        rt = p.type()
        if rt.k == "fn":
            rt = rt.el
        callee = p.next()
        if callee[0] == "@":
            callee = Const("global", callee[1:].strip('"'))
        elif callee[0] == "%":
            callee = Reg(callee)
        else:
            raise SyntaxError("callee %s" % callee)
        p.expect("(")
        args = []
        if not p.accept(")"):
            while True:
                t = p.type()
                byval = None
                while p.peek() in PATTR or p.peek() in PATTRP or p.peek() == "nofpclass":
                    if p.peek() == "byval":
                        p.next()
                        p.expect("(")
                        byval = p.type()
                        p.expect(")")
                    else:
                        p.attrs()
                if t.k == "metadata":
                    p.next()
                    args.append((t, None, None))
                else:
                    args.append((t, p.value(t), byval))
                if p.accept(")"):
                    break
                p.expect(",")
        return Instr(op, dst, rt, args, callee)
    raise SyntaxError("opcode " + op)


def succs(ins):
    if ins.op == "br":
        return ins.x
    if ins.op == "switch":
        return [ins.x[0]] + [l for _, l in ins.x[1]]
    return []


def analyse(f):
    """RPO, natural loops; f.key(block, iters)"""
    entry = f.order[0]
    f.entry = entry
    f.succ = {b: list(dict.fromkeys(succs(ins[-1]))) for b, ins in f.blocks.items()}
    # rpo
    seen = set()
    post = []
    st = [(entry, iter(f.succ[entry]))]
    seen.add(entry)
    while st:
        b, it = st[-1]
        for s in it:
            if s not in seen:
                seen.add(s)
                st.append((s, iter(f.succ[s])))
                break
        else:
            post.append(b)
            st.pop()
    rpo = list(reversed(post))
    f.rpo = {b: i for i, b in enumerate(rpo)}
    preds = {b: [] for b in rpo}
    for b in rpo:
        for s in f.succ[b]:
            preds[s].append(b)
    f.preds = preds
    # dominators
    idom = {entry: entry}
    ch = True
    while ch:
        ch = False
        for b in rpo[1:]:
            new = None
            for q in preds[b]:
                if q in idom:
                    if new is None:
                        new = q
                    else:
                        x, y = new, q
                        while x != y:
                            while f.rpo[x] > f.rpo[y]:
                                x = idom[x]
                            while f.rpo[y] > f.rpo[x]:
                                y = idom[y]
                        new = x
            if idom.get(b) != new:
                idom[b] = new
                ch = True

    def dom(a, b):
        while True:
            if a == b:
                return True
            if b == entry:
                return False
            b = idom[b]
    loops = {}
    for b in rpo:
        for s in f.succ[b]:
            if f.rpo[s] <= f.rpo[b]:
                if not dom(s, b):
                    raise SyntaxError("irreducible loop in " + f.name)
                body = loops.setdefault(s, {s})
                st = [b]
                while st:
                    x = st.pop()
                    if x not in body:
                        body.add(x)
                        st.extend(preds[x])
    f.loops = loops
    f.nest = {}
    for b in rpo:
        hs = [h for h, body in loops.items() if b in body]
        hs.sort(key=lambda h: f.rpo[h])
        f.nest[b] = hs
