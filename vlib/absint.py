"""Abstract interpretation of the library's IR over string terms.

The IO headers are compiled against stand-in headers (vlib/shim) in which std::string is a handle and every
string, number-format and file operation is a primitive; this module gives the primitives their meaning on terms
(sterm.py).  Values are constants or terms; control flow that depends on a term partitions the analysis, each
partition carrying the linear facts that select it."""
import struct, math, time
from . import llvm as L, sterm as S
from .sterm import T, mk, Fork, M64, sgn, add, sub, mulc, UNDEF

NumClauses = L._fn("LLVMGetNumClauses", L.u, L.P)
Clause = L._fn("LLVMGetClause", L.P, L.P, L.u)
IsCleanup = L._fn("LLVMIsCleanup", L.i, L.P)


class Unsup(Exception):
    pass


class ThrowX(Exception):
    def __init__(self, ti):
        self.ti = ti


STD_BASES = {"_ZTISt12out_of_range": ["_ZTISt11logic_error"], "_ZTISt12length_error": ["_ZTISt11logic_error"], "_ZTISt16invalid_argument": ["_ZTISt11logic_error"],
             "_ZTISt11logic_error": ["_ZTISt9exception"], "_ZTISt13runtime_error": ["_ZTISt9exception"], "_ZTISt11range_error": ["_ZTISt13runtime_error"],
             "_ZTISt9bad_alloc": ["_ZTISt9exception"], "_ZTISt8bad_cast": ["_ZTISt9exception"], "_ZTISt9exception": [],
             "_ZTISt20bad_array_new_length": ["_ZTISt9bad_alloc"]}
OPN = {n: k for k, n in enumerate(["ret", "br", "switch", "invoke", "call", "phi", "load", "store", "gep", "alloca", "icmp", "add", "sub", "select", "zext", "sext", "trunc", "mul"])}
BYTEY = ("bytes", "vb", "bseg", "byteof", "d2i", "f2i")
SWAPF = {"ogt": "olt", "oge": "ole", "ugt": "ult", "uge": "ule"}
BOOLY = ("cmp", "eq", "streq", "ok", "fcmp", "not")


class Prog:
    def __init__(self, bc):
        self.m = L.Module(bc)
        self.fns = {}
        self.gl = {}
        self.tb = {}
        g = L.FirstGlobal(self.m.m)
        self.gh = {}
        while g:
            self.gh[L.vname(g)] = g
            g = L.NextGlobal(g)
        self.loc0 = self.m.loc
        self.m.loc = lambda x: None

    def ginit(self, name):
        if name not in self.gl:
            g = self.gh.get(name)
            ini = L.GlobalInit(g) if g else None
            self.gl[name] = (self.m.operand(ini, {}), self.m.ty(L.TypeOf(ini))) if ini else None
        return self.gl[name]

    def bases(self, ti):
        if ti in self.tb:
            return self.tb[ti]
        r = []
        if ti in STD_BASES:
            r = STD_BASES[ti]
        else:
            gi = self.ginit(ti)
            if gi and gi[0][0] == "agg":
                for o in gi[0][2]:
                    if o[0] == "g" and o[1].startswith("_ZTI"):
                        r.append(o[1])
        self.tb[ti] = r
        return r

    def isa(self, ti, want):
        if ti == want:
            return True
        return any(self.isa(b, want) for b in self.bases(ti))

    def fn(self, name):
        if name in self.fns:
            return self.fns[name]
        f = L.NamedFn(self.m.m, name.encode())
        r = None
        if f and not L.IsDecl(f):
            r = self._conv(f)
        self.fns[name] = r
        return r

    def const(self, o, ty=None):
        k = o[0]
        if k == "i":
            return o[2]
        if k == "f":
            return o[1]
        if k == "null":
            return 0
        if k == "undef":
            return UNDEF
        if k == "fn":
            return ("FN", o[1])
        if k == "g":
            return ("P", ("G", o[1]), 0)
        if k == "gep":
            b = self.const(o[1])
            if b[0] == "P":
                return ("P", b[1], b[2] + o[2])
            raise Unsup("gep const")
        if k == "zero":
            return self.zero(o[1])
        if k == "agg":
            return ("A", tuple(self.const(x) for x in o[2]))
        return ("BADCONST", o)

    def zero(self, ty):
        if ty.kind in ("int", "ptr"):
            return 0
        if ty.kind in ("double", "float"):
            return 0.0
        if ty.kind == "struct":
            return ("A", tuple(self.zero(e) for e in ty.elems))
        return ("A", tuple(self.zero(ty.elems[0]) for _ in range(ty.n)))

    def _conv(self, f):
        m = self.m
        F = m._conv(f)
        # landing-pad clauses
        lp = {}
        b = L.FirstBB(f)
        bi = 0
        while b:
            x = L.FirstI(b)
            while x:
                if L.Opcode(x) == 59:
                    n = NumClauses(x)
                    cl = []
                    for j in range(n):
                        o = m.operand(Clause(x, j), {})
                        cl.append(o[1] if o[0] == "g" else None if o[0] == "null" else "FILTER")
                    lp[bi] = (cl, bool(IsCleanup(x)))
                x = L.NextI(x)
            b = L.NextBB(b)
            bi += 1
        F.lp = lp
        cv = lambda o: o[1] if o[0] == "v" else ("c", self.const(o))
        F.code = []
        for B in F.blocks:
            code = []
            for I in B.insts:
                op = I.op
                if op == "phi":
                    code.append((op, I.id, I.ty, [(p, cv(o)) for p, o in I.x], None))
                elif op in ("call", "invoke"):
                    callee = I.x["callee"]
                    if callee[0] == "fn" and callee[1].startswith(("llvm.lifetime", "llvm.assume", "llvm.dbg", "llvm.experimental.noalias", "llvm.stacksave", "llvm.stackrestore")):
                        if op == "call":
                            continue
                    code.append((op, I.id, I.ty, [cv(o) for o in I.ops], (callee[1] if callee[0] == "fn" else None, None if callee[0] == "fn" else cv(callee), I.x)))
                elif op == "switch":
                    code.append((op, I.id, I.ty, [cv(I.ops[0])], (I.x["default"], [(o[2], s, o[1]) for o, s in I.x["cases"]])))
                elif op == "gep":
                    base = cv(I.ops[0])
                    if I.x is None:
                        raise Unsup("gep")
                    c = sum(z for z in I.x if isinstance(z, int))
                    vs = [(z[0], cv(z[1])) for z in I.x if not isinstance(z, int)]
                    code.append((op, I.id, I.ty, [base], (c, vs)))
                else:
                    code.append((op, I.id, I.ty, [cv(o) for o in I.ops], I.x))
            F.code.append(code)
        F.tys = {}
        for B in F.blocks:
            for I in B.insts:
                F.tys[I.id] = I.ty
        for pid, ty, _ in F.params:
            F.tys[pid] = ty
        F.optys = {}
        return F


class UB(Unsup):
    """behaviour the language leaves undefined, on every input of the partition"""
    def __init__(self, msg):
        Unsup.__init__(self, "undefined behaviour: " + msg)


class Frame:
    __slots__ = ("F", "regs", "bb", "pc", "prev", "ret", "allocs", "pad")

    def clone(self):
        f = Frame()
        f.F, f.regs, f.bb, f.pc, f.prev, f.ret, f.allocs, f.pad = self.F, dict(self.regs), self.bb, self.pc, self.prev, self.ret, list(self.allocs), self.pad
        return f


class State:
    def __init__(self):
        self.frames, self.mem, self.own = [], {}, set()
        self.path = S.Path()
        self.events = []
        self.fstate, self.files = {}, {}
        self.exc, self.caught = None, []
        self.nb = 0
        self.freed = set()
        self.counters = {}
        self.sz = {}

    def clone(self):
        s = State()
        s.frames = [f.clone() for f in self.frames]
        s.mem = dict(self.mem)
        s.own = set()
        self.own = set()
        s.path = self.path.clone()
        s.events = list(self.events)
        s.fstate = {k: dict(v) for k, v in self.fstate.items()}
        s.files = dict(self.files)
        s.exc, s.caught = self.exc, list(self.caught)
        s.nb = self.nb
        s.freed = set(self.freed)
        s.counters = dict(self.counters)
        s.sz = dict(self.sz)
        return s

    def wr(self, base):
        d = self.mem.get(base)
        if d is None:
            d = {}
            self.mem[base] = d
            self.own.add(base)
        elif base not in self.own:
            d = dict(d)
            self.mem[base] = d
            self.own.add(base)
        return d


def iskb(v):
    return isinstance(v, T) and v.op == "kb"


def kbof(v, w):
    """(mask of known bits, their values)"""
    m = (1 << w) - 1
    if v is UNDEF:
        return 0, 0
    if isinstance(v, int):
        return m, v & m
    if iskb(v):
        return v.a[1], v.a[2]
    return 0, 0


def mkkb(w, known, val):
    m = (1 << w) - 1
    known &= m
    if known == m:
        return val & m
    if not known:
        return UNDEF
    return mk("kb", w, known, val & known)


def kbop(op, w, a, b):
    """bitwise operations on words some of whose bits are indeterminate"""
    m = (1 << w) - 1
    (ka, va), (kb, vb) = kbof(a, w), kbof(b, w)
    if op == "and":
        return mkkb(w, (ka & kb) | (ka & ~va) | (kb & ~vb), va & vb)
    if op == "or":
        return mkkb(w, (ka & kb) | (ka & va) | (kb & vb), va | vb)
    if op == "xor":
        return mkkb(w, ka & kb, va ^ vb)
    if isinstance(b, int):
        if op == "shl":
            return mkkb(w, (ka << b) | ((1 << b) - 1), va << b)
        if op == "lshr":
            return mkkb(w, (ka >> b) | (m & ~(m >> b)), va >> b)
    return UNDEF


def tobytes(v, n, kind="i"):
    if v is UNDEF:
        return [UNDEF] * n
    if iskb(v):
        return [mkkb(8, v.a[1] >> (8 * i), v.a[2] >> (8 * i)) for i in range(n)]
    if isinstance(v, float):
        v = struct.unpack("<Q", struct.pack("<d", v))[0] if n == 8 else struct.unpack("<I", struct.pack("<f", v))[0]
    if isinstance(v, bool):
        v = int(v)
    if isinstance(v, int):
        return [(v >> (8 * i)) & 255 for i in range(n)]
    if isinstance(v, T):
        if kind in ("d", "f"):
            v = d2i(v) if kind == "d" else f2i(v)
        if v.op == "bytes":
            bs = list(v.a[1:])
            return (bs + [0] * n)[:n]
        if v.op in ("vb", "bseg", "byteof"):
            return [v] + [0] * (n - 1)
        if v.op == "zext" and v.a[0] % 8 == 0 and v.a[0] // 8 < n:
            return tobytes(v.a[1], v.a[0] // 8) + [0] * (n - v.a[0] // 8)
        if v.op in BOOLY:
            return [v] + [0] * (n - 1)
        return [mk("byteof", v, i, n) for i in range(n)]
    if isinstance(v, tuple):
        return [("PB", v, i) for i in range(n)]
    raise Unsup("bytes of %r" % (v,))


def frombytes(bs):
    n = len(bs)
    if all(b is UNDEF for b in bs):
        return UNDEF
    if any(iskb(b) for b in bs) and all(b is UNDEF or iskb(b) or isinstance(b, int) for b in bs):
        kn = va = 0
        for i, b in enumerate(bs):
            x, y = kbof(b, 8)
            kn |= x << (8 * i)
            va |= y << (8 * i)
        return mkkb(8 * n, kn, va)
    if all(isinstance(b, int) for b in bs):
        return sum(b << (8 * i) for i, b in enumerate(bs))
    if isinstance(bs[0], tuple) and bs[0][0] == "PB":
        if all(isinstance(b, tuple) and b[1] == bs[0][1] and b[2] == i for i, b in enumerate(bs)):
            return bs[0][1]
        raise Unsup("partial pointer")
    if isinstance(bs[0], T) and bs[0].op == "byteof" and bs[0].a[2] == n and all(isinstance(b, T) and b.op == "byteof" and b.a[0] is bs[0].a[0] and b.a[1] == i for i, b in enumerate(bs)):
        return bs[0].a[0]
    if isinstance(bs[0], T) and all(b == 0 and isinstance(b, int) for b in bs[1:]):
        return bs[0]
    for b in bs:
        if isinstance(b, tuple):
            raise Unsup("partial pointer")
    return mk("bytes", n, *bs)


def d2i(v):
    if isinstance(v, float):
        return struct.unpack("<Q", struct.pack("<d", v))[0]
    if v is UNDEF:
        return v
    return v.a[0] if v.op == "i2d" else mk("d2i", v)


def f2i(v):
    if isinstance(v, float):
        return struct.unpack("<I", struct.pack("<f", v))[0]
    if v is UNDEF:
        return v
    return v.a[0] if v.op == "i2f" else mk("f2i", v)


def i2d(v):
    if isinstance(v, int):
        return struct.unpack("<d", struct.pack("<Q", v & M64))[0]
    if v is UNDEF:
        return v
    return v.a[0] if v.op == "d2i" else mk("i2d", v)


def i2f(v):
    if isinstance(v, int):
        return struct.unpack("<f", struct.pack("<I", v & 0xffffffff))[0]
    if v is UNDEF:
        return v
    return v.a[0] if v.op == "f2i" else mk("i2f", v)


KIND = {"int": "i", "double": "d", "float": "f", "ptr": "p"}


class Interp:
    def __init__(self, prog, maxsteps=4000000, maxpaths=400, tmax=120):
        self.p = prog
        self.maxsteps, self.maxpaths, self.tmax = maxsteps, maxpaths, tmax
        self.steps = 0
        self.called = set()
        self.tid = {}

    # ---------------------------------------------------------------- memory
    def glob(self, st, base):
        if base in st.mem:
            return
        name = base[1]
        d = st.wr(base)
        gi = self.p.ginit(name)
        if gi is None:
            return
        self._init(d, 0, gi[0], gi[1])

    def _init(self, d, off, o, ty):
        k = o[0]
        if k == "agg":
            for j, x in enumerate(o[2]):
                if ty.kind == "struct":
                    self._init(d, off + ty.offs[j], x, ty.elems[j])
                else:
                    self._init(d, off + j * ty.elems[0].size, x, ty.elems[0])
        elif k == "zero":
            for j in range(ty.size):
                d[off + j] = (1, 0, "i")
        elif k == "undef":
            pass
        else:
            v = self.p.const(o)
            d[off] = (ty.size, v, KIND.get(ty.kind, "i"))

    def chk(self, st, ptr, n=0):
        if not (isinstance(ptr, tuple) and ptr[0] == "P"):
            if isinstance(ptr, int) and ptr < 4096:
                raise UB("access through a null pointer")
            if ptr is UNDEF:
                raise Unsup("access through an indeterminate pointer")
            raise Unsup("access through %r" % (ptr,))
        b = ptr[1]
        if isinstance(b, tuple):
            if b[0] == "G":
                self.glob(st, b)
            elif b[0] == "smut" and isinstance(b[1], int) and b[1] not in st.mem:
                raise UB("access to a destroyed string")
        else:
            if b not in st.mem:
                raise UB("access to an object after its lifetime")
            z = st.sz.get(b)
            if z is not None and isinstance(ptr[2], int) and isinstance(n, int) and isinstance(z, int) and (ptr[2] < 0 or ptr[2] + n > z):
                raise UB("access at offset %d of a block of %d bytes" % (ptr[2], z))
        return b, ptr[2]

    def getbyte(self, st, b, off):
        if isinstance(b, tuple) and b[0] == "str":
            return S.byteat(st.path, b[1], off)
        if isinstance(b, tuple) and b[0] == "smut":
            h = self.loadv(st, ("P", b[1], b[2]), 8, "i")
            if h is UNDEF:
                return UNDEF
            return S.byteat(st.path, h, off)
        d = st.mem.get(b)
        if d is None:
            return UNDEF
        if not isinstance(off, int):
            t, off = off, self.enum(st, off, 0)
            if off is None:
                raise Unsup("symbolic offset " + S.show(t)[:200])
        c = d.get(off)
        if c is not None:
            return tobytes(c[1], c[0], c[2])[0] if c[0] > 1 or c[2] != "i" else c[1]
        for k in range(1, 16):
            c = d.get(off - k)
            if c is not None:
                if c[0] > k:
                    return tobytes(c[1], c[0], c[2])[k]
                return UNDEF
        return UNDEF

    def loadv(self, st, ptr, n, kind):
        b, off = self.chk(st, ptr, n)
        if not (isinstance(b, tuple) and b[0] in ("str", "smut")):
            d = st.mem.get(b)
            if d is None:
                return UNDEF
            if isinstance(off, T):
                v = self.enum(st, off, 0, limit=400)
                if v is not None:
                    return self.loadv(st, ("P", b, v), n, kind)
            c = d.get(off) if isinstance(off, int) else None
            if c is not None and c[0] == n:
                v, k = c[1], c[2]
                if k == kind or v is UNDEF:
                    return v
                if kind == "p" or (kind == "i" and k == "p"):
                    return v
                if kind == "d":
                    return i2d(v) if k == "i" else UNDEF
                if kind == "f":
                    return i2f(v) if k == "i" else UNDEF
                if kind == "i":
                    return d2i(v) if k == "d" else f2i(v)
        if not isinstance(off, int) and n > 1:
            bs = [self.getbyte(st, b, add(off, i)) for i in range(n)]
        else:
            bs = [self.getbyte(st, b, off + i if isinstance(off, int) else off) for i in range(n)]
        v = frombytes(bs)
        if kind == "d":
            return i2d(v)
        if kind == "f":
            return i2f(v)
        return v

    def clear(self, d, off, n):
        for k in range(1, 16):
            c = d.get(off - k)
            if c is not None:
                if c[0] > k:
                    bs = tobytes(c[1], c[0], c[2])
                    del d[off - k]
                    for j, x in enumerate(bs):
                        if not (off <= off - k + j < off + n) and x is not UNDEF:
                            d[off - k + j] = (1, x, "i")
                break
        if n > 64 and n > len(d):
            ks = [k for k in d if off <= k < off + n]
        else:
            ks = [k for k in range(off, off + n) if k in d]
        for k in ks:
            c = d.pop(k)
            if k + c[0] > off + n:
                bs = tobytes(c[1], c[0], c[2])
                for j, x in enumerate(bs):
                    if k + j >= off + n and x is not UNDEF:
                        d[k + j] = (1, x, "i")

    def storev(self, st, ptr, n, v, kind):
        b, off = self.chk(st, ptr, n)
        if isinstance(b, tuple) and b[0] == "smut":
            slot = ("P", b[1], b[2])
            h = self.loadv(st, slot, 8, "i")
            for i, x in enumerate(tobytes(v, n, kind)):
                h = self.setbyte(st, h, add(off, i), x)
            self.storev(st, slot, 8, h, "i")
            return
        if isinstance(b, tuple) and b[0] == "str":
            raise Unsup("store to constant string")
        if not isinstance(off, int):
            raise Unsup("symbolic store offset")
        d = st.wr(b)
        c = d.get(off)
        if c is None or c[0] != n:
            self.clear(d, off, n)
        d[off] = (n, v, kind)

    def setbyte(self, st, h, off, x):
        P = st.path
        pre, rest = S.take(P, h, off)
        _, tail = S.take(P, S.mkstr(rest), 1)
        if not rest:
            raise Unsup("write past the end of a string")
        return S.mkstr(list(pre) + [("B", x)] + list(tail))

    def readstr(self, st, ptr, n):
        """the n bytes at ptr as a string term"""
        if n == 0:
            return S.EMPTY
        b, off = self.chk(st, ptr)
        if isinstance(b, tuple) and b[0] == "str":
            self.inside(st, b[1], off, n)
            return S.substr(st.path, b[1], off, n)
        if isinstance(b, tuple) and b[0] == "smut":
            h = self.loadv(st, ("P", b[1], b[2]), 8, "i")
            if h is UNDEF:
                raise Unsup("an indeterminate string")
            self.inside(st, h, off, n)
            return S.substr(st.path, h, off, n)
        if not isinstance(n, int):
            raise Unsup("symbolic length")
        segs = []
        d = st.mem.get(b, {})
        i = 0
        lits = bytearray()
        while i < n:
            c = d.get(off + i)
            if c is not None and c[0] <= n - i:
                bs = tobytes(c[1], c[0], c[2])
                i += c[0]
            else:
                bs = [self.getbyte(st, b, off + i)]
                i += 1
            for x in bs:
                if isinstance(x, int):
                    lits.append(x & 255)
                else:
                    if lits:
                        segs.append(("L", bytes(lits)))
                        lits = bytearray()
                    segs.append(("B", x))
        if lits:
            segs.append(("L", bytes(lits)))
        return S.mkstr(segs)

    def inside(self, st, h, off, n):
        """UB when the bytes [off, off+n) certainly leave the string (its terminator included)"""
        if h is UNDEF:
            raise Unsup("an indeterminate string")
        over = sub(add(off & M64 if isinstance(off, int) else off, n), add(S.slen(h), 2))
        if (sgn(over) >= 0 if isinstance(over, int) else st.path.decide(("ge", over)) is True):
            raise UB("%s bytes at offset %s of a string of %s bytes" % (S.show(n) if isinstance(n, T) else n, S.show(off) if isinstance(off, T) else off, S.show(S.slen(h)) if isinstance(S.slen(h), T) else S.slen(h)))
        if isinstance(off, int) and off < 0:
            raise UB("bytes before the start of a string")

    def cstr(self, st, ptr):
        b, off = self.chk(st, ptr)
        if isinstance(b, tuple) and b[0] == "str":
            t = S.substr(st.path, b[1], off, sub(S.slen(b[1]), off))
            p = S.findset(st.path, t, S.lit(b"\0"), 0, True)
            return t if isinstance(p, int) and p == M64 else S.substr(st.path, t, 0, p)
        out = bytearray()
        while True:
            x = self.getbyte(st, b, off)
            if not isinstance(x, int):
                raise Unsup("C string with unknown bytes")
            if x == 0:
                return S.lit(bytes(out))
            out.append(x)
            off += 1
            if len(out) > 100000:
                raise Unsup("C string")

    def memcpy(self, st, dst, src, n):
        if n == 0:
            return
        db, do = self.chk(st, dst, n)
        sb, so = self.chk(st, src, n)
        if isinstance(db, tuple) and db[0] == "smut":
            data = self.readstr(st, src, n)
            self.write_smut(st, dst, data, n)
            return
        if not isinstance(n, int):
            raise Unsup("symbolic memcpy")
        if isinstance(sb, tuple) and sb[0] in ("str", "smut"):
            bs = [self.getbyte(st, sb, add(so, i) if not isinstance(so, int) else so + i) for i in range(n)]
            d = st.wr(db)
            self.clear(d, do, n)
            for i, x in enumerate(bs):
                d[do + i] = (1, x, "i")
            return
        s = st.mem.get(sb, {})
        cells = []
        if n > 64 and n > len(s):
            ks = sorted(k for k in s if so - 15 <= k < so + n)
        else:
            ks = [k for k in range(so - 15, so + n) if k in s]
        for k in ks:
            c = s[k]
            if k >= so and k + c[0] <= so + n:
                cells.append((k - so, c))
            elif k + c[0] > so:
                for j, x in enumerate(tobytes(c[1], c[0], c[2])):
                    if so <= k + j < so + n:
                        cells.append((k + j - so, (1, x, "i")))
        d = st.wr(db)
        self.clear(d, do, n)
        for k, c in cells:
            d[do + k] = c

    def write_smut(self, st, dst, data, n):
        b, off = dst[1], dst[2]
        slot = ("P", b[1], b[2])
        h = self.loadv(st, slot, 8, "i")
        pre, rest = S.take(st.path, h, off)
        _, tail = S.take(st.path, S.mkstr(rest), n)
        self.storev(st, slot, 8, S.mkstr(list(pre) + list(S.segs(data)) + list(tail)), "i")

    def new(self, st, size=None):
        st.nb += 1
        b = st.nb
        if size is not None:
            st.sz[b] = size
        st.mem[b] = {}
        st.own.add(b)
        return ("P", b, 0)

    # ---------------------------------------------------------------- integer operations
    def iadd(self, a, b, w, s):
        if isinstance(a, tuple) or isinstance(b, tuple):
            return self.padd(a, b, s)
        if a is UNDEF or b is UNDEF or iskb(a) or iskb(b):
            return UNDEF
        if isinstance(a, int) and isinstance(b, int):
            return (a + s * b) & ((1 << w) - 1)
        a = self.norm(a, w)
        b = self.norm(b, w)
        r = add(a, b, s)
        return r & ((1 << w) - 1) if isinstance(r, int) else r

    def norm(self, a, w):
        if isinstance(a, int):
            return sgn(a, w) & M64
        return a

    def padd(self, a, b, s):
        if s == 1 and isinstance(b, tuple) and not isinstance(a, tuple):
            a, b = b, a
        if isinstance(a, tuple) and a[0] == "P":
            if isinstance(b, tuple):
                if b[0] == "P" and b[1] == a[1] and s == -1:
                    return sub(a[2] & M64 if isinstance(a[2], int) else a[2], b[2] & M64 if isinstance(b[2], int) else b[2])
                raise Unsup("pointer arithmetic across objects")
            return ("P", a[1], self.offadd(a[2], b, s))
        raise Unsup("pointer arithmetic")

    def offadd(self, o, k, s=1):
        if k is UNDEF:
            raise Unsup("indeterminate pointer offset")
        if isinstance(o, int) and isinstance(k, int):
            return o + s * sgn(k)
        r = add(o & M64 if isinstance(o, int) else o, k, s)
        return sgn(r) if isinstance(r, int) else r

    def bop(self, st, op, w, a, b):
        m = (1 << w) - 1
        if op == "add":
            return self.iadd(a, b, w, 1)
        if op == "sub":
            return self.iadd(a, b, w, -1)
        if a is UNDEF or b is UNDEF or iskb(a) or iskb(b):
            return kbop(op, w, a, b)
        if isinstance(a, int) and isinstance(b, int):
            E = {}
            if op in ("udiv", "sdiv", "urem", "srem") and b == 0:
                raise Unsup("division by zero")
            return S._evi(mk(op, w, a, b), E) & m
        if isinstance(a, tuple) or isinstance(b, tuple):
            if op == "and" and isinstance(b, int) and isinstance(a, tuple) and isinstance(a[2], int):
                if b == 7 or b == 15 or b == 3 or b == 1:
                    return a[2] & b
            raise Unsup("%s on pointer" % op)
        P = st.path
        if op == "mul":
            if isinstance(a, int):
                a, b = b, a
            if isinstance(b, int):
                return mulc(a, sgn(b, w)) if b else 0
            return mk("mul", w, *sorted((a, b), key=lambda t: t.id))
        if op == "shl" and isinstance(b, int):
            if isinstance(a, T) and (a.op in BYTEY or a.op == "zext") and b % 8 == 0:
                return frombytes(([0] * (b // 8) + tobytes(a, w // 8))[:w // 8])
            return mulc(a, 1 << b)
        if op in ("lshr", "ashr") and isinstance(b, int) and b % 8 == 0 and isinstance(a, T) and a.op in BYTEY and op == "lshr":
            return frombytes((tobytes(a, w // 8)[b // 8:] + [0] * w)[:w // 8])
        if op == "and":
            if isinstance(a, int):
                a, b = b, a
            if isinstance(b, int):
                if b == m:
                    return a
                if b == 0:
                    return 0
                if w % 8 == 0 and all(((b >> (8 * i)) & 255) in (0, 255) for i in range(w // 8)) and (isinstance(a, T) and a.op in BYTEY):
                    bs = tobytes(a, w // 8)
                    return frombytes([x if (b >> (8 * i)) & 255 else 0 for i, x in enumerate(bs)])
                if b & (b + 1) == 0 and P.ge0(a) is True and P.ge0(sub(b, a)) is True:
                    return a
                if b == 1 and a.op in BOOLY:
                    return a
            elif w == 1:
                if a is b:
                    return a
        if op == "or":
            if isinstance(a, int):
                a, b = b, a
            if isinstance(b, int) and b == 0:
                return a
            if w == 1 and b == 1:
                return 1
            if w > 8 and w % 8 == 0 and isinstance(a, T) and (a.op in BYTEY or (isinstance(b, T) and b.op in BYTEY)):
                x, y = tobytes(a, w // 8), tobytes(b, w // 8)
                if all((isinstance(p, int) and p == 0) or (isinstance(q, int) and q == 0) for p, q in zip(x, y)):
                    return frombytes([q if isinstance(p, int) and p == 0 else p for p, q in zip(x, y)])
        if op == "xor" and w == 1:
            if isinstance(a, int):
                a, b = b, a
            if isinstance(b, int):
                return self.lnot(a) if b else a
        if op in ("udiv", "urem") and isinstance(b, int) and b:
            if b == 1:
                return a if op == "udiv" else 0
            c, d = S.lin(a)
            if d and P.ge0(a) is True:
                if all(v % b == 0 for v in d.values()):
                    if op == "urem":
                        return c % b
                    return S.mklin(c // b, {k: v // b for k, v in d.items()})
                # (b*q + r) with 0 <= r < 4b: partition on the quotient of r
                q = S.mklin(0, {k: v // b for k, v in d.items() if v % b == 0})
                r = S.mklin(c, {k: v for k, v in d.items() if v % b})
                if isinstance(r, int):
                    r = r & M64
                if not isinstance(r, int) and P.ge0(r) is True and P.ge0(q) is True and P.ge0(sub(4 * b - 1, r)) is True:
                    n = 0
                    while P.ge0(sub(b - 1, r)) is not True and P.need(("ge", sub(r, b))):
                        r = sub(r, b)
                        n += 1
                        if isinstance(r, int):
                            break
                    return r if op == "urem" else add(q, n)
                if op == "urem" and P.ge0(sub(b - 1, a)) is True:
                    return a
                if op == "urem":
                    r = S.mklin(c % b, {k: v % b for k, v in d.items() if v % b}) if all(v >= 0 for v in d.values()) else a
                    if P.ge0(r) is True:
                        a = r
        if op == "sdiv" and isinstance(b, int) and b and not (b >> (w - 1)):
            c, d = S.lin(a)
            if all(v % b == 0 for v in d.values()) and c % b == 0:
                return S.mklin(c // b, {k: v // b for k, v in d.items()})
            if P.ge0(a) is True:
                return self.bop(st, "udiv", w, a, b)
        if op == "ashr" and isinstance(b, int) and b % 8 == 0 and isinstance(a, T) and a.op == "bytes":
            return self.cast(st, "sext", frombytes(tobytes(a, w // 8)[b // 8:]), w - b, w)
        if op in ("lshr", "ashr") and isinstance(b, int) and b < w:
            c, d = S.lin(a)
            k = 1 << b
            if d and all(v % k == 0 for v in d.values()) and c % k == 0:
                q = S.mklin(c // k, {x: v // k for x, v in d.items()})
                h = 1 << (w - 1 - b)
                if (P.ge0(q) is True if op == "lshr" else P.ge0(add(q, h)) is True) and P.ge0(sub(h - 1, q)) is True:
                    return q
        if op in ("lshr", "ashr") and w == 64 and b == 32 and isinstance(a, T) and a.op == "or" and a.a[0] == 64:
            for h, l in ((a.a[1], a.a[2]), (a.a[2], a.a[1])):
                if isinstance(h, T) and isinstance(l, T):
                    c, d = S.lin(h)
                    if d and c % (1 << 32) == 0 and all(k % (1 << 32) == 0 for k in d.values()) and ((l.op == "and" and l.a[2] == 0xffffffff) or l.op == "zext" or (P.ge0(l) is True and P.ge0(sub(0xffffffff, l)) is True)):
                        return self.bop(st, op, 64, h, 32)
        if op in ("lshr", "shl") and isinstance(a, int) and isinstance(b, T):
            v = self.enum(st, b, 0, w - 1)
            if v is not None:
                return self.bop(st, op, w, a, v)
        if op in ("lshr", "ashr") and isinstance(b, int) and b == w - 1 and w > 1 and isinstance(a, T):
            if not self.truth(st, self.icmp(st, "slt", w, a, 0)):      # the sign bit alone
                return 0
            return (1 << w) - 1 if op == "ashr" else 1
        return mk(op, w, self.norm(a, w), self.norm(b, w))

    def enum(self, st, t, lo=None, hi=None, limit=80):
        """partition on the value of an integer term of small range; None when the range is not small"""
        P = st.path
        c, d = S.lin(t)
        l = h = c
        for a, v in d.items():
            x, y = S.atom_bounds(a)
            if x is None or y is None:
                l = h = None
                break
            l += v * (x if v > 0 else y)
            h += v * (y if v > 0 else x)
        if l is not None:
            lo = l if lo is None else max(lo, l)
            hi = h if hi is None else min(hi, h)
        if len(d) == 1 and l is not None:
            (a, v), = d.items()
            x, y = S.atom_bounds(a)
            if y - x < 160:
                for k in range(x, y + 1):
                    if P.decide(("eq", sub(a, k))) is not False:
                        z = c + v * k
                        if (lo is not None and z < lo) or (hi is not None and z > hi):
                            return None
                for k in range(x, y + 1):
                    if P.need(("eq", sub(a, k))):
                        return c + v * k
        if lo is None or hi is None or hi - lo >= limit:
            return None
        if P.ge0(sub(t, lo)) is not True or P.ge0(sub(hi, t)) is not True:
            return None
        for v in range(lo, hi + 1):
            if P.need(("eq", sub(t, v))):
                return v
        return None

    def lnot(self, a):
        if isinstance(a, int):
            return 1 - a
        if a.op == "not":
            return a.a[0]
        return mk("not", a)

    def icmp(self, st, pred, w, a, b):
        if iskb(a) or iskb(b):
            if pred in ("eq", "ne") and not (a is UNDEF or b is UNDEF):
                ka, va = kbof(a, w)
                kb_, vb = kbof(b, w)
                if (va ^ vb) & ka & kb_:
                    return int(pred == "ne")
            return UNDEF
        if a is UNDEF or b is UNDEF:
            return UNDEF
        if isinstance(a, tuple) or isinstance(b, tuple):
            return self.pcmp(st, pred, a, b)
        if isinstance(a, int) and isinstance(b, int):
            if pred == "eq":
                return int(a == b)
            if pred == "ne":
                return int(a != b)
            return S._cmpv(pred, a, b, w)
        if isinstance(b, int) and isinstance(a, T) and a.op == "rot" and a.a[0] == w:
            unrot = lambda c: ((c >> a.a[2]) | (c << (w - a.a[2]))) & ((1 << w) - 1)
            if pred in ("eq", "ne"):
                return self.icmp(st, pred, w, a.a[1], unrot(b & ((1 << w) - 1)))
            n = b + (pred == "ule")
            if pred in ("ult", "ule", "ugt", "uge") and n <= 64:
                n = b + (pred in ("ule", "ugt"))
                hit = any(self.truth(st, self.icmp(st, "eq", w, a.a[1], unrot(c))) for c in range(n))
                return int(hit == (pred in ("ult", "ule")))
        a, b = self.norm(a, w), self.norm(b, w)
        if w < 64 and pred[0] != "u":
            # a word put together from bytes holds its bit pattern; compare it as the signed number the other operand is
            pat = lambda t: isinstance(t, T) and t.op == "bytes" and t.a[0] * 8 == w
            if pred[0] == "s" or (pat(a) != pat(b)):
                if pat(a):
                    a = mk("sext", w, a)
                if pat(b):
                    b = mk("sext", w, b)
            if w == 8 and pred[0] != "s":
                if isinstance(b, int) and isinstance(a, T) and a.op in ("vb", "bseg", "byteof"):
                    b &= 255
                if isinstance(a, int) and isinstance(b, T) and b.op in ("vb", "bseg", "byteof"):
                    a &= 255
            if w == 8 and pred[0] == "s":
                neg = lambda t: isinstance(t, T) and t.op in ("vb", "bseg", "byteof") and not ((lambda al: al is not None and max(al) < 128)(self.balpha(t) if t.op != "byteof" else None))
                if neg(a):
                    a = mk("sext", 8, a)
                if neg(b):
                    b = mk("sext", 8, b)
        if pred in ("eq", "ne"):
            if w == 1 or (isinstance(b, int) and isinstance(a, T) and a.op in BOOLY):
                if isinstance(a, int):
                    a, b = b, a
                if isinstance(b, int):
                    b &= (1 << w) - 1
                    r = a if b == 1 else self.lnot(a) if b == 0 else 0
                    return r if pred == "eq" else self.lnot(r)
            if w >= 8 and w % 8 == 0:
                x = [t for t in (a, b) if isinstance(t, T) and t.op in BYTEY]
                if len(x) == 2 and a is not b and a.op == "bytes" and b.op == "bytes":
                    for p, q in zip(tobytes(a, w // 8), tobytes(b, w // 8)):
                        if isinstance(p, int) and isinstance(q, int) and p != q:
                            return int(pred == "ne")
            r = st.path.decide(("eq", sub(a, b))) if not isinstance(sub(a, b), int) else sub(a, b) == 0
            if r is None and isinstance(b, int) and isinstance(a, T) and a.op in ("vb", "bseg"):
                al = self.balpha(a)
                if al is not None and (b & 255) not in al:
                    r = False
            if r is not None:
                return int(r == (pred == "eq"))
            t = mk("eq", w, a, b)
            return t if pred == "eq" else mk("not", t)
        try:
            r = self.truth(st, mk("cmp", pred, w, a, b))
            return int(r)
        except Fork:
            return mk("cmp", pred, w, a, b)

    def balpha(self, a):
        if a.op == "vb":
            return S.VARS[a.a[0]].alpha
        return S.alpha(a.a[0].a)

    def pcmp(self, st, pred, a, b):
        def key(x):
            if isinstance(x, int):
                return (0, "", x)
            if x[0] == "P":
                return (1, repr(x[1]), x[2])
            return (2, repr(x[1]), 0)
        ka, kb = key(a), key(b)
        if ka[:2] != kb[:2]:
            if pred in ("eq", "ne"):
                return int(pred == "ne")
            r = (ka[:2] > kb[:2]) - (ka[:2] < kb[:2])
            return S._cmpv("s" + pred[1:], r & M64, 0)
        if isinstance(ka[2], int) and isinstance(kb[2], int):
            if pred in ("eq", "ne"):
                return int((ka[2] == kb[2]) == (pred == "eq"))
            return S._cmpv("s" + pred[1:], ka[2] & M64, kb[2] & M64)
        return self.icmp(st, pred if pred in ("eq", "ne") else "s" + pred[1:], 64, ka[2], kb[2])

    def truth(self, st, c):
        """decide a boolean value on this path, or Fork"""
        if isinstance(c, int):
            return bool(c & 1)
        if c is UNDEF or iskb(c):
            raise Unsup("branch on an indeterminate value")
        P = st.path
        if c.op == "not":
            return not self.truth(st, c.a[0])
        if c.op == "eq":
            return P.need(("eq", sub(c.a[1], c.a[2])))
        if c.op == "cmp":
            pred, w, a, b = c.a
            if pred[0] == "u":
                na = self.neg(P, a)
                nb = self.neg(P, b)
                if na != nb:
                    gt = na      # a negative reads as huge
                    return gt if pred[1] == "g" else not gt
            d = {"gt": lambda: sub(sub(a, b), 1), "ge": lambda: sub(a, b), "lt": lambda: sub(sub(b, a), 1), "le": lambda: sub(b, a)}[pred[1:]]()
            return P.need(("ge", d))
        if c.op in ("and", "or") and c.a[0] == 1:
            x = self.truth(st, c.a[1])
            if c.op == "and":
                return x and self.truth(st, c.a[2])
            return x or self.truth(st, c.a[2])
        if c.op == "xor" and c.a[0] == 1:
            return self.truth(st, c.a[1]) != self.truth(st, c.a[2])
        if c.op in ("streq", "ok", "fcmp"):
            return P.need(("atom", c))
        return P.need(("eq", c)) is False

    def neg(self, P, a):
        if isinstance(a, int):
            return sgn(a) < 0
        return not P.need(("ge", a))

    def fop(self, op, w, a, b):
        if a is UNDEF or b is UNDEF:
            return UNDEF
        if isinstance(a, float) and isinstance(b, float):
            r = S.evf(mk(op, w, a, b), {})
            return r
        return mk(op, w, a, b)

    # ---------------------------------------------------------------- main loop
    def run(self, fname, args, setup=None):
        """-> list of (path, events, end, state)"""
        st = State()
        if setup:
            setup(self, st)
        F = self.p.fn(fname)
        if F is None:
            raise Unsup("no function " + fname)
        self.push(st, F, args, None, None)
        work, out = [st], []
        t0 = time.time()
        while work:
            st = work.pop()
            while True:
                try:
                    end = self.step(st, t0)
                except Fork as f:
                    if f.cond[0] in ("ge", "eq") and not isinstance(f.cond[1], T):
                        end = ("unsup", "degenerate split")
                    else:
                        s2 = st.clone()
                        st.path.assume(f.cond, True)
                        s2.path.assume(f.cond, False)
                        work.append(s2)
                        if len(work) + len(out) > self.maxpaths:
                            return out + [(st.path, st.events, ("unsup", "too many partitions"), st)]
                        continue
                except Unsup as e:
                    end = ("unsup", str(e) + " in " + (st.frames[-1].F.name if st.frames else "?"))
                except RecursionError:
                    end = ("unsup", "recursion")
                if end is None:
                    continue
                out.append((st.path, st.events, end, st))
                break
        return out

    def push(self, st, F, args, ret, pad):
        f = Frame()
        f.F, f.regs, f.bb, f.pc, f.prev, f.ret, f.allocs, f.pad = F, {}, 0, 0, -1, ret, [], pad
        for (pid, ty, _), v in zip(F.params, args):
            f.regs[pid] = v
        st.frames.append(f)
        self.called.add(F.name)
        if len(st.frames) > 300:
            raise Unsup("call depth")

    def step(self, st, t0):
        """run until the current state ends (returns its end) or forks"""
        fr = st.frames[-1]
        n = 0
        while True:
            n += 1
            self.steps += 1
            if n & 4095 == 0 and (self.steps > self.maxsteps or time.time() - t0 > self.tmax):
                return ("unsup", "step budget")
            ins = fr.F.code[fr.bb][fr.pc]
            op, dst, ty, ops, x = ins
            regs = fr.regs
            if op == "load":
                a = ops[0]
                p = regs[a] if type(a) is int else a[1]
                regs[dst] = self.load(st, p, ty)
            elif op == "store":
                a, b = ops
                v = regs[a] if type(a) is int else a[1]
                p = regs[b] if type(b) is int else b[1]
                self.store(st, p, v, x)
            elif op == "gep":
                a = ops[0]
                p = regs[a] if type(a) is int else a[1]
                c, vs = x
                if isinstance(p, int):
                    if p == 0 and not vs:
                        regs[dst] = c & M64
                    else:
                        o = p + c
                        for s, iv in vs:
                            o = self.iadd(o & M64, self.bop(st, "mul", 64, regs[iv] if type(iv) is int else iv[1], s), 64, 1)
                        regs[dst] = o
                elif p is UNDEF:
                    regs[dst] = UNDEF
                else:
                    if p[0] != "P":
                        raise Unsup("gep on %r" % (p[0],))
                    off = p[2] + c if isinstance(p[2], int) else add(p[2], c & M64)
                    for s, iv in vs:
                        v = regs[iv] if type(iv) is int else iv[1]
                        if isinstance(v, int):
                            # index width is 64 after canonicalisation
                            off = off + s * sgn(v) if isinstance(off, int) else add(off, (s * sgn(v)) & M64)
                        else:
                            off = self.offadd(off, mulc(v, s) if v is not UNDEF else v)
                    regs[dst] = ("P", p[1], off)
            elif op == "phi":
                # all phis of the block read the values on entry
                vals = []
                code = fr.F.code[fr.bb]
                pc = fr.pc
                while code[pc][0] == "phi":
                    for pb, o in code[pc][3]:
                        if pb == fr.prev:
                            vals.append((code[pc][1], regs[o] if type(o) is int else o[1]))
                            break
                    pc += 1
                for k, v in vals:
                    regs[k] = v
                fr.pc = pc
                continue
            elif op == "br":
                if ops:
                    a = ops[0]
                    c = regs[a] if type(a) is int else a[1]
                    t = self.truth(st, c)
                    fr.prev, fr.bb, fr.pc = fr.bb, x[0] if t else x[1], 0
                else:
                    fr.prev, fr.bb, fr.pc = fr.bb, x[0], 0
                continue
            elif op == "icmp":
                a, b = ops
                u = regs[a] if type(a) is int else a[1]
                v = regs[b] if type(b) is int else b[1]
                w = self.opw(fr.F, a, b, ins)
                regs[dst] = self.icmp(st, x, w, u, v)
            elif op in ("add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "and", "or", "xor", "shl", "lshr", "ashr"):
                a, b = ops
                regs[dst] = self.bop(st, op, ty.bits, regs[a] if type(a) is int else a[1], regs[b] if type(b) is int else b[1])
            elif op == "call" or op == "invoke":
                r = self.call(st, fr, ins)
                if r is not None:
                    return r
                fr = st.frames[-1]
                continue
            elif op == "ret":
                v = None
                if ops:
                    a = ops[0]
                    v = regs[a] if type(a) is int else a[1]
                for b in fr.allocs:
                    st.mem.pop(b, None)
                st.frames.pop()
                if not st.frames:
                    return ("ret", v)
                up = st.frames[-1]
                if fr.ret is not None:
                    up.regs[fr.ret] = v
                self.advance(up)
                fr = up
                continue
            elif op == "alloca":
                p = self.new(st)
                fr.allocs.append(p[1])
                regs[dst] = p
            elif op == "select":
                a, b, c = ops
                k = regs[a] if type(a) is int else a[1]
                u = regs[b] if type(b) is int else b[1]
                v = regs[c] if type(c) is int else c[1]
                regs[dst] = u if u is v else (u if self.truth(st, k) else v)
            elif op in ("zext", "sext", "trunc"):
                a = ops[0]
                regs[dst] = self.cast(st, op, regs[a] if type(a) is int else a[1], self.tyw(fr.F, a), ty.bits)
            elif op == "switch":
                a = ops[0]
                v = regs[a] if type(a) is int else a[1]
                if v is UNDEF:
                    raise Unsup("switch on an indeterminate value")
                tgt = None
                for cv, s, w in x[1]:
                    r = self.icmp(st, "eq", w, v, cv)
                    if self.truth(st, r):
                        tgt = s
                        break
                fr.prev, fr.bb, fr.pc = fr.bb, x[0] if tgt is None else tgt, 0
                continue
            elif op in ("extractvalue", "insertvalue", "extractelement", "insertelement", "shufflevector"):
                vs = [regs[a] if type(a) is int else a[1] for a in ops]
                regs[dst] = self.agg(op, vs, x, ty)
            elif op in ("bitcast", "freeze", "ptrtoint", "inttoptr", "addrspacecast"):
                a = ops[0]
                v = regs[a] if type(a) is int else a[1]
                if op == "bitcast":
                    v = self.bitcast(v, fr.F.tys.get(a) if type(a) is int else None, ty)
                regs[dst] = v
            elif op in ("fadd", "fsub", "fmul", "fdiv"):
                a, b = ops
                regs[dst] = self.fop(op, 32 if ty.kind == "float" else 64, regs[a] if type(a) is int else a[1], regs[b] if type(b) is int else b[1])
            elif op == "fneg":
                a = ops[0]
                v = regs[a] if type(a) is int else a[1]
                regs[dst] = -v if isinstance(v, float) else mk("fneg", v) if v is not UNDEF else v
            elif op == "fcmp":
                a, b = ops
                u = regs[a] if type(a) is int else a[1]
                v = regs[b] if type(b) is int else b[1]
                if u is UNDEF or v is UNDEF:
                    regs[dst] = UNDEF
                else:
                    if x in SWAPF:
                        x, u, v = SWAPF[x], v, u
                    if x[1:] in ("eq", "ne") and isinstance(u, T) and (not isinstance(v, T) or v.id < u.id):
                        u, v = v, u
                    t = mk("fcmp", x, u, v)
                    regs[dst] = S._evi(t, {}) if isinstance(u, float) and isinstance(v, float) else t
            elif op in ("sitofp", "uitofp", "fptosi", "fptoui", "fptrunc", "fpext"):
                a = ops[0]
                regs[dst] = self.fcast(st, op, regs[a] if type(a) is int else a[1], self.tyw(fr.F, a), ty)
            elif op == "landingpad":
                pass
            elif op == "resume":
                a = ops[0]
                st.frames[-1].regs[-1] = None
                r = self.unwind(st, st.exc, pop=True)
                if r is not None:
                    return r
                fr = st.frames[-1]
                continue
            elif op == "unreachable":
                raise Unsup("unreachable reached")
            else:
                raise Unsup("instruction " + op)
            fr.pc += 1

    def advance(self, fr):
        ins = fr.F.code[fr.bb][fr.pc]
        if ins[0] == "invoke":
            fr.prev, fr.bb, fr.pc = fr.bb, ins[4][2]["succs"][0], 0
        else:
            fr.pc += 1

    def opw(self, F, a, b, ins):
        for o in (a, b):
            if type(o) is int:
                t = F.tys.get(o)
                if t is not None:
                    return t.bits if t.kind == "int" else 64
        return 64

    def tyw(self, F, a):
        if type(a) is int:
            t = F.tys.get(a)
            if t is not None:
                return t.bits if t.kind == "int" else (32 if t.kind == "float" else 64)
        return 64

    def load(self, st, p, ty):
        k = ty.kind
        if k == "int":
            n = ty.size
            v = self.loadv(st, p, n, "i")
            if ty.bits == 1 and isinstance(v, int):
                v &= 1
            return v
        if k == "ptr":
            return self.loadv(st, p, 8, "p")
        if k == "double":
            return self.loadv(st, p, 8, "d")
        if k == "float":
            return self.loadv(st, p, 4, "f")
        if k == "vector" or k == "array":
            e = ty.elems[0]
            return ("A", tuple(self.load(st, (p[0], p[1], p[2] + i * e.size), e) for i in range(ty.n)))
        if k == "struct":
            return ("A", tuple(self.load(st, (p[0], p[1], p[2] + o), e) for o, e in zip(ty.offs, ty.elems)))
        raise Unsup("load " + ty.s)

    def store(self, st, p, v, ty):
        k = ty.kind
        if k == "int":
            self.storev(st, p, ty.size, v, "i")
        elif k == "ptr":
            self.storev(st, p, 8, v, "p")
        elif k == "double":
            self.storev(st, p, 8, v, "d")
        elif k == "float":
            self.storev(st, p, 4, v, "f")
        elif k in ("vector", "array"):
            if v is UNDEF:
                return
            e = ty.elems[0]
            for i in range(ty.n):
                self.store(st, (p[0], p[1], p[2] + i * e.size), v[1][i], e)
        elif k == "struct":
            if v is UNDEF:
                return
            for o, e, x in zip(ty.offs, ty.elems, v[1]):
                self.store(st, (p[0], p[1], p[2] + o), x, e)
        else:
            raise Unsup("store " + ty.s)

    def agg(self, op, vs, x, ty):
        if op == "extractvalue":
            v = vs[0]
            for i in x:
                if v is UNDEF:
                    return UNDEF
                v = v[1][i]
            return v
        if op == "insertvalue":
            def ins(v, t, path):
                if not path:
                    return vs[1]
                n = len(t.elems) if t.kind == "struct" else t.n
                items = list(v[1]) if v is not UNDEF else [UNDEF] * n
                items[path[0]] = ins(items[path[0]], t.elems[path[0]] if t.kind == "struct" else t.elems[0], path[1:])
                return ("A", tuple(items))
            return ins(vs[0], ty, list(x))
        if op == "extractelement":
            if vs[0] is UNDEF:
                return UNDEF
            if not isinstance(vs[1], int):
                raise Unsup("vector index")
            return vs[0][1][vs[1]]
        if op == "insertelement":
            items = list(vs[0][1]) if vs[0] is not UNDEF else [UNDEF] * ty.n
            items[vs[2]] = vs[1]
            return ("A", tuple(items))
        a = list(vs[0][1]) if vs[0] is not UNDEF else [UNDEF] * 16
        b = list(vs[1][1]) if vs[1] is not UNDEF else [UNDEF] * 16
        n = len(a)
        return ("A", tuple(UNDEF if i < 0 or i > 1 << 30 else a[i] if i < n else b[i - n] for i in x))

    def bitcast(self, v, ft, ty):
        if v is UNDEF:
            return v
        if isinstance(v, tuple) and v[0] == "A":
            e = ft.elems[0]
            bs = []
            for z in v[1]:
                bs += tobytes(z, e.size, KIND[e.kind])
            return self.unbytes(bs, ty)
        if ty.kind in ("vector",):
            return self.unbytes(tobytes(v, ty.size, KIND.get(ft.kind, "i") if ft else "i"), ty)
        if ty.kind == "double":
            return i2d(v) if ft is None or ft.kind == "int" else v
        if ty.kind == "float":
            return i2f(v) if ft is None or ft.kind == "int" else v
        if ty.kind == "int" and ft is not None and ft.kind == "double":
            return d2i(v)
        if ty.kind == "int" and ft is not None and ft.kind == "float":
            return f2i(v)
        return v

    def unbytes(self, bs, ty):
        if ty.kind == "vector":
            n = ty.elems[0].size
            return ("A", tuple(self.unbytes(bs[i * n:(i + 1) * n], ty.elems[0]) for i in range(ty.n)))
        v = frombytes(bs)
        return i2d(v) if ty.kind == "double" else i2f(v) if ty.kind == "float" else v

    def cast(self, st, op, v, w1, w2):
        if v is UNDEF:
            return v
        if isinstance(v, tuple):
            return v
        if iskb(v):
            if op == "trunc":
                return mkkb(w2, v.a[1], v.a[2])
            if op == "zext":
                return mkkb(w2, v.a[1] | (((1 << w2) - 1) & ~((1 << w1) - 1)), v.a[2])
            return UNDEF
        if isinstance(v, int):
            if op == "sext":
                return sgn(v, w1) & ((1 << w2) - 1)
            return v & ((1 << w2) - 1)
        if v.op in BOOLY or (v.op in ("and", "or") and v.a[0] == 1):
            if op == "sext":
                return mulc(v, -1)
            return v
        P = st.path
        if op == "zext":
            if v.op in ("vb", "bseg", "byteof") and w1 == 8:
                return v
            if v.op == "bytes":
                return v
            if v.op in ("d2i", "f2i"):
                return frombytes(tobytes(v, w1 // 8) + [0] * ((w2 - w1) // 8))
            if P.ge0(v) is True:
                return v
            return mk("zext", w1, v)
        if op == "sext":
            if v.op in BYTEY:
                if w1 == 8:
                    al = self.balpha(v) if v.op in ("vb", "bseg") else None
                    if al is not None and max(al) < 128:
                        return v
                return mk("sext", w1, v)
            if v.op == "sext" or P.ge0(v) is not True or P.ge0(sub((1 << (w1 - 1)) - 1, v)) is True:
                return v
            return mk("sext", w1, v)
        if v.op == "or" and v.a[0] == 64 and w2 <= 32:
            for h, l in ((v.a[1], v.a[2]), (v.a[2], v.a[1])):
                if isinstance(h, T) and isinstance(l, T):
                    c, d = S.lin(h)
                    if c % (1 << 32) == 0 and all(k % (1 << 32) == 0 for k in d.values()):
                        return self.cast(st, op, l, 64, w2)
        if v.op in ("lshr", "ashr") and isinstance(v.a[2], int) and isinstance(v.a[1], T) and v.a[2] + w2 <= w1:
            c, d = S.lin(v.a[1])
            k = 1 << v.a[2]
            if c % k == 0 and all(x % k == 0 for x in d.values()):
                return self.cast(st, op, S.mklin(c // k, {x: y // k for x, y in d.items()}), w1, w2)
        if v.op == "and" and isinstance(v.a[2], int) and isinstance(v.a[1], T) and v.a[2] & ((1 << w2) - 1) == (1 << w2) - 1:
            return self.cast(st, op, v.a[1], w1, w2)
        if v.op in BYTEY:
            if w2 % 8:
                return mk("and", w1, v, (1 << w2) - 1)
            return frombytes(tobytes(v, w1 // 8)[:w2 // 8])
        if v.op in ("sext", "zext") and v.a[0] == w2:
            return v.a[1]
        if P.ge0(add(v, 1 << (w2 - 1))) is True and P.ge0(sub((1 << (w2 - 1)) - 1, v)) is True:
            return v
        if P.ge0(v) is True and P.ge0(sub((1 << w2) - 1, v)) is True:
            return v
        return mk("trunc", w2, v)

    def fcast(self, st, op, v, w1, ty):
        if v is UNDEF:
            return v
        if op in ("sitofp", "uitofp"):
            w = 32 if ty.kind == "float" else 64
            if isinstance(v, int):
                r = float(sgn(v, w1) if op == "sitofp" else v)
                return S._f32(r) if w == 32 else r
            if w1 < 64:
                return mk("sitofp", w, 64, self.cast(st, "sext" if op == "sitofp" else "zext", v, w1, 64))
            return mk(op, w, w1, v)
        if op in ("fptosi", "fptoui"):
            if isinstance(v, float):
                return int(v) & ((1 << ty.bits) - 1)
            return mk("fptosi", v)
        if op == "fptrunc":
            return S._f32(v) if isinstance(v, float) else mk("fptrunc", v)
        return v if isinstance(v, float) else mk("fpext", v)

    # ---------------------------------------------------------------- calls
    def call(self, st, fr, ins):
        op, dst, ty, ops, (name, fv, info) = ins
        regs = fr.regs
        if name is None:
            f = regs[fv] if type(fv) is int else fv[1]
            if not (isinstance(f, tuple) and f[0] == "FN"):
                raise Unsup("call through %r" % (f,))
            name = f[1]
        args = [regs[a] if type(a) is int else a[1] for a in ops]
        if info.get("byval"):
            pass
        m = MODELS.get(name)
        if m is None and name.startswith("llvm."):
            m = intrinsic(name)
            if m is None:
                raise Unsup("intrinsic " + name)
        if m is None:
            F = self.p.fn(name)
            if F is not None:
                self.push(st, F, args, dst if ty.kind != "void" else None, None)
                return None
            raise Unsup("external " + name)
        try:
            v = m(self, st, args, ty)
        except ThrowX as e:
            p = self.new(st)
            return self.unwind(st, (p, e.ti), pop=False)
        if v is _Redirect:
            return None
        if isinstance(v, tuple) and v and v[0] == "END":
            return v[1:]
        if ty.kind != "void":
            regs[dst] = v
        self.advance(fr)
        return None

    def typeid(self, ti):
        return self.tid.setdefault(ti, len(self.tid) + 1)

    def unwind(self, st, exc, pop):
        """transfer control to the nearest handler; the current instruction of the top frame is the raising one"""
        st.exc = exc
        first = True
        while st.frames:
            fr = st.frames[-1]
            ins = fr.F.code[fr.bb][fr.pc]
            if not (first and pop) and ins[0] == "invoke":
                tgt = ins[4][2]["succs"][1]
                cl, cleanup = fr.F.lp[tgt]
                sel = None
                for c in cl:
                    if c is None or (c != "FILTER" and self.p.isa(exc[1], c)):
                        sel = self.typeid(c) if c is not None else self.typeid("*")
                        break
                if sel is None and cleanup:
                    sel = 0
                if sel is not None:
                    fr.prev, fr.bb, fr.pc = fr.bb, tgt, 0
                    code = fr.F.code[tgt]
                    pc = 0
                    # phis, then the landing pad
                    vals = []
                    while code[pc][0] == "phi":
                        for pb, o in code[pc][3]:
                            if pb == fr.prev:
                                vals.append((code[pc][1], fr.regs[o] if type(o) is int else o[1]))
                                break
                        pc += 1
                    for k, v in vals:
                        fr.regs[k] = v
                    fr.regs[code[pc][1]] = ("A", (exc[0], sel))
                    fr.pc = pc + 1
                    return None
            first = False
            for b in fr.allocs:
                st.mem.pop(b, None)
            st.frames.pop()
        return ("throw", exc[1])


# -------------------------------------------------------------------- models
MODELS = {}


def model(*names):
    def d(f):
        for n in names:
            MODELS[n] = f
        return f
    return d


def intrinsic(name):
    if name.startswith("llvm.memcpy") or name.startswith("llvm.memmove"):
        return lambda I, st, a, ty: I.memcpy(st, a[0], a[1], a[2])
    if name.startswith("llvm.memset"):
        return m_memset
    if name.startswith("llvm.bswap"):
        return m_bswap
    if name.startswith("llvm.eh.typeid"):
        return lambda I, st, a, ty: I.typeid(a[0][1][1])
    for k in ("smin", "smax", "umin", "umax"):
        if name.startswith("llvm." + k):
            return lambda I, st, a, ty, k=k: m_minmax(I, st, a, ty, k)
    if name.startswith("llvm.abs"):
        def f(I, st, a, ty):
            if isinstance(a[0], int):
                return abs(sgn(a[0], ty.bits)) & ((1 << ty.bits) - 1)
            return a[0] if st.path.need(("ge", a[0])) else sub(0, a[0])
        return f
    if name.startswith(("llvm.ctlz", "llvm.cttz", "llvm.ctpop")):
        def f(I, st, a, ty):
            if not isinstance(a[0], int):
                raise Unsup("intrinsic " + name + " of a term")
            v = a[0] & ((1 << ty.bits) - 1)
            if name.startswith("llvm.ctpop"):
                return bin(v).count("1")
            if name.startswith("llvm.ctlz"):
                return ty.bits - v.bit_length()
            return (v & -v).bit_length() - 1 if v else ty.bits
        return f
    if name.startswith("llvm.fabs"):
        return lambda I, st, a, ty: abs(a[0]) if isinstance(a[0], float) else UNDEF if a[0] is UNDEF else mk("fabs", a[0])
    for n in ("sin", "cos", "floor", "ceil", "trunc", "round", "pow", "exp", "log"):
        if name.startswith("llvm.%s.f" % n):
            return _ffn(n, 32 if name.endswith("f32") else 64)
    if name.startswith("llvm.sqrt"):
        return lambda I, st, a, ty: math.sqrt(a[0]) if isinstance(a[0], float) and a[0] >= 0 else UNDEF if a[0] is UNDEF else mk("fsqrt", a[0])
    if name.startswith("llvm.fmuladd"):
        return lambda I, st, a, ty: I.fop("fadd", 64 if ty.kind == "double" else 32, I.fop("fmul", 64 if ty.kind == "double" else 32, a[0], a[1]), a[2])
    if name.startswith("llvm.expect"):
        return lambda I, st, a, ty: a[0]
    if name.startswith("llvm.trap"):
        return lambda I, st, a, ty: ("END", "terminate")
    if name.startswith("llvm.objectsize"):
        return lambda I, st, a, ty: M64
    if name.startswith("llvm.is.constant"):
        return lambda I, st, a, ty: 0
    for k in ("add", "sub", "mul"):
        for s in ("u", "s"):
            if name.startswith("llvm.%s%s.with.overflow" % (s, k)):
                def f(I, st, a, ty, k=k, s=s):
                    w = ty.elems[0].bits
                    r = I.bop(st, k, w, a[0], a[1])
                    if isinstance(a[0], int) and isinstance(a[1], int):
                        x, y = (a[0], a[1]) if s == "u" else (sgn(a[0], w), sgn(a[1], w))
                        z = {"add": x + y, "sub": x - y, "mul": x * y}[k]
                        ov = int(not (0 <= z < 1 << w) if s == "u" else not (-(1 << (w - 1)) <= z < 1 << (w - 1)))
                    else:
                        ov = 0 if s != "u" or k != "sub" else int(not st.path.need(("ge", r)))
                    return ("A", (r, ov))
                return f
    if name.startswith("llvm.fshl"):
        def f(I, st, a, ty):
            w, k = ty.bits, a[2]
            if a[0] is UNDEF or a[1] is UNDEF:
                return UNDEF
            if not isinstance(k, int):
                raise Unsup("funnel shift")
            k %= w
            if isinstance(a[0], int) and isinstance(a[1], int):
                return ((a[0] << k) | (a[1] >> (w - k))) & ((1 << w) - 1) if k else a[0]
            if a[0] is a[1]:
                return mk("rot", w, a[0], k)
            raise Unsup("funnel shift")
        return f
    if name.startswith("llvm.usub.sat"):
        def f(I, st, a, ty):
            r = I.bop(st, "sub", ty.bits, a[0], a[1])
            if isinstance(r, int):
                return max(0, a[0] - a[1]) if isinstance(a[0], int) and isinstance(a[1], int) else (r if sgn(r) >= 0 else 0)
            return r if st.path.need(("ge", r)) else 0
        return f
    return None


def m_memset(I, st, a, ty):
    p, v, n = a[0], a[1], a[2]
    if n == 0:
        return
    b, off = I.chk(st, p, n)
    if isinstance(b, tuple) and b[0] == "smut":
        I.write_smut(st, p, S.rep(n, v), n)
        return
    if not isinstance(n, int) or not isinstance(off, int):
        raise Unsup("symbolic memset")
    d = st.wr(b)
    I.clear(d, off, n)
    if isinstance(v, int):
        w = sum(v << (8 * i) for i in range(8))
        k = 0
        while k + 8 <= n and (off + k) % 8 == 0:
            d[off + k] = (8, w, "i")
            k += 8
        while k < n:
            d[off + k] = (1, v, "i")
            k += 1
    else:
        for k in range(n):
            d[off + k] = (1, v, "i")


def m_bswap(I, st, a, ty):
    return frombytes(tobytes(a[0], ty.bits // 8)[::-1])


def m_minmax(I, st, a, ty, k):
    x, y = a
    w = ty.bits
    if isinstance(x, int) and isinstance(y, int):
        u = [x, y] if k[0] == "u" else [sgn(x, w), sgn(y, w)]
        return (min(u) if k.endswith("min") else max(u)) & ((1 << w) - 1)
    lt = I.truth(st, mk("cmp", k[0] + "lt", w, I.norm(x, w), I.norm(y, w)))
    return x if lt == k.endswith("min") else y


@model("_Znwm", "_Znam", "_ZnwmRKSt9nothrow_t")
def m_new(I, st, a, ty):
    return I.new(st, a[0])


@model("_ZdlPv", "_ZdlPvm", "_ZdaPv", "_ZdaPvm")
def m_delete(I, st, a, ty):
    if isinstance(a[0], tuple):
        if isinstance(a[0][1], int) and a[0][1] not in st.mem:
            raise UB("memory released twice")
        st.mem.pop(a[0][1], None)
        st.sz.pop(a[0][1], None)


@model("__cxa_allocate_exception")
def m_alloc(I, st, a, ty):
    return I.new(st)


@model("__cxa_free_exception", "__cxa_end_catch", "_ZNSt9exceptionD1Ev", "_ZNSt9exceptionD2Ev", "_ZNSt8bad_castD2Ev", "_ZNSt8bad_castD1Ev", "_ZNSt11logic_errorD2Ev", "_ZNSt11logic_errorD1Ev",
       "_ZNSt13runtime_errorD2Ev", "_ZNSt13runtime_errorD1Ev", "_ZNSt12out_of_rangeD1Ev", "_ZNSt12out_of_rangeD2Ev", "_ZNSt9exceptionD0Ev", "_ZNSt16invalid_argumentD1Ev", "_ZNSt12length_errorD1Ev")
def m_nop(I, st, a, ty):
    return None


@model("_ZNSt12out_of_rangeC1ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE", "_ZNSt12out_of_rangeC1EPKc", "_ZNSt16invalid_argumentC1EPKc", "_ZNSt13runtime_errorC1EPKc", "_ZNSt13runtime_errorC2EPKc",
       "_ZNSt11logic_errorC1EPKc", "_ZNSt11logic_errorC2EPKc", "_ZNSt12length_errorC1EPKc", "_ZNSt13runtime_errorC1ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE",
       "_ZNSt13runtime_errorC2ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE", "_ZNSt16invalid_argumentC1ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE",
       "_ZNSt11logic_errorC1ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE", "_ZNSt11logic_errorC2ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE")
def m_nop2(I, st, a, ty):
    return None


@model("__cxa_throw")
def m_throw(I, st, a, ty):
    ti = a[1][1][1]
    r = I.unwind(st, (a[0], ti), pop=False)
    return ("END",) + r if r is not None else _Redirect


class _R(tuple):
    pass


_Redirect = _R(("REDIR",))


@model("__cxa_begin_catch")
def m_catch(I, st, a, ty):
    st.caught.append(st.exc)
    return a[0]


@model("__cxa_rethrow")
def m_rethrow(I, st, a, ty):
    if not st.caught:
        return ("END", "terminate")
    e = st.caught[-1]
    r = I.unwind(st, e, pop=False)
    return ("END",) + r if r is not None else _Redirect


@model("_ZSt9terminatev", "__cxa_pure_virtual", "__assert_fail", "abort")
def m_term(I, st, a, ty):
    return ("END", "terminate")


def thrower(ti):
    def f(I, st, a, ty):
        raise ThrowX(ti)
    return f


for _n, _t in (("_ZSt20__throw_length_errorPKc", "_ZTISt12length_error"), ("_ZSt20__throw_out_of_rangePKc", "_ZTISt12out_of_range"), ("_ZSt24__throw_out_of_range_fmtPKcz", "_ZTISt12out_of_range"),
               ("_ZSt17__throw_bad_allocv", "_ZTISt9bad_alloc"), ("_ZSt28__throw_bad_array_new_lengthv", "_ZTISt20bad_array_new_length"), ("_ZSt19__throw_logic_errorPKc", "_ZTISt11logic_error"),
               ("_ZSt24__throw_invalid_argumentPKc", "_ZTISt16invalid_argument"), ("_ZSt16__throw_bad_castv", "_ZTISt8bad_cast"), ("_ZSt21__throw_runtime_errorPKc", "_ZTISt13runtime_error")):
    MODELS[_n] = thrower(_t)


@model("_ZNKSt8__detail20_Prime_rehash_policy14_M_need_rehashEmmm")
def m_rehash(I, st, a, ty):
    return ("A", (0, 0))


@model("_ZNKSt8__detail20_Prime_rehash_policy11_M_next_bktEm")
def m_nextb(I, st, a, ty):
    return 1


@model("memcmp")
def m_memcmp(I, st, a, ty):
    x, y = I.readstr(st, a[0], a[2]), I.readstr(st, a[1], a[2])
    return cmp3(I, st, x, y)


@model("bcmp")
def m_bcmp(I, st, a, ty):
    x, y = I.readstr(st, a[0], a[2]), I.readstr(st, a[1], a[2])
    r = S.eqs(st.path, x, y)
    return 1 - r if isinstance(r, int) else mk("not", r)


@model("strlen")
def m_strlen(I, st, a, ty):
    return S.slen(I.cstr(st, a[0]))


@model("memchr")
def m_memchr(I, st, a, ty):
    s = I.readstr(st, a[0], a[2])
    k = S.find(st.path, s, S.rep(1, a[1] & 255), 0)
    if k == M64:
        return 0
    if isinstance(k, T):
        if not st.path.need(("ge", k)):
            return 0
    return ("P", a[0][1], I.offadd(a[0][2], k))


@model("memcpy", "memmove")
def m_memcpy(I, st, a, ty):
    I.memcpy(st, a[0], a[1], a[2])
    return a[0]


@model("memset")
def m_mset(I, st, a, ty):
    m_memset(I, st, a, ty)
    return a[0]


@model("sqrt", "sqrtf")
def m_sqrt(I, st, a, ty):
    return intrinsic("llvm.sqrt")(I, st, a, ty)


def _ffn(n, w):
    def f(I, st, a, ty):
        if any(x is UNDEF for x in a):
            return UNDEF
        t = mk("ffn", n, w, *a)
        return S.evf(t, {}) if all(isinstance(x, float) for x in a) else t
    return f


for _n in ("sin", "cos", "tan", "asin", "acos", "atan", "atan2", "hypot", "floor", "ceil", "trunc", "round", "pow", "fmod", "exp", "log"):
    model(_n)(_ffn(_n, 64))
    model(_n + "f")(_ffn(_n, 32))


@model("isspace")
def m_isspace(I, st, a, ty):
    if isinstance(a[0], int):
        return int(a[0] in b"\t\n\v\f\r ")
    raise Unsup("isspace")


@model("isdigit")
def m_isdigit(I, st, a, ty):
    if isinstance(a[0], int):
        return int(48 <= a[0] <= 57)
    raise Unsup("isdigit")


# ---- strings
def H(v):
    if v is UNDEF:
        raise Unsup("indeterminate string")
    if isinstance(v, T) and v.op == "str":
        return v
    raise Unsup("not a string handle: %r" % (v,))


@model("vs_lit")
def _(I, st, a, ty):
    return I.readstr(st, a[0], a[1]) if a[1] != 0 else S.EMPTY


@model("vs_lit0")
def _(I, st, a, ty):
    return I.cstr(st, a[0])


@model("vs_len")
def _(I, st, a, ty):
    return S.slen(H(a[0]))


@model("vs_cat")
def _(I, st, a, ty):
    return S.cat(H(a[0]), H(a[1]))


@model("vs_sub")
def _(I, st, a, ty):
    return S.substr(st.path, H(a[0]), a[1], a[2])


@model("vs_rep")
def _(I, st, a, ty):
    return S.rep(a[0], a[1])


@model("vs_eq")
def _(I, st, a, ty):
    return S.eqs(st.path, H(a[0]), H(a[1]))


def cmp3(I, st, x, y):
    if S.islit(x) and S.islit(y):
        u, v = S.litval(x), S.litval(y)
        return ((u > v) - (u < v)) & 0xffffffff
    if x is y:
        return 0
    return mk("cmp3", x, y)


@model("vs_cmp")
def _(I, st, a, ty):
    return cmp3(I, st, H(a[0]), H(a[1]))


@model("vs_find")
def _(I, st, a, ty):
    return S.find(st.path, H(a[0]), H(a[1]), a[2])


@model("vs_rfind")
def _(I, st, a, ty):
    x, y = H(a[0]), H(a[1])
    if S.islit(x) and S.islit(y) and isinstance(a[2], int):
        return S.evi(mk("rfind", x, y, a[2]), {}) & M64
    if S.islit(y) and len(S.litval(y)) == 1 and a[2] == M64:
        return S.findset(st.path, x, y, M64, 1, True)
    return mk("rfind", x, y, a[2])


@model("vs_findset")
def _(I, st, a, ty):
    return S.findset(st.path, H(a[0]), H(a[1]), a[2], a[3])


@model("vs_rfindset")
def _(I, st, a, ty):
    return S.findset(st.path, H(a[0]), H(a[1]), a[2], a[3], True)


@model("vs_cstr")
def _(I, st, a, ty):
    return ("P", ("str", H(a[0])), 0)


@model("vs_mut")
def _(I, st, a, ty):
    return ("P", ("smut", a[0][1], a[0][2]), 0)


@model("vs_fmt_i")
def _(I, st, a, ty):
    v = a[0]
    if v is UNDEF:
        return UNDEF
    if isinstance(v, int):
        v = sgn(v) if a[1] else v
        return S.lit(str(v).encode())
    return S.fmt_i(v)


@model("vs_fmt_d")
def _(I, st, a, ty):
    return S.fmt_f(a[0], a[1])


@model("vs_fmt_f")
def _(I, st, a, ty):
    return S.fmt_f(a[0], a[1], True)


@model("vs_ok")
def _(I, st, a, ty):
    return S.okp(st.path, H(a[0]), a[1])


@model("vs_parse_i")
def _(I, st, a, ty):
    return S.parse_i(st.path, H(a[0]), a[1])


@model("vs_parse_d")
def _(I, st, a, ty):
    return S.parse_f(st.path, H(a[0]), False)


@model("vs_parse_f")
def _(I, st, a, ty):
    return S.parse_f(st.path, H(a[0]), True)


@model("vs_trim")
def _(I, st, a, ty):
    c = H(a[1])
    if not S.islit(c):
        raise Unsup("trim set")
    return S.trim(st.path, H(a[0]), S.litval(c), a[2])


@model("vs_upper", "vs_lower")
def _(I, st, a, ty):
    raise Unsup("case conversion")


@model("vs_unsupported")
def _(I, st, a, ty):
    raise Unsup("unsupported primitive")


# ---- witness interface: symbolic inputs are passed as arguments; outputs are events
@model("out_s")
def _(I, st, a, ty):
    st.events.append(("s", a[0], a[1]))


@model("out_i")
def _(I, st, a, ty):
    st.events.append(("i", a[0], a[1]))


@model("out_b")
def _(I, st, a, ty):
    """a truth value: the path is partitioned until it is a constant"""
    st.events.append(("i", a[0], int(I.truth(st, a[1]))))


@model("__cxa_guard_acquire")
def _(I, st, a, ty):
    if I.loadv(st, a[0], 1, "i") == 1:
        return 0
    return 1


@model("__cxa_guard_release")
def _(I, st, a, ty):
    I.storev(st, a[0], 1, 1, "i")


@model("__cxa_guard_abort", "__cxa_atexit")
def _(I, st, a, ty):
    return 0


@model("out_d")
def _(I, st, a, ty):
    st.events.append(("d", a[0], a[1]))


@model("out_f")
def _(I, st, a, ty):
    st.events.append(("d", a[0], a[1]))


@model("in_s")
def _(I, st, a, ty):
    return I.inputs["s%d" % a[0]] if isinstance(a[0], int) else None


@model("in_i")
def _(I, st, a, ty):
    return I.inputs["i%d" % a[0]]


@model("in_d")
def _(I, st, a, ty):
    return I.inputs["d%d" % a[0]]


@model("in_f")
def _(I, st, a, ty):
    return I.inputs["f%d" % a[0]]


@model("vs_mark")
def _(I, st, a, ty):
    st.events.append(("m", a[0], 0))


# ---- files
def FS(st, p):
    k = (repr(p[1]), p[2])
    f = st.fstate.get(k)
    if f is None:
        f = {"open": 0, "path": None, "pos": 0, "eof": 0, "fail": 0, "bad": 0, "out": 0, "gc": 0}
        st.fstate[k] = f
    return f


@model("vf_ctor")
def _(I, st, a, ty):
    st.fstate.pop((repr(a[0][1]), a[0][2]), None)


@model("vf_dtor")
def _(I, st, a, ty):
    st.fstate.pop((repr(a[0][1]), a[0][2]), None)


@model("vf_move")
def _(I, st, a, ty):
    f = dict(FS(st, a[1]))
    st.fstate[(repr(a[0][1]), a[0][2])] = f
    st.fstate.pop((repr(a[1][1]), a[1][2]), None)


@model("vf_open")
def _(I, st, a, ty):
    f = FS(st, a[0])
    path, mode = H(a[1]), a[2]
    st.events.append(("open", mode, path)) if getattr(I, "trace_files", False) else None
    if f["open"]:
        f["fail"] = 1
        return
    inn, out, trunc, app = mode & 8, mode & 16, mode & 32, mode & 1
    exists = path.id in st.files
    if out and (trunc or not inn):
        st.files[path.id] = S.EMPTY if not app or not exists else st.files[path.id]
        exists = True
    if trunc and not out:
        f["fail"] = 1
        return
    if not exists:
        f["fail"] = 1
        return
    f.update(open=1, path=path.id, pos=0, eof=0, fail=0, bad=0, out=1 if out else 0, inn=1 if inn else 0, app=app)
    if mode & 2 or app:
        f["pos"] = S.slen(st.files[path.id])


@model("vf_close")
def _(I, st, a, ty):
    f = FS(st, a[0])
    if not f["open"]:
        f["fail"] = 1
    f["open"] = 0


@model("vf_clear")
def _(I, st, a, ty):
    FS(st, a[0]).update(eof=0, fail=0, bad=0)


@model("vf_isopen")
def _(I, st, a, ty):
    return FS(st, a[0])["open"]


@model("vf_good")
def _(I, st, a, ty):
    f = FS(st, a[0])
    return int(not (f["eof"] or f["fail"] or f["bad"]))


@model("vf_eof")
def _(I, st, a, ty):
    return FS(st, a[0])["eof"]


@model("vf_fail")
def _(I, st, a, ty):
    f = FS(st, a[0])
    return int(f["fail"] or f["bad"])


@model("vf_bad")
def _(I, st, a, ty):
    return FS(st, a[0])["bad"]


@model("vf_setstate")
def _(I, st, a, ty):
    f = FS(st, a[0])
    if a[1] & 2:
        f["eof"] = 1
    if a[1] & 4:
        f["fail"] = 1
    if a[1] & 1:
        f["bad"] = 1


@model("vf_tellg", "vf_tellp")
def _(I, st, a, ty):
    f = FS(st, a[0])
    if f["eof"]:
        f["fail"] = 1
    if f["fail"] or not f["open"]:
        return M64
    return f["pos"]


def seek(I, st, a, ty):
    f = FS(st, a[0])
    base = 0
    if a[2] == 1:
        base = f["pos"]
    elif a[2] == 2:
        base = S.slen(st.files[f["path"]])
    if not f["fail"] and f["open"]:
        np = add(base, a[1])
        f["pos"] = np


@model("vf_seekg")
def _(I, st, a, ty):
    f = FS(st, a[0])
    f["eof"] = 0
    seek(I, st, a, ty)


@model("vf_seekp")
def _(I, st, a, ty):
    seek(I, st, a, ty)


@model("vf_read")
def _(I, st, a, ty):
    f = FS(st, a[0])
    n = a[2]
    if f["eof"] or f["fail"] or f["bad"] or not f["open"]:
        f["fail"] = 1
        f["gc"] = 0
        return
    c = st.files[f["path"]] if f.get("inn") else S.EMPTY
    avail = sub(S.slen(c), f["pos"])
    P = st.path
    if not (P.need(("ge", avail)) if isinstance(avail, T) else sgn(avail) >= 0):
        avail = 0
    short = not (P.le(n, avail))
    k = avail if short else n
    data = S.substr(P, c, f["pos"], k) if k != 0 else S.EMPTY
    b = a[1][1]
    if k != 0:
        if isinstance(b, tuple) and b[0] == "smut":
            I.write_smut(st, a[1], data, k)
        else:
            if not isinstance(k, int):
                raise Unsup("symbolic read")
            bs = [S.byteat(P, data, i) for i in range(k)]
            d = st.wr(b)
            I.clear(d, a[1][2], k)
            for i, x in enumerate(bs):
                d[a[1][2] + i] = (1, x, "i")
    f["pos"] = add(f["pos"], k)
    f["gc"] = k
    if short:
        f["eof"] = f["fail"] = 1


@model("vf_gcount")
def _(I, st, a, ty):
    return FS(st, a[0])["gc"]


@model("vf_write")
def _(I, st, a, ty):
    f = FS(st, a[0])
    if f["eof"] or f["fail"] or f["bad"] or not f["open"] or not f["out"]:
        f["bad"] = 1
        return
    n = a[2]
    data = I.readstr(st, a[1], n) if n != 0 else S.EMPTY
    c = st.files[f["path"]]
    L_ = S.slen(c)
    P = st.path
    if f.get("app"):
        f["pos"] = L_
    pos = f["pos"]
    gap = sub(pos, L_)
    if gap == 0:
        st.files[f["path"]] = S.cat(c, data)
    elif P.need(("ge", gap)) if isinstance(gap, T) else sgn(gap) >= 0:
        st.files[f["path"]] = S.cat(c, S.rep(gap, 0), data)
    else:
        pre, rest = S.take(P, c, pos)
        if P.le(S.slen(data), S.slen(S.mkstr(rest))):
            _, tail = S.take(P, S.mkstr(rest), n)
        else:
            tail = []
        st.files[f["path"]] = S.mkstr(list(pre) + list(S.segs(data)) + list(tail))
    f["pos"] = add(pos, n)


def getc(I, st, f, peek):
    if f["eof"] or f["fail"] or f["bad"] or not f["open"]:
        f["fail"] = 1
        return 0xffffffff
    c = st.files[f["path"]] if f.get("inn") else S.EMPTY
    av = sub(S.slen(c), f["pos"])
    if not st.path.need(("ge", sub(av, 1))) if isinstance(av, T) else sgn(av) < 1:
        f["eof"] = 1
        if not peek:
            f["fail"] = 1
        return 0xffffffff
    b = S.byteat(st.path, c, f["pos"])
    if not peek:
        f["pos"] = add(f["pos"], 1)
    return b


@model("vf_get")
def _(I, st, a, ty):
    return getc(I, st, FS(st, a[0]), False)


@model("vf_peek")
def _(I, st, a, ty):
    return getc(I, st, FS(st, a[0]), True)


@model("vf_flush")
def _(I, st, a, ty):
    return None


@model("vf_ignore")
def _(I, st, a, ty):
    f = FS(st, a[0])
    f["pos"] = add(f["pos"], a[1])


@model("vs_filecontent")
def _(I, st, a, ty):
    c = st.files.get(H(a[0]).id)
    return S.lit(b"<no file>") if c is None else c


# ---- printing: one output stream object whose text is kept under a reserved name
OSK = S.lit(b"<ostream>").id


@model("vs_os")
def _(I, st, a, ty):
    if OSK not in st.files:
        st.files[OSK] = S.EMPTY
    return ("P", ("os",), 0)


@model("vs_os_out")
def _(I, st, a, ty):
    st.events.append(("s", a[0], st.files[OSK]))


def os_put(st, t):
    st.files[OSK] = S.cat(st.files[OSK], t)


def os_model(conv, *names):
    @model(*names)
    def f(I, st, a, ty):
        if not (isinstance(a[0], tuple) and a[0][1] == ("os",)):
            raise Unsup("stream %r" % (a[0],))
        os_put(st, conv(I, st, a))
        return a[0]


def _num(w, signed):
    def f(I, st, a):
        v = a[1]
        if v is UNDEF:
            raise Unsup("indeterminate value printed")
        if isinstance(v, int):
            return S.lit(str(sgn(v, w) if signed else v).encode())
        return S.fmt_i(v)
    return f


os_model(lambda I, st, a: S.fmt_f(a[1], 0), "_ZNSolsEd", "_ZNSo9_M_insertIdEERSoT_")
os_model(lambda I, st, a: S.fmt_f(a[1], 0, True), "_ZNSolsEf")
os_model(_num(32, True), "_ZNSolsEi", "_ZNSolsEs")
os_model(_num(64, True), "_ZNSolsEl", "_ZNSolsEx", "_ZNSo9_M_insertIlEERSoT_", "_ZNSo9_M_insertIxEERSoT_")
os_model(_num(64, False), "_ZNSolsEm", "_ZNSolsEj", "_ZNSolsEy", "_ZNSolsEt", "_ZNSo9_M_insertImEERSoT_", "_ZNSo9_M_insertIyEERSoT_")
os_model(lambda I, st, a: S.rep(1, a[1] & 255), "_ZStlsISt11char_traitsIcEERSt13basic_ostreamIcT_ES5_c", "_ZNSo3putEc", "_ZNSo5writeEPKcl_char")
os_model(lambda I, st, a: I.cstr(st, a[1]), "_ZStlsISt11char_traitsIcEERSt13basic_ostreamIcT_ES5_PKc")
os_model(lambda I, st, a: I.readstr(st, a[1], a[2]), "_ZSt16__ostream_insertIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_PKS3_l", "_ZNSo5writeEPKcl")
os_model(lambda I, st, a: S.lit(b"\n"), "_ZSt4endlIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_")
os_model(lambda I, st, a: S.EMPTY, "_ZNSo5flushEv")


@model("vs_os_put")
def _(I, st, a, ty):
    os_put(st, H(a[1]))
    return a[0]
