"""String, integer and byte terms for the FITS code, with a normal form, a linear-constraint
path context (polyhedral facts over lengths and parsed numbers) and an evaluator.

A string term is a flat sequence of segments; the integer terms are linear forms over atoms.
Everything is interned, so equality of normal forms is identity."""
import struct
from fractions import Fraction

M64 = (1 << 64) - 1


class T:
    __slots__ = ("op", "a", "id", "__weakref__")

    def __repr__(self):
        return show(self)


_tab = {}


def mk(op, *a):
    k = (op,) + tuple((x.id, "T") if isinstance(x, T) else ((type(x).__name__, repr(x)) if isinstance(x, float) else x) for x in a)
    t = _tab.get(k)
    if t is None:
        t = T()
        t.op, t.a, t.id = op, a, len(_tab) + 1
        _tab[k] = t
    return t


UNDEF = mk("undef")


def show(t, d=6):
    if not isinstance(t, T):
        return repr(t)
    if t.op == "lin":
        c, ps = t.a[0], t.a[1:]
        s = " + ".join(("%s" % show(p[1], d - 1)) if p[0] == 1 else "%d*%s" % (p[0], show(p[1], d - 1)) for p in ps)
        return s + (" + %d" % c if c > 0 else " - %d" % -c if c < 0 else "")
    if t.op == "str":
        return "<" + " ".join(showseg(s, d) for s in t.a[0]) + ">"
    if t.op == "seg":
        return showseg(t.a, d)
    if d <= 0:
        return t.op + "(..)"
    return "%s(%s)" % (t.op, ", ".join(show(x, d - 1) for x in t.a))


def showseg(s, d):
    if s[0] == "L":
        b = s[1]
        return repr(b if len(b) < 90 else b[:60] + b"..(%d)" % len(b))[1:]
    if s[0] == "V":
        return s[1] if s[2] is None else "%s[%d:%d]" % (s[1], s[2], s[3])
    return s[0] + "(" + ", ".join(show(x, d - 1) for x in s[1:]) + ")"


# ------------------------------------------------------------------ integers
def lin(t):
    """-> (const, {atom: coef})"""
    if isinstance(t, bool):
        return int(t), {}
    if isinstance(t, int):
        return (t - (1 << 64) if t >= (1 << 63) else t), {}
    if t.op == "lin":
        return t.a[0], {p[1]: p[0] for p in t.a[1:]}
    return 0, {t: 1}


def mklin(c, d, raw=False):
    d = {k: v for k, v in d.items() if v}
    if not d:
        return c if raw else c & M64
    if c == 0 and len(d) == 1:
        (k, v), = d.items()
        if v == 1:
            return k
    ps = tuple(sorted(((v, k) for k, v in d.items()), key=lambda p: p[1].id))
    key = ("lin", c) + tuple((v, k.id) for v, k in ps)
    t = _tab.get(key)
    if t is None:
        t = T()
        t.op, t.a, t.id = "lin", (c,) + ps, len(_tab) + 1
        _tab[key] = t
    return t


def add(a, b, sb=1):
    ca, da = lin(a)
    cb, db = lin(b)
    d = dict(da)
    for k, v in db.items():
        d[k] = d.get(k, 0) + sb * v
    return mklin(ca + sb * cb, d)


def sub(a, b):
    return add(a, b, -1)


def mulc(a, k):
    c, d = lin(a)
    return mklin(c * k, {x: v * k for x, v in d.items()})


def sgn(v, bits=64):
    return v - (1 << bits) if v >> (bits - 1) else v


# ------------------------------------------------------------------ strings
class Var:
    """a symbolic input string: alphabet (set of byte values), length bounds"""

    def __init__(self, name, alpha=None, lo=0, hi=1 << 30, fixed=None, values=None):
        self.name, self.alpha, self.lo, self.hi = name, frozenset(alpha) if alpha is not None else None, lo, hi
        self.fixed = fixed
        self.values = values
        if fixed is not None:
            self.lo = self.hi = fixed


VARS = {}


def strvar(name, **k):
    v = Var(name, **k)
    VARS[name] = v
    if v.fixed is not None:
        if v.fixed == 0:
            return lit(b"")
        return mkstr([("V", name, 0, v.fixed)])
    return mkstr([("V", name, None, None)])


def _key(s):
    return tuple(x.id if isinstance(x, T) else x for x in s)


def mkstr(segs):
    out = []
    for s in segs:
        if s[0] == "L":
            if not s[1]:
                continue
            if out and out[-1][0] == "L":
                out[-1] = ("L", out[-1][1] + s[1])
                continue
        elif s[0] == "R":
            n, b = s[1], s[2]
            if isinstance(n, int):
                if n == 0:
                    continue
                if isinstance(b, int):
                    if sgn(n) < 0 or n > 1 << 20:
                        out.append(("R", n, b))
                        continue
                    s = ("L", bytes([b]) * n)
                    if out and out[-1][0] == "L":
                        out[-1] = ("L", out[-1][1] + s[1])
                        continue
                elif n == 1:
                    s = ("B", b)
            if s[0] == "R" and out and out[-1][0] == "R" and out[-1][2] == b:
                out[-1] = ("R", add(out[-1][1], n), b)
                continue
            # literal of the same byte next to a repetition: absorb
            if s[0] == "R" and isinstance(b, int) and out and out[-1][0] == "L" and out[-1][1][-1] == b:
                l = out[-1][1].rstrip(bytes([b]))
                k = len(out[-1][1]) - len(l)
                out.pop()
                if l:
                    out.append(("L", l))
                out.append(("R", add(n, k), b))
                continue
        elif s[0] == "B":
            if isinstance(s[1], int):
                s = ("L", bytes([s[1] & 255]))
                if out and out[-1][0] == "L":
                    out[-1] = ("L", out[-1][1] + s[1])
                    continue
            elif isinstance(s[1], T) and s[1].op == "vb":      # a byte of a fixed-length variable
                s = ("V", s[1].a[0], s[1].a[1], s[1].a[1] + 1)
            elif isinstance(s[1], T) and s[1].op == "bseg":
                pass
        elif s[0] == "V" and s[2] is not None and s[2] >= s[3]:
            continue
        if s[0] == "V" and s[2] is not None and out and out[-1][0] == "V" and out[-1][1] == s[1] and out[-1][3] == s[2]:
            out[-1] = ("V", s[1], out[-1][2], s[3])
            continue
        if s[0] == "L" and out and out[-1][0] == "R" and isinstance(out[-1][2], int):
            b = bytes([out[-1][2]])
            l = s[1].lstrip(b)
            if len(l) != len(s[1]):
                out[-1] = ("R", add(out[-1][1], len(s[1]) - len(l)), out[-1][2])
                if not l:
                    continue
                s = ("L", l)
        if s[0] == "L" and out and out[-1][0] == "L":
            out[-1] = ("L", out[-1][1] + s[1])
            continue
        out.append(s)
    k = ("str",) + tuple(_key(s) for s in out)
    t = _tab.get(k)
    if t is None:
        t = T()
        t.op, t.a, t.id = "str", (tuple(out),), len(_tab) + 1
        _tab[k] = t
    return t


def lit(b):
    return mkstr([("L", bytes(b))])


EMPTY = lit(b"")


def segs(t):
    return t.a[0]


def islit(t):
    s = segs(t)
    return not s or (len(s) == 1 and s[0][0] == "L")


def litval(t):
    s = segs(t)
    return s[0][1] if s else b""


def segobj(s):
    return mk("seg", *s)


def seglen(s):
    k = s[0]
    if k == "L":
        return len(s[1])
    if k == "V":
        return mk("len", s[1]) if s[2] is None else s[3] - s[2]
    if k == "R":
        return s[1]
    if k == "B":
        return 1
    if k == "S":
        return s[3]
    if k == "W":
        return s[4]
    return mk("slen", segobj(s))


def slen(t):
    n = 0
    for s in segs(t):
        n = add(n, seglen(s))
    return n


def cat(*ts):
    r = []
    for t in ts:
        r.extend(segs(t))
    return mkstr(r)


def rep(n, b):
    return mkstr([("R", n, b)])


def fmt_i(x):
    if isinstance(x, int):
        return lit(str(x).encode())
    return mkstr([("F", "i", x)])


def num_g(x, kind, single=False):
    if kind == 0:
        return "%g" % x
    if kind == 1:
        return "%f" % x
    if kind == 2:
        return ("%.9g" if single else "%.17g") % x
    prec, fl = kind >> 12, kind & 3
    return "%.*{}".format({0: "g", 1: "f", 2: "e"}[fl]) % (prec, x)


def fmt_f(x, kind, single=False):
    if isinstance(x, float):
        return lit(num_g(x, kind, single).encode())
    return mkstr([("F", ("f" if single else "d") + str(kind), x)])


# ------------------------------------------------------------------ path context
class Fork(Exception):
    def __init__(self, cond):
        self.cond = cond


class Infeasible(Exception):
    pass


def atom_bounds(a):
    """(lo, hi) of an integer atom"""
    if a.op == "len":
        v = VARS[a.a[0]]
        return v.lo, v.hi
    if a.op == "slen":
        s = a.a[0].a
        if s[0] == "F":
            if s[1] == "i":
                x = s[2]
                if isinstance(x, T) and x.op == "var":
                    return 1, max(len(str(x.a[1])), len(str(x.a[2])))
                return 1, 20
            if s[1] in ("d0", "f0"):
                return 1, 12
            return 1, 400
        return 0, 1 << 30
    if a.op in ("find", "findset", "rfind", "rfindset"):
        return -1, 1 << 30
    if a.op == "parse":
        k = a.a[0]
        return {2: (-(1 << 15), (1 << 15) - 1), 3: (-(1 << 31), (1 << 31) - 1), 4: (-(1 << 62), 1 << 62), 6: (0, (1 << 16) - 1), 7: (0, (1 << 32) - 1), 8: (0, 1 << 62),
                11: (0, 255), 12: (0, 1)}.get(k, (None, None))
    if a.op == "var":
        return a.a[1], a.a[2]
    if a.op in ("vb", "bseg", "byteof"):
        return 0, 255
    if a.op == "urem":
        if isinstance(a.a[2], int):
            return 0, a.a[2] - 1
    if a.op == "sext" and isinstance(a.a[0], int):
        return -(1 << (a.a[0] - 1)), (1 << (a.a[0] - 1)) - 1
    if a.op == "bytes" and a.a[0] < 8:
        return 0, (1 << (8 * a.a[0])) - 1
    if a.op in ("udiv", "zext"):
        return 0, None
    if a.op == "ftell":
        return 0, 1 << 40
    if a.op == "mul":
        lo, hi = [], []
        for x in a.a[1:]:
            if isinstance(x, int):
                lo.append(x), hi.append(x)
            elif x.op != "lin":
                l, h = atom_bounds(x)
                lo.append(l), hi.append(h)
            else:
                return None, None
        if all(l is not None and l >= 0 for l in lo):
            return 0, None
    return None, None


def feasible(cons):
    """Fourier-Motzkin over the rationals: cons is a list of (const, {atom: coef}) meaning >= 0"""
    cons = [(Fraction(c), dict(d)) for c, d in cons]
    atoms = set()
    for c, d in cons:
        atoms |= set(d)
    for a in atoms:
        lo, hi = atom_bounds(a)
        if lo is not None:
            cons.append((Fraction(-lo), {a: 1}))
        if hi is not None:
            cons.append((Fraction(hi), {a: -1}))
    while True:
        nc = []
        for c, d in cons:
            d = {k: v for k, v in d.items() if v}
            if not d:
                if c < 0:
                    return False
            else:
                nc.append((c, d))
        cons = nc
        if not cons:
            return True
        atoms = {}
        for c, d in cons:
            for a, v in d.items():
                p = atoms.setdefault(a, [0, 0])
                p[0 if v > 0 else 1] += 1
        a = min(atoms, key=lambda x: atoms[x][0] * atoms[x][1] - atoms[x][0] - atoms[x][1])
        pos = [(c, d) for c, d in cons if d.get(a, 0) > 0]
        neg = [(c, d) for c, d in cons if d.get(a, 0) < 0]
        rest = [(c, d) for c, d in cons if not d.get(a, 0)]
        if len(pos) * len(neg) > 400:
            return True
        new = {}
        for c1, d1 in pos:
            for c2, d2 in neg:
                k1, k2 = -d2[a], d1[a]
                d = {}
                for k, v in d1.items():
                    d[k] = d.get(k, 0) + v * k1
                for k, v in d2.items():
                    d[k] = d.get(k, 0) + v * k2
                d.pop(a, None)
                d = {k: v for k, v in d.items() if v}
                c = c1 * k1 + c2 * k2
                g = None
                if d:
                    g = abs(next(iter(d.values())))
                    d = {k: Fraction(v, 1) / g for k, v in d.items()}
                    c = Fraction(c) / g
                key = tuple(sorted((k.id, v) for k, v in d.items()))
                if key not in new or new[key][0] > c:
                    new[key] = (c, d)
        cons = rest + list(new.values())


class Path:
    """facts collected along one partition of the analysis: linear constraints and truth of atoms"""

    def __init__(self, lins=(), atoms=None):
        self.lins = list(lins)
        self.atoms = dict(atoms or {})
        self.order = []
        self.memo = {}

    def clone(self):
        p = Path(self.lins, self.atoms)
        p.order = list(self.order)
        p.memo = dict(self.memo)
        return p

    def _rel(self, d):
        """constraints sharing atoms (transitively) with d"""
        seen, out = set(d), []
        todo = list(self.lins)
        ch = True
        while ch:
            ch = False
            rest = []
            for c in todo:
                if seen & set(c[1]):
                    out.append(c)
                    seen |= set(c[1])
                    ch = True
                else:
                    rest.append(c)
            todo = rest
        return out

    def ge0(self, t):
        """True / False / None: t >= 0 (mathematical integer)"""
        c, d = lin(t)
        if not d:
            return c >= 0
        k = ("ge", t.id)
        if k in self.memo:
            return self.memo[k]
        rel = self._rel(d)
        if not feasible(rel + [(-c - 1, {a: -v for a, v in d.items()})]):
            r = True
        elif not feasible(rel + [(c, d)]):
            r = False
        else:
            r = None
        self.memo[k] = r
        return r

    def decide(self, cond):
        """cond: ('ge', term) | ('atom', term).  True/False/None"""
        if cond[0] == "ge":
            return self.ge0(cond[1])
        if cond[0] == "eq":
            t = cond[1]
            c, d = lin(t)
            if not d:
                return c == 0
            if self.ge0(t) is False or self.ge0(sub(0, t)) is False:
                return False
            if self.ge0(t) is True and self.ge0(sub(0, t)) is True:
                return True
            r = self.atoms.get(("eq", t.id))
            if r is not None:
                return r
            return self.atoms.get(("eq", sub(0, t).id))
        return self.atoms.get(("atom", cond[1].id))

    def assume(self, cond, truth):
        self.order.append((cond, truth))
        self.memo = {}
        if cond[0] == "ge":
            c, d = lin(cond[1])
            self.lins.append((c, d) if truth else (-c - 1, {a: -v for a, v in d.items()}))
        elif cond[0] == "eq":
            c, d = lin(cond[1])
            if truth:
                self.lins.append((c, d))
                self.lins.append((-c, {a: -v for a, v in d.items()}))
            else:
                self.atoms[("eq", cond[1].id)] = False
                # with a decided order the disequality sharpens a bound
                if self.ge0(cond[1]) is True:
                    self.lins.append((c - 1, d))
                elif self.ge0(sub(0, cond[1])) is True:
                    self.lins.append((-c - 1, {a: -v for a, v in d.items()}))
            self.memo = {}
        else:
            self.atoms[("atom", cond[1].id)] = truth

    # demand a decision
    def need(self, cond):
        r = self.decide(cond)
        if r is None:
            raise Fork(cond)
        return r

    def le(self, a, b):
        return self.need(("ge", sub(b, a)))

    def lt(self, a, b):
        return self.need(("ge", sub(sub(b, a), 1)))

    def eqi(self, a, b):
        return self.need(("eq", sub(a, b)))


# ------------------------------------------------------------------ string operations under a path
def take(P, t, n):
    """first n bytes -> (prefix segments, rest segments)"""
    out, rest = [], list(segs(t))
    while True:
        c, d = lin(n)
        if not d and c == 0:
            return out, rest
        if not rest:
            return out, rest
        s = rest[0]
        L = seglen(s)
        dif = sub(n, L)
        if P.need(("ge", dif)):
            out.append(s)
            rest.pop(0)
            n = dif
            continue
        # cut inside s
        k = s[0]
        if P.need(("eq", n if isinstance(n, T) else mklin(lin(n)[0], {}))) if isinstance(n, T) else n == 0:
            return out, rest
        if k == "L" and isinstance(n, int):
            out.append(("L", s[1][:n]))
            rest[0] = ("L", s[1][n:])
            return out, rest
        if k == "L" and len(set(s[1])) == 1:
            out.append(("R", n, s[1][0]))
            rest[0] = ("R", sub(L, n), s[1][0])
            return out, rest
        if k == "R":
            out.append(("R", n, s[2]))
            rest[0] = ("R", sub(L, n), s[2])
            return out, rest
        if k == "V" and s[2] is not None and isinstance(n, int):
            out.append(("V", s[1], s[2], s[2] + n))
            rest[0] = ("V", s[1], s[2] + n, s[3])
            return out, rest
        if k == "S":
            out.append(("S", s[1], s[2], n))
            rest[0] = ("S", s[1], add(s[2], n), sub(s[3], n))
            return out, rest
        o = segobj(s)
        out.append(("S", o, 0, n))
        rest[0] = ("S", o, n, sub(L, n))
        return out, rest


def substr(P, t, pos, n):
    if islit(t) and isinstance(pos, int) and isinstance(n, int):
        p, m = sgn(pos), sgn(n)
        v = litval(t)
        if 0 <= p <= len(v) and 0 <= m <= len(v) - p:
            return lit(v[p:p + m])
    _, r = take(P, t, pos)
    m, _ = take(P, mkstr(r), n)
    return mkstr(m)


def alpha(s):
    """possible byte values of a segment, None = any"""
    k = s[0]
    if k == "L":
        return frozenset(s[1])
    if k == "V":
        return VARS[s[1]].alpha
    if k == "R":
        return frozenset([s[2]]) if isinstance(s[2], int) else None
    if k == "B":
        return None
    if k == "S":
        o = s[1]
        if o.op == "seg":
            return alpha(o.a)
        r = frozenset()
        for x in segs(o):
            y = alpha(x)
            if y is None:
                return None
            r |= y
        return r
    if k == "F":
        return frozenset(b"0123456789+-.einfa") if s[1] != "i" else frozenset(b"-0123456789")
    if k == "T":
        return alpha(("S", s[1], 0, 0))
    return None


def trim(P, t, cset, sides):
    ss = list(segs(t))

    def side(ss, left):
        while ss:
            s = ss[0] if left else ss[-1]
            a = alpha(s)
            if s[0] == "L":
                b = s[1].lstrip(cset) if left else s[1].rstrip(cset)
                if b:
                    if left:
                        ss[0] = ("L", b)
                    else:
                        ss[-1] = ("L", b)
                    return True
                ss.pop(0 if left else -1)
                continue
            if a is not None and a <= frozenset(cset):
                ss.pop(0 if left else -1)
                continue
            if a is not None and not (a & frozenset(cset)):
                if P.need(("ge", sub(seglen(s), 1))) if isinstance(seglen(s), T) else seglen(s) >= 1:
                    return True
                ss.pop(0 if left else -1)
                continue
            return False
        return True
    done = 0
    if sides & 1 and side(ss, True):
        done |= 1
    if sides & 2 and side(ss, False):
        done |= 2
    if not ss or done == sides:
        return mkstr(ss)
    return mkstr([("T", mkstr(ss), bytes(cset), sides & ~done)])


def eqs(P, a, b):
    """1 / 0 / term"""
    if a is b:
        return 1
    if islit(a) and islit(b):
        return int(litval(a) == litval(b))
    x, y = list(segs(a)), list(segs(b))
    # strip equal ends
    for left in (True, False):
        k = 0 if left else -1
        while x and y:
            if x[k] == y[k] and _key(x[k]) == _key(y[k]):
                x.pop(k), y.pop(k)
                continue
            if x[k][0] == "L" and y[k][0] == "L":
                u, v = x[k][1], y[k][1]
                n = min(len(u), len(v))
                if left:
                    if u[:n] != v[:n]:
                        return 0
                    x[k], y[k] = ("L", u[n:]), ("L", v[n:])
                else:
                    if u[len(u) - n:] != v[len(v) - n:]:
                        return 0
                    x[k], y[k] = ("L", u[:len(u) - n]), ("L", v[:len(v) - n])
                if not x[k][1]:
                    x.pop(k)
                if y and not y[k][1]:
                    y.pop(k)
                continue
            if x[k][0] == "L" and isinstance(seglen(y[k]), int) and alpha(y[k]) is not None:
                n = min(len(x[k][1]), seglen(y[k]))
                part = x[k][1][:n] if left else x[k][1][-n:]
                if n and (not set(part) <= alpha(y[k])):
                    return 0
            elif y[k][0] == "L" and isinstance(seglen(x[k]), int) and alpha(x[k]) is not None:
                n = min(len(y[k][1]), seglen(x[k]))
                part = y[k][1][:n] if left else y[k][1][-n:]
                if n and (not set(part) <= alpha(x[k])):
                    return 0
            break
    A, B = mkstr(x), mkstr(y)
    if A is B:
        return 1
    if P.decide(("eq", sub(slen(A), slen(B)))) is False:
        return 0
    # runs of one byte: equal when as long
    u = alpha(("S", A, 0, 0)) if x else frozenset()
    v = alpha(("S", B, 0, 0)) if y else frozenset()
    if u is not None and v is not None and len(u | v) == 1:
        return 1 if P.eqi(slen(A), slen(B)) else 0
    # a literal needing a byte outside the other side's alphabet
    for u, v in ((A, B), (B, A)):
        if islit(u):
            al = frozenset()
            for s in segs(v):
                z = alpha(s)
                if z is None:
                    al = None
                    break
                al |= z
            if al is not None and not frozenset(litval(u)) <= al:
                return 0
            if not litval(u):
                for s in segs(v):
                    L = seglen(s)
                    if P.decide(("ge", sub(L, 1))) is True:
                        return 0
    if A.id > B.id:
        A, B = B, A
    return mk("streq", A, B)


def fact(P, t):
    """record t >= 0, which holds by construction"""
    c, d = lin(t)
    if d and (c, d) not in P.lins:
        P.lins.append((c, d))
        P.memo = {}


def _restfrom(P, t, frm):
    """segments from position frm on, None when frm is past the end"""
    if frm == 0:
        return list(segs(t))
    if isinstance(frm, int) and sgn(frm) < 0:
        return None
    d = sub(slen(t), frm)
    if not (P.need(("ge", d)) if isinstance(d, T) else sgn(d) >= 0):
        return None
    return take(P, t, frm)[1]


def _segfind(P, s, cs, inn):
    """first position inside segment s of a byte in (not in) cs: term or None when there is none"""
    L = seglen(s)
    a = alpha(s)
    if a is not None:
        hit = a <= cs if inn else not (a & cs)
        miss = not (a & cs) if inn else a <= cs
        if miss:
            return None
        if hit:
            return 0 if (P.need(("ge", sub(L, 1))) if isinstance(L, T) else L >= 1) else None
    f = mk("findset", mkstr([s]), lit(bytes(sorted(cs))), 0, int(bool(inn)))
    fact(P, sub(sub(L, 1), f))
    return f if P.need(("ge", f)) else None


def find(P, t, needle, frm):
    """first occurrence of a literal needle at or after frm: int / term"""
    if islit(t) and islit(needle) and isinstance(frm, int):
        return litval(t).find(litval(needle), frm if sgn(frm) >= 0 else 1 << 62) & M64
    if islit(needle) and len(litval(needle)) == 1:
        return findset(P, t, needle, frm, True)
    return mk("find", t, needle, frm)


def findset(P, t, cs, frm, inn, rev=False):
    if islit(t) and islit(cs) and isinstance(frm, int):
        v, c = litval(t), set(litval(cs))
        f = sgn(frm)
        idx = range(min(len(v) - 1, f if f >= 0 else len(v)), -1, -1) if rev else range(f if f >= 0 else len(v), len(v))
        for i in idx:
            if (v[i] in c) == bool(inn):
                return i
        return M64
    if islit(cs) and not rev:
        ss = _restfrom(P, t, frm)
        if ss is None:
            return M64
        c = frozenset(litval(cs))
        pos = frm
        for s in ss:
            if s[0] == "L":
                for i, x in enumerate(s[1]):
                    if (x in c) == bool(inn):
                        return add(pos, i)
            else:
                k = _segfind(P, s, c, inn)
                if k is not None:
                    return add(pos, k)
            pos = add(pos, seglen(s))
        return M64
    if islit(cs) and rev and (frm == M64):
        c = frozenset(litval(cs))
        tot = slen(t)
        pos = 0
        ss = list(segs(t))
        ss.reverse()
        ok = True
        for s in ss:
            L = seglen(s)
            if s[0] == "L":
                for i, x in enumerate(s[1][::-1]):
                    if (x in c) == bool(inn):
                        return sub(sub(tot, add(pos, i)), 1)
            else:
                a = alpha(s)
                if a is None:
                    ok = False
                    break
                hit = a <= c if inn else not (a & c)
                miss = not (a & c) if inn else a <= c
                if hit:
                    if P.need(("ge", sub(L, 1))) if isinstance(L, T) else L >= 1:
                        return sub(sub(tot, pos), 1)
                elif not miss:
                    ok = False
                    break
            pos = add(pos, L)
        if ok:
            return M64
    return mk("rfindset" if rev else "findset", t, cs, frm, int(bool(inn)))


def byteat(P, t, i):
    """byte term at index i"""
    pos = 0
    if isinstance(i, int):
        for s in segs(t):
            L = seglen(s)
            if not isinstance(L, int):
                if P.decide(("ge", sub(add(pos, L), i + 1))) is True and s[0] == "R":
                    return s[2]
                break
            if i < pos + L:
                k = i - pos
                if s[0] == "L":
                    return s[1][k]
                if s[0] == "R":
                    return s[2]
                if s[0] == "B":
                    return s[1]
                if s[0] == "V":
                    return mk("vb", s[1], s[2] + k)
                if s[0] == "W":
                    break
                return mk("bseg", segobj(s), k)
            pos += L
        else:
            if i == pos:
                return 0
    _, r = take(P, t, i)
    if not r:
        return 0
    s = r[0]
    if P.need(("ge", sub(seglen(s), 1))):
        if s[0] == "L":
            return s[1][0]
        if s[0] == "R":
            return s[2]
        if s[0] == "B":
            return s[1]
        if s[0] == "V" and s[2] is not None:
            return mk("vb", s[1], s[2])
        return mk("bseg", segobj(s), 0)
    return byteat(P, mkstr(r[1:]), 0)


# ------------------------------------------------------------------ numbers in text
import re as _re
_INT = _re.compile(rb"^[+-]?[0-9]+$")
_FLT = _re.compile(rb"^[+-]?([0-9]+\.?[0-9]*|\.[0-9]+)([eE][+-]?[0-9]+)?$|^[+-]?(inf|infinity|nan)$", _re.I)
RNG = {2: (-(1 << 15), (1 << 15) - 1), 3: (-(1 << 31), (1 << 31) - 1), 4: (-(1 << 63), (1 << 63) - 1), 6: (0, (1 << 16) - 1), 7: (0, (1 << 32) - 1), 8: (0, (1 << 64) - 1)}


def cok(v, kind):
    if kind in RNG:
        if not _INT.match(v):
            return False
        n = int(v)
        lo, hi = RNG[kind]
        if lo == 0:
            return abs(n) <= hi
        return lo <= n <= hi
    if kind in (9, 10):
        return bool(_FLT.match(v))
    if kind == 11:
        return len(v) == 1
    if kind == 12:
        return v in (b"0", b"1", b"+1", b"+0")
    return False


def cparse(v, kind):
    if kind in RNG:
        n = int(v)
        if RNG[kind][0] == 0:
            n %= RNG[kind][1] + 1
        return n
    if kind in (9, 10):
        return float(v)
    if kind == 11:
        return v[0]
    return int(v)


def okp(P, t, kind):
    if islit(t):
        return int(cok(litval(t), kind))
    s = segs(t)
    if len(s) == 1 and s[0][0] == "F" and s[0][1] == "i" and kind in RNG:
        x = s[0][2]
        lo, hi = RNG[kind]
        if P.ge0(sub(x, lo)) is True and P.ge0(mklin(hi - lin(x)[0], {a: -v for a, v in lin(x)[1].items()})) is True:
            return 1
        if P.ge0(sub(x, hi + 1)) is True or (lo < 0 and P.ge0(sub(lo - 1, x)) is True):
            return 0
    if len(s) == 1 and s[0][0] == "F" and kind in (9, 10):
        return 1
    if kind == 11:
        r = P.decide(("eq", sub(slen(t), 1)))
        return int(P.need(("eq", sub(slen(t), 1))))
    if len(s) == 1 and s[0][0] == "V" and VARS[s[0][1]].values is not None and s[0][2] in (None, 0):
        vv = VARS[s[0][1]].values
        if vv == "int" and kind in RNG:
            return 1
        if vv == "float" and kind in (9, 10):
            return 1
    if kind in RNG:
        for x in s:
            if x[0] == "L" and not _re.match(rb"^[0-9+-]*$", x[1]):
                return 0
            z = alpha(x)
            if z is not None and not z & frozenset(b"0123456789+-") and P.ge0(sub(slen(mkstr([x])), 1)) is True:
                return 0
    if kind in RNG or kind in (9, 10):
        prev = frozenset()                   # bytes that may stand directly before; empty at the start, None unknown
        for x in s:
            if x[0] == "L":
                for c in x[1]:
                    if c in b"+-" and prev is not None and prev and (kind in RNG or not prev & frozenset(b"eE")):
                        return 0
                    prev = frozenset((c,))
            else:
                prev = alpha(x) if P.ge0(sub(slen(mkstr([x])), 1)) is True else None
        al = frozenset()
        for x in s:
            z = alpha(x)
            if z is None:
                break
            al |= z
        else:
            if not al & frozenset(b"0123456789") and (kind in RNG or not al & frozenset(b"iInN")):
                return 0
    if kind in (9, 10):
        for x in s:
            if x[0] == "L" and not _re.match(rb"^[0-9eE.+a-zA-Z-]*$", x[1]):
                return 0
    return mk("ok", kind, t)


def parse_i(P, t, kind):
    if islit(t):
        return cparse(litval(t), kind) & M64
    s = segs(t)
    if len(s) == 1 and s[0][0] == "F" and s[0][1] == "i" and kind in RNG:
        return s[0][2]
    if kind == 11:
        return byteat(P, t, 0)
    return mk("parse", kind, t)


def parse_f(P, t, single):
    if islit(t):
        v = float(litval(t))
        return struct.unpack("f", struct.pack("f", v))[0] if single else v
    return mk("parsef", int(single), t)


# ------------------------------------------------------------------ evaluation under a valuation
class Stuck(Exception):
    pass


def evs(t, E):
    k = (t.id)
    if k in E:
        return E[k]
    out = b""
    for s in segs(t):
        out += evseg(s, E)
    E[k] = out
    return out


def evseg(s, E):
    k = s[0]
    if k == "L":
        return s[1]
    if k == "V":
        v = E[s[1]]
        return v if s[2] is None else v[s[2]:s[3]]
    if k == "R":
        n = evi(s[1], E)
        if n < 0 or n > 1 << 20:
            raise Stuck("repeat %d" % n)
        return bytes([evi(s[2], E) & 255]) * n
    if k == "B":
        return bytes([evi(s[1], E) & 255])
    if k == "S":
        b = evseg(s[1].a, E) if s[1].op == "seg" else evs(s[1], E)
        p, n = evi(s[2], E), evi(s[3], E)
        if p < 0 or n < 0 or p + n > len(b):
            raise Stuck("substring out of range")
        return b[p:p + n]
    if k == "F":
        x = s[2]
        if s[1] == "i":
            return str(evi(x, E)).encode()
        return num_g(evf(x, E), int(s[1][1:]), s[1][0] == "f").encode()
    if k == "T":
        b = evs(s[1], E)
        if s[3] & 1:
            b = b.lstrip(s[2])
        if s[3] & 2:
            b = b.rstrip(s[2])
        return b
    if k == "W":      # overwrite: base, pos, data
        b = evs(s[1], E)
        p, d = evi(s[2], E), evs(s[3], E)
        return b[:p] + d + b[p + len(d):]
    raise Stuck("segment " + k)


def _cmpv(pred, a, b, w=64):
    m = (1 << w) - 1
    if pred[0] == "u":
        a, b = a & m, b & m
    else:
        a, b = sgn(a & m, w), sgn(b & m, w)
    return int({"gt": a > b, "ge": a >= b, "lt": a < b, "le": a <= b}[pred[1:]])


def evi(t, E):
    if isinstance(t, int):
        return sgn(t & M64) if t >> 63 else t
    k = ("i", t.id)
    if k in E:
        return E[k]
    r = _evi(t, E)
    E[k] = r
    return r


def _evi(t, E):
    o, a = t.op, t.a
    if o == "lin":
        return a[0] + sum(c * evi(x, E) for c, x in a[1:])
    if o == "var":
        return E[a[0]]
    if o == "len":
        return len(E[a[0]])
    if o == "slen":
        return len(evseg(a[0].a, E))
    if o == "streq":
        return int(evs(a[0], E) == evs(a[1], E))
    if o == "vb":
        return E[a[0]][a[1]]
    if o == "bseg":
        b = evseg(a[0].a, E)
        i = evi(a[1], E)
        if i >= len(b):
            raise Stuck("byte index")
        return b[i]
    if o == "find":
        f = evi(a[2], E)
        return evs(a[0], E).find(evs(a[1], E), f if f >= 0 else 1 << 62)
    if o == "rfind":
        f = evi(a[2], E)
        h, n = evs(a[0], E), evs(a[1], E)
        return h.rfind(n) if f < 0 else h.rfind(n, 0, f + len(n))
    if o in ("findset", "rfindset"):
        r = findset(None, lit(evs(a[0], E)), lit(evs(a[1], E)), evi(a[2], E) & M64, a[3], o[0] == "r")
        return sgn(r)
    if o == "cmp3":
        x, y = evs(a[0], E), evs(a[1], E)
        return (x > y) - (x < y)
    if o == "ok":
        return int(cok(evs(a[1], E), a[0]))
    if o == "parse":
        v = evs(a[1], E)
        if not cok(v, a[0]):
            raise Stuck("parse")
        return cparse(v, a[0])
    if o == "byteof":
        return (ebits(a[0], E) >> (8 * a[1])) & 255
    if o == "bytes":
        return sum((evi(b, E) & 255) << (8 * i) for i, b in enumerate(a[1:]))
    if o == "cmp":
        return _cmpv(a[0], evi(a[2], E), evi(a[3], E), a[1])
    if o == "eq":
        m = (1 << a[0]) - 1
        return int((evi(a[1], E) & m) == (evi(a[2], E) & m))
    if o == "fcmp":
        x, y = evf(a[1], E), evf(a[2], E)
        un = x != x or y != y
        p = a[0]
        if p == "ord":
            return int(not un)
        if p == "uno":
            return int(un)
        b = {"eq": x == y, "ne": x != y, "gt": x > y, "ge": x >= y, "lt": x < y, "le": x <= y}[p[1:]]
        return int((b and not un) if p[0] == "o" else (b or un))
    if o == "not":
        return 1 - evi(a[0], E)
    if o == "ite":
        return evi(a[1], E) if evi(a[0], E) else evi(a[2], E)
    if o in ("mul", "udiv", "sdiv", "urem", "srem", "and", "or", "xor", "shl", "lshr", "ashr", "add", "sub"):
        w = a[0]
        m = (1 << w) - 1
        x, y = evi(a[1], E), evi(a[2], E)
        ux, uy = x & m, y & m
        sx, sy = sgn(ux, w), sgn(uy, w)
        if o in ("udiv", "urem", "sdiv", "srem") and uy == 0:
            raise Stuck("division by zero")
        r = {"mul": lambda: ux * uy, "add": lambda: ux + uy, "sub": lambda: ux - uy, "udiv": lambda: ux // uy, "urem": lambda: ux % uy,
             "sdiv": lambda: abs(sx) // abs(sy) * (1 if (sx < 0) == (sy < 0) else -1), "srem": lambda: abs(sx) % abs(sy) * (-1 if sx < 0 else 1),
             "and": lambda: ux & uy, "or": lambda: ux | uy, "xor": lambda: ux ^ uy, "shl": lambda: ux << uy, "lshr": lambda: ux >> uy, "ashr": lambda: sx >> uy}[o]() & m
        return sgn(r, w) if w > 1 else r
    if o == "zext":
        return evi(a[1], E) & ((1 << a[0]) - 1)
    if o in ("sext", "trunc"):
        return sgn(evi(a[1], E) & ((1 << a[0]) - 1), a[0])
    if o == "d2i":
        return sgn(struct.unpack("<Q", struct.pack("<d", evf(a[0], E)))[0])
    if o == "f2i":
        return sgn(struct.unpack("<I", struct.pack("<f", evf(a[0], E)))[0], 32)
    if o == "fptosi":
        v = evf(a[0], E)
        if v != v or abs(v) > 9e18:
            raise Stuck("fptosi")
        return int(v)
    raise Stuck("int " + o)


def ebits(t, E):
    return evi(t, E) & M64


def evf(t, E):
    import math
    if isinstance(t, float):
        return t
    if isinstance(t, int):
        return float(t)
    o, a = t.op, t.a
    if o == "fvar":
        return E[a[0]]
    if o == "parsef":
        v = evs(a[1], E)
        if not cok(v, 10):
            raise Stuck("parse")
        x = float(v)
        return _f32(x) if a[0] else x
    if o == "i2d":
        return struct.unpack("<d", struct.pack("<Q", evi(a[0], E) & M64))[0]
    if o == "i2f":
        return struct.unpack("<f", struct.pack("<I", evi(a[0], E) & 0xffffffff))[0]
    if o in ("fadd", "fsub", "fmul", "fdiv"):
        x, y = evf(a[1], E), evf(a[2], E)
        try:
            r = {"fadd": lambda: x + y, "fsub": lambda: x - y, "fmul": lambda: x * y, "fdiv": lambda: x / y}[o]()
        except ZeroDivisionError:
            r = float("nan") if x == 0 or x != x else math.copysign(float("inf"), x) * math.copysign(1, y)
        return _f32(r) if a[0] == 32 else r
    if o == "fneg":
        return -evf(a[0], E)
    if o == "fabs":
        return abs(evf(a[0], E))
    if o == "fsqrt":
        x = evf(a[0], E)
        return math.sqrt(x) if x >= 0 else float("nan")
    if o == "sitofp" or o == "uitofp":
        x = evi(a[2], E)
        if o == "uitofp":
            x &= (1 << a[1]) - 1
        else:
            x = ((x & M64) ^ (1 << 63)) - (1 << 63) if a[1] == 64 else ((x + (1 << (a[1] - 1))) & ((1 << a[1]) - 1)) - (1 << (a[1] - 1))
        r = float(x)
        return _f32(r) if a[0] == 32 else r
    if o == "ffn":
        try:
            v = [evf(x, E) for x in a[2:]]
            r = {"atan2": math.atan2, "hypot": math.hypot, "pow": math.pow, "fmod": math.fmod, "round": lambda x: math.copysign(math.floor(abs(x) + .5), x)}.get(a[0]) or getattr(math, a[0])
            r = float(r(*v))
        except (ValueError, OverflowError):
            raise Stuck("float " + a[0])
        return _f32(r) if a[1] == 32 else r
    if o == "fptrunc":
        return _f32(evf(a[0], E))
    if o == "fpext":
        return evf(a[0], E)
    if o == "ite":
        return evf(a[1], E) if evi(a[0], E) else evf(a[2], E)
    raise Stuck("float " + o)


def _f32(x):
    try:
        return struct.unpack("<f", struct.pack("<f", x))[0]
    except OverflowError:
        import math
        return math.copysign(float("inf"), x)


def leaves(t, acc, seen):
    """input variables a term depends on, and integer constants it mentions"""
    if not isinstance(t, T):
        if isinstance(t, int) and not isinstance(t, bool):
            acc[1].add(sgn(t & M64))
        elif isinstance(t, (tuple, list)):
            for x in t:
                leaves(x, acc, seen)
        return
    if t.id in seen:
        return
    seen.add(t.id)
    if t.op in ("len", "vb"):
        acc[0].add(("s", t.a[0]))
    elif t.op == "var":
        acc[0].add(("i", t.a[0], t.a[1], t.a[2]))
        return
    elif t.op == "fvar":
        acc[0].add(("f", t.a[0], t.a[1] if len(t.a) > 1 else 64))
        return
    if t.op == "str":
        for s in t.a[0]:
            _segl(s, acc, seen)
        return
    if t.op == "seg":
        _segl(t.a, acc, seen)
        return
    for x in t.a:
        leaves(x, acc, seen)


def _segl(s, acc, seen):
    if s[0] == "V":
        acc[0].add(("s", s[1]))
        return
    for x in s[1:]:
        if isinstance(x, T):
            leaves(x, acc, seen)
