"""Hash-consed value terms and their algebraic canonical form.

A term is a node of the value graph extracted from compiler IR.  `canon` maps a
real-valued term to a normal form: a polynomial over atoms (arguments, opaque
calls, sin/cos/atan2/sqrt/floor/... of canonical arguments) with the rewrite
rules  sin^2 -> 1-cos^2,  sqrt(p)^2 -> p,  inv(p)*p -> 1  applied.  Two terms
with equal normal forms denote the same real function for every input."""
import time, math, random, re
from fractions import Fraction


class T:
    __slots__ = ("op", "args", "id", "loc", "_h")

    def __repr__(self):
        return show(self)


_tab = {}
_next = [0]


def mk(op, *args):
    k = (op,) + tuple(a.id if isinstance(a, T) else ("#", a) for a in args)
    t = _tab.get(k)
    if t is None:
        t = T()
        t.op, t.args, t.id, t.loc = op, args, _next[0], None
        _next[0] += 1
        _tab[k] = t
    return t


def var(name, ty="double"):
    return mk("var", name, ty)


def fc(v):
    return mk("f", float(v))


def ic(v, bits=64):
    v = int(v) & ((1 << bits) - 1)
    return mk("i", bits, v)


def sval(t):
    """signed value of an integer constant"""
    b, v = t.args
    return v - (1 << b) if v >> (b - 1) else v


BOT = mk("bot")
UNDEF = mk("undef")
TRUE = ic(1, 1)
FALSE = ic(0, 1)
NULL = mk("null")
NEGP = {"eq": "ne", "ne": "eq", "ugt": "ule", "uge": "ult", "ult": "uge", "ule": "ugt", "sgt": "sle", "sge": "slt",
        "slt": "sge", "sle": "sgt", "oeq": "une", "une": "oeq", "ogt": "ule", "oge": "ult", "olt": "uge", "ole": "ugt",
        "ueq": "one", "one": "ueq", "uno": "ord", "ord": "uno"}
SWAP = {"eq": "eq", "ne": "ne", "ugt": "ult", "uge": "ule", "ult": "ugt", "ule": "uge", "sgt": "slt", "sge": "sle",
        "slt": "sgt", "sle": "sge"}


def neg(c):
    if c is TRUE:
        return FALSE
    if c is FALSE:
        return TRUE
    if c.op == "not":
        return c.args[0]
    return mk("not", c)


def icmp(p, a, b):
    if a is b:
        return TRUE if p in ("eq", "uge", "ule", "sge", "sle") else FALSE
    if a.op == "i" and b.op == "i":
        ua, ub, sa, sb = a.args[1], b.args[1], sval(a), sval(b)
        r = {"eq": ua == ub, "ne": ua != ub, "ugt": ua > ub, "uge": ua >= ub, "ult": ua < ub, "ule": ua <= ub,
             "sgt": sa > sb, "sge": sa >= sb, "slt": sa < sb, "sle": sa <= sb}[p]
        return TRUE if r else FALSE
    if p in ("eq", "ne"):
        if a.op in ("ptr",) and b.op in ("ptr",) and a.args[0] is b.args[0] and isinstance(a.args[1], T) and isinstance(b.args[1], T):
            if a.args[1].op == "i" and b.args[1].op == "i":
                r = a.args[1] is b.args[1]
                return TRUE if r == (p == "eq") else FALSE
        if b is NULL and a.op == "ptr" and a.args[0].op in ("alloca", "heap"):
            return FALSE if p == "eq" else TRUE
        if a is NULL and b.op == "ptr" and b.args[0].op in ("alloca", "heap"):
            return FALSE if p == "eq" else TRUE
    # canonical polarity and order so that a condition and its negation share an atom
    if a.op == "i" and b.op != "i":
        a, b, p = b, a, SWAP[p]
    if p in ("ne", "uge", "ugt", "sge", "sgt"):
        # express with eq / ult / slt / ule / sle
        if p == "ne":
            return neg(mk("icmp", "eq", *_ord(a, b)))
        q = {"uge": "ult", "ugt": "ule", "sge": "slt", "sgt": "sle"}[p]
        return neg(mk("icmp", q, a, b))
    if p == "eq":
        a, b = _ord(a, b)
    return mk("icmp", p, a, b)


def _ord(a, b):
    if b.op in ("i", "null"):
        return a, b
    if a.op in ("i", "null"):
        return b, a
    return (a, b) if a.id <= b.id else (b, a)


def fcmp(p, a, b):
    # ordered/unordered distinction is dropped: NaN operands are outside every property here
    if p in ("false",):
        return FALSE
    if p in ("true",):
        return TRUE
    if p == "uno":
        return FALSE
    if p == "ord":
        return TRUE
    q = p[1:]
    if a.op == "f" and b.op == "f":
        x, y = a.args[0], b.args[0]
        r = {"eq": x == y, "ne": x != y, "gt": x > y, "ge": x >= y, "lt": x < y, "le": x <= y}[q]
        return TRUE if r else FALSE
    if a is b:
        return TRUE if q in ("eq", "ge", "le") else FALSE
    if a.op == "f":
        a, b = b, a
        q = {"eq": "eq", "ne": "ne", "gt": "lt", "ge": "le", "lt": "gt", "le": "ge"}[q]
    if q == "eq":
        return mk("fcmp", "eq", a, b)
    if q == "ne":
        return neg(mk("fcmp", "eq", a, b))
    if q == "lt":
        return mk("fcmp", "lt", a, b)
    if q == "ge":
        return neg(mk("fcmp", "lt", a, b))
    if q == "le":
        return mk("fcmp", "le", a, b)
    return neg(mk("fcmp", "le", a, b))


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if a is BOT:
        return b
    if b is BOT:
        return a
    if a is UNDEF or b is UNDEF:
        pass
    if c.op == "not":
        c, a, b = c.args[0], b, a
    if a is TRUE and b is FALSE:
        return c
    if a is FALSE and b is TRUE:
        return neg(c)
    if a.op == "ite" and a.args[0] is c:
        a = a.args[1]
    if b.op == "ite" and b.args[0] is c:
        b = b.args[2]
    if a is b:
        return a
    # x == y ? x : y  is  y (and the other way round)
    if c.op == "fcmp" and c.args[0] in ("eq", "ne") and {c.args[1].id, c.args[2].id} == {a.id, b.id}:
        return b if c.args[0] == "eq" else a
    # remainder brought back to a positive range: r = fmod(x, k); r < 0 ? r + k : r  is  x - k*floor(x/k)
    if b.op == "frem" and c.op == "fcmp" and c.args[0] == "lt" and c.args[1] is b and c.args[2].op == "f" and c.args[2].args[0] == 0 \
            and a.op == "fadd" and any(a.args[i] is b and a.args[1 - i] is b.args[1] for i in (0, 1)) and b.args[1].op == "f" and b.args[1].args[0] > 0:
        x, k = b.args
        return mk("fsub", x, mk("fmul", k, mk("call", "floor", mk("fdiv", x, k))))
    return mk("ite", c, a, b)


def show(t, d=0):
    if not isinstance(t, T):
        return repr(t)
    if t.op == "f":
        return repr(t.args[0])
    if t.op == "i":
        return str(sval(t)) if t.args[0] > 1 else str(bool(t.args[1]))
    if t.op == "var":
        return str(t.args[0])
    if d > 14:
        return "..."
    inf = {"fadd": "+", "fsub": "-", "fmul": "*", "fdiv": "/", "add": "+", "sub": "-", "mul": "*"}
    if t.op in inf:
        return "(%s %s %s)" % (show(t.args[0], d + 1), inf[t.op], show(t.args[1], d + 1))
    if t.op in ("icmp", "fcmp"):
        return "(%s %s %s)" % (show(t.args[1], d + 1), {"eq": "==", "lt": "<", "le": "<="}.get(t.args[0], t.args[0]), show(t.args[2], d + 1))
    if t.op == "ite":
        return "if(%s; %s; %s)" % tuple(show(a, d + 1) for a in t.args)
    if t.op == "not":
        return "!" + show(t.args[0], d + 1)
    if t.op == "call":
        return "%s(%s)" % (t.args[0], ", ".join(show(a, d + 1) for a in t.args[1:]))
    return "%s(%s)" % (t.op, ", ".join(show(a, d + 1) for a in t.args))


def walk(t):
    seen, st = set(), [t]
    while st:
        x = st.pop()
        if not isinstance(x, T) or x.id in seen:
            continue
        seen.add(x.id)
        yield x
        st.extend(a for a in x.args if isinstance(a, T))


# ---------------------------------------------------------------- canonical form
class Poly:
    """dict: monomial (sorted tuple of (atomkey, exp)) -> coefficient (float)"""
    __slots__ = ("d",)

    def __init__(self, d=None):
        self.d = d or {}


ATOMS = {}     # atomkey -> (kind, payload)


def _atom(kind, *payload):
    k = (kind,) + tuple(payload)
    ATOMS[k] = k
    return k


def pconst(c):
    return Poly({(): c}) if c != 0 else Poly({})


def patom(k, e=1):
    return Poly({((k, e),): 1.0})


EPS = 1e-10


def _clean(d, mag):
    return Poly({m: c for m, c in d.items() if abs(c) > EPS * mag.get(m, abs(c))})


def padd(a, b, s=1.0):
    d = dict(a.d)
    mag = {m: abs(c) for m, c in d.items()}
    for m, c in b.d.items():
        d[m] = d.get(m, 0.0) + s * c
        mag[m] = max(mag.get(m, 0.0), abs(c))
    return _clean(d, mag)


def pscale(a, s):
    return Poly({m: c * s for m, c in a.d.items()}) if s else Poly({})


class TooBig(Exception):
    pass


def pmul(a, b):
    d, mag = {}, {}
    if len(a.d) * len(b.d) > 20000:
        raise TooBig()
    extra = Poly({})
    for m1, c1 in a.d.items():
        for m2, c2 in b.d.items():
            e = {}
            for k, n in m1 + m2:
                e[k] = e.get(k, 0) + n
            c = c1 * c2
            m = tuple(sorted(((k, n) for k, n in e.items() if n), key=repr))
            red = _reduce_mono(m)
            if red is None:
                d[m] = d.get(m, 0.0) + c
                mag[m] = max(mag.get(m, 0.0), abs(c))
            else:
                for m3, c3 in red.d.items():
                    d[m3] = d.get(m3, 0.0) + c * c3
                    mag[m3] = max(mag.get(m3, 0.0), abs(c * c3))
    return _clean(d, mag)


def _reduce_mono(m):
    """apply sin^2 = 1-cos^2 and sqrt(p)^2 = p, inv(p)*p handled in pdiv; returns Poly or None"""
    for j, (k, n) in enumerate(m):
        if k[0] == "sin" and n >= 2:
            ck = _atom("cos", k[1])
            rest = Poly({m[:j] + (((k, n - 2),) if n > 2 else ()) + m[j + 1:]: 1.0})
            return pmul(rest, padd(pconst(1.0), patom(ck, 2), -1.0))
        if k[0] == "sqrt" and (n >= 2 or n <= -2):
            q = KEYPOLY[k[1]]
            if n >= 2:
                rest = Poly({m[:j] + (((k, n - 2),) if n > 2 else ()) + m[j + 1:]: 1.0})
                return pmul(rest, q)
            rest = Poly({m[:j] + (((k, n + 2),) if n < -2 else ()) + m[j + 1:]: 1.0})
            return pdiv(rest, q)
    return None


KEYPOLY = {}


def pkey(p):
    """hashable key of a polynomial, coefficients rounded to 9 significant digits"""
    k = tuple(sorted(((m, _r(c)) for m, c in p.d.items()), key=repr))
    KEYPOLY.setdefault(k, p)
    return k


def _r(c):
    return float("%.9g" % c)


def pdiv(a, b):
    if not b.d:
        return pmul(a, patom(_atom("inv0")))
    if len(b.d) == 1:
        (m, c), = b.d.items()
        im = tuple((k, -n) for k, n in m)
        return pmul(a, Poly({im: 1.0 / c}))
    # normalise divisor to leading coefficient 1, use an opaque inverse atom
    lead = max(b.d.items(), key=lambda kv: repr(kv[0]))
    nb = pscale(b, 1.0 / lead[1])
    # exact multiple?
    if pequal(pscale(a, 1.0), b):
        return pconst(1.0)
    if a.d and len(a.d) == len(nb.d):
        la = a.d.get(lead[0])
        if la and pequal(pscale(a, 1.0 / la), nb):
            return pconst(la / lead[1])
    k = _atom("inv", pkey(nb))
    return pmul(pscale(a, 1.0 / lead[1]), patom(k))


def _mdiv(m, l):
    """monomial m / l when every exponent stays non-negative for l's atoms"""
    d = dict(m)
    for k, e in l:
        if d.get(k, 0) < e:
            return None
        d[k] -= e
        if not d[k]:
            del d[k]
    return tuple(sorted(d.items(), key=repr))


def pdivexact(a, q):
    lm, lc = max(q.d.items(), key=lambda kv: repr(kv[0]))
    for lm, lc in sorted(q.d.items(), key=lambda kv: repr(kv[0]), reverse=True):
        if not lm:
            continue
        rest, quo, n = a, Poly({}), 0
        while rest.d and n < 40:
            n += 1
            pick = None
            for m in rest.d:
                x = _mdiv(m, lm)
                if x is not None:
                    pick = (m, x)
                    break
            if pick is None:
                break
            t = Poly({pick[1]: rest.d[pick[0]] / lc})
            quo = padd(quo, t)
            rest = padd(rest, pmul(t, q), -1.0)
        if not rest.d:
            return quo
    return None


def psimp(p):
    """cancel N*inv(q) when q divides N exactly"""
    invs = {k for m in p.d for k, e in m if k[0] == "inv" and e >= 1}
    for k in invs:
        q = KEYPOLY[k[1]]
        part = {}
        rest = {}
        for m, c in p.d.items():
            dm = dict(m)
            if dm.get(k, 0) >= 1:
                dm[k] -= 1
                if not dm[k]:
                    del dm[k]
                part[tuple(sorted(dm.items(), key=repr))] = c
            else:
                rest[m] = c
        if len(part) < 2 or len(part) > 60:
            continue
        quo = pdivexact(Poly(part), q)
        if quo is not None:
            return psimp(padd(Poly(rest), quo))
    return p


def pequal(a, b, tol=1e-9):
    ms = set(a.d) | set(b.d)
    for m in ms:
        x, y = a.d.get(m, 0.0), b.d.get(m, 0.0)
        if abs(x - y) > tol * max(abs(x), abs(y), 1e-300) and abs(x - y) > 1e-13:
            return False
    return True


FUN1 = {"sin", "cos", "tan", "asin", "acos", "atan", "sqrt", "exp", "log", "fabs", "floor", "ceil", "trunc", "cbrt"}


def canon(t, memo=None):
    memo = {} if memo is None else memo
    r = memo.get(t.id)
    if r is None:
        r = _canon(t, memo)
        memo[t.id] = r
    return r


def _isconst(p):
    return not p.d or (len(p.d) == 1 and () in p.d)


def _cval(p):
    return p.d.get((), 0.0)


def _canon(t, memo):
    o = t.op
    c = lambda x: canon(x, memo)
    if o == "f":
        return pconst(t.args[0])
    if o == "i":
        return pconst(float(sval(t)))
    if o == "var":
        return patom(_atom("var", t.args[0]))
    if o in ("fadd", "add"):
        return psimp(padd(c(t.args[0]), c(t.args[1])))
    if o in ("fsub", "sub"):
        return psimp(padd(c(t.args[0]), c(t.args[1]), -1.0))
    if o in ("fmul", "mul"):
        return psimp(pmul(c(t.args[0]), c(t.args[1])))
    if o == "fdiv":
        return pdiv(c(t.args[0]), c(t.args[1]))
    if o == "fneg":
        return pscale(c(t.args[0]), -1.0)
    if o in ("fpext", "fptrunc", "sitofp", "uitofp", "sext", "zext"):
        return c(t.args[-1])
    if o in ("fptosi", "fptoui"):
        return _fun1("trunc", c(t.args[-1]))
    if o == "call":
        n = t.args[0]
        a = [c(x) if isinstance(x, T) else x for x in t.args[1:]]
        if n in FUN1 and len(a) == 1:
            return _fun1(n, a[0])
        if n == "pow" and len(a) == 2:
            return _pow(a[0], a[1])
        if n == "atan2":
            return _atan2(a[0], a[1])
        if n in ("hypot",):
            return _fun1("sqrt", padd(pmul(a[0], a[0]), pmul(a[1], a[1])))
        return patom(_atom("call", n, *[pkey(x) if isinstance(x, Poly) else x for x in a]))
    if o == "ite":
        a, b = c(t.args[1]), c(t.args[2])
        if pequal(a, b):
            return a
        return patom(_atom("ite", t.args[0].id, pkey(a), pkey(b)))
    return patom(_atom("node", o, *[pkey(c(x)) if isinstance(x, T) and x.op not in ("bot",) else repr(x) for x in t.args]))


def _pow(b, e):
    if _isconst(e):
        ev = _cval(e)
        if ev == int(ev) and 0 <= ev <= 8:
            r = pconst(1.0)
            for _ in range(int(ev)):
                r = pmul(r, b)
            return r
        if ev == -1:
            return pdiv(pconst(1.0), b)
        if ev == 0.5:
            return _fun1("sqrt", b)
    return patom(_atom("call", "pow", pkey(b), pkey(e)))


def _lead_sign(p):
    m = max(p.d.items(), key=lambda kv: repr(kv[0]))
    return 1.0 if m[1] > 0 else -1.0


ASSUME = {"pos": set(), "principal": set()}   # atom keys known positive / variables inside the principal range


def assume(pos=(), principal=(), nonzero=(), gt0=()):
    """domain assumptions of the obligation at hand: terms known to be positive, variables whose angle lies in
    the principal range of the inverse function applied to it"""
    ASSUME["pos"], ASSUME["principal"] = set(), set()
    ASSUME["principal"] = {v.args[0] for v in principal if v.op == "var"}
    ASSUME["prkeys"] = {_dirkey(canon(v)) for v in principal if v.op != "var"}
    ASSUME["nonzero"] = {v.args[0] for v in nonzero}
    ASSUME["path"] = frozenset()
    for t in pos:
        q = canon(t)
        for m, c in q.d.items():
            for k, e in m:
                ASSUME["pos"].add(k)
    ps = set()
    for t in gt0:
        q = canon(t)
        if q.d:
            lead = max(q.d.items(), key=lambda kv: repr(kv[0]))[1]
            ps.add(pkey(pscale(q, 1.0 / abs(lead))))
    ASSUME["path"] = frozenset(ps)


def _known_pos(k):
    return k in ASSUME["pos"] or k[0] in ("sqrt", "fabs")


def _mono_pos(m, c):
    return c > 0 and all(e % 2 == 0 or _known_pos(k) for k, e in m)


def _dirkey(p):
    """key of a single monomial, ignoring its coefficient"""
    return next(iter(p.d)) if len(p.d) == 1 else None


def _principal(p):
    """p is a multiple of one variable assumed inside the principal range"""
    if len(p.d) != 1:
        return False
    (m, c), = p.d.items()
    if m in ASSUME.get("prkeys", ()):
        return True
    return len(m) == 1 and m[0][1] == 1 and m[0][0][0] == "var" and m[0][0][1] in ASSUME["principal"]


def _split_single(p, fn):
    """p = c * rest * fn(X), a single monomial: (c, rest monomial, key of X)"""
    if len(p.d) != 1:
        return None
    (m, c), = p.d.items()
    for j, (k, e) in enumerate(m):
        if k[0] == fn and e == 1:
            yield c, m[:j] + m[j + 1:], k[1]


def _atan2(y, x):
    for c1, r1, X1 in _split_single(y, "sin") or ():
        for c2, r2, X2 in _split_single(x, "cos") or ():
            if X1 == X2 and r1 == r2 and abs(c1 - c2) < 1e-9 * abs(c1) and _mono_pos(r1, c1) and _principal(KEYPOLY[X1]):
                return KEYPOLY[X1]
    # a common positive factor does not change the angle
    if y.d and x.d:
        ms = list(y.d) + list(x.d)
        com = dict(ms[0])
        for m in ms[1:]:
            dm = dict(m)
            com = {k: min(e, dm[k]) for k, e in com.items() if k in dm and (e > 0) == (dm[k] > 0)}
        com = tuple(sorted(((k, e) for k, e in com.items() if _known_pos(k)), key=repr))
        sc = max(abs(c) for c in list(y.d.values()) + list(x.d.values()))
        if com or sc != 1.0:
            inv = Poly({tuple((k, -e) for k, e in com): 1.0 / sc})
            y2, x2 = pmul(y, inv), pmul(x, inv)
            if com:
                return _atan2(y2, x2)
            y, x = y2, x2
    return patom(_atom("atan2", pkey(y), pkey(x)))


def _sqrt_factor(p):
    """sqrt(c * m^2 * q): returns (sqrt(c)*|m|, q) with q primitive, or None"""
    if not p.d:
        return None
    ms = list(p.d)
    com = dict(ms[0])
    for m in ms[1:]:
        dm = dict(m)
        com = {k: min(e, dm[k]) for k, e in com.items() if k in dm}
    com = {k: e - e % 2 for k, e in com.items() if e >= 2}
    if not com:
        return None
    cm = tuple(sorted(com.items(), key=repr))
    return cm


def _fun1(n, p):
    if _isconst(p):
        v = _cval(p)
        try:
            f = {"fabs": abs, "trunc": lambda z: float(int(z)), "floor": lambda z: float(math.floor(z)), "ceil": lambda z: float(math.ceil(z)),
                 "cbrt": lambda z: math.copysign(abs(z) ** (1 / 3), z)}.get(n) or getattr(math, n)
            return pconst(f(v))
        except (ValueError, OverflowError):
            pass
    if n == "sqrt":
        p = psimp(p)
        if _isconst(p):
            return _fun1(n, p) if _cval(p) >= 0 else patom(_atom("sqrt", pkey(p)))
        ks = {k for m in p.d for k, e in m if k[0] == "inv" and e == 1}
        if len(p.d) > 1 and len(ks) == 1:      # common denominator, positive where the root is real
            k = ks.pop()
            q = KEYPOLY[k[1]]
            num = Poly({})
            for m, c in p.d.items():
                dm = dict(m)
                if k in dm:
                    del dm[k]
                    num = padd(num, Poly({tuple(sorted(dm.items(), key=repr)): c}))
                else:
                    num = padd(num, pmul(Poly({m: c}), q))
            if _sign(q) > 0:
                return pdiv(_fun1("sqrt", num), _fun1("sqrt", q))
        if len(p.d) == 1:
            (m, c), = p.d.items()
            if c > 0 and m and all(k[0] == "sqrt" or True for k, e in m) and all(e % 2 == 0 for k, e in m):
                # sqrt(x^2) = |x|
                base = Poly({tuple((k, e // 2) for k, e in m): math.sqrt(c)})
                return _fun1("fabs", base)
            if c > 0 and c != 1.0:
                return pscale(_fun1("sqrt", Poly({m: 1.0})), math.sqrt(c))
        cm = _sqrt_factor(p)
        if cm:
            rest = pmul(p, Poly({tuple((k, -e) for k, e in cm): 1.0}))
            out = _fun1("sqrt", rest)
            for k, e in cm:
                h = patom(k, e // 2)
                out = pmul(out, h if (e // 2) % 2 == 0 or _known_pos(k) else _fun1("fabs", h))
            return out
        if len(p.d) == 2 and () in p.d and p.d[()] > 0:
            c0 = p.d[()]
            (m, c), = [(m, c) for m, c in p.d.items() if m]
            if abs(c + c0) < 1e-9 * c0 and len(m) == 1 and m[0][0][0] == "cos" and m[0][1] == 2:
                return pscale(_fun1("fabs", patom(_atom("sin", m[0][0][1]))), math.sqrt(c0))
        lead = max(abs(c) for c in p.d.values())
        if lead != 1.0 and len(p.d) > 1:
            return pscale(_fun1("sqrt", pscale(p, 1.0 / lead)), math.sqrt(lead))
        return patom(_atom("sqrt", pkey(p)))
    if n in ("sin", "tan", "asin", "atan") and p.d and _lead_sign(p) < 0:
        return pscale(_fun1(n, pscale(p, -1.0)), -1.0)
    if n in ("cos", "fabs") and p.d and _lead_sign(p) < 0:
        return _fun1(n, pscale(p, -1.0))
    if n == "fabs" and len(p.d) == 1:
        (m, c), = p.d.items()
        if abs(c) != 1.0:
            return pscale(_fun1("fabs", Poly({m: 1.0})), abs(c))
        if all(e % 2 == 0 or _known_pos(k) for k, e in m):
            return p
        if len(m) > 1 or m[0][1] != 1:
            out = pconst(1.0)
            for k, e in m:
                a1 = patom(k) if _known_pos(k) else patom(_atom("fabs", pkey(patom(k))))
                q = Poly({tuple((kk, ee * e) for kk, ee in mm): 1.0 for mm, _ in a1.d.items()})
                out = pmul(out, q)
            return out
    if n == "acos" and len(p.d) == 1:
        (m, c), = p.d.items()
        if abs(c - 1.0) < 1e-9 and len(m) == 1 and m[0][1] == 1 and m[0][0][0] == "cos" and _principal(KEYPOLY[m[0][0][1]]):
            return KEYPOLY[m[0][0][1]]
    if n == "asin" and len(p.d) == 1:
        (m, c), = p.d.items()
        if abs(c - 1.0) < 1e-9 and len(m) == 1 and m[0][1] == 1 and m[0][0][0] == "sin" and _principal(KEYPOLY[m[0][0][1]]):
            return KEYPOLY[m[0][0][1]]
    if n == "tan":
        return pdiv(_fun1("sin", p), _fun1("cos", p))
    if n in ("sin", "cos") and len(p.d) == 1:
        (m, c), = p.d.items()
        if len(m) == 1 and m[0][1] == 1 and abs(c - 1.0) < 1e-12:
            k = m[0][0]
            if k[0] == "asin":
                x = KEYPOLY[k[1]]
                return x if n == "sin" else _fun1("sqrt", padd(pconst(1.0), pmul(x, x), -1.0))
            if k[0] == "acos":
                x = KEYPOLY[k[1]]
                return x if n == "cos" else _fun1("sqrt", padd(pconst(1.0), pmul(x, x), -1.0))
            if k[0] == "atan2":
                y, x = KEYPOLY[k[1]], KEYPOLY[k[2]]
                r = _fun1("sqrt", padd(pmul(x, x), pmul(y, y)))
                return pdiv(y if n == "sin" else x, r)
    return patom(_atom(n, pkey(p)))


# ---------------------------------------------------------------- evaluation at a point
class Unev(Exception):
    pass


class UndefHit(Exception):
    """the selected value at this point depends on storage that was never written"""


def evaluate(t, env, memo=None, mpf=None):
    memo = {} if memo is None else memo
    st = [t]
    while st:
        x = st[-1]
        if x.id in memo:
            st.pop()
            continue
        if x.op == "ite":
            if x.args[0].id not in memo:
                st.append(x.args[0])
                continue
            br = x.args[1] if memo[x.args[0].id] else x.args[2]
            if br.id not in memo:
                st.append(br)
                continue
            memo[x.id] = memo[br.id]
            st.pop()
            continue
        if x.id in env:
            memo[x.id] = env[x.id]
            st.pop()
            continue
        pend = [a for a in x.args if isinstance(a, T) and a.id not in memo]
        if pend:
            st.extend(pend)
            continue
        memo[x.id] = (_evmp if mpf else _ev)(x, [memo[a.id] if isinstance(a, T) else a for a in x.args], env)
        st.pop()
    return memo[t.id]


def _wrap(v, bits):
    return int(v) & ((1 << bits) - 1)


def _sg(v, bits):
    v = int(v)
    return v - (1 << bits) if (v >> (bits - 1)) & 1 else v


_wm = {}


def width(t):
    """bit width of an integer-valued term (64 when unknown)"""
    r = _wm.get(t.id)
    if r is not None:
        return r
    o = t.op
    if o == "i":
        r = t.args[0]
    elif o == "var":
        r = int(t.args[1][1:]) if re.match(r"i\d+$", str(t.args[1])) else 64
    elif o in ("sext", "zext", "trunc", "fptosi", "fptoui") and isinstance(t.args[0], int):
        r = t.args[0]
    elif o in IBIN:
        r = max(width(t.args[0]), width(t.args[1]))
        if t.args[1].op == "i" and t.args[0].op != "i":
            r = width(t.args[0])
    elif o == "ite":
        r = width(t.args[1]) if t.args[1].op not in ("undef", "bot") else width(t.args[2])
    elif o == "load" and isinstance(t.args[2], int):
        r = 8 * t.args[2]
    elif o in ("icmp", "fcmp", "not"):
        r = 1
    else:
        r = 64
    _wm[t.id] = r
    return r


def _evint(x, a):
    """integer operations with exact two's-complement semantics; None when x is not one"""
    o = x.op
    if o == "i":
        return bool(a[1]) if a[0] == 1 else a[1]
    if o in IBIN:
        if isinstance(a[0], bool) or isinstance(a[1], bool):
            p, q = bool(a[0]), bool(a[1])
            if o in ("and", "mul"):
                return p and q
            if o == "or":
                return p or q
            if o in ("xor", "add", "sub"):
                return p != q
            raise Unev("i1 " + o)
        w = width(x)
        p, q = _wrap(a[0], w), _wrap(a[1], w)
        if o in ("udiv", "urem", "sdiv", "srem") and q == 0:
            raise Unev("division by zero")
        if o in ("shl", "lshr", "ashr") and q >= w:
            raise Unev("shift")
        sp, sq = _sg(p, w), _sg(q, w)
        tq = (abs(sp) // abs(sq) * (1 if (sp < 0) == (sq < 0) else -1)) if sq else 0
        r = {"add": p + q, "sub": p - q, "mul": p * q, "and": p & q, "or": p | q, "xor": p ^ q, "shl": p << q if q < w else 0,
             "lshr": p >> q if q < w else 0, "ashr": sp >> q if q < w else 0, "udiv": p // q if q else 0, "urem": p % q if q else 0,
             "sdiv": tq, "srem": sp - tq * sq}[o]
        return _wrap(r, w)
    if o in ("zext", "trunc"):
        return (_wrap(a[1], 1) != 0) if a[0] == 1 else _wrap(a[1], min(a[0], width(x.args[1])) if o == "zext" else a[0])
    if o == "sext":
        w = width(x.args[1])
        return _wrap(-int(a[1]) if isinstance(a[1], bool) else _sg(_wrap(a[1], w), w), a[0])
    if o == "icmp":
        p = a[0]
        if isinstance(a[1], bool) or isinstance(a[2], bool):
            u, v = int(bool(a[1])), int(bool(a[2]))
            return {"eq": u == v, "ult": u < v, "ule": u <= v, "slt": u > v, "sle": u >= v}[p]
        w = max(width(x.args[1]), width(x.args[2])) if x.args[2].op != "i" else width(x.args[1])
        u, v = _wrap(a[1], w), _wrap(a[2], w)
        if p[0] == "s":
            u, v = _sg(u, w), _sg(v, w)
        return {"eq": u == v, "ult": u < v, "ule": u <= v, "slt": u < v, "sle": u <= v}[p]
    if o in ("sitofp", "uitofp"):
        if isinstance(a[0], bool):
            return float(a[0]) if o == "uitofp" else -float(a[0])
        w = width(x.args[0])
        v = _wrap(a[0], w)
        return float(_sg(v, w) if o == "sitofp" else v)
    if o in ("fptosi", "fptoui"):
        return _wrap(int(a[-1]), a[0] if isinstance(a[0], int) else 64)
    return None


def _evmp(x, a, env):
    mp = _mp()
    o = x.op
    r = _evint(x, a)
    if r is not None:
        return mp.mpf(r) if isinstance(r, float) else r
    if o == "f":
        return mp.mpf(a[0])
    if o == "fdiv":
        if a[1] == 0:
            return mp.nan if a[0] == 0 else mp.inf
        return a[0] / a[1]
    if o in ("fpext", "fptrunc"):
        return mp.mpf(a[-1])
    if o == "call" and a[0] in ("sin", "cos", "tan", "asin", "acos", "atan", "sqrt", "exp", "log", "floor", "ceil", "cbrt", "atan2", "hypot", "pow", "fmod"):
        n = a[0]
        if n == "pow":
            r = mp.power(a[1], a[2])
        elif n == "fmod":
            r = a[1] - a[2] * mp.mpf(int(a[1] / a[2]))
        else:
            r = getattr(mp, n)(*a[1:])
        if isinstance(r, mp.mpc):
            return mp.nan
        return r
    r = _ev(x, a, env)
    return mp.mpf(r) if isinstance(r, float) else r


def _ev(x, a, env):
    o = x.op
    try:
        if o == "undef":
            raise UndefHit()
        if o == "f":
            return a[0]
        r = _evint(x, a)
        if r is not None:
            return r
        if o == "var":
            if a[0] in env:
                return env[a[0]]
            raise Unev("var " + str(a[0]))
        if o == "fadd":
            return a[0] + a[1]
        if o == "fsub":
            return a[0] - a[1]
        if o == "fmul":
            return a[0] * a[1]
        if o == "fdiv":
            if a[1] == 0:
                return math.nan if a[0] == 0 or a[0] != a[0] else math.copysign(math.inf, a[0]) * math.copysign(1.0, a[1])
            return a[0] / a[1]
        if o == "fneg":
            return -a[0]
        if o in ("frem",):
            return math.fmod(a[0], a[1])
        if o in ("fpext", "fptrunc"):
            return float(a[-1])
        if o == "not":
            return not a[0]
        if o == "fcmp":
            p = a[0]
            if a[1] != a[1] or a[2] != a[2]:
                raise Unev("NaN compared")
            return {"eq": a[1] == a[2], "lt": a[1] < a[2], "le": a[1] <= a[2]}[p]
        if o == "call":
            n = a[0]
            if n in ("fabs",):
                return abs(a[1])
            if n in ("floor", "ceil"):
                return float(getattr(math, n)(a[1]))
            if n == "trunc":
                return float(int(a[1]))
            if n in ("round", "lround"):
                return math.copysign(math.floor(abs(a[1]) + 0.5), a[1])
            if n == "pow":
                return a[1] ** a[2]
            if n == "cbrt":
                return math.copysign(abs(a[1]) ** (1 / 3), a[1])
            if n in ("fmin", "fmax"):
                return {"fmin": min, "fmax": max}[n](a[1], a[2])
            if n in ("copysign", "atan2", "fmod", "hypot", "remainder"):
                return getattr(math, n)(a[1], a[2])
            if n in ("sqrt", "acos", "asin", "log") and a[1] == a[1]:
                if (n in ("sqrt", "log") and a[1] < 0) or (n in ("acos", "asin") and abs(a[1]) > 1):
                    return math.nan
            if n in FUN1 or n in ("sinh", "cosh", "tanh"):
                return getattr(math, n)(a[1])
            if n in ("abs",):
                return abs(a[1])
            if ("fn", n) in env:
                return env[("fn", n)](*a[1:])
            raise Unev("call " + str(n))
    except (ValueError, OverflowError, ZeroDivisionError):
        raise Unev("domain")
    raise Unev(o)


# ---------------------------------------------------------------- substitution
def subst(t, mp, memo=None):
    """replace nodes (by id) using mp: id -> term"""
    memo = {} if memo is None else memo
    if t.id in mp:
        return mp[t.id]
    r = memo.get(t.id)
    if r is not None:
        return r
    st = [t]
    while st:
        x = st[-1]
        if x.id in memo:
            st.pop()
            continue
        if x.id in mp:
            memo[x.id] = mp[x.id]
            st.pop()
            continue
        pend = [a for a in x.args if isinstance(a, T) and a.id not in memo]
        if pend:
            st.extend(pend)
            continue
        memo[x.id] = rebuild(x.op, [memo[a.id] if isinstance(a, T) else a for a in x.args])
        st.pop()
    return memo[t.id]


def rebuild(op, args):
    if op == "ite":
        return ite(*args)
    if op == "icmp":
        return icmp(*args)
    if op == "fcmp":
        p, a, b = args
        return fcmp("o" + p, a, b)
    if op == "not":
        return neg(args[0])
    if op in ("and", "or", "xor") and all(isinstance(a, T) for a in args):
        return boolop(op, *args)
    if op in IBIN and args[0].op == "i" and args[1].op == "i":
        return ibin(op, *args)
    return mk(op, *args)


def boolop(op, a, b):
    if op == "and":
        if a is TRUE:
            return b
        if b is TRUE:
            return a
        if a is FALSE or b is FALSE:
            return FALSE
        if a is b:
            return a
    if op == "or":
        if a is FALSE:
            return b
        if b is FALSE:
            return a
        if a is TRUE or b is TRUE:
            return TRUE
        if a is b:
            return a
    if op == "xor":
        if a is FALSE:
            return b
        if b is FALSE:
            return a
        if b is TRUE:
            return neg(a)
        if a is TRUE:
            return neg(b)
    if a.op == "i" and b.op == "i" and a.args[0] > 1:
        return ibin(op, a, b)
    return mk(op, a, b)


IBIN = {"add", "sub", "mul", "and", "or", "xor", "shl", "lshr", "ashr", "udiv", "sdiv", "urem", "srem"}


def ibin(op, a, b):
    if a.op == "i" and b.op == "i":
        n = a.args[0]
        x, y = a.args[1], b.args[1]
        sx, sy = sval(a), sval(b)
        try:
            r = {"add": lambda: x + y, "sub": lambda: x - y, "mul": lambda: x * y, "and": lambda: x & y,
                 "or": lambda: x | y, "xor": lambda: x ^ y, "shl": lambda: x << y, "lshr": lambda: x >> y,
                 "ashr": lambda: sx >> y, "udiv": lambda: x // y, "urem": lambda: x % y,
                 "sdiv": lambda: int(Fraction(sx, sy)), "srem": lambda: sx - sy * int(Fraction(sx, sy))}[op]()
            return ic(r, n)
        except ZeroDivisionError:
            pass
    if a.op == "i" and b.op != "i" and op in ("add", "mul", "and", "or", "xor"):
        a, b = b, a
    if b.op == "i":
        v = b.args[1]
        if v == 0:
            if op in ("add", "sub", "or", "xor", "shl", "lshr", "ashr"):
                return a
            if op in ("mul", "and"):
                return b
        if v == 1 and op in ("mul", "udiv", "sdiv"):
            return a
        if op == "add" and a.op == "add" and a.args[1].op == "i":
            return ibin("add", a.args[0], ibin("add", a.args[1], b))
        if op == "sub":
            return ibin("add", a, ic(-v, b.args[0]))
        if op == "and" and v == (1 << b.args[0]) - 1:
            return a
    if op in ("and", "or", "xor"):
        if a.id < 0:
            pass
        return boolop(op, a, b)
    if op == "sub" and a is b and a.op != "f":
        return mk("i", a.args[0], 0) if a.op == "i" else ic(0, 64)
    return mk(op, a, b)


# ---------------------------------------------------------------- operators for writing specifications
def lift(x):
    return x if isinstance(x, T) else fc(x)


T.__add__ = lambda a, b: mk("fadd", a, lift(b))
T.__radd__ = lambda a, b: mk("fadd", lift(b), a)
T.__sub__ = lambda a, b: mk("fsub", a, lift(b))
T.__rsub__ = lambda a, b: mk("fsub", lift(b), a)
T.__mul__ = lambda a, b: mk("fmul", a, lift(b))
T.__rmul__ = lambda a, b: mk("fmul", lift(b), a)
T.__truediv__ = lambda a, b: mk("fdiv", a, lift(b))
T.__rtruediv__ = lambda a, b: mk("fdiv", lift(b), a)
T.__neg__ = lambda a: mk("fneg", a)


def fn(name):
    return lambda *a: mk("call", name, *[lift(x) for x in a])


sin, cos, sqrt, asin, acos, atan2, floor, tan, trunc = (fn(n) for n in "sin cos sqrt asin acos atan2 floor tan trunc".split())


# ---------------------------------------------------------------- comparison of two real-valued terms
def conditions(t):
    """condition atoms of ite nodes, outermost first (by term size descending)"""
    out = []
    seen = set()
    for x in walk(t):
        if x.op == "ite":
            for y in _catoms(x.args[0]):
                if y.id not in seen:
                    seen.add(y.id)
                    out.append(y)
    return out


def _catoms(c):
    if c.op in ("and", "or", "xor") :
        for a in c.args:
            yield from _catoms(a)
    elif c.op == "not":
        yield from _catoms(c.args[0])
    elif c.op == "ite":
        for a in c.args:
            yield from _catoms(a)
    elif c.op not in ("i",):
        yield c


def free_vars(t):
    return [x for x in walk(t) if x.op == "var"]


MATH = {"sin", "cos", "tan", "asin", "acos", "atan", "sqrt", "exp", "log", "fabs", "floor", "ceil", "trunc", "cbrt",
        "pow", "atan2", "hypot", "fmod", "fmin", "fmax", "copysign", "round", "abs", "remainder", "lround", "sinh", "cosh", "tanh"}


def opaque_atoms(t):
    """outermost nodes that evaluation cannot look into: treated as independent inputs"""
    out, seen, st = [], set(), [t]
    ok = {"undef", "f", "i", "fadd", "fsub", "fmul", "fdiv", "fneg", "add", "sub", "mul", "sdiv", "srem", "udiv", "urem", "frem",
          "fpext", "fptrunc", "sitofp", "uitofp", "sext", "zext", "trunc", "fptosi", "fptoui", "not", "icmp", "fcmp",
          "and", "or", "xor", "shl", "lshr", "ashr", "ite"}
    while st:
        x = st.pop()
        if not isinstance(x, T) or x.id in seen:
            continue
        seen.add(x.id)
        if x.op == "var":
            continue
        if x.op in ok or (x.op == "call" and x.args[0] in MATH):
            st.extend(x.args)
        else:
            out.append(x)
    return out


class Late(Exception):
    pass


def _limited(f, secs):
    """run f, abandoning it after secs seconds (the obligation then counts as undecided)"""
    import signal, threading
    if threading.current_thread() is not threading.main_thread():
        return f()

    def h(*a):
        raise Late()
    old = signal.signal(signal.SIGALRM, h)
    signal.setitimer(signal.ITIMER_REAL, secs)
    try:
        return f()
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


def unclamp(x):
    """the term c when x is c limited to [-1, 1] (whatever way the limiting is written), else None. The limiting may only
    compare c, |c| or -c with -1, 0 and 1, so its value at nine points decides it for every c."""
    leaves, st, seen = [], [x], set()
    while st:
        y = st.pop()
        if y.id in seen:
            continue
        seen.add(y.id)
        if y.op == "ite":
            st += [y.args[1], y.args[2]]
        elif y.op == "call" and y.args[0] in ("fmin", "fmax", "copysign"):
            st += list(y.args[1:])
        elif y.op != "f":
            leaves.append(y)
    if len(leaves) != 1 or leaves[0] is x:
        return None
    c, v = leaves[0], var("$clamp")
    z = subst(x, {c.id: v})
    for y in walk(z):
        if y.op == "f" and y.args[0] not in (-1.0, 0.0, 1.0) or y.op == "var" and y is not v \
                or y.op not in ("f", "var", "ite", "fcmp", "not", "and", "or", "fneg", "call", "i") \
                or y.op == "call" and y.args[0] not in ("fabs", "fmin", "fmax", "copysign"):
            return None
    for p in (-3.0, -2.0, -1.0, -0.75, -0.25, 0.0, 0.25, 0.75, 1.0, 2.0, 3.0):
        try:
            if evaluate(z, {"$clamp": p}) != max(-1.0, min(1.0, p)):
                return None
        except (Unev, UndefHit, OverflowError, TypeError, ValueError, KeyError):
            return None
    return c


def strip_clamps(t):
    """acos and asin of an argument limited to their domain have, over the reals, the value for the argument itself"""
    mp = {}
    for x in walk(t):
        if x.op == "call" and x.args[0] in ("acos", "asin"):
            c = unclamp(x.args[1])
            if c is not None:
                mp[x.id] = mk("call", x.args[0], c)
    return subst(t, mp) if mp else t


def _in_unit(x, d=0):
    """x lies in [-1, 1] for every input, rounding included"""
    if d > 12:
        return False
    if x.op == "f":
        return abs(x.args[0]) <= 1
    if x.op == "call":
        return x.args[0] in ("sin", "cos", "copysign") and (x.args[0] != "copysign" or _in_unit(x.args[1], d + 1)) or x.args[0] == "fabs" and _in_unit(x.args[1], d + 1)
    if x.op == "fmul":
        return _in_unit(x.args[0], d + 1) and _in_unit(x.args[1], d + 1)
    if x.op in ("fneg", "fpext", "fptrunc"):
        return _in_unit(x.args[-1], d + 1)
    if x.op == "ite":
        return unclamp(x) is not None or _in_unit(x.args[1], d + 1) and _in_unit(x.args[2], d + 1)
    return False


def partial_calls(t, sampler, rng, n=600):
    """calls of acos/asin under t: [(call, 'ok'|'out'|'?', inputs)]; 'out': at these inputs the argument, in double arithmetic, leaves [-1, 1]"""
    out = []
    for x in walk(t):
        if x.op == "call" and x.args[0] in ("acos", "asin"):
            if _in_unit(x.args[1]) or unclamp(x.args[1]) is not None:
                out.append((x, "ok", None))
                continue
            hit = None
            for _ in range(n):
                env = sampler(rng)
                try:
                    if abs(evaluate(x.args[1], env)) > 1 and evaluate(t, env) != evaluate(t, env):
                        hit = env
                        break
                except (Unev, UndefHit, OverflowError, TypeError, ValueError, KeyError):
                    continue
            out.append((x, "out" if hit else "?", hit))
    return out


def compare(t, s, rng, domain=None, tol=1e-7, npts=64, maxcond=14, canon_ok=True, gen=None, limit=60):
    """('proved', None) | ('refuted', {point, got, want}) | ('undecided', why)"""
    domain = domain or {}
    if t is UNDEF:
        return "refuted", {"point": {}, "got": "indeterminate value (never written)", "want": show(s)}
    pt = _search(t, s, rng, domain, tol, npts)
    if pt is not None:
        return "refuted", pt
    t0, s0 = t, s
    verdict = _prove(t, s, gen, maxcond, limit)
    if verdict[0] != "proved":
        pt = _boundary(t0, s0, rng, domain, tol)
        if pt is not None:
            return "refuted", pt
    return verdict


def _prove(t, s, gen, maxcond, limit):
    t, s = strip_clamps(t), strip_clamps(s)
    try:
        path = ASSUME.get("path", frozenset())
        if t is s or _limited(lambda: _canon_equal(*((gen(t), gen(s)) if gen else (t, s)), maxcond), limit):
            return "proved", None
    except (TooBig, RecursionError):
        return "undecided", "canonical form too large"
    except Late:
        return "undecided", "no canonical form within %d s" % limit
    finally:
        ASSUME["path"] = path
    return "undecided", "canonical forms differ: got %s want %s" % (show(t)[:300], show(s)[:300])


def _condkey(c):
    """(key, polarity) of a condition atom: comparisons are keyed by the canonical form of lhs-rhs"""
    if c.op in ("fcmp", "icmp") and c.args[0] in ("lt", "le", "slt", "sle", "eq"):
        p = c.args[0].lstrip("s")
        d = padd(canon(c.args[1]), canon(c.args[2]), -1.0)
        kind = "i" if c.op == "icmp" else "f"
        if not d.d:
            return None
        lead = max(d.d.items(), key=lambda kv: repr(kv[0]))[1]
        d = pscale(d, 1.0 / abs(lead))
        if len(d.d) == 1:      # sign of c*sqrt(p) is the sign of c*[p>0]
            (m, cc), = d.d.items()
            if len(m) == 1 and m[0][0][0] == "sqrt" and m[0][1] == 1:
                q = KEYPOLY[m[0][0][1]]
                l2 = max(q.d.items(), key=lambda kv: repr(kv[0]))[1]
                d = pscale(q, cc / abs(l2))
        if p == "eq":
            if _lead_sign(d) < 0:
                d = pscale(d, -1.0)
            return (kind, "eq", pkey(d)), True
        if p == "lt":
            return (kind, "lt", pkey(d)), True
        return (kind, "lt", pkey(pscale(d, -1.0))), False
    return ("node", c.id), True


def _sign(p):
    """+1/-1 when the polynomial has that sign throughout the assumed domain, else 0"""
    if not p.d:
        return 0
    if ASSUME.get("path"):
        lead = max(p.d.items(), key=lambda kv: repr(kv[0]))[1]
        q = pscale(p, 1.0 / abs(lead))
        if pkey(q) in ASSUME["path"]:
            return 1
        if pkey(pscale(q, -1.0)) in ASSUME["path"]:
            return -1
    if all(_mono_pos(m, c) for m, c in p.d.items()):
        return 1
    if all(_mono_pos(m, -c) for m, c in p.d.items()):
        return -1
    return 0


def _decide(ck, c):
    """truth of condition c (with canonical key ck) when the assumed domain settles it"""
    (kind, p, k), pol = ck if len(ck[0]) == 3 else ((None, None, None), True)
    if p is None:
        return None
    sg = _sign(KEYPOLY[k])
    if sg and ASSUME.get("path"):
        l = max(KEYPOLY[k].d.items(), key=lambda kv: repr(kv[0]))[1]
        q = pscale(KEYPOLY[k], 1.0 / abs(l))
        if pkey(q) in ASSUME["path"] or pkey(pscale(q, -1.0)) in ASSUME["path"]:
            r = (sg < 0) if p == "lt" else False
            return TRUE if r == pol else FALSE
    if sg == 0 or any(kk[0] == "var" and kk not in ASSUME["pos"] and kk[1] not in ASSUME.get("nonzero", ())
                      for m in KEYPOLY[k].d for kk, e in m):
        return None
    if p == "lt":
        r = sg < 0
    else:
        r = False
    return TRUE if r == pol else FALSE


def _canon_equal(t, s, budget):
    if t is s:
        return True
    if pequal(canon(t), canon(s)):
        return True
    cs = conditions(t) + conditions(s)
    if not cs or budget <= 0:
        return False
    # split on a condition that contains no other condition
    cs = sorted(set(cs), key=lambda c: (sum(1 for _ in walk(c)), c.id))
    c = next((x for x in cs if not any(y.op == "ite" for y in walk(x))), cs[0])
    ck = _condkey(c)
    same = {}
    if ck is None:
        val = TRUE if c.args[0] in ("le", "sle", "eq") else FALSE
        return _canon_equal(subst(t, {c.id: val}), subst(s, {c.id: val}), budget - 1)
    for x in cs:
        if x is not c and any(y.op == "ite" for y in walk(x)):
            continue
        k = ck if x is c else _condkey(x)
        if k is not None and k[0] == ck[0]:
            same[x.id] = k[1] == ck[1]
    known = _decide(ck, c)
    for val in (TRUE, FALSE):
        if known is not None and val is not known:
            continue
        mp = {i: (val if pol else neg(val)) for i, pol in same.items()}
        if val is TRUE and c.op in ("fcmp", "icmp") and c.args[0] == "eq":
            a, b = c.args[1], c.args[2]
            if a.op == "var" and b.op in ("f", "i"):
                mp[a.id] = b
        t2, s2 = subst(t, mp), subst(s, mp)
        old = ASSUME.get("path", frozenset())
        if len(ck[0]) == 3 and ck[0][1] == "lt" and (val is TRUE) == ck[1]:
            q = pscale(KEYPOLY[ck[0][2]], -1.0)
            lead = max(q.d.items(), key=lambda kv: repr(kv[0]))[1]
            ASSUME["path"] = frozenset(old | {pkey(pscale(q, 1.0 / abs(lead)))})
        try:
            if not _canon_equal(t2, s2, budget - 1):
                return False
        finally:
            ASSUME["path"] = old
    return True


class Dom:
    """sampler over a union of intervals; constants mined from the formulas that lie inside are tried too"""

    def __init__(self, *iv, extra=(), scale=1.0):
        self.iv = [(a * scale, b * scale) for a, b in iv]
        self.extra = [e * scale for e in extra]

    def ok(self, v):
        return any(a <= v <= b for a, b in self.iv)

    def __call__(self, r):
        if self.extra and r.random() < 0.25:
            return r.choice(self.extra)
        a, b = r.choice(self.iv)
        k = r.random()
        if k < 0.06:
            return a + (b - a) * r.random() ** 4
        if k < 0.12:
            return b - (b - a) * r.random() ** 4
        return r.uniform(a, b)


def _search(t, s, rng, domain, tol, npts):
    vs = {v.args[0]: v for x in (t, s) for v in free_vars(x)}
    ops = {a.id: a for x in (t, s) for a in opaque_atoms(x)}
    sid = {a.id for a in opaque_atoms(s)}
    for a in ops.values():
        # an atom the specification does not mention may depend on the inputs: its value cannot be chosen freely
        if a.id not in sid and not any(callable(k) and k(a) for k in domain):
            return None
    special = set([0.0, 1.0, -1.0])
    for x in list(walk(t)) + list(walk(s)):
        if x.op in ("fcmp", "icmp"):
            for a in x.args[1:]:
                for c in walk(a):
                    v = None
                    if c.op == "f":
                        v = c.args[0]
                    elif c.op == "i" and c.args[0] > 1:
                        v = float(sval(c))
                    if v is not None and abs(v) < 1e12:
                        special.update((v, v + 0.5, v - 0.5, v + 1, v - 1, v * 1.5, -v, v + 1e-9, v - 1e-9))
                        if v:
                            special.update((math.degrees(v), math.radians(v)))
    special = sorted(special)[:400]
    names = sorted(vs)

    def pick(nm, mode):
        dom = domain.get(nm)
        if dom is not None:
            if mode == "special" and isinstance(dom, Dom):
                for _ in range(4):
                    v = rng.choice(special)
                    if dom.ok(v):
                        return v
            if mode == "special" and hasattr(dom, "mine"):
                return dom.mine(rng, special)
            return dom(rng)
        if mode == "special":
            return rng.choice(special)
        r = rng.random()
        if r < 0.5:
            return rng.uniform(-3, 3)
        if r < 0.8:
            return rng.uniform(-400, 400)
        if r < 0.95:
            return rng.uniform(0.01, 90)
        return rng.uniform(-1e5, 1e5)
    tries = 0
    good = 0
    n = npts if not conditions(t) and not conditions(s) else npts * 12
    while tries < n:
        tries += 1
        mode = "special" if tries % 3 == 0 else "rand"
        env = {}
        for nm in names:
            env[nm] = pick(nm, "special" if mode == "special" and rng.random() < 0.7 else "rand")
            if re.match(r"i\d+$", str(vs[nm].args[1])) and isinstance(env[nm], float):
                env[nm] = int(env[nm])
        if tries == 1 and not domain:
            env = {nm: 0.0 for nm in names}
        elif tries <= 2 * len(names) + 1 and not domain and names:
            env[names[tries // 2 % len(names)]] = 0.0
        for k, a in ops.items():
            d = None
            for key, f in domain.items():
                if callable(key) and key(a):
                    d = f
            env[k] = d(rng) if d else rng.uniform(-3, 3)
        try:
            y = evaluate(s, env)
            x = evaluate(t, env)
        except UndefHit:
            return {"point": {k: env[k] for k in names}, "got": "indeterminate value (never written)", "want": show(s)[:200]}
        except (Unev, OverflowError, TypeError, ValueError, KeyError):
            continue
        if isinstance(x, complex) or isinstance(y, complex) or y != y or math.isinf(y):
            continue
        good += 1
        if x != x or math.isinf(x):
            if _robust(t, s, env, names, tol, rng):
                return {"point": {k: env[k] for k in names}, "got": repr(x), "want": float(y),
                        "atoms": {show(ops[k])[:80]: env[k] for k in ops}}
            continue
        sc = max(abs(float(x)), abs(float(y)), 1e-6)
        if abs(float(x) - float(y)) > tol * sc:
            # a difference must be robust: not a rounding artefact at a discontinuity
            if _robust(t, s, env, names, tol, rng):
                return {"point": {k: env[k] for k in names}, "got": float(x), "want": float(y),
                        "atoms": {show(ops[k])[:80]: env[k] for k in ops}}
    return None


def _boundary(t, s, rng, domain, tol, secs=6.0):
    """points on and next to the boundaries of the comparisons that guard the value: found by
    bisection of the compared difference along one input"""
    vs = {v.args[0]: v for x in (t, s) for v in free_vars(x)}
    names = sorted(vs)
    if not names or opaque_atoms(t) or opaque_atoms(s) or any(str(vs[n].args[1]) not in ("double", "float") for n in names):
        return None
    atoms = [x for x in walk(t) if x.op == "fcmp"][:16]
    end = time.time() + secs
    dflt = Dom((-3, 3), (-400, 400))

    def base():
        return {n: float((domain.get(n) or dflt)(rng)) for n in names}

    def inside(n, v):
        d = domain.get(n)
        return v == v and not math.isinf(v) and (not isinstance(d, Dom) or d.ok(v))

    def differs(env):
        try:
            y, x = evaluate(s, env), evaluate(t, env)
        except UndefHit:
            return "indeterminate value (never written)", None
        except (Unev, OverflowError, TypeError, ValueError, KeyError):
            return None
        if isinstance(x, complex) or isinstance(y, complex) or y != y or math.isinf(y):
            return None
        if x != x or math.isinf(x) or abs(float(x) - float(y)) > tol * max(abs(float(x)), abs(float(y)), 1e-6):
            return repr(x), float(y)
        return None
    for rnd in range(3):
        for c in atoms:
            d = mk("fsub", c.args[1], c.args[2])
            for n in sorted({v.args[0] for v in free_vars(d)})[:4]:
                if time.time() > end:
                    return None
                env = base()

                def g(v):
                    try:
                        r = evaluate(d, dict(env, **{n: v}))
                        return None if isinstance(r, complex) or r != r else float(r)
                    except (Unev, UndefHit, OverflowError, TypeError, ValueError, KeyError):
                        return None
                pts = sorted([float((domain.get(n) or dflt)(rng)) for _ in range(14)] + [v for v in (0.0, 1.0, -1.0) if inside(n, v)])
                vals = [(v, g(v)) for v in pts]
                vals = [(v, q) for v, q in vals if q is not None]
                roots = []
                for (l, a), (h, b) in zip(vals, vals[1:]):
                    if a == 0:
                        roots.append(l)
                    if (a < 0) == (b < 0):
                        continue
                    for _ in range(90):
                        m = (l + h) / 2
                        if m == l or m == h:
                            break
                        q = g(m)
                        if q is None:
                            break
                        if (q < 0) == (a < 0):
                            l = m
                        else:
                            h = m
                    roots += [l, h]
                for r in roots[:6]:
                    cand, up, dn = [r], r, r
                    for _ in range(4):
                        up, dn = math.nextafter(up, math.inf), math.nextafter(dn, -math.inf)
                        cand += [up, dn]
                    k = max(abs(r), 1e-3)
                    cand += [r + q * k for w in (1e-12, 1e-9, 1e-6, 1e-3, 0.05) for q in (w, -w)]
                    for v in cand:
                        if not inside(n, v):
                            continue
                        e2 = dict(env, **{n: v})
                        hit = differs(e2)
                        if hit is None:
                            continue
                        if hit[1] is None or _robust(t, s, e2, names, tol, rng) or _isolated(t, s, e2, names, atoms):
                            return {"point": {q: e2[q] for q in names}, "got": hit[0], "want": hit[1], "boundary_of": show(c)[:160]}
    return None


def _isolated(t, s, env, names, atoms):
    """an equality test of the code holds at this very point, what is required does not vary around
    it, and the value there is far from it: the code treats this one value specially"""
    on = False
    for c in atoms:
        if c.args[0] in ("eq", "ueq", "ne", "une"):
            try:
                a, b = evaluate(c.args[1], env), evaluate(c.args[2], env)
            except (Unev, UndefHit, OverflowError, TypeError, ValueError, KeyError):
                continue
            on = on or a == b
    if not on:
        return False
    try:
        x, y = float(evaluate(t, env)), float(evaluate(s, env))
        near = [float(evaluate(s, dict(env, **{n: env[n] * k + h}))) for n in names for k, h in ((1 + 1e-9, 0), (1 - 1e-9, 0), (1, 1e-12), (1, -1e-12))]
    except (Unev, UndefHit, OverflowError, TypeError, ValueError, KeyError):
        return False
    sc = max(abs(y), 1e-3)
    if any(not abs(v - y) < 1e-6 * sc for v in near):
        return False
    return x != x or abs(x - y) > 1e-3 * sc


def _mp():
    global _MP
    if _MP is None:
        try:
            import mpmath
        except ImportError:
            import sys
            sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
            try:
                import mpmath
            except ImportError:
                mpmath = False
        _MP = mpmath
        if _MP:
            _MP.mp.dps = 60
    return _MP


_MP = None


def _exact_diff(t, s, env, tol):
    """the two formulas, evaluated with 60 digits, still disagree (rules out rounding artefacts of the
    evaluation); None when this cannot be told"""
    mp = _mp()
    if not mp:
        return None
    try:
        e2 = {k: (mp.mpf(v) if isinstance(v, float) else v) for k, v in env.items()}
        y = evaluate(s, e2, mpf=mp)
        x = evaluate(t, e2, mpf=mp)
    except (Unev, UndefHit, OverflowError, TypeError, ValueError, KeyError, ZeroDivisionError):
        return None
    if x != x or mp.isinf(x):
        return True
    return abs(x - y) > tol * max(abs(x), abs(y), mp.mpf("1e-6"))


def _conditioned(t, s, env, names):
    """the difference exceeds what relative errors of 1e-10 in the inputs (or in unit constants) explain"""
    try:
        x, y = float(evaluate(t, env)), float(evaluate(s, env))
    except (Unev, UndefHit, OverflowError, TypeError, ValueError, KeyError):
        return True
    if x != x or math.isinf(x):
        return True
    dev = 0.0
    for nm in names:
        if isinstance(env[nm], float):
            for k in (1 + 1e-10, 1 - 1e-10):
                try:
                    dev = max(dev, abs(float(evaluate(s, dict(env, **{nm: env[nm] * k}))) - y))
                except (Unev, UndefHit, OverflowError, TypeError, ValueError, KeyError):
                    pass
    # degree/radian factors are known to 13 digits only; near a multiple of half a turn that is all there is
    for c in {c.id: c for c in walk(t) if c.op == "f" and (abs(c.args[0] * 180 / math.pi - 1) < 1e-9 or abs(c.args[0] * math.pi / 180 - 1) < 1e-9)}.values():
        try:
            dev = max(dev, abs(float(evaluate(subst(t, {c.id: fc(c.args[0] * (1 + 1e-12))}), env)) - x))
        except (Unev, UndefHit, OverflowError, TypeError, ValueError, KeyError):
            pass
    return abs(x - y) > 20 * dev


def _robust(t, s, env, names, tol, rng):
    if all(isinstance(n, str) for n in names) and not _conditioned(t, s, env, names):
        return False
    if not any(callable(v) for v in env.values()) and _exact_diff(t, s, env, tol) is False:
        return False
    return _robust_f(t, s, env, names, tol, rng)


def _robust_f(t, s, env, names, tol, rng):
    """the disagreement persists under a relative perturbation of 1e-13 of the inputs in
    at least one of several trials, or the point is exactly an equality special case"""
    diff = 0
    for _ in range(6):
        e2 = dict(env)
        for nm in names:
            if isinstance(e2[nm], float) and e2[nm] != int(e2[nm]):
                e2[nm] = e2[nm] * (1 + rng.uniform(-1, 1) * 1e-13)
        try:
            x, y = evaluate(t, e2), evaluate(s, e2)
        except (Unev, UndefHit, OverflowError, TypeError, ValueError, KeyError):
            continue
        if y != y:
            continue
        if x != x or math.isinf(x):
            diff += 1
            continue
        if abs(float(x) - float(y)) > tol * max(abs(float(x)), abs(float(y)), 1e-6):
            diff += 1
    return diff >= 5
