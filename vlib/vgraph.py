"""Gated-SSA value graph of one IR function (a flow analysis; nothing is executed).

Every SSA value becomes a hash-consed term; control-flow joins become `ite`
nodes gated by the branch conditions that decide them; loop-carried values become
`mu` nodes with recorded initial and next values; memory is a map from
(object, offset) to terms.  Calls that are not inlined stay as opaque nodes or are
given meaning by a model table."""
from . import terms as X
from .terms import mk, ic, fc, var, ite, T, BOT, UNDEF, NULL, TRUE, FALSE
from . import llvm as L
import re


class Undecided(Exception):
    pass


LIBM = {}
for _n in ("sin cos tan asin acos atan sqrt exp log fabs floor ceil trunc cbrt pow atan2 hypot fmod fmin fmax copysign round log10 sinh cosh tanh remainder".split()):
    for _s in ("", "f", "l"):
        LIBM[_n + _s] = _n
    LIBM["__%s_finite" % _n] = _n
for _a, _b in (("minnum", "fmin"), ("maxnum", "fmax")):
    LIBM["llvm." + _a] = _b


def libm(name):
    if name in LIBM:
        return LIBM[name]
    if name.startswith("llvm."):
        p = name.split(".")
        return LIBM.get(p[1]) or LIBM.get("llvm." + p[1])
    return None


class VG:
    def __init__(self, mod, F, argnames=None, models=None, pure=None, out_sizes=None):
        self.mod, self.F = mod, F
        self.models = models or (lambda vg, st, inst, name, dem, args: None)
        self.pure = pure or (lambda dem: False)
        self.throws = []
        self.calls = []
        self.assume = []
        self.argnames = argnames or {}
        self.W = {}          # header -> set of memory keys carried by mu
        self.mus = {}
        self.globals = {}
        self._dom()

    # ------------------------------------------------------------ CFG helpers
    def _dom(self):
        B = self.F.blocks
        n = len(B)
        seen, order = set(), []

        def dfs(b):
            st = [(b, iter(B[b].succs))]
            seen.add(b)
            while st:
                x, it = st[-1]
                for s in it:
                    if s not in seen:
                        seen.add(s)
                        st.append((s, iter(B[s].succs)))
                        break
                else:
                    order.append(x)
                    st.pop()
        dfs(0)
        rpo = order[::-1]
        self.rpo = rpo
        pos = {b: k for k, b in enumerate(rpo)}
        self.pos = pos
        idom = {0: 0}
        ch = True
        while ch:
            ch = False
            for b in rpo[1:]:
                new = None
                for p in B[b].preds:
                    if p in idom:
                        if new is None:
                            new = p
                        else:
                            x, y = new, p
                            while x != y:
                                while pos[x] > pos[y]:
                                    x = idom[x]
                                while pos[y] > pos[x]:
                                    y = idom[y]
                            new = x
                if idom.get(b) != new:
                    idom[b] = new
                    ch = True
        self.idom = idom

        def dom(a, b):
            while True:
                if a == b:
                    return True
                if b == 0:
                    return False
                b = idom[b]
        self.dominates = dom
        self.back = set()
        self.loops = {}
        for b in rpo:
            for s in B[b].succs:
                if pos[s] <= pos[b]:
                    if not dom(s, b):
                        raise Undecided("irreducible control flow")
                    self.back.add((b, s))
                    body = self.loops.setdefault(s, {s})
                    st = [b]
                    while st:
                        x = st.pop()
                        if x in body:
                            continue
                        body.add(x)
                        st.extend(p for p in B[x].preds if p in pos)

    def fpreds(self, b):
        return [p for p in self.F.blocks[b].preds if (p, b) not in self.back and p in self.pos]

    # ------------------------------------------------------------ main
    def run(self, init_mem=None, maxit=40):
        for it in range(maxit):
            self.throws, self.calls, self.mus, self.muinfo = [], [], {}, {}
            again = self._pass(dict(init_mem or {}))
            if not again:
                return self
        raise Undecided("loop memory did not stabilise")

    def _pass(self, mem0):
        F = self.F
        self.val = {}
        for k, (pid, ty, sret) in enumerate(F.params):
            nm = self.argnames.get(k, "a%d" % k)
            if ty.kind == "ptr":
                self.val[pid] = mk("ptr", mk("argp", nm), ic(0))
            else:
                self.val[pid] = var(nm, ty.s)
        self.out, self.rc, self.exit = {}, {0: TRUE}, {}
        self.ret = []
        self.cond = {}
        for b in self.rpo:
            blk = F.blocks[b]
            preds = self.fpreds(b)
            if b == 0:
                mem = mem0
            else:
                live = [p for p in preds if self.out.get(p) is not None and self.edge_live(p, b)]
                if not live:
                    self.out[b] = None
                    self.rc[b] = FALSE
                    continue
                mem = self._merge_mem(b, live)
                rc = FALSE
                for p in live:
                    rc = X.boolop("or", rc, X.boolop("and", self.rc[p], self.edge_cond(p, b)))
                self.rc[b] = self._simp_rc(b, rc)
            if b in self.loops:
                mem = dict(mem)
                for key in self.W.get(b, ()):
                    m = mk("mu", F.name, b, "mem", _kname(key))
                    self.muinfo[m.id] = [b, mem.get(key), None, key]
                    sizes = mem.get(key, (None, 0))[1] if key in mem else 0
                    mem[key] = (m, sizes)
            self.cur = b
            self.mem = mem
            ok = True
            for I in blk.insts:
                if I.op == "phi":
                    self._phi(b, I)
                    continue
                r = self._inst(I)
                if r == "stop":
                    ok = False
                    break
            self.out[b] = self.mem if ok else None
        # loop-carried memory
        again = False
        for (p, h) in self.back:
            if self.out.get(p) is None or self.out.get(h) is None and h not in self.loops:
                continue
            hin = self._hdr_mem.get(h) if hasattr(self, "_hdr_mem") else None
            o = self.out.get(p)
            if o is None:
                continue
            base = self._entry[h]
            w = self.W.setdefault(h, set())
            for key in set(o) | set(base):
                if o.get(key) != base.get(key) and key not in w:
                    bs = key[0]
                    if isinstance(bs, T) and bs.op in ("alloca", "heap") and key not in base and not self._used_before(key, h):
                        pass
                    w.add(key)
                    again = True
        for (p, h) in self.back:
            o = self.out.get(p)
            if o is None:
                continue
            for mid, info in self.muinfo.items():
                if info[0] == h:
                    if info[3] == "phi":
                        info[2] = self._operand_of_phi(info[4], p)
                    else:
                        v = o.get(info[3])
                        nv = v[0] if v else UNDEF
                        info[2] = nv if info[2] is None else mk("join", info[2], nv)
        return again

    def _used_before(self, key, h):
        return True

    def _operand_of_phi(self, I, p):
        for bb, op in I.x:
            if bb == p:
                return self.opd(op)
        return None

    def edge_cond(self, p, b):
        t = self.F.blocks[p].insts[-1]
        if t.op == "br":
            if not t.ops:
                return TRUE
            c = self.opd(t.ops[0])
            if t.x[0] == t.x[1]:
                return TRUE
            return c if t.x[0] == b else X.neg(c)
        if t.op == "switch":
            v = self.opd(t.ops[0])
            cs = FALSE
            for k, s in t.x["cases"]:
                if s == b:
                    cs = X.boolop("or", cs, X.icmp("eq", v, self.opd(k)))
            if t.x["default"] == b:
                nd = TRUE
                for k, s in t.x["cases"]:
                    if s != b:
                        nd = X.boolop("and", nd, X.neg(X.icmp("eq", v, self.opd(k))))
                return nd
            return cs
        if t.op == "invoke":
            return TRUE if t.x["succs"][0] == b else FALSE
        return TRUE

    def edge_live(self, p, b):
        return self.edge_cond(p, b) is not FALSE

    def _simp_rc(self, b, rc):
        d = self.idom[b]
        # if every path from idom reaches b the condition is the idom's
        if self._postcovers(d, b):
            return self.rc[d]
        return rc

    def _postcovers(self, d, b):
        """all forward paths from d (ignoring back edges and dead ends) pass through b"""
        seen, st = set(), [d]
        while st:
            x = st.pop()
            if x == b or x in seen:
                continue
            seen.add(x)
            if self.out.get(x, 1) is None:
                return False
            ss = [s for s in self.F.blocks[x].succs if (x, s) not in self.back]
            if not ss and x != b:
                return False
            for s in ss:
                if self.pos[s] > self.pos[b]:
                    return False
                st.append(s)
        return True

    def gate(self, b, vals):
        """vals: {pred: term}; value at entry of b as gated expression from idom(b)"""
        d = self.idom[b]
        memo = {}
        vs = set(v.id for v in vals.values())
        if len(vs) == 1:
            return next(iter(vals.values()))

        def E(x, s):
            if (x, s) in self.back:
                return BOT
            if s == b:
                return vals.get(x, BOT)
            if self.pos.get(s, 1 << 30) > self.pos[b]:
                return BOT
            return G(s)

        def G(x):
            r = memo.get(x)
            if r is not None:
                return r
            if self.out.get(x, 1) is None and x != d:
                r = BOT
            else:
                t = self.F.blocks[x].insts[-1]
                if t.op == "br":
                    if not t.ops:
                        r = E(x, t.x[0])
                    else:
                        c = self.opd(t.ops[0])
                        r = ite(c, E(x, t.x[0]), E(x, t.x[1]))
                elif t.op == "switch":
                    v = self.opd(t.ops[0])
                    r = E(x, t.x["default"])
                    for k, s in reversed(t.x["cases"]):
                        r = ite(X.icmp("eq", v, self.opd(k)), E(x, s), r)
                elif t.op == "invoke":
                    r = E(x, t.x["succs"][0])
                else:
                    r = BOT
            memo[x] = r
            return r
        return G(d)

    def _merge_mem(self, b, live):
        if len(live) == 1:
            mem = dict(self.out[live[0]])
        else:
            mem = {}
            outs = {p: self.out[p] for p in live}
            keys = set()
            for o in outs.values():
                keys |= set(o)
            for k in keys:
                vs = {p: o.get(k) for p, o in outs.items()}
                f = next(iter(vs.values()))
                if all(v == f for v in vs.values()):
                    mem[k] = f
                    continue
                size = max(v[1] for v in vs.values() if v)
                gv = {p: (v[0] if v else self._missing(k, size)) for p, v in vs.items()}
                mem[k] = (self.gate(b, gv), size)
        if b in self.loops:
            if not hasattr(self, "_entry"):
                self._entry = {}
            m2 = dict(mem)
            for key in self.W.get(b, ()):
                m = mk("mu", self.F.name, b, "mem", _kname(key))
                m2[key] = (m, mem[key][1] if key in mem else 0)
            self._entry[b] = m2
        return mem

    def _missing(self, key, size):
        if key[0] in ("obj", "ver"):
            return mk("init", _kname(key))
        base, off = key
        if isinstance(base, T) and base.op in ("alloca", "heap"):
            return UNDEF
        return mk("load", base, off if isinstance(off, T) else ic(off), size)

    def _phi(self, b, I):
        if b in self.loops:
            m = mk("mu", self.F.name, b, "phi", I.id)
            init = {p: self.opd(o) for p, o in I.x if (p, b) not in self.back and self.out.get(p) is not None}
            iv = self.gate(b, init) if len(init) > 1 else next(iter(init.values()))
            # loop-invariant phi
            self.muinfo[m.id] = [b, (iv, 0), None, "phi", I]
            self.val[I.id] = m
            self.mus[m.id] = m
            return
        vals = {p: self.opd(o) for p, o in I.x if self.out.get(p) is not None and self.edge_live(p, b)}
        self.val[I.id] = self.gate(b, vals)

    # ------------------------------------------------------------ operands
    def opd(self, o):
        k = o[0]
        if k == "v":
            return self.val.get(o[1], UNDEF)
        if k == "i":
            return ic(o[2], o[1])
        if k == "f":
            return fc(o[1])
        if k == "null":
            return NULL
        if k == "undef":
            return UNDEF
        if k == "g":
            return mk("ptr", mk("glob", o[1]), ic(0))
        if k == "fn":
            return mk("fnaddr", o[1])
        if k == "gep":
            b = self.opd(o[1])
            return self._addptr(b, ic(o[2]))
        if k == "agg":
            return mk("agg", *[self.opd(x) for x in o[2]])
        if k == "zero":
            return self._zero(o[1])
        return mk("cexpr", str(o))

    def _zero(self, t):
        if t.kind in ("struct",):
            return mk("agg", *[self._zero(e) for e in t.elems])
        if t.kind in ("array", "vector"):
            return mk("agg", *[self._zero(t.elems[0]) for _ in range(t.n)])
        if t.kind == "int":
            return ic(0, t.bits)
        if t.kind == "ptr":
            return NULL
        return fc(0.0)

    def _addptr(self, p, off):
        if p.op == "ptr":
            return mk("ptr", p.args[0], X.ibin("add", p.args[1], off))
        if p.op == "ite":
            return ite(p.args[0], self._addptr(p.args[1], off), self._addptr(p.args[2], off))
        return mk("ptr", p, off)

    # ------------------------------------------------------------ memory
    def asptr(self, p):
        if p.op == "ptr":
            return p
        return mk("ptr", p, ic(0))

    def load(self, p, size, kind, bits=0):
        if p.op == "ite":
            return ite(p.args[0], self.load(p.args[1], size, kind, bits), self.load(p.args[2], size, kind, bits))
        if p is BOT or p is NULL or p is UNDEF:
            return BOT
        p = self.asptr(p)
        base, off = p.args
        if off.op == "i":
            o = X.sval(off)
            e = self.mem.get((base, o))
            if e is not None and e[1] == size:
                return e[0]
            if base.op == "glob":
                r = self._gload(base.args[0], o, size, kind)
                if r is not None:
                    return r
            ob = self.mem.get(("obj", base, self._objbase(base, o)))
            # overlapping pieces
            parts = self._overlap(base, o, size)
            if parts is not None:
                return parts
            whole = self._objfor(base, o)
            if whole is not None:
                return mk("field", whole[0], o - whole[1], size)
            if base.op in ("alloca", "heap"):
                if (("ver", base) in self.mem):
                    return mk("load", base, off, size, self.mem[("ver", base)][0])
                return UNDEF
            if (("ver", base) in self.mem):
                return mk("load", base, off, size, self.mem[("ver", base)][0])
            return mk("load", base, off, size)
        e = self.mem.get((base, off))
        if e is not None and e[1] == size:
            return e[0]
        v = self.mem.get(("ver", base))
        return mk("load", base, off, size, v[0]) if v else mk("load", base, off, size)

    def _objbase(self, base, o):
        return o

    def _objfor(self, base, o):
        best = None
        for k, v in self.mem.items():
            if k[0] == "obj" and k[1] is base and k[2] <= o and (v[1] == 0 or o < k[2] + v[1]):
                if best is None or k[2] > best[1]:
                    best = (v[0], k[2])
        return best

    def _overlap(self, base, o, size):
        """compose a load from byte pieces stored with other sizes"""
        pieces = []
        for k, v in self.mem.items():
            if k[0] is base and isinstance(k[1], int) and v[1] and k[1] < o + size and o < k[1] + v[1]:
                pieces.append((k[1], v[1], v[0]))
        if not pieces:
            return None
        bs = []
        for j in range(size):
            c = [(po, ps, pv) for po, ps, pv in pieces if po <= o + j < po + ps]
            if not c:
                bs.append(None)
                continue
            po, ps, pv = c[-1]
            bs.append(byte_of(pv, o + j - po, ps))
        if any(b is None for b in bs):
            return None
        return from_bytes(bs)

    def store(self, p, v, size):
        if p.op == "ite":
            a, b = p.args[1], p.args[2]
            if a in (BOT, NULL, UNDEF):
                return self.store(b, v, size)
            if b in (BOT, NULL, UNDEF):
                return self.store(a, v, size)
            va, vb = self.load(a, size, ""), self.load(b, size, "")
            self.store(a, ite(p.args[0], v, va), size)
            self.store(b, ite(p.args[0], vb, v), size)
            return
        p = self.asptr(p)
        base, off = p.args
        if v.op == "agg" and off.op == "i":
            self._store_agg(base, X.sval(off), v, size)
            return
        if off.op == "i":
            o = X.sval(off)
            # kill or split overlapping pieces
            for k in [k for k, e in self.mem.items() if k[0] is base and isinstance(k[1], int) and k[1] != o and
                      e[1] and k[1] < o + size and o < k[1] + e[1]]:
                po, (pv, ps) = k[1], self.mem.pop(k)
                for j in range(ps):
                    if not (o <= po + j < o + size):
                        self.mem[(base, po + j)] = (byte_of(pv, j, ps), 1)
            old = self.mem.get((base, o))
            if old and old[1] > size:
                for j in range(size, old[1]):
                    self.mem[(base, o + j)] = (byte_of(old[0], j, old[1]), 1)
            self.mem[(base, o)] = (v, size)
        else:
            for k in [k for k in self.mem if k[0] is base]:
                del self.mem[k]
            pv = self.mem.get(("ver", base))
            self.mem[("ver", base)] = (mk("wr", pv[0] if pv else mk("v0"), off, v), 0)
            self.mem[(base, off)] = (v, size)

    def _store_agg(self, base, o, v, size):
        n = len(v.args)
        sizes = getattr(v, "_sizes", None)
        es = size // n if n else 0
        for j, a in enumerate(v.args):
            self.store(mk("ptr", base, ic(o + j * es)), a, es)

    def memcpy(self, d, s, n):
        d, s = self.asptr(d), self.asptr(s)
        if d.op != "ptr" or s.op != "ptr" or n.op != "i" or d.args[1].op != "i" or s.args[1].op != "i":
            db = d.args[0]
            for k in [k for k in self.mem if k[0] is db]:
                del self.mem[k]
            self.mem[("ver", db)] = (mk("cpy", s, n, self._objsnap(s)), 0)
            return
        db, do, sb, so, n = d.args[0], X.sval(d.args[1]), s.args[0], X.sval(s.args[1]), n.args[1]
        if n > 4096:
            self.mem[("ver", db)] = (mk("cpy", s, n), 0)
            return
        new = {}
        cov = [False] * n
        for k, e in list(self.mem.items()):
            if k[0] is sb and isinstance(k[1], int) and e[1]:
                if so <= k[1] and k[1] + e[1] <= so + n:
                    new[do + k[1] - so] = e
                    for j in range(k[1] - so, k[1] - so + e[1]):
                        cov[j] = True
                elif k[1] < so + n and so < k[1] + e[1]:
                    for j in range(e[1]):
                        if so <= k[1] + j < so + n:
                            new[do + k[1] + j - so] = (byte_of(e[0], j, e[1]), 1)
                            cov[k[1] + j - so] = True
        if not all(cov) and (sb.op not in ("alloca", "heap") or ("ver", sb) in self.mem or self._objfor(sb, so)):
            j = 0
            while j < n:
                if cov[j]:
                    j += 1
                    continue
                w = 8 if (so + j) % 8 == 0 and n - j >= 8 and not any(cov[j:j + 8]) else (
                    4 if (so + j) % 4 == 0 and n - j >= 4 and not any(cov[j:j + 4]) else 1)
                new[do + j] = (self.load(mk("ptr", sb, ic(so + j)), w, ""), w)
                j += w
        # clear destination range
        for k in [k for k, e in self.mem.items() if k[0] is db and isinstance(k[1], int) and k[1] < do + n and do < k[1] + max(e[1], 1)]:
            po, (pv, ps) = k[1], self.mem.pop(k)
            for j in range(ps):
                if not (do <= po + j < do + n):
                    self.mem[(db, po + j)] = (byte_of(pv, j, ps), 1)
        for o, e in new.items():
            self.mem[(db, o)] = e

    def _gload(self, name, o, size, kind):
        if name not in self.globals:
            self.globals[name] = self.mod.global_init(name)
        g = self.globals[name]
        if not g or not g[2]:
            return None
        return _agg_load(self, g[0], g[1], o, size)

    # ------------------------------------------------------------ instructions
    def _inst(self, I):
        o = I.op
        v = self.opd
        if o in ("ret",):
            rv = v(I.ops[0]) if I.ops else None
            self.ret.append((self.rc[self.cur], rv, self.mem, self.cur))
            return
        if o in ("br", "switch"):
            return
        if o == "unreachable":
            return "stop"
        if o == "resume":
            return "stop"
        r = None
        if o in ("fadd", "fsub", "fmul", "fdiv", "frem"):
            r = self.fbin(o, v(I.ops[0]), v(I.ops[1]))
        elif o == "fneg":
            r = self.vec1(lambda a: fc(-a.args[0]) if a.op == "f" else mk("fneg", a), v(I.ops[0]))
        elif o in X.IBIN:
            a, b = v(I.ops[0]), v(I.ops[1])
            r = self.vec2(lambda p, q: self._ib(o, p, q, I.ty), a, b)
        elif o == "icmp":
            r = X.icmp(I.x, v(I.ops[0]), v(I.ops[1]))
        elif o == "fcmp":
            r = X.fcmp(I.x, v(I.ops[0]), v(I.ops[1]))
        elif o == "select":
            c = v(I.ops[0])
            r = ite(c, v(I.ops[1]), v(I.ops[2]))
        elif o == "freeze":
            r = v(I.ops[0])
        elif o == "alloca":
            r = mk("ptr", mk("alloca", self.F.name, I.id, I.x.s), ic(0))
            b = r.args[0]
            for k in [k for k in self.mem if k[0] is b or (len(k) > 1 and k[1] is b)]:
                del self.mem[k]
        elif o == "gep":
            p = v(I.ops[0])
            if I.x is None:
                r = mk("gep?", p)
            else:
                off = ic(0)
                for s in I.x:
                    if isinstance(s, int):
                        off = X.ibin("add", off, ic(s))
                    else:
                        idx = v(s[1])
                        off = X.ibin("add", off, X.ibin("mul", idx, ic(s[0])))
                r = self._addptr(p, off)
        elif o == "load":
            t = I.ty
            r = self._load_ty(v(I.ops[0]), t)
        elif o == "store":
            self._store_ty(v(I.ops[1]), v(I.ops[0]), I.x)
        elif o in ("sext", "zext", "trunc", "fptoui", "fptosi", "uitofp", "sitofp", "fptrunc", "fpext"):
            r = self.vec1(lambda a: self.conv(o, a, I.ty), v(I.ops[0]))
        elif o in ("ptrtoint", "inttoptr"):
            a = v(I.ops[0])
            r = a.args[0] if a.op in ("ptrtoint", "inttoptr") else mk(o, a)
        elif o == "bitcast":
            a = v(I.ops[0])
            r = self._bitcast(a, I.ty)
        elif o == "extractvalue":
            a = v(I.ops[0])
            r = a
            for k in I.x:
                r = self._elem(r, k)
        elif o == "insertvalue":
            r = self._insv(v(I.ops[0]), v(I.ops[1]), I.x, I.ty)
        elif o == "extractelement":
            a, k = v(I.ops[0]), v(I.ops[1])
            r = self._elem(a, k.args[1]) if k.op == "i" else mk("vext", a, k)
        elif o == "insertelement":
            a, e, k = v(I.ops[0]), v(I.ops[1]), v(I.ops[2])
            r = self._insv(a, e, [k.args[1]], I.ty) if k.op == "i" else mk("vins", a, e, k)
        elif o == "shufflevector":
            a, b = v(I.ops[0]), v(I.ops[1])
            n = len(a.args) if a.op == "agg" else len(b.args) if b.op == "agg" else I.ty.n
            r = mk("agg", *[UNDEF if k < 0 else (self._elem(a, k) if k < n else self._elem(b, k - n)) for k in I.x])
        elif o in ("call", "invoke"):
            r = self._call(I)
            if r == "stop":
                return "stop"
        elif o == "landingpad":
            r = mk("landingpad", I.id)
        else:
            r = mk("op?", o, *[v(a) for a in I.ops])
        if r is not None and isinstance(r, T):
            self.val[I.id] = r
            if r.loc is None and I.loc:
                r.loc = I.loc

    def _ib(self, o, a, b, ty):
        if a is UNDEF or b is UNDEF:
            return UNDEF
        if a.op == "ite" and b.op == "i" and a.args[1].op == "i" and a.args[2].op == "i":
            return ite(a.args[0], X.ibin(o, a.args[1], b), X.ibin(o, a.args[2], b))
        if o == "xor" and ty.bits == 1:
            return X.boolop("xor", a, b)
        return X.ibin(o, a, b)

    def vec1(self, f, a):
        if a.op == "agg":
            return mk("agg", *[self.vec1(f, x) for x in a.args])
        if a is UNDEF or a is BOT:
            return a
        return f(a)

    def vec2(self, f, a, b):
        if a.op == "agg" and b.op == "agg":
            return mk("agg", *[self.vec2(f, x, y) for x, y in zip(a.args, b.args)])
        return f(a, b)

    def fbin(self, o, a, b):
        if a.op == "agg" or b.op == "agg":
            if a.op != "agg":
                a = mk("agg", *[self._elem(a, k) for k in range(len(b.args))])
            if b.op != "agg":
                b = mk("agg", *[self._elem(b, k) for k in range(len(a.args))])
            return mk("agg", *[self.fbin(o, x, y) for x, y in zip(a.args, b.args)])
        if a is UNDEF or b is UNDEF:
            return UNDEF
        if a.op == "f" and b.op == "f":
            x, y = a.args[0], b.args[0]
            try:
                return fc({"fadd": lambda: x + y, "fsub": lambda: x - y, "fmul": lambda: x * y, "fdiv": lambda: x / y}[o]())
            except (KeyError, ZeroDivisionError, OverflowError):
                pass
        return mk(o, a, b)

    def conv(self, o, a, ty):
        if a.op == "i":
            if o == "zext":
                return ic(a.args[1], ty.bits)
            if o in ("sext",):
                return ic(X.sval(a), ty.bits)
            if o == "trunc":
                return ic(a.args[1], ty.bits)
            if o == "sitofp":
                return fc(X.sval(a))
            if o == "uitofp":
                return fc(a.args[1])
        if a.op == "f":
            if o in ("fpext",):
                return a
            if o == "fptrunc":
                import ctypes
                return fc(ctypes.c_float(a.args[0]).value) if ty.kind == "float" else a
        if a.op == "ite" and a.args[1].op in ("i", "f") and a.args[2].op in ("i", "f"):
            return ite(a.args[0], self.conv(o, a.args[1], ty), self.conv(o, a.args[2], ty))
        if o in ("sext", "zext", "trunc"):
            if o == "trunc" and a.op in ("zext", "sext") and isinstance(a.args[0], int):
                sb = a.args[2] if len(a.args) > 2 else None
                if sb == ty.bits:
                    return a.args[1]
            return mk(o, ty.bits, a)
        if o == "fptrunc" and ty.kind != "float":
            o = "fpext"        # extended to double precision: no single-precision rounding
        return mk(o, a) if o not in ("fptosi", "fptoui") else mk(o, ty.bits, a)

    def _elem(self, a, k):
        if a.op == "agg":
            return a.args[k] if k < len(a.args) else UNDEF
        if a.op == "ite":
            return ite(a.args[0], self._elem(a.args[1], k), self._elem(a.args[2], k))
        if a is UNDEF or a is BOT:
            return a
        return mk("elem", a, k)

    def _insv(self, a, e, idx, ty):
        n = len(ty.elems) if ty.kind == "struct" else ty.n
        els = list(a.args) if a.op == "agg" else [self._elem(a, k) for k in range(n)]
        k = idx[0]
        if len(idx) == 1:
            els[k] = e
        else:
            sub = ty.elems[k] if ty.kind == "struct" else ty.elems[0]
            els[k] = self._insv(els[k], e, idx[1:], sub)
        return mk("agg", *els)

    def _bitcast(self, a, ty):
        if a.op == "agg" and ty.kind in ("int", "double", "float"):
            bs = []
            es = ty.size // len(a.args)
            for x in a.args:
                bs += [byte_of(x, j, es) for j in range(es)]
            return from_bytes(bs)
        if ty.kind == "vector":
            es = ty.elems[0].size
            return mk("agg", *[from_bytes([byte_of(a, k * es + j, ty.size) for j in range(es)]) for k in range(ty.n)])
        return a

    def _load_ty(self, p, t):
        if t.kind == "vector" or t.kind == "array":
            es = t.elems[0].size
            return mk("agg", *[self._load_ty(self._addptr(p, ic(k * es)), t.elems[0]) for k in range(t.n)])
        if t.kind == "struct":
            return mk("agg", *[self._load_ty(self._addptr(p, ic(o)), e) for o, e in zip(t.offs, t.elems)])
        return self.load(p, t.size, t.kind, t.bits)

    def _store_ty(self, p, v, t):
        if t.kind in ("vector", "array"):
            es = t.elems[0].size
            for k in range(t.n):
                self._store_ty(self._addptr(p, ic(k * es)), self._elem(v, k), t.elems[0])
            return
        if t.kind == "struct":
            for k, (o, e) in enumerate(zip(t.offs, t.elems)):
                self._store_ty(self._addptr(p, ic(o)), self._elem(v, k), e)
            return
        self.store(p, v, t.size)

    def _objsnap(self, p):
        """term describing the contents of the object p points to"""
        if p.op == "ite":
            return ite(p.args[0], self._objsnap(p.args[1]), self._objsnap(p.args[2]))
        if p in (NULL, UNDEF, BOT):
            return p
        p = self.asptr(p)
        base, off = p.args
        if off.op != "i":
            return p
        o = X.sval(off)
        w = self.mem.get(("obj", base, o))
        if w is not None:
            return w[0]
        its = [(k[1], e[0]) for k, e in self.mem.items() if k[0] is base and isinstance(k[1], int) and k[1] >= o]
        if not its:
            return p
        its.sort(key=lambda t: t[0])
        return mk("cont", base if base.op not in ("alloca", "heap") else "_", *[x for t in its for x in (t[0] - o, t[1])])

    def _call(self, I):
        cal = I.x["callee"]
        args = [self.opd(a) for a in I.ops]
        if cal[0] != "fn":
            nm = "indirect"
            name = str(cal)
        else:
            name = cal[1]
        if name.startswith("llvm."):
            r = self._intrinsic(name, args, I)
            if r is not NotImplemented:
                return r
        m = libm(name)
        if m and I.ty.kind in ("vector", "array", "fvec") or (m and name.startswith("llvm.") and ".v" in name):
            n = I.ty.n
            return mk("agg", *[mk("call", m, *[self._elem(x, k) for x in args]) for k in range(n)])
        if m and I.ty.kind in ("double", "float", "x86_fp80"):
            a = [x for x in args]
            if all(x.op == "f" for x in a):
                try:
                    return fc(X._ev(mk("call", m, *a), [m] + [x.args[0] for x in a], {}))
                except X.Unev:
                    pass
            return mk("call", m, *a)
        if name in ("_Znwm", "_Znam", "malloc", "_ZnwmSt11align_val_t", "_ZnwmRKSt9nothrow_t"):
            return mk("ptr", mk("heap", self.F.name, I.id), ic(0))
        if name in ("_ZdlPv", "_ZdlPvm", "_ZdaPv", "free", "_ZdaPvm", "_ZdlPvSt11align_val_t"):
            return None
        if I.x["noreturn"] or name in ("__cxa_throw", "__cxa_rethrow", "_ZSt9terminatev", "abort", "__assert_fail", "__clang_call_terminate"):
            self.throws.append((self.rc[self.cur], name, args, I))
            return "stop"
        dem = L.demangle([name])[0]
        r = self.models(self, self.mem, I, name, dem, args)
        if r is not None:
            return None if r is False else r
        return self.opaque(I, name, dem, args)

    def opaque(self, I, name, dem, args):
        """Opaque call: result is a function of the visible arguments and the contents
        of the objects they point to; non-const pointees are rewritten."""
        snaps = [self._objsnap(a) if t.kind == "ptr" else a for a, t in zip(args, I.x["argty"])]
        t = mk("call", dem, *snaps)
        self.calls.append((self.rc[self.cur], dem, args, snaps, I, t))
        consts = const_params(dem, len(args), I.x["sret"])
        for k, (a, ty) in enumerate(zip(args, I.x["argty"])):
            if ty.kind != "ptr" or (k < len(consts) and consts[k]) or self.pure(dem):
                continue
            self.havoc(a, mk("mut", t, k))
        if I.ty.kind == "void":
            return None
        if I.ty.kind == "ptr":
            return mk("ptr", mk("res", t), ic(0))
        if I.ty.kind == "struct":
            return mk("agg", *[mk("elem", t, k) for k in range(len(I.ty.elems))])
        return t

    def havoc(self, p, newv):
        if p.op == "ite":
            self.havoc(p.args[1], newv)
            self.havoc(p.args[2], newv)
            return
        if p in (NULL, UNDEF, BOT):
            return
        p = self.asptr(p)
        base, off = p.args
        o = X.sval(off) if off.op == "i" else 0
        for k in [k for k in self.mem if k[0] is base and (not isinstance(k[1], int) or k[1] >= o)]:
            del self.mem[k]
        for k in [k for k in self.mem if k[0] == "obj" and k[1] is base and k[2] >= o]:
            del self.mem[k]
        self.mem[("obj", base, o)] = (newv, 0)

    def _intrinsic(self, name, args, I):
        p = name.split(".")
        b = p[1]
        if b in ("lifetime", "assume", "dbg", "experimental", "donothing", "stacksave", "stackrestore", "prefetch", "invariant"):
            return None
        if b in ("memcpy", "memmove"):
            self.memcpy(args[0], args[1], args[2])
            return None
        if b == "memset":
            d = self.asptr(args[0])
            if d.op == "ptr" and d.args[1].op == "i" and args[2].op == "i" and args[1].op == "i" and args[2].args[1] <= 4096:
                n = args[2].args[1]
                o = X.sval(d.args[1])
                c = args[1].args[1]
                j = 0
                while j < n:
                    w = 8 if n - j >= 8 else 4 if n - j >= 4 else 1
                    self.store(mk("ptr", d.args[0], ic(o + j)), ic(int.from_bytes(bytes([c] * w), "little"), 8 * w), w)
                    j += w
            else:
                self.havoc(args[0], mk("memset", args[1], args[2]))
            return None
        if b == "bswap":
            n = I.ty.size
            return from_bytes([byte_of(args[0], n - 1 - j, n) for j in range(n)])
        if b in ("smax", "smin", "umax", "umin"):
            x, y = args
            pr = {"smax": "sgt", "smin": "slt", "umax": "ugt", "umin": "ult"}[b]
            return ite(X.icmp(pr, x, y), x, y)
        if b == "abs":
            return mk("call", "abs", args[0])
        if b in ("fmuladd", "fma"):
            return self.fbin("fadd", self.fbin("fmul", args[0], args[1]), args[2])
        if b == "powi":
            return mk("call", "pow", args[0], self.conv("sitofp", args[1], I.ty))
        if b == "expect":
            return args[0]
        if b == "is" and len(p) > 2 and p[2] == "constant":
            return FALSE
        if b == "trap":
            self.throws.append((self.rc[self.cur], name, args, I))
            return "stop"
        if b in ("uadd", "sadd", "umul", "smul", "usub", "ssub") and len(p) > 3 and p[2] == "with":
            op = {"add": "add", "mul": "mul", "sub": "sub"}[b[1:]]
            return mk("agg", X.ibin(op, args[0], args[1]), mk("ovf", name, args[0], args[1]) if not (args[0].op == "i" and args[1].op == "i") else FALSE)
        if b in ("fshl", "fshr"):
            if args[0] is args[1] and args[2].op == "i" and args[2].args[1] % 8 == 0:
                n = I.ty.size
                k = args[2].args[1] // 8
                if b == "fshr":
                    k = n - k
                return from_bytes([byte_of(args[0], (j - k) % n, n) for j in range(n)])
            if args[2].op == "i" and args[2].args[1] % 8 == 0:
                n = I.ty.size
                k = args[2].args[1] // 8
                if b == "fshr":
                    k = n - k
                full = [byte_of(args[1], j, n) for j in range(n)] + [byte_of(args[0], j, n) for j in range(n)]
                return from_bytes(full[n - k:2 * n - k])
        m = libm(name)
        if m:
            return NotImplemented
        if b == "rint" or b == "nearbyint" or b == "round":
            return mk("call", b, *args)
        return mk("call", name, *args)


def byte_of(v, j, size):
    """little-endian byte j of a size-byte value"""
    if size == 1:
        return v
    if v.op == "i":
        return ic((v.args[1] >> (8 * j)) & 0xFF, 8)
    if v.op == "bytes":
        return v.args[j] if j < len(v.args) else ic(0, 8)
    if v.op == "zext" and isinstance(v.args[1], T) and v.args[1].op in ("bytes",):
        b = v.args[1].args
        return b[j] if j < len(b) else ic(0, 8)
    if v.op == "load" and v.args[1].op == "i" and v.args[2] == size:
        rest = v.args[3:]
        return mk("load", v.args[0], ic(X.sval(v.args[1]) + j), 1, *rest)
    if v.op == "ite":
        return ite(v.args[0], byte_of(v.args[1], j, size), byte_of(v.args[2], j, size))
    if v is UNDEF:
        return UNDEF
    return mk("byte", v, j, size)


def from_bytes(bs):
    if len(bs) == 1:
        return bs[0]
    if all(b.op == "i" for b in bs):
        return ic(sum(b.args[1] << (8 * k) for k, b in enumerate(bs)), 8 * len(bs))
    b0 = bs[0]
    if all(b is UNDEF for b in bs):
        return UNDEF
    if b0.op == "byte" and b0.args[2] == len(bs) and all(b.op == "byte" and b.args[0] is b0.args[0] and b.args[1] == k for k, b in enumerate(bs)):
        return b0.args[0]
    if b0.op == "load" and b0.args[2] == 1 and all(b.op == "load" and b.args[0] is b0.args[0] and b.args[2] == 1 and b.args[3:] == b0.args[3:] and
                                                  b.args[1].op == "i" and X.sval(b.args[1]) == X.sval(b0.args[1]) + k for k, b in enumerate(bs)):
        return mk("load", b0.args[0], b0.args[1], len(bs), *b0.args[3:])
    return mk("bytes", *bs)


def const_params(dem, n, sret):
    """for each IR argument: is the pointee const (not written by the call)?"""
    out = []
    m = _split_sig(dem)
    if m is None:
        return [False] * n
    params, isconst, ismember = m
    if sret:
        out.append(False)
    rest = n - len(out)
    if rest == len(params) + 1:
        out.append(isconst)
    for p in params:
        q = p.strip()
        out.append(bool(re.search(r"\bconst\s*[&*]$", q)) or not q.endswith(("&", "*", "&&")))
    return (out + [False] * n)[:n]


def _split_sig(dem):
    d = dem.rstrip()
    isconst = d.endswith(" const")
    d = re.sub(r"\[abi:\w+\]", "", d)
    e = d.rfind(")")
    if e < 0:
        return None
    k, depth = e, 0
    while k >= 0:
        c = d[k]
        if c in ")>" and not (c == ">" and d[k - 1] == "-"):
            depth += 1
        elif c in "(<":
            depth -= 1
            if depth == 0 and c == "(":
                break
        k -= 1
    inner = d[k + 1:e]
    ps, depth, cur = [], 0, ""
    for c in inner:
        if c in "<([":
            depth += 1
        elif c in ">)]":
            depth -= 1
        if c == "," and depth == 0:
            ps.append(cur)
            cur = ""
        else:
            cur += c
    if cur.strip() and cur.strip() != "void":
        ps.append(cur)
    return ps, isconst, True


def _agg_load(vg, c, t, o, size):
    if t.kind == "struct" and c[0] in ("agg", "zero"):
        for k, (off, e) in enumerate(zip(t.offs, t.elems)):
            if off <= o < off + max(e.size, 1):
                return _agg_load(vg, c[2][k] if c[0] == "agg" else ("zero", e), e, o - off, size)
        return None
    if t.kind in ("array", "vector") and c[0] in ("agg", "zero"):
        es = t.elems[0].size
        if es and o // es < t.n:
            if size > es and es == 1 and c[0] == "agg":
                bs = [vg.opd(c[2][o + j]) for j in range(size) if o + j < t.n]
                return from_bytes(bs) if len(bs) == size else None
            return _agg_load(vg, c[2][o // es] if c[0] == "agg" else ("zero", t.elems[0]), t.elems[0], o % es, size)
        return None
    if o == 0 and t.size == size:
        if c[0] == "zero":
            return vg._zero(t)
        return vg.opd(c)
    return None


def _kname(key):
    return "|".join(str(k.id) if isinstance(k, T) else str(k) for k in key)
