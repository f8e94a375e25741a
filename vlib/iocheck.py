"""Driver of the string-term analysis: compiles witnesses against the library with the stand-in headers, derives
the outputs of every partition as terms, compares them with the specification's terms.

A partition is discharged when every output is the same normal form as the specification's; it is a violation when
a valuation inside the partition separates the two terms; anything else is undecided and stays quiet."""
import math, os, random, re, struct, time, traceback
from concurrent.futures import ProcessPoolExecutor
import multiprocessing as mp
from . import core as C, absint as A, sterm as S
from .sterm import T, Fork, UNDEF, sub

HERE = os.path.dirname(os.path.abspath(__file__))
FLAGS = ["-std=c++14", "-I" + HERE + "/shim", "-I" + C.INC, "-D_GLIBCXX_EXTERN_TEMPLATE=0", "-include", "cstdint", "-w", "-O1", "-fno-vectorize", "-fno-slp-vectorize", "-gline-tables-only", "-emit-llvm", "-c"]

PRINT = ["-std=c++14", "-I" + HERE + "/print", "-I" + C.INC, "-include", "cstdint", "-w", "-O1", "-fno-inline", "-fno-vectorize", "-fno-slp-vectorize", "-gline-tables-only", "-emit-llvm", "-c"]


class W:
    def __init__(self, name, body, spec, inputs=None, where="", what="", gen=None, files=None, n=400, tmax=60, maxpaths=300, norm=None):
        self.name, self.body, self.spec, self.inputs, self.where, self.what = name, body, spec, inputs or {}, where, what
        self.gen, self.files, self.n, self.tmax, self.maxpaths, self.norm = gen, files, n, tmax, maxpaths, norm

    def code(self):
        return 'extern "C" void w_%s() {\n%s\n}\n' % (self.name, self.body)


def tis(p, ti):
    r = [ti]
    for b in p.bases(ti):
        r += tis(p, b)
    return r


def endname(p, end):
    """library-level name of an outcome"""
    if end[0] == "throw":
        return "throw:" + "<".join(demangle(x) for x in tis(p, end[1]))
    return end[0]


def demangle(t):
    ids = re.findall(r"\d+", t)
    m = re.search(r"(\d+)([A-Za-z_]\w*?)E*$", t)
    out, i = [], 0
    s = re.sub(r"^_ZTI(N|St)?", "", t)
    while i < len(s) and s[i].isdigit():
        j = i
        while j < len(s) and s[j].isdigit():
            j += 1
        n = int(s[i:j])
        out.append(s[j:j + n])
        i = j + n
    return out[-1] if out else t


def defgen(rng, leaves, consts):
    E = {}
    cl = [c for c in consts if 0 <= c <= 4000]
    for l in leaves:
        if l[0] == "s":
            v = S.VARS[l[1]]
            if getattr(v, "gen", None):
                E[l[1]] = v.gen(rng)
                continue
            if v.fixed is not None:
                n = v.fixed
            else:
                hi = min(v.hi, 200)
                c = rng.choice(cl) + rng.choice((-1, 0, 1)) if cl and rng.random() < .6 else rng.randrange(v.lo, hi + 1)
                n = max(v.lo, min(hi, c))
            al = sorted(v.alpha) if v.alpha else list(range(256))
            E[l[1]] = bytes(rng.choice(al) for _ in range(n))
        elif l[0] == "i":
            lo, hi = l[2], l[3]
            k = rng.random()
            E[l[1]] = rng.choice((lo, hi, lo + 1, hi - 1, 0 if lo <= 0 <= hi else lo, 1 if lo <= 1 <= hi else lo)) if k < .3 else rng.randrange(lo, min(hi, lo + 100) + 1) if k < .5 else rng.randrange(lo, hi + 1)
            if E[l[1]] < lo or E[l[1]] > hi:
                E[l[1]] = lo
        else:
            v = rng.choice((0.0, 1.0, -1.0, 0.5, -2.25, 1e10, -1e-5, 123456.789, 3.0, 1e300 if l[2] == 64 else 1e30, rng.uniform(-100, 100), float(rng.randrange(-1000, 1000))))
            E[l[1]] = S._f32(v) if l[2] == 32 else v
    return E


class _Re:
    """moves a valuation into a partition: changes free variables, within their declared ranges, until the partition's conditions hold"""

    def __init__(self, E, rng):
        self.E, self.rng = E, rng

    def put(self, name, v):
        self.E[name] = v
        for k in [k for k in self.E if not isinstance(k, str)]:
            del self.E[k]
        return True

    def byte(self, name, idx, v):
        b = self.E.get(name)
        V = S.VARS[name]
        v &= 255
        if getattr(V, "gen", None) or b is None or not 0 <= idx < len(b) or (V.alpha and v not in V.alpha) or V.values:
            return False
        return self.put(name, b[:idx] + bytes([v]) + b[idx + 1:])

    def resize(self, name, n):
        V, b = S.VARS[name], self.E[name]
        if getattr(V, "gen", None) or V.values or V.fixed is not None or not V.lo <= n <= min(V.hi, 5000):
            return False
        al = sorted(V.alpha) if V.alpha else list(range(256))
        return self.put(name, (b + bytes(self.rng.choice(al) for _ in range(max(0, n - len(b)))))[:n])

    def int(self, t, v, d=0):
        if not isinstance(t, T) or d > 12:
            return False
        o, a, E = t.op, t.a, self.E
        if o == "lin":
            ps = list(a[1:])
            self.rng.shuffle(ps)
            cur = S.evi(t, E)
            for c, x in ps:
                if (v - cur) % c == 0 and self.int(x, S.evi(x, E) + (v - cur) // c, d + 1):
                    return True
            return False
        if o == "var":
            return a[1] <= v <= a[2] and self.put(a[0], v)
        if o == "len":
            return self.resize(a[0], v)
        if o == "vb":
            return self.byte(a[0], a[1], v)
        if o == "bseg":
            g = a[0].a
            return g[0] == "V" and self.byte(g[1], S.evi(a[1], E) + (g[2] or 0), v)
        if o == "bytes":
            return all(self.int(b, (v >> (8 * i)) & 255, d + 1) or S.evi(b, self.E) & 255 == (v >> (8 * i)) & 255 for i, b in enumerate(a[1:]))
        if o in ("zext", "sext", "trunc"):
            return self.int(a[1], v if o != "zext" else v & ((1 << a[0]) - 1), d + 1) or (o == "zext" and self.int(a[1], S.sgn(v & ((1 << a[0]) - 1), a[0]), d + 1))
        if o == "byteof":
            x = S.evi(a[0], E)
            y = (x & ~(255 << (8 * a[1]))) | ((v & 255) << (8 * a[1]))
            return self.int(a[0], y, d + 1)
        if o == "d2i":
            return self.flt(a[0], struct.unpack("<d", struct.pack("<Q", v & S.M64))[0], d + 1)
        if o == "f2i":
            return self.flt(a[0], struct.unpack("<f", struct.pack("<I", v & 0xffffffff))[0], d + 1)
        if o in ("add", "sub", "xor"):
            y = S.evi(a[2], E)
            return self.int(a[1], {"add": v - y, "sub": v + y, "xor": v ^ y}[o], d + 1)
        return False

    def flt(self, t, v, d=0):
        if not isinstance(t, T) or d > 12 or v != v or abs(v) == float("inf"):
            return False
        o, a = t.op, t.a
        if o == "fvar":
            return (a[1] != 32 or abs(v) < 3e38) and self.put(a[0], S._f32(v) if a[1] == 32 else v)
        if o == "i2d":
            return self.int(a[0], S.sgn(struct.unpack("<Q", struct.pack("<d", v))[0]), d + 1)
        if o == "i2f":
            return abs(v) < 3e38 and self.int(a[0], S.sgn(struct.unpack("<I", struct.pack("<f", v))[0], 32), d + 1)
        if o in ("fpext", "fptrunc"):
            return self.flt(a[0], v, d + 1)
        if o == "fneg":
            return self.flt(a[0], -v, d + 1)
        if o == "fabs":
            return v >= 0 and self.flt(a[0], v if self.rng.random() < .5 else -v, d + 1)
        if o in ("fadd", "fsub", "fmul", "fdiv"):
            x, y = S.evf(a[1], self.E), S.evf(a[2], self.E)
            c = []
            if o == "fadd":
                c = [(1, v - y), (2, v - x)]
            elif o == "fsub":
                c = [(1, v + y), (2, x - v)]
            elif o == "fmul":
                c = [(1, v / y)] * (y != 0) + [(2, v / x)] * (x != 0)
            else:
                c = [(1, v * y)] + [(2, x / v)] * (v != 0)
            self.rng.shuffle(c)
            return any(self.flt(a[k], w, d + 1) for k, w in c)
        if o == "ffn":
            try:
                inv = {"sin": math.asin, "cos": math.acos, "tan": math.atan, "asin": math.sin, "acos": math.cos, "atan": math.tan}.get(a[0])
                return inv is not None and self.flt(a[2], inv(v), d + 1)
            except ValueError:
                return False
        return False

    def text(self, t, v):
        if not isinstance(t, T) or t.op != "str" or len(S.segs(t)) != 1 or S.segs(t)[0][0] != "V":
            return False
        g = S.segs(t)[0]
        V = S.VARS[g[1]]
        if getattr(V, "gen", None) or V.values or (V.alpha and not set(v) <= V.alpha):
            return False
        if g[2] is None:
            return V.lo <= len(v) <= V.hi and self.put(g[1], v)
        b = self.E[g[1]]
        return len(v) == g[3] - g[2] and self.put(g[1], b[:g[2]] + v + b[g[3]:])

    def atom(self, t, truth):
        E = self.E
        if t.op == "not":
            return self.atom(t.a[0], not truth)
        if t.op == "streq":
            x, y = t.a[:2]
            return truth and (self.text(x, S.evs(y, E)) or self.text(y, S.evs(x, E)))
        if t.op == "fcmp":
            p, x, y = t.a[:3]
            sides = [(x, y, 1), (y, x, -1)]
            self.rng.shuffle(sides)
            for u, w, sg in sides:
                v = S.evf(w, E)
                k = p[1:]
                if not truth:
                    k = {"eq": "ne", "ne": "eq", "gt": "le", "ge": "lt", "lt": "ge", "le": "gt"}.get(k, k)
                if k in ("eq", "le", "ge"):
                    v = -v if v == 0 and self.rng.random() < .5 else v
                elif k in ("gt", "lt"):
                    v = v + (1 if k == "gt" else -1) * sg * max(1.0, abs(v) * .01)
                else:
                    v = v + 1.0
                if self.flt(u, v):
                    return True
        return False

    def go(self, path):
        for _ in range(6):
            bad = None
            for c, tr in path.order:
                v = S.evi(c[1], self.E)
                if (v >= 0 if c[0] == "ge" else v == 0 if c[0] == "eq" else bool(v & 1)) != tr:
                    bad = (c, tr)
                    break
            if bad is None:
                return True
            c, tr = bad
            if c[0] == "ge":
                r = self.int(c[1], self.rng.choice((0, 0, 1, 2)) if tr else -self.rng.choice((1, 1, 2)))
            elif c[0] == "eq":
                r = self.int(c[1], 0 if tr else self.rng.choice((1, -1, 2)))
            else:
                r = self.atom(c[1], tr)
            if not r:
                return False
        return False


def holds(path, E):
    for c, tr in path.order:
        v = S.evi(c[1], E)
        if c[0] == "ge":
            ok = v >= 0
        elif c[0] == "eq":
            ok = v == 0
        else:
            ok = bool(v & 1)
        if ok != tr:
            return False
    return True


def evout(k, v, E):
    if v is UNDEF:
        return "<indeterminate>"
    if k == "s":
        return S.evs(v, E)
    if k == "i":
        return S.evi(v, E)
    if k == "d":
        x = S.evf(v, E)
        return "nan" if x != x else x
    return v


def undef_in(v, seen=None):
    if v is UNDEF:
        return True
    if not isinstance(v, T):
        return False
    acc = set()
    st = [v]
    while st:
        x = st.pop()
        if x is UNDEF or (isinstance(x, T) and x.op == "kb"):
            return True
        if isinstance(x, (tuple, list)):
            st.extend(x)
        elif isinstance(x, T) and x.id not in acc:
            acc.add(x.id)
            st.extend(x.a)
    return False


def same(a, b):
    if a is b:
        return True
    if isinstance(a, T) or isinstance(b, T):
        return False
    if isinstance(a, float) or isinstance(b, float):
        try:
            return float(a) == float(b) or (a != a and b != b)
        except Exception:
            return False
    if isinstance(a, int) and isinstance(b, int):
        return (a - b) & S.M64 == 0
    return a == b


def entailed(p, a, b):
    """equal integers on this part of the input space although the terms differ"""
    if a[0] != "i":
        return False
    try:
        d = sub(a[2], b[2])
        return p.ge0(d) is True and p.ge0(sub(0, d)) is True
    except Exception:
        return False


def specs(w, P, I):
    """partition of P by the specification"""
    work, out = [P.clone()], []
    while work:
        p = work.pop()
        try:
            out.append((p, w.spec(p, I)))
        except Fork as f:
            q = p.clone()
            p.assume(f.cond, True)
            q.assume(f.cond, False)
            for z in (p, q):
                if feas(z):
                    work.append(z)
            if len(out) + len(work) > 400:
                raise A.Unsup("specification partitions")
    return out


def feas(p):
    return S.feasible([(c, d) for c, d in p.lins])


def match_end(p, end, want):
    nm = endname(p, end)
    if want == "ret":
        return nm == "ret"
    if want == "throw":
        return nm.startswith("throw:")
    return nm.startswith("throw:") and any(x in nm[6:].split("<") for x in want[6:].split("|"))


def analyse(args):
    w, bc, fname, seed = args
    r = {"name": w.name, "ok": [], "bad": [], "unk": [], "parts": 0, "steps": 0, "fns": []}
    try:
        prog = A.Prog(bc)
        I = A.Interp(prog, maxpaths=w.maxpaths, tmax=w.tmax)
        inp = w.inputs() if callable(w.inputs) else w.inputs
        I.inputs = inp

        def setup(I_, st):
            if w.files:
                for path, content in w.files(inp).items():
                    st.files[S.lit(path.encode()).id] = content
        t0 = time.time()
        outs = I.run(fname, [], setup)
        r["parts"], r["steps"] = len(outs), I.steps
        r["t"] = round(time.time() - t0, 2)
        r["fns"] = sorted(x for x in I.called if "astronomy" in x)
        judge(w, prog, inp, outs, r, random.Random(seed))
    except A.Unsup as e:
        r["unk"].append((w.name, str(e)))
    except Exception as e:
        r["unk"].append((w.name, "analysis: " + traceback.format_exc()[-500:]))
    return r


def judge(w, prog, inp, outs, r, rng):
    cases = []
    pend = []
    for k, (path, ev, end, st) in enumerate(outs):
        key = "%s#%d" % (w.name, k)
        if w.norm:
            ev = [(e[0], e[1], w.norm(e[2])) for e in ev]
        if not feas(path):
            continue
        try:
            sp = specs(w, path, inp)
        except A.Unsup as e:
            r["unk"].append((key, str(e)))
            continue
        for j, (p, res) in enumerate(sp):
            kk = key if len(sp) == 1 else "%s.%d" % (key, j)
            if res is None:
                continue
            wev, wend = res
            if end[0] == "unsup":
                pend.append((kk, p, ev, end, wev, wend))
                continue
            if match_end(prog, end, wend) and (wend != "ret" or (len(ev) == len(wev) and all(a[0] == b[0] and a[1] == b[1] and (same(a[2], b[2]) or entailed(p, a, b)) for a, b in zip(ev, wev)))):
                r["ok"].append(kk)
            else:
                pend.append((kk, p, ev, end, wev, wend))
    if not pend:
        return
    # valuations
    acc = (set(), set())
    seen = set()
    for t in inp.values():
        S.leaves(t, acc, seen)
    cs = (set(), set())
    sn = set()
    for kk, p, ev, end, wev, wend in pend:
        for c, _ in p.order:
            S.leaves(c[1], cs, sn)
        for e in list(ev) + list(wev):
            S.leaves(e[2], cs, sn)
    leaves = sorted(acc[0] | cs[0], key=repr)
    left = list(range(len(pend)))
    hit = {i: 0 for i in left}
    for q in range(w.n):
        if not left:
            break
        E = w.gen(rng, q) if w.gen else defgen(rng, leaves, sorted(cs[1]))
        base = dict(E)
        for i in list(left):
            kk, p, ev, end, wev, wend = pend[i]
            try:
                if not holds(p, E):
                    continue
            except S.Stuck:
                continue
            hit[i] += 1
            bad = diff(prog, ev, end, wev, wend, E)
            if bad:
                r["bad"].append((kk, "%s for %s" % (bad, showval(base)), base))
                left.remove(i)
    if not w.gen:
        for i in list(left):
            kk, p, ev, end, wev, wend = pend[i]
            for q in range(60):
                E = defgen(rng, leaves, sorted(cs[1]))
                if q % 3 == 0:
                    flat(E, rng)
                try:
                    if not _Re(E, rng).go(p) or not holds(p, E):
                        continue
                except (S.Stuck, KeyError, OverflowError, struct.error):
                    continue
                hit[i] += 1
                base = {k: v for k, v in E.items() if isinstance(k, str)}
                bad = diff(prog, ev, end, wev, wend, E)
                if bad:
                    r["bad"].append((kk, "%s for %s" % (bad, showval(base)), base))
                    left.remove(i)
                    break
    for i in left:
        kk, p, ev, end, wev, wend = pend[i]
        why = end[1] if end[0] == "unsup" else "terms differ syntactically, %d valuations agree" % hit[i]
        if end[0] != "unsup":
            for a, b in zip(ev, wev):
                if not same(a[2], b[2]):
                    why += ": [%d] %s vs %s" % (a[1], str(S.show(a[2]))[:150], str(S.show(b[2]))[:150])
                    break
        r["unk"].append((kk, why))


def flat(E, rng):
    """a degenerate valuation: zero numbers, strings of one repeated byte"""
    for k, v in list(E.items()):
        if isinstance(v, bytes) and v and k in S.VARS:
            V = S.VARS[k]
            if getattr(V, "gen", None) or V.values:
                continue
            c = rng.choice([x for x in (0, 32, 48, 255) if V.alpha is None or x in V.alpha] or [v[0]])
            E[k] = bytes([c]) * len(v)
        elif isinstance(v, float):
            E[k] = rng.choice((0.0, -0.0))


def showval(E):
    return ", ".join("%s=%r" % (k, v if not isinstance(v, bytes) or len(v) < 200 else v[:200] + b"...") for k, v in E.items())


def diff(prog, ev, end, wev, wend, E):
    if end[0] == "unsup":
        if "indeterminate" in end[1]:
            return "the outcome depends on an indeterminate value (%s)" % end[1]
        if "undefined behaviour" in end[1]:
            return end[1]
        return None
    if not match_end(prog, end, wend):
        return "outcome is %s, required %s" % (endname(prog, end), wend)
    if wend != "ret":
        return None
    if len(ev) != len(wev):
        return "number of observable results is %d, required %d" % (len(ev), len(wev))
    for a, b in zip(ev, wev):
        if same(a[2], b[2]):
            continue
        if a[0] != b[0] or a[1] != b[1]:
            return "result kinds differ"
        try:
            y = evout(b[0], b[2], E)
        except S.Stuck:
            continue
        if undef_in(a[2]):
            return "result %d is indeterminate, required %r" % (a[1], y)
        try:
            x = evout(a[0], a[2], E)
        except S.Stuck:
            continue
        if isinstance(x, float) and isinstance(y, float):
            if abs(x - y) <= 1e-9 * max(1.0, abs(x), abs(y)):
                continue
        if a[0] == "i" and isinstance(x, int) and isinstance(y, int) and (x - y) & S.M64 == 0:
            continue
        if x != y:
            return "result %d is %r, required %r" % (a[1], x, y)
    return None


def run(ck, prelude, ws, chunk=6, jobs=8, flags=None, real=None):
    """compile and analyse the witnesses, reporting through ck"""
    groups = [ws[i:i + chunk] for i in range(0, len(ws), chunk)]

    def comp(name, text):
        src = C.write(name + ".cpp", text)
        out = src[:-4] + ".bc"
        q = C.run([C.CLANG] + (flags or FLAGS) + [src, "-o", out])
        return (out, "") if q.returncode == 0 else (None, q.stderr)

    def build(gi):
        g = groups[gi]
        bc, err = comp("%s_s%d" % (ck.pid, gi), '#include "vs_witness.h"\n' + prelude + "".join(x.code() for x in g))
        if bc:
            return [(x, bc, "") for x in g]
        if len(g) == 1:
            return [(g[0], None, err)]
        res = []
        for k, x in enumerate(g):
            bc, err = comp("%s_s%d_%d" % (ck.pid, gi, k), '#include "vs_witness.h"\n' + prelude + x.code())
            res.append((x, bc, err))
        return res
    jobsl = []
    for res in C.pmap(build, range(len(groups))):
        for x, bc, err in res:
            if bc:
                jobsl.append((x, bc, "w_" + x.name, C.SEED))
                continue
            ck.count("witnesses_not_compiling")
            src = C.write("%s_real_%s.cpp" % (ck.pid, x.name), '#include "vs_witness.h"\n' + prelude + x.code())
            q = C.run([C.CLANG, "-std=c++14", "-I" + HERE + "/" + (real or "real"), "-I" + C.INC, "-include", "cstdint", "-w", "-fsyntax-only", src])
            if q.returncode == 0:
                ck.unk(x.name, "not expressible with the stand-in headers: " + C._err1(err))
            else:
                ck.bad(x.name, C.err_site(q.stderr), "%s: the use no longer compiles: %s" % (x.what or x.name, C._err1(q.stderr)), code=x.code())
    global _J
    _J = jobsl
    ctx = mp.get_context("fork")
    fns = set()
    with ProcessPoolExecutor(jobs, mp_context=ctx) as ex:
        for r, (x, bc, f, s) in zip(ex.map(_one, range(len(jobsl))), jobsl):
            ck.count("witness_functions")
            ck.count("partitions", r["parts"])
            ck.count("abstract_steps", r["steps"])
            fns |= set(r["fns"])
            for k in r["ok"]:
                ck.ok(k, x.what)
            for k, why in r["unk"]:
                ck.unk(k, why)
            seen = set()
            for k, msg, E in r["bad"]:
                if x.name in seen:
                    continue
                seen.add(x.name)
                ck.bad(x.name, x.where, "%s: %s" % (x.what or x.name, msg), witness={a: repr(b) for a, b in E.items()}, code=x.code())
    ck.stats["library_functions_interpreted"] = len(fns | set(getattr(ck, "_fns", ())))
    ck._fns = fns | set(getattr(ck, "_fns", ()))


def _one(i):
    return analyse(_J[i])
