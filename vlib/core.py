"""Shared check driver: compiles witness units against /repo's current headers, runs
rules, writes evidence, applies the known-findings file, sets the exit status."""
import sys, os, json, time, tempfile, shutil, subprocess, random, hashlib, re
from concurrent.futures import ThreadPoolExecutor
from . import llvm as L, vgraph as V, terms as X

REPO = os.environ.get("VERIF_REPO", "/repo")
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CLANG = "/usr/lib/llvm-18/bin/clang++"
GXX = "/usr/bin/g++"
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = "thorough" if os.environ.get("VERIF_TIER") == "thorough" else "quick"
INC = REPO + "/include"
BASEFLAGS = ["-std=c++14", "-I" + INC, "-w", "-include", "cstdint"]
IRFLAGS = ["-O2", "-Xclang", "-disable-llvm-passes", "-gline-tables-only", "-DNDEBUG", "-fno-math-errno",
           "-ffp-contract=off", "-emit-llvm", "-c", "-fno-threadsafe-statics"]
_tmp = None


def tmp():
    global _tmp
    if _tmp is None:
        _tmp = tempfile.mkdtemp(prefix="vchk_")
        import atexit
        atexit.register(lambda: shutil.rmtree(_tmp, ignore_errors=True))
    return _tmp


def run(cmd, timeout=600, **k):
    return subprocess.run(cmd, capture_output=True, text=True, timeout=timeout, **k)


def pmap(f, xs, n=8):
    with ThreadPoolExecutor(n) as p:
        return list(p.map(f, xs))


def write(name, text):
    p = os.path.join(tmp(), name)
    with open(p, "w") as f:
        f.write(text)
    return p


def compile_ir(name, text, flags=()):
    src = write(name + ".cpp", text)
    out = os.path.join(tmp(), name + ".bc")
    r = run([CLANG] + BASEFLAGS + IRFLAGS + list(flags) + [src, "-o", out])
    return (out, "") if r.returncode == 0 else (None, r.stderr)


def syntax(name, text, std="c++14", cc=CLANG, flags=(), forced=True):
    src = write(name + ".cpp", text)
    f = ["-std=" + std, "-I" + INC, "-w", "-fsyntax-only"] + (["-include", "cstdint"] if forced else [])
    r = run([cc] + f + list(flags) + [src])
    return r.returncode == 0, r.stderr


class Snip:
    """one witness function: C++ code plus the specification of each output slot"""

    def __init__(self, name, params, body, spec, what="", tol=None, domain=None, group=None, pos=(), principal=(), nonzero=(), gt0=(), abstract=(), rounding=None, keep=False):
        self.name, self.params, self.body, self.spec, self.what = name, params, body, spec, what
        self.tol, self.domain = tol or (1e-9 if "float" not in body else 1e-7), domain
        self.group = group
        self.keep = keep      # a value computed from a double parameter is never rounded to float
        self.rounding = rounding      # sampler of inputs at which rounding may carry an argument out of a function's domain
        self.abstract = abstract      # slots whose value is a common subterm: generalised to a fresh variable for the proof
        self.pos, self.principal, self.nonzero, self.gt0 = pos, principal, nonzero, gt0

    def code(self):
        ps = ", ".join("%s %s" % (t, n) for t, n in self.params)
        return 'extern "C" void w_%s(%s%sdouble* o) {\n%s\n}\n' % (self.name, ps, ", " if ps else "", self.body)


class Check:
    def __init__(self, pid):
        self.pid = pid
        self.t0 = time.time()
        self.rng = random.Random(SEED * 7919 + int(hashlib.md5(pid.encode()).hexdigest()[:6], 16))
        self.viol, self.undec, self.proved = [], [], []
        self.samples = []
        self.stats = {}
        self.errors = []
        self.known = self._known()
        self.known_hit = []

    def _known(self):
        p = os.path.join(ROOT, "known_findings.txt")
        out = {}
        if os.path.exists(p):
            for ln in open(p):
                m = re.match(r"known: property=(\S+) key=(\S+) (.*)", ln)
                if m and m.group(1) == self.pid:
                    out[m.group(2)] = m.group(3).strip()
        return out

    def ok(self, key, detail=""):
        self.proved.append(key)
        if len(self.samples) < 6:
            self.samples.append({"obligation": key, "verdict": "discharged", "detail": str(detail)[:300]})

    def bad(self, key, where, msg, **more):
        if key in self.known:
            self.known_hit.append(key)
            return
        self.viol.append(dict(key=key, where=where, msg=msg, **more))

    def unk(self, key, why):
        self.undec.append((key, str(why)[:400]))

    def count(self, k, n=1):
        self.stats[k] = self.stats.get(k, 0) + n

    def note_known(self, key):
        """a listed finding whose site is still as recorded"""
        if key in self.known and key not in self.known_hit:
            self.known_hit.append(key)

    # ---------------------------------------------------- numeric witnesses
    def numeric(self, prelude, snips, inline=None, argdomain=None, chunk=12, flags=(), models=None, pure=None,
                passes="always-inline,default<O2>", group_compile=True):
        groups = [snips[k:k + chunk] for k in range(0, len(snips), chunk)]
        jobs = []

        def build(gi):
            g = groups[gi]
            text = prelude + "".join(s.code() for s in g)
            bc, err = compile_ir("%s_n%d" % (self.pid, gi), text, flags)
            if bc:
                seen["yes"] += 1
                return [(bc, g)]
            res = []
            for k, s in enumerate(g):
                if seen["no"] >= 8 and seen["yes"] and time.time() - self.t0 > 120:
                    # enough is known to report; the rest of a group that fails as a whole is left open
                    self.unk(s.name, "compiled with others that do not compile, not taken apart")
                    continue
                bc, err = compile_ir("%s_n%d_%d" % (self.pid, gi, k), prelude + s.code(), flags)
                seen["yes" if bc else "no"] += 1
                if bc:
                    res.append((bc, [s]))
                else:
                    res.append((None, [s], err))
            return res
        seen = {"yes": 0, "no": 0}
        built = pmap(build, range(len(groups)))
        nocompile, compiled = [], 0
        for res in built:
            for r in res:
                if r[0] is None:
                    s = r[1][0]
                    nocompile.append((s, r[2]))
                    self.count("witnesses_not_compiling")
                    continue
                compiled += 1
                self._analyse(r[0], r[1], inline, models, pure, passes)

        if nocompile and not compiled:
            self.errors.append("no witness compiles: " + _err1(nocompile[0][1]))
        else:
            for s, err in nocompile:
                self.bad(s.name, err_site(err), "%s: the operation no longer compiles for this instantiation: %s" % (s.what or s.name, _err1(err)),
                         code=s.code())

    def _analyse(self, bc, snips, inline, models, pure, passes):
        m = L.Module(bc)

        def pred(d, f, n):
            if n.startswith("w_"):
                return None
            if inline is not None:
                r = inline(d, f, n)
                if r is not None:
                    return r
            return True
        m.mark(pred)
        m.run(passes)
        for s in snips:
            F = m.function("w_" + s.name)
            if F is None:
                self.errors.append("lost witness " + s.name)
                continue
            self.count("witness_functions")
            self.count("ir_instructions", sum(len(b.insts) for b in F.blocks))
            names = {k: n for k, (t, n) in enumerate(s.params)}
            names[len(s.params)] = "o"
            try:
                g = V.VG(m, F, names, models=models, pure=pure).run()
            except V.Undecided as e:
                self.unk(s.name, e)
                continue
            except RecursionError:
                self.unk(s.name, "recursion")
                continue
            self._judge(s, g)
        m.close()

    def _judge(self, s, g):
        if not g.ret:
            self.unk(s.name, "no normal return")
            return
        outs = {}
        rets = g.ret
        # several returns: gate by their reach conditions
        keys = set()
        for rc, rv, mem, b in rets:
            for k in mem:
                if isinstance(k[0], X.T) and k[0].op == "argp" and k[0].args[0] == "o":
                    keys.add(k)
        loops = bool(g.loops)
        P = X.mk("argp", "o")
        want = s.spec
        def slot(idx):
            val = None
            for rc, rv, mem, b in rets:
                e = mem.get((P, idx * 8))
                v = e[0] if e else X.UNDEF
                if v is X.UNDEF and ("ver", P) in mem:
                    v = X.mk("load", P, X.ic(idx * 8), 8, mem[("ver", P)][0])
                val = v if val is None else X.ite(rc, v, val)
            return val
        gen = None
        if s.abstract:
            gm = {}
            for k in s.abstract:
                x = slot(k)
                while x.op in ("sitofp", "uitofp", "fpext"):
                    x = x.args[0]
                gm[x.id] = X.var("$%d" % k, "i%d" % X.width(x) if slot(k) is not x else "double")
            gen = lambda t: X.subst(t, gm)
        for idx, w in sorted(want.items()):
            key = "%s[%d]" % (s.name, idx)
            self.count("obligations")
            val = slot(idx)
            if isinstance(w, tuple) and w[0] == "slot":      # reference computed by the witness itself
                w = slot(w[1])
            has_mu = any(x.op == "mu" for x in X.walk(val))
            if has_mu:
                self.unk(key, "loop-carried value: " + X.show(val)[:200])
                continue
            w = X.lift(w)
            tr = [x for x in X.walk(val) if x.op == "fptrunc"] if "float" not in s.code() else []
            if tr and not any(x.op == "fptrunc" for x in X.walk(w)):
                self.bad(key, locate(val, g), "%s: output %d passes through single precision although every operand is double: %s" % (s.what or s.name, idx, X.show(tr[0])[:300]), code=s.code())
                continue
            if s.keep:
                dbl = {n for t, n in s.params if t == "double"}
                tr = [x for x in X.walk(val) if x.op == "fptrunc" and any(v.args[0] in dbl for v in X.free_vars(x))]
                if tr:
                    self.bad(key, locate(tr[0], g), "%s: output %d rounds a value of the double operand to single precision: %s" % (s.what or s.name, idx, X.show(tr[0])[:300]), code=s.code())
                    continue
            X.assume(s.pos, s.principal, s.nonzero, s.gt0)
            used = time.time() - self.t0      # a hard obligation may take long, many hard ones may not: the run must end in time
            verdict, info = X.compare(val, w, self.rng, s.domain, s.tol, gen=gen, limit=60 if used < 200 else 10 if used < 400 else 2)
            if verdict == "proved":
                self.ok(key, "%s == %s" % (X.show(val)[:140], X.show(w)[:140]))
            elif verdict == "refuted":
                where = locate(val, g)
                self.bad(key, where, "%s: output %d is %s; the property requires %s" % (s.what or s.name, idx, X.show(val)[:400], X.show(w)[:400]),
                         witness=info, code=s.code())
            else:
                self.unk(key, info)
            if s.rounding and verdict != "refuted":
                self.count("obligations")
                pc = X.partial_calls(val, s.rounding, self.rng)
                out = [c for c in pc if c[1] == "out"]
                if out:
                    self.bad(key + ".range", locate(out[0][0], g), "%s: output %d is not a number where rounding takes the argument of %s outside [-1, 1]: %s" % (
                        s.what or s.name, idx, out[0][0].args[0], X.show(out[0][0])[:300]), witness=out[0][2], code=s.code())
                elif any(c[1] == "?" for c in pc):
                    self.unk(key + ".range", "argument not shown to lie in [-1, 1]")
                else:
                    self.ok(key + ".range", "%d calls of partial functions, each within its domain" % len(pc))

    # ---------------------------------------------------- finish
    def finish(self, rule, assumptions=(), level="other", min_obl=1, extra=None):
        for k in self.known_hit:
            print("KNOWN-FINDING: property=%s %s" % (self.pid, self.known[k]))
        ob = len(self.proved) + len(self.undec) + len(self.viol) + len(self.known_hit)
        cov = {"explanation": rule, "obligations": ob, "discharged": len(self.proved), "undecided": len(self.undec),
               "known_findings": len(self.known_hit), "samples": self.samples[:8], "undecided_list": self.undec[:40]}
        cov.update(self.stats)
        cov.update(extra or {})
        cov["obligations"] = ob
        ev = {"property": self.pid, "tier": TIER, "seed": SEED, "level": level, "coverage": cov,
              "assumptions": list(assumptions), "wall_s": round(time.time() - self.t0, 2), "violations": len(self.viol)}
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        with open(os.path.join(ROOT, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        for e in self.errors:
            print("ERROR", e)
        print("%s: %d obligations, %d discharged, %d undecided, %d violations, %.1fs" % (
            self.pid, ob, len(self.proved), len(self.undec), len(self.viol), time.time() - self.t0))
        for k, why in self.undec[:8]:
            print("  undecided:", k, "--", why[:160])
        if self.viol:
            for n, v in enumerate(self.viol):
                rp = os.path.join(ROOT, "evidence", "%s.replay%d.json" % (self.pid, n))
                with open(rp, "w") as f:
                    json.dump(v, f, indent=1, default=str)
                if n < 6:
                    print("  at %s: %s" % (v["where"], v["msg"][:300]))
                    if v.get("witness"):
                        print("     witness:", json.dumps(v["witness"], default=str)[:300])
                    print("VIOLATION property=%s replay=%s" % (self.pid, rp))
            sys.exit(1)
        if self.errors or len(self.proved) + len(self.undec) < min_obl:
            print("ERROR: %s analysed only %d obligations, expected at least %d: analysis broken" % (self.pid, len(self.proved) + len(self.undec), min_obl))
            sys.exit(2)
        sys.exit(0)


def locate(t, g=None):
    """source position in /repo of the construct computing t (innermost debug location under include/)"""
    best = None
    for x in X.walk(t):
        if x.loc:
            for f, l in x.loc:
                if f.startswith(INC):
                    return "%s:%d" % (os.path.relpath(f, REPO), l)
    if g is not None:
        for b in g.F.blocks:
            for i in b.insts:
                for f, l in (i.loc or ()):
                    if f.startswith(INC):
                        best = best or "%s:%d" % (os.path.relpath(f, REPO), l)
    return best or "(witness)"


def err_site(e):
    for f, l in re.findall(r"(/[^:\s]+):(\d+):\d+", e):
        if f.startswith(INC):
            return "%s:%s" % (os.path.relpath(f, REPO), l)
    return "(witness)"


def _err1(e):
    for ln in e.split("\n"):
        if "error" in ln:
            return ln[:300]
    return e[:300]
