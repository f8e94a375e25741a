"""C13: headers can be included alone, in any order and from several translation units."""
import sys, os, re
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib.core import Check, write, run, pmap, tmp, CLANG, INC, REPO, err_site, _err1

ck = Check("C13")
HS = sorted(os.path.relpath(os.path.join(d, f), INC) for d, _, fs in os.walk(INC + "/boost/astronomy") for f in fs if f.endswith(".hpp"))
BASE = [CLANG, "-std=c++14", "-I" + INC, "-w", "-include", "cstdint"]
inc = lambda hs: "".join("#include <%s>\n" % h for h in hs)
WH = lambda h: "include/" + h


def contributes(name, hs):
    """preprocessed text each library header contributes to a unit, keyed by header (None when the unit does not preprocess)"""
    r = run(BASE + ["-E", write(name + ".cpp", inc(hs))])
    if r.returncode:
        return None, r.stderr
    out, cur = {}, None
    for l in r.stdout.split("\n"):
        if l.startswith("#"):
            m = re.match(r'# \d+ "([^"]*)"', l)
            if m:
                p = os.path.realpath(m.group(1)) if m.group(1).startswith("/") else ""
                cur = os.path.relpath(p, os.path.realpath(INC)) if p.startswith(os.path.realpath(INC) + "/") else None
        elif cur and l.strip():
            out.setdefault(cur, []).append(" ".join(l.split()))
    return {k: "\n".join(v) for k, v in out.items()}, ""


def strong(name, hs):
    o = os.path.join(tmp(), name + ".o")
    r = run(BASE + ["-O0", "-gline-tables-only", "-c", write(name + "_o.cpp", inc(hs)), "-o", o])
    if r.returncode:
        return None, r.stderr
    q = run(["nm", "-C", "-l", o])
    syms = []
    for l in q.stdout.split("\n"):
        m = re.match(r"\s*[0-9a-f]*\s+([A-Za-z])\s+(.*)", l)
        if m and m.group(1) in "TDBRCGS":
            syms.append(m.group(2))
    return syms, ""


alone = dict(zip(HS, pmap(lambda k: contributes("a%d" % k, [HS[k]]), range(len(HS)))))
objs = dict(zip(HS, pmap(lambda k: strong("s%d" % k, [HS[k]]), range(len(HS)))))
for h in HS:
    ck.count("headers")
    sy, err = objs[h]
    if sy is None:
        ck.bad("alone:" + h, err_site(err), "%s does not compile when it is the only library header included: %s" % (h, _err1(err)))
        continue
    ck.ok("alone:" + h, "compiles on its own")
    ck.count("object_files_inspected")
    if sy:
        ck.bad("link:" + h, WH(h), "a definition with external linkage that every including translation unit would emit: " + "; ".join(sy[:3]), symbols=sy)
    else:
        ck.ok("link:" + h, "no strong external definition in the symbol table of a unit that includes it")
fwd, rev = list(HS), list(reversed(HS))
rot = HS[len(HS) // 2:] + HS[:len(HS) // 2]
for nm, hs in (("sorted", fwd), ("reversed", rev), ("rotated", rot)):
    sy, err = strong("all_" + nm, hs)
    if sy is None:
        ck.bad("together:" + nm, err_site(err), "the headers do not compile together (%s order): %s" % (nm, _err1(err)))
        continue
    ck.ok("together:" + nm, "%d headers compile together" % len(hs))
    if sy:
        ck.bad("link:" + nm, "include/boost/astronomy", "a definition with external linkage that every including translation unit would emit: " + "; ".join(sy[:3]), symbols=sy)
    got, err = contributes("e_" + nm, hs)
    for h in HS:
        a = (alone[h][0] or {}).get(h, "")
        ck.count("contributions_compared")
        if (got or {}).get(h, "") == a:
            ck.ok("same:%s:%s" % (nm, h), "contributes the same declarations as on its own")
        elif a and not (got or {}).get(h, ""):
            ck.bad("same:%s:%s" % (nm, h), WH(h), "contributes nothing when the other headers are included first (%s order): its include guard is taken" % nm)
        else:
            ck.unk("same:%s:%s" % (nm, h), "contributes different text than on its own")
ck.finish("Each header is compiled alone and all together in three orders: semantic analysis must accept every unit, the symbol table of each object must hold no strong definition (functions and variables in headers are inline, template or internal), and the preprocessed text a header contributes must be the same alone and after all others.",
          ["C++14, clang 18, with <cstdint> included first as the build does", "templates that no header instantiates are judged by the other properties"], min_obl=150)
