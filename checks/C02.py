"""C02: three-component representations and differentials keep each component exactly."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib.core import Check, Snip, TIER
from vlib import geom as G
from vlib.terms import var

a, b, c, d, e, f = (var(n) for n in "abcdef")


def configs(cls):
    if G.CLS[cls][2] == "lll":
        L = [("m", "m", "m"), ("km", "m", "cm"), ("ly", "pc", "m")]
        if cls == "cartesian_differential":
            L += [("mps", "kps", "mps")]
        L += [("one", "one", "one")]
    else:
        L = [("rad", "rad", "one"), ("deg", "deg", "m"), ("deg", "rad", "pc"), ("rad", "deg", "km")]
        if "diff" in cls:
            L += [("deg", "rad", "kps")]
    return L


def snips():
    out = []
    for cls in G.CLS:
        g, comb, kind = G.CLS[cls]
        for sc in ("double", "float"):
            for ci, us in enumerate(configs(cls)):
                if sc == "float" and ci not in (1,):
                    continue
                ty = G.ty(cls, us, sc)
                n = "%s_%s_%s" % (cls, sc[0], "_".join(us))
                tol = 1e-7 if sc == "double" else 1e-4
                P = [(sc, x) for x in "abc"]
                P6 = P + [(sc, x) for x in "def"]
                C = G.ctor(cls, us, "abc", sc)

                def add(nm, ps, body, spec, what):
                    out.append(Snip(n + "_" + nm, ps, body, spec, "%s %s" % (ty, what), tol=tol))
                get = G.gets(cls)
                tup = "auto t=p.get_%s(); o[3]=std::get<0>(t).value(); o[4]=std::get<1>(t).value(); o[5]=std::get<2>(t).value();" % comb
                add("ctor", P, "%s p=%s; %s %s" % (ty, C, get, tup), {0: a, 1: b, 2: c, 3: a, 4: b, 5: c}, "constructor, getters and tuple getter")
                add("set", P6, "%s p=%s; p.set_%s(%s); %s %s" % (ty, C, comb, ", ".join(G.val(u, x, sc) for u, x in zip(us, "def")), get, tup),
                    {0: d, 1: e, 2: f, 3: d, 4: e, 5: f}, "set_%s" % comb)
                for k in range(3):
                    want = [a, b, c]
                    want[k] = d
                    add("set%d" % k, P6[:4], "%s p=%s; p.set_%s(%s); %s %s" % (ty, C, g[k], G.val(us[k], "d", sc), get, tup),
                        dict(enumerate(want + want)), "set_%s changes exactly that component" % g[k])
                add("copy", P6[:4], "%s q=%s; %s p(q); q.set_%s(%s); %s p2; p2=p; %s %s" % (
                    ty, C, ty, g[0], G.val(us[0], "d", sc), ty, get, G.gets(cls, "p2", 3)), dict(enumerate([a, b, c] * 2)), "copies are complete and independent")
                add("make", P, "auto p=bac::make_%s(%s); static_assert(std::is_same<decltype(p), %s>::value, \"factory type\"); auto p2=bac::make_%s(p); "
                    "static_assert(std::is_same<decltype(p2), %s>::value, \"factory type\"); %s %s" % (
                        cls, ", ".join(G.val(u, x, sc) for u, x in zip(us, "abc")), ty, cls, ty, get, G.gets(cls, "p2", 3)),
                    dict(enumerate([a, b, c] * 2)), "make_%s from components and from an object" % cls)
                if ci < 2:
                    bt = "get_point" if "representation" in cls else "get_differential"
                    fs = [G.fac(u) if u in G.ANG else 1.0 for u in us]
                    add("raw", P, "%s p=%s; auto r=p.%s(); o[0]=bg::get<0>(r); o[1]=bg::get<1>(r); o[2]=bg::get<2>(r);" % (ty, C, bt),
                        {0: a * fs[0], 1: b * fs[1], 2: c * fs[2]}, "%s exposes the components (angles in radians)" % bt)
    return out


def main():
    ck = Check("C02")
    ck.numeric(G.PRE, snips(), chunk=16)
    ck.finish(rule="For each of the 7 three-component classes x unit configurations x {double,float}: witnesses for construct / set / copy / assign / factory / "
              "raw access are compiled to IR and reduced to value graphs; every component read back must have the canonical form of the component supplied.",
              assumptions=["real arithmetic up to relative 1e-7 (float 1e-4)", "NaN inputs excluded", "unit configurations listed in checks/C02.py"], min_obl=300)


if __name__ == "__main__":
    main()
