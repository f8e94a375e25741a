"""C05: vector arithmetic is the physical vector operation whatever the units and systems of the operands."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib.core import Check, Snip, TIER
from vlib import geom as G
from vlib.terms import var, ite, fcmp, fc, sqrt

A3 = [var(n) for n in "abc"]
B3 = [var(n) for n in "def"]
P6 = [("double", x) for x in "abcdef"]
P3 = P6[:3]
UN = {"cartesian": [("m", "m", "m"), ("km", "m", "cm"), ("pc", "ly", "pc")], "sph": [("rad", "rad", "m"), ("deg", "deg", "km"), ("deg", "rad", "ly")]}
UD = {"cartesian": [("mps", "kps", "mps"), ("m", "km", "cm")], "sph": [("deg", "rad", "kps"), ("rad", "rad", "m")]}


def units(cls):
    return (UN if cls in G.REPS else UD)["cartesian" if cls.startswith("cartesian") else "sph"]


def guard(r, e):
    return ite(fcmp("ogt", r, fc(0.0)), e, fc(0.0))


def result(cls, us, xyz):
    """expected components of a result of class cls with units us denoting the SI vector xyz"""
    if cls.startswith("cartesian"):
        return {k: xyz[k] * (1.0 / G.fac(us[k])) for k in range(3)}
    x, y, z = xyz
    r = sqrt(x * x + y * y + z * z)
    w = G.sph_of(cls, xyz)
    if cls == "spherical_coslat_differential":
        g = guard(r, G.acos(z / r))
        w = [w[0], g * G.cos(w[0]), r]
    else:
        w = [w[0], guard(r, w[1]), r]
    return {k: w[k] * (1.0 / G.fac(us[k])) for k in range(3)}


def ctx(c1, u1, c2=None, u2=None):
    d = dict(G.wide(c1, u1, "abc"))
    pos, pr = G.principal(c1, u1, "abc")
    if c2:
        d.update(G.wide(c2, u2, "def"))
        p2, r2 = G.principal(c2, u2, "def")
        pos, pr = list(pos) + list(p2), list(pr) + list(r2)
    return dict(domain=d, pos=pos, principal=pr, nonzero=A3 + B3, tol=1e-8)


def norm_dist(d, cls, us, name):
    """keep physical magnitudes of both operands comparable"""
    if not cls.startswith("cartesian"):
        f = G.fac(us[2])
        d[name] = G.Dom(*((0.2, 3),) * 3, (1e-4, 0.2), (3, 1e6), scale=1000.0 / f)


def snips():
    out = []
    thorough = TIER == "thorough"
    for fam in (G.REPS, G.DIFFS):
        for c1 in fam:
            for c2 in fam:
                U1, U2 = units(c1), units(c2)
                pairs = [(u, v) for i, u in enumerate(U1) for j, v in enumerate(U2) if u[2].endswith("ps") == v[2].endswith("ps")
                         and (thorough or (i + j) % 2 == 1 or i == j == 1 or "diff" in c1)]
                for u1, u2 in pairs:
                    x1, x2 = G.cart_of(c1, A3, u1), G.cart_of(c2, B3, u2)
                    s = [x1[k] + x2[k] for k in range(3)]
                    n = "%s_%s__%s_%s" % (c1, "_".join(u1), c2, "_".join(u2))
                    D = ctx(c1, u1, c2, u2)
                    norm_dist(D["domain"], c1, u1, "c")
                    norm_dist(D["domain"], c2, u2, "f")
                    C = "auto s=%s; auto t=%s; " % (G.ctor(c1, u1, "abc"), G.ctor(c2, u2, "def"))
                    what = "%s(%s) and %s(%s): " % (c1, ",".join(u1), c2, ",".join(u2))

                    cr = [x1[1] * x2[2] - x1[2] * x2[1], x1[2] * x2[0] - x1[0] * x2[2], x1[0] * x2[1] - x1[1] * x2[0]]
                    sq = lambda v: v[0] * v[0] + v[1] * v[1] + v[2] * v[2]

                    def add(nm, body, spec, w):
                        g = [sq(cr)] if nm == "cross" else [sq(s)]
                        out.append(Snip(n + "_" + nm, P6, C + body, spec, what + w, gt0=g, **D))
                    add("plus", "auto p=s+t; static_assert(std::is_same<decltype(p), %s>::value, \"type\"); %s" % (G.ty(c1, u1), G.gets(c1)), result(c1, u1, s), "operator+")
                    if fam is G.REPS:
                        add("sum", "auto p=bac::sum(s,t); static_assert(std::is_same<decltype(p), %s>::value, \"type\"); %s" % (G.ty(c1, u1), G.gets(c1)), result(c1, u1, s), "sum")
                        add("mean", "auto p=bac::mean(s,t); %s" % G.gets(c1), result(c1, u1, [q * 0.5 for q in s]), "mean")
                        dt = x1[0] * x2[0] + x1[1] * x2[1] + x1[2] * x2[2]
                        if u1[2] != "one":
                            add("dot", "auto p=bac::dot(s,t); o[0]=V(static_cast<bu::quantity<bu::si::area>>(p));", {0: dt}, "dot")
                        if c1.startswith("cartesian"):
                            body = "auto p=bac::cross(s,t); " + "".join("o[%d]=V(static_cast<bu::quantity<bu::si::area>>(p.get_%s()));" % (k, "xyz"[k]) for k in range(3))
                            add("cross", body, dict(enumerate(cr)), "cross")
                        else:
                            g = G.CLS[c1][0]
                            w = result(c1, u1[:2] + ("m",), cr)
                            add("cross", "auto p=bac::cross(s,t); o[0]=V(p.get_%s()); o[1]=V(p.get_%s()); o[2]=V(static_cast<bu::quantity<bu::si::area>>(p.get_%s()));" % g, w, "cross")
                # operands of different precision: the double one keeps its digits
                u1, u2 = U1[-1], [v for v in U2 if U1[-1][2].endswith("ps") == v[2].endswith("ps")][-1]
                x1, x2 = G.cart_of(c1, A3, u1), G.cart_of(c2, B3, u2)
                s = [x1[k] + x2[k] for k in range(3)]
                D = ctx(c1, u1, c2, u2)
                norm_dist(D["domain"], c1, u1, "c")
                norm_dist(D["domain"], c2, u2, "f")
                D["tol"] = 1e-4
                PM = P3 + [("float", x) for x in "def"]
                C = "auto s=%s; auto t=%s; " % (G.ctor(c1, u1, "abc"), G.ctor(c2, u2, "def", "float"))
                n = "mixed_%s__%s" % (c1, c2)
                what = "%s<double>(%s) and %s<float>(%s): " % (c1, ",".join(u1), c2, ",".join(u2))
                cr = [x1[1] * x2[2] - x1[2] * x2[1], x1[2] * x2[0] - x1[0] * x2[2], x1[0] * x2[1] - x1[1] * x2[0]]
                sq = lambda v: v[0] * v[0] + v[1] * v[1] + v[2] * v[2]
                K = dict(D, keep=True, gt0=[sq(s)])
                out.append(Snip(n + "_plus", PM, C + "auto p=s+t; static_assert(std::is_same<decltype(p), %s>::value, \"type\"); %s" % (G.ty(c1, u1), G.gets(c1)), result(c1, u1, s), what + "operator+", **K))
                if fam is G.REPS:
                    out.append(Snip(n + "_sum", PM, C + "auto p=bac::sum(s,t); " + G.gets(c1), result(c1, u1, s), what + "sum", **K))
                    out.append(Snip(n + "_mean", PM, C + "auto p=bac::mean(s,t); " + G.gets(c1), result(c1, u1, [q * 0.5 for q in s]), what + "mean", **K))
                    dt = x1[0] * x2[0] + x1[1] * x2[1] + x1[2] * x2[2]
                    for ab, nm in (("s,t", "dot"), ("t,s", "tod")):
                        out.append(Snip(n + "_" + nm, PM, C + "auto p=bac::dot(%s); o[0]=V(static_cast<bu::quantity<bu::si::area>>(p));" % ab, {0: dt}, what + "dot(%s)" % ab, **K))
                    if c1.startswith("cartesian"):
                        out.append(Snip(n + "_cross", PM, C + "auto p=bac::cross(s,t); " + "".join("o[%d]=V(static_cast<bu::quantity<bu::si::area>>(p.get_%s()));" % (k, "xyz"[k]) for k in range(3)),
                                        dict(enumerate(cr)), what + "cross", **dict(K, gt0=[sq(cr)])))
            for u1 in units(c1):
                x = G.cart_of(c1, A3, u1)
                D = ctx(c1, u1)
                C = "auto s=%s; " % G.ctor(c1, u1, "abc")
                n = "%s_%s" % (c1, "_".join(u1))
                mag = sqrt(x[0] * x[0] + x[1] * x[1] + x[2] * x[2])
                what = "%s(%s): " % (c1, ",".join(u1))
                if fam is G.REPS:
                    out.append(Snip(n + "_mag", P3, C + "o[0]=V(static_cast<bu::quantity<bu::si::length>>(bac::magnitude(s)));", {0: mag}, what + "magnitude", **D))
                    uv = {k: x[k] / mag for k in range(3)}
                    if c1.startswith("cartesian"):
                        out.append(Snip(n + "_unit", P3, C + "auto p=bac::unit_vector(s); " + G.gets(c1), uv, what + "unit_vector", **D))
                    else:
                        out.append(Snip(n + "_unit", P3, C + "auto p=bac::unit_vector(s); auto q=bac::make_cartesian_representation(p); " +
                                        "".join("o[%d]=V(q.get_%s());" % (k, "xyz"[k]) for k in range(3)), uv, what + "unit_vector", **D))
                else:
                    dtv = var("d")
                    for tu, tf in (("bu::si::time", 1.0), ("ms_unit", 1e-3)):
                        body = (C + "auto p = s * bu::quantity<%s>::from_value(d); auto q=bac::make_cartesian_differential(p); " % tu +
                                "".join("o[%d]=V(static_cast<bu::quantity<%s>>(q.get_d%s()));" % (k, "bu::si::length" if u1[2].endswith("ps") else "lt_unit", "xyz"[k]) for k in range(3)))
                        DD = dict(D)
                        DD["domain"] = dict(D["domain"])
                        DD["domain"]["d"] = G.Dom((0.1, 5))
                        DD["pos"] = list(D["pos"]) + [dtv]
                        out.append(Snip(n + "_mul_" + tu[-4:].replace(":", ""), P3 + [("double", "d")], body, {k: x[k] * dtv * tf for k in range(3)}, what + "operator* (time)", **DD))
                    if c1 != "spherical_coslat_differential" and len(set(u1)) == 1 or c1.startswith("spherical") and "coslat" not in c1:
                        f = G.fac(u1[2])
                        out.append(Snip(n + "_magn", P3, C + "o[0]=s.magnitude();", {0: mag * (1.0 / f)}, what + "magnitude", **D))
                        out.append(Snip(n + "_unitv", P3, C + "auto p=s.unit_vector<%s>(); %s" % (G.ty("cartesian_differential", (u1[2],) * 3), G.gets("cartesian_differential")),
                                        {k: x[k] / mag for k in range(3)}, what + "unit_vector", **D))
    return out


PRE = G.PRE + """
typedef bu::make_scaled_unit<bu::si::time, bu::scale<10, bu::static_rational<-3> > >::type ms_unit;
typedef bu::multiply_typeof_helper<bu::si::length, bu::si::time>::type lt_unit;
"""


def main():
    ck = Check("C05")
    ck.numeric(PRE, snips(), chunk=8)
    ck.finish(rule="For every ordered pair of representation (differential) classes x mixed unit configurations: sum, mean, operator+, dot, cross, magnitude, unit_vector and "
              "multiplication by a time are reduced to value graphs; the SI value of the result must have the canonical form of the textbook vector operation applied to the SI values of the operands.",
              assumptions=["proofs: angles inside the principal ranges, non-zero distances (separating points are searched over all angles and lengths)", "real arithmetic up to relative 1e-6"], min_obl=200)


if __name__ == "__main__":
    main()
