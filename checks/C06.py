"""C06: conversions between cartesian and spherical forms denote the same point / vector."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib.core import Check, Snip, TIER
from vlib import geom as G
from vlib.terms import var, ite, fcmp, fc, sqrt

V3 = [var(n) for n in "abc"]
P = [("double", x) for x in "abc"]


def srcs(cls):
    if cls.startswith("cartesian"):
        return [("m", "m", "m"), ("km", "m", "cm")] + ([("kps", "mps", "kps")] if "diff" in cls else [])
    return [("rad", "rad", "m"), ("deg", "deg", "km")] + ([("deg", "rad", "kps")] if "diff" in cls else [])


def snips():
    out = []
    for fam in (G.REPS, G.DIFFS):
        for s in fam:
            for t in fam:
                if s == t:
                    continue
                for us in srcs(s):
                    xyz = G.cart_of(s, V3, us)       # SI
                    pos, pr = G.principal(s, us, "abc")
                    D = dict(domain=G.wide(s, us, "abc"), pos=pos, principal=pr, nonzero=V3)
                    DB = dict(D, domain=G.dom(s, us, "abc"))      # there and back: within the principal ranges
                    if s.startswith("cartesian"):
                        D["domain"] = None
                    elif "coslat" in t:
                        D = DB        # the angles are handed over as they are, not reduced
                    n = "%s_to_%s_%s" % (s, t, "_".join(us))
                    C = G.ctor(s, us, "abc")
                    vel = us[2].endswith("ps")
                    L1, L2 = ("kps", "mps") if vel else ("cm", "km")
                    if t.startswith("cartesian"):
                        want = xyz
                        tgt = (L1, L2, L1)
                        conv = {k: want[k] * (1.0 / G.fac(tgt[k])) for k in range(3)}
                        mk = {k: want[k] for k in range(3)}
                        get = G.gets(t, conv=(("mps",) * 3 if vel else ("m",) * 3))
                    else:
                        w = G.sph_of(t, xyz)
                        r = w[2]
                        if s.startswith("cartesian") and t != "spherical_coslat_differential":
                            w = [w[0], ite(fcmp("ogt", r, fc(0.0)), w[1], fc(0.0)), r]
                        want = w
                        tgt = ("deg", "rad", L2)
                        conv = {k: want[k] * (1.0 / G.fac(tgt[k])) for k in range(3)}
                        mk = {k: want[k] for k in range(3)}
                        get = G.gets(t, conv=("rad", "rad", "mps" if vel else "m"))
                    if s.startswith("cartesian") and t == "spherical_coslat_differential":
                        D["domain"] = G.dom(s, us, "abc")
                    what = "%s(%s) -> %s" % (s, ",".join(us), t)
                    tol = 1e-6
                    out.append(Snip(n + "_make", P, "auto s=%s; auto p=bac::make_%s(s); %s" % (C, t, get), mk, what + " by make_", tol=tol, **D))
                    out.append(Snip(n + "_ctor", P, "auto s=%s; %s p(s); %s" % (C, G.ty(t, tgt), G.gets(t)), conv, what + " by constructor", tol=tol, **D))
                    if len(set(us)) == 1 or not s.startswith("cartesian"):
                        if ("coslat" not in s and "coslat" not in t) or us == ("rad", "rad", "m"):
                            m = "to_representation" if "rep" in s else "to_differential"
                            same = (us[2],) * 3 if t.startswith("cartesian") else ("rad", "rad", us[2])
                            out.append(Snip(n + "_to", P, "auto s=%s; auto p=s.%s<%s>(); %s" % (C, m, G.ty(t, same), get), mk, what + " by " + m, tol=tol, **(DB if "coslat" in s else D)))
                    # there and back
                    if not s.startswith("cartesian"):
                        back = {k: V3[k] for k in range(3)}
                        out.append(Snip(n + "_back", P, "auto s=%s; auto m=bac::make_%s(s); %s p(m); %s" % (C, t, G.ty(s, us), G.gets(s)), back,
                                        what + " and back", tol=tol, **DB))
                    elif len(set(us)) == 1:
                        D2 = dict(D)
                        D2["domain"] = G.dom(s, us, "abc")
                        out.append(Snip(n + "_back", P, "auto s=%s; auto m=bac::make_%s(s); %s p(m); %s" % (C, t, G.ty(s, us), G.gets(s)),
                                        {k: V3[k] for k in range(3)}, what + " and back", tol=tol, **D2))
    return out


def main():
    ck = Check("C06")
    ck.numeric(G.PRE, snips(), chunk=8)
    ck.finish(rule="For every ordered pair of representation classes and of differential classes x unit configurations: make_, converting constructor, to_* and the "
              "there-and-back composition are reduced to value graphs and compared with x=d sin(th) cos(ph)... / atan2, acos (asin for equatorial) in SI terms.",
              assumptions=["proofs: angles inside the principal ranges, non-zero distance away from the poles (plus the origin for cartesian input)", "real arithmetic up to relative 1e-6"], min_obl=200)


if __name__ == "__main__":
    main()
