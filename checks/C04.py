"""C04: converting a value between units of the same dimension preserves the physical value."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib.core import Check, Snip, TIER
from vlib import geom as G
from vlib.terms import var

V3 = [var(n) for n in "abc"]
CART = [(("m", "m", "m"), ("km", "cm", "ly")), (("km", "m", "cm"), ("m", "m", "m")), (("ly", "pc", "m"), ("pc", "ly", "km"))]
SPH = [(("deg", "deg", "m"), ("rad", "rad", "km")), (("rad", "rad", "pc"), ("deg", "rad", "ly")), (("deg", "rad", "km"), ("rad", "deg", "cm"))]


def snips():
    out = []
    for cls in G.CLS:
        cfg = CART if G.CLS[cls][2] == "lll" else SPH
        if cls == "cartesian_differential":
            cfg = cfg + [(("mps", "kps", "mps"), ("kps", "mps", "kps"))]
        for src, dst in cfg:
            want = {k: V3[k] * (G.fac(s) / G.fac(t)) for k, (s, t) in enumerate(zip(src, dst))}
            n = "%s_%s_to_%s" % (cls, "_".join(src), "_".join(dst))
            P = [("double", x) for x in "abc"]
            C = G.ctor(cls, src, "abc")
            D = G.ty(cls, dst)

            def add(nm, body, spec, what, sc="double"):
                out.append(Snip(n + "_" + nm, [(sc, x) for x in "abc"], body, spec, "%s %s -> %s: %s" % (cls, src, dst, what), tol=1e-7 if sc == "double" else 1e-4))
            add("make", "auto s=%s; auto p=bac::make_%s<double, %s>(s); %s" % (C, cls, ", ".join(G.Q(u) for u in dst), G.gets(cls)), want, "make_ with target quantities")
            add("ctor", "auto s=%s; %s p(s); %s" % (C, D, G.gets(cls)), want, "converting constructor")
            add("back", "auto s=%s; %s m(s); %s p(m); %s" % (C, D, G.ty(cls, src), G.gets(cls)), dict(enumerate(V3)), "there and back")
            # narrower / wider scalar
            add("wide", "auto s=%s; %s p(s); %s" % (G.ctor(cls, src, "abc", "float"), D, G.gets(cls)), want, "float to double", "float")
    return out


def main():
    ck = Check("C04")
    ck.numeric(G.PRE, snips(), chunk=10)
    ck.finish(rule="For each of the 7 three-component classes x unit pairs: the converting constructor, the converting factory and the round trip are reduced to value "
              "graphs; each component must equal the source component times the ratio of the SI factors of the two units.",
              assumptions=["SI factors of the units are those fixed by Boost.Units' base units", "real arithmetic up to relative 1e-7"], min_obl=150)


if __name__ == "__main__":
    main()
