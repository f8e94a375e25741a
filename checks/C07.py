"""C07: the coordinate rotation matrices are the textbook ones, orthogonal and mutually inverse."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib.core import Check, Snip
from vlib import geom as G
from vlib.terms import var, sin, cos

PRE = G.PRE + "#include <boost/astronomy/coordinate/utility/utility.hpp>\n"
A = var("a")
GAL = [-0.0669887, -0.8727558, -0.4835389, 0.4927285, -0.4503470, 0.7445846, -0.8676008, -0.1883746, 0.4601998]


def mats(t):
    s, c = sin(t), cos(t)
    return {
        "ha_dec_horizon": [-s, 0., c, 0., -1., 0., c, 0., s],
        "ha_dec_ra_dec": [c, s, 0., s, -c, 0., 0., 0., 1.],
        "ecliptic_to_ra_dec": [1., 0., 0., 0., c, -s, 0., s, c],
        "ra_dec_to_ecliptic": [1., 0., 0., 0., c, s, 0., -s, c],
    }


INV = {"ha_dec_horizon": "ha_dec_horizon", "ha_dec_ra_dec": "ha_dec_ra_dec", "ecliptic_to_ra_dec": "ra_dec_to_ecliptic", "ra_dec_to_ecliptic": "ecliptic_to_ra_dec"}
RD = "for (int i_ = 0; i_ < 3; ++i_) for (int j_ = 0; j_ < 3; ++j_) o[3*i_+j_] = %s(i_, j_);"
ID = [1., 0., 0., 0., 1., 0., 0., 0., 1.]


def snips():
    out = []
    for u in ("deg", "rad"):
        for cs, es in (("double", "double"), ("float", "double"), ("double", "float")):
            tol = 1e-7 if (cs, es) == ("double", "double") else 1e-4
            for nm, want in mats(A * G.fac(u)).items():
                def ty(n):
                    return "bac::%s<%s, %s, %s>" % (n, cs, G.Q(u, cs), es)
                n = "%s_%s_%s_%s" % (nm, u, cs[0], es[0])
                ctor = "%s m_(%s);" % (ty(nm), G.val(u, "a", cs))
                P = [(cs, "a")]
                out.append(Snip(n, P, ctor + " auto r_ = m_.get(); " + RD % "r_", dict(enumerate(want)), "%s(%s angle, %s, %s)" % (nm, u, cs, es), tol=tol))
                if (cs, es) == ("double", "double"):
                    out.append(Snip(n + "_field", P, ctor + RD % "m_.conv", dict(enumerate(want)), "%s member conv" % nm, tol=tol))
                    out.append(Snip(n + "_copy", P + [(cs, "b")], "%s x_(%s); %s m_(x_); x_ = %s(%s); %s" % (ty(nm), G.val(u, "a", cs), ty(nm), ty(nm), G.val(u, "b", cs), RD % "m_.get()"),
                                    dict(enumerate(want)), "%s copies are independent" % nm, tol=tol))
                    out.append(Snip(n + "_inv", P, ctor + " %s n_(%s); bnu::matrix<%s> r_ = bnu::prod(m_.get(), n_.get()); " % (ty(INV[nm]), G.val(u, "a", cs), es) + RD % "r_",
                                    dict(enumerate(ID)), "%s times %s is the identity" % (nm, INV[nm]), tol=tol))
                    out.append(Snip(n + "_orth", P, ctor + " bnu::matrix<%s> r_ = bnu::prod(m_.get(), bnu::matrix<%s>(bnu::trans(m_.get()))); " % (es, es) + RD % "r_",
                                    dict(enumerate(ID)), "%s times its transpose is the identity" % nm, tol=tol))
    for es in ("double", "float"):
        tol = 2e-7
        import struct
        rnd = (lambda x: x) if es == "double" else (lambda x: struct.unpack("f", struct.pack("f", x))[0])
        T = [GAL[3 * (k % 3) + k // 3] for k in range(9)]
        for nm, w in (("ra_dec_to_galactic", GAL), ("galactic_to_ra_dec", T)):
            out.append(Snip("%s_%s" % (nm, es[0]), [], "bac::%s<%s> m_; auto r_ = m_.get(); %s" % (nm, es, RD % "r_"), dict(enumerate(map(rnd, w))), "%s<%s>" % (nm, es), tol=tol))
    return out


def main():
    ck = Check("C07")
    ck.numeric(PRE, snips(), chunk=4)
    ck.finish(rule="Every element of each of the six matrices, for degree and radian angles and float/double element and angle types, must have the canonical form of the textbook element; "
              "the product (boost::numeric::ublas::prod, inlined) with the inverse class and with the own transpose must canonicalise to the identity.",
              assumptions=["real arithmetic up to relative 1e-7", "galactic matrix: the B1950 constants to 7 digits, the inverse being its transpose"], min_obl=250)


if __name__ == "__main__":
    main()
