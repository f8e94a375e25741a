"""C08: direction vectors: column_vector / extract_coordinates are inverse, rotations change coordinates consistently."""
import sys, os, math
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib.core import Check, Snip
from vlib import geom as G
from vlib.terms import var, sin, cos, atan2, asin, Dom

PRE = G.PRE + "#include <boost/astronomy/coordinate/utility/utility.hpp>\n"
a, b, c = var("a"), var("b"), var("c")


def pole(f):
    """inputs at and next to the poles, where the third component of a direction is 1 up to rounding"""
    def pick(r):
        return {"a": r.uniform(-3, 3) / f, "c": r.uniform(-3, 3) / f, "b": r.choice((-1, 1)) * (math.pi / 2 - r.choice((0, 1e-9, 1e-8, 3e-8))) / f}
    return pick


def snips():
    out = []
    for u in ("deg", "rad"):
        f = G.fac(u)
        dom = {"a": Dom((-3.1, 3.1), scale=1 / f), "b": Dom((-1.5, 1.5), scale=1 / f), "c": Dom((-3, 3), scale=1 / f)}
        K = dict(pos=[cos(b * f)], principal=[a, b], domain=dom)
        for cs, es in (("double", "double"), ("float", "double"), ("double", "float")):
            tol = 1e-7 if (cs, es) == ("double", "double") else 1e-4
            T = "bac::column_vector<%s, %s, %s>" % (cs, G.Q(u, cs), es)
            vec = "%s v_(%s, %s); " % (T, G.val(u, "a", cs), G.val(u, "b", cs))
            n = "%s_%s%s" % (u, cs[0], es[0])
            P = [(cs, "a"), (cs, "b")]
            cv = [cos(a * f) * cos(b * f), sin(a * f) * cos(b * f), sin(b * f)]
            out.append(Snip("vec_" + n, P, vec + "auto r_ = v_.get(); for (int i_ = 0; i_ < 3; ++i_) { o[i_] = r_(i_, 0); o[3 + i_] = v_.vec(i_, 0); }", dict(enumerate(cv * 2)),
                            "column_vector<%s>" % u, tol=tol))
            if es == "double":
                out.append(Snip("rt_" + n, P, vec + "auto k_ = bac::extract_coordinates(v_.get()).get_coordinates(); o[0] = V(k_.first); o[1] = V(k_.second);",
                                {0: a * f, 1: b * f}, "extract_coordinates of a column_vector returns the two angles", tol=max(tol, 1e-6), rounding=pole(f), **K))
    # any unit vector (given by its two angles: only directions are extracted from)
    out.append(Snip("extract", [("double", "a"), ("double", "b")], "bnu::matrix<double> m_(3, 1); m_(0,0) = std::cos(a) * std::cos(b); m_(1,0) = std::sin(a) * std::cos(b); m_(2,0) = std::sin(b); "
                    "auto k_ = bac::extract_coordinates(m_).get_coordinates(); "
                    "o[0] = V(k_.first); o[1] = V(k_.second); bac::extract_coordinates e_(m_), z_; z_ = e_; auto y_ = z_.get_coordinates(); o[2] = V(y_.first); o[3] = V(y_.second);",
                    {0: a, 1: b, 2: a, 3: b}, "extract_coordinates of any direction", tol=1e-7, rounding=pole(1.0),
                    domain={"a": Dom((-3.1, 3.1)), "b": Dom((-1.5, 1.5))}, pos=[cos(b)], principal=[a, b]))
    out.append(Snip("extract0", [], "bac::extract_coordinates e_; auto k_ = e_.get_coordinates(); o[0] = V(k_.first); o[1] = V(k_.second);", {0: 0., 1: 0.}, "default extract_coordinates"))
    # conversions there and back through the matrix classes
    for m1, m2, ang in (("ha_dec_horizon", "ha_dec_horizon", 1), ("ha_dec_ra_dec", "ha_dec_ra_dec", 1), ("ecliptic_to_ra_dec", "ra_dec_to_ecliptic", 1), ("ra_dec_to_ecliptic", "ecliptic_to_ra_dec", 1)):
        for u in ("deg", "rad"):
            f = G.fac(u)
            dom = {"a": Dom((-3.1, 3.1), scale=1 / f), "b": Dom((-1.5, 1.5), scale=1 / f), "c": Dom((-3, 3), scale=1 / f)}
            body = ("bac::column_vector<double, %s, double> v_(%s, %s); bnu::matrix<double> x_ = bnu::prod(bac::%s<double, %s, double>(%s).get(), v_.get()); "
                    "bnu::matrix<double> y_ = bnu::prod(bac::%s<double, %s, double>(%s).get(), x_); auto k_ = bac::extract_coordinates(y_).get_coordinates(); "
                    "o[0] = V(k_.first); o[1] = V(k_.second);" % (G.Q(u), G.val(u, "a"), G.val(u, "b"), m1, G.Q(u), G.val(u, "c"), m2, G.Q(u), G.val(u, "c")))
            out.append(Snip("conv_%s_%s" % (m1, u), [("double", x) for x in "abc"], body, {0: a * f, 1: b * f}, "%s then %s returns the original coordinates" % (m1, m2),
                            tol=1e-6, domain=dom, pos=[cos(b * f)], principal=[a, b], rounding=pole(f)))
    return out


def main():
    ck = Check("C08")
    ck.numeric(PRE, snips(), chunk=3)
    ck.finish(rule="column_vector must have the form (cos u cos v, sin u cos v, sin v); extract_coordinates the form (atan2(y,x), asin z); the compositions extract(column_vector), and "
              "extract(M^-1 M column_vector) for the four angle-dependent rotations, must canonicalise to the original angles under the principal-range assumption; every argument of asin is kept within [-1,1] whatever the rounding.",
              assumptions=["first angle in (-pi,pi), second in (-pi/2,pi/2)", "real arithmetic up to relative 1e-6"], min_obl=40)


if __name__ == "__main__":
    main()
