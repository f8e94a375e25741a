"""C01: two-component sky coordinates keep each component exactly, in any angle unit."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib.core import Check, Snip
from vlib.terms import var

UNITS = {"deg": ("bud::plane_angle", "bud::degree"), "rad": ("bu::si::plane_angle", "bu::si::radian")}
CLS = [  # class, component names, pair accessor, maker
    ("horizon_coord", "altitude", "azimuth", "altitude_azimuth"),
    ("ecliptic_coord", "lat", "lon", "lat_lon"),
    ("galactic_coord", "lat", "lon", "lat_lon"),
    ("equatorial_ha_coord", "ha", "dec", "ha_dec"),
    ("equatorial_ra_coord", "ra", "dec", "ra_dec"),
]
PRE = """
#include <boost/units/systems/angle/degrees.hpp>
#include <boost/units/systems/si/plane_angle.hpp>
#include <boost/units/systems/si/io.hpp>
""" + "".join("#include <boost/astronomy/coordinate/coord_sys/%s.hpp>\n" % c[0] for c in CLS) + """
namespace bac = boost::astronomy::coordinate;
namespace bu = boost::units; namespace bud = boost::units::degree;
"""
a, b, c, d = (var(n) for n in "abcd")


def snips():
    out = []
    for cls, x, y, xy in CLS:
        for sc in ("double", "float"):
            tol = 1e-7 if sc == "double" else 1e-4
            for u1 in UNITS:
                for u2 in UNITS:
                    if sc == "float" and u1 != u2:
                        continue
                    Q1 = "bu::quantity<%s, %s>" % (UNITS[u1][0], sc)
                    Q2 = "bu::quantity<%s, %s>" % (UNITS[u2][0], sc)
                    ty = "bac::%s<%s, %s, %s>" % (cls, sc, Q1, Q2)
                    n = "%s_%s_%s_%s" % (cls, sc[0], u1, u2)
                    A = "%s::from_value(%%s)" % Q1
                    B = "%s::from_value(%%s)" % Q2
                    P = [(sc, "a"), (sc, "b")]
                    P4 = P + [(sc, "c"), (sc, "d")]

                    def add(nm, ps, body, spec, what):
                        out.append(Snip(n + "_" + nm, ps, body, spec, "%s %s" % (ty, what), tol=tol))
                    g = "o[0]=p.get_%s().value(); o[1]=p.get_%s().value();" % (x, y)
                    tg = "auto t=p.get_%s(); o[2]=std::get<0>(t).value(); o[3]=std::get<1>(t).value();" % xy
                    add("ctor", P, "%s p(%s, %s); %s %s" % (ty, A % "a", B % "b", g, tg), {0: a, 1: b, 2: a, 3: b},
                        "constructor then get_%s/get_%s/get_%s" % (x, y, xy))
                    add("set", P4, "%s p(%s, %s); p.set_%s(%s,%s); %s %s" % (ty, A % "a", B % "b", xy, A % "c", B % "d", g, tg),
                        {0: c, 1: d, 2: c, 3: d}, "set_%s then getters" % xy)
                    add("set1", P4[:3], "%s p(%s, %s); p.set_%s(%s); %s %s" % (ty, A % "a", B % "b", x, A % "c", g, tg),
                        {0: c, 1: b, 2: c, 3: b}, "set_%s must change only that component" % x)
                    add("set2", P4[:3], "%s p(%s, %s); p.set_%s(%s); %s %s" % (ty, A % "a", B % "b", y, B % "c", g, tg),
                        {0: a, 1: c, 2: a, 3: c}, "set_%s must change only that component" % y)
                    add("copy", P4[:3], "%s q(%s, %s); %s p(q); q.set_%s(%s); %s p2; p2=p; %s o[2]=p2.get_%s().value(); o[3]=p2.get_%s().value();" % (
                        ty, A % "a", B % "b", ty, x, A % "c", ty, g, x, y), {0: a, 1: b, 2: a, 3: b}, "copies are independent and complete")
                    add("make", P, "auto p=bac::make_%s(%s, %s); static_assert(std::is_same<decltype(p), %s>::value, \"factory type\"); %s" % (
                        cls, A % "a", B % "b", ty, g), {0: a, 1: b}, "make_%s then getters" % cls)
    return out


def main():
    ck = Check("C01")
    ck.numeric(PRE, snips(), chunk=20)
    ck.finish(rule="For every two-component coordinate class x {degree,radian}^2 x {double,float}: the compiler IR of a witness that "
              "constructs / sets / copies / builds through the factory and reads back is reduced to a value graph; each returned component "
              "must have the canonical form of the value supplied for that component (unit conversion composed to identity).",
              assumptions=["real arithmetic: relative rounding below the stated tolerance is ignored", "clang-18 front end and LLVM passes preserve semantics",
                           "NaN inputs excluded"])


if __name__ == "__main__":
    main()
