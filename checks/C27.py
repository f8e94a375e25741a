"""C27: the length units have their astronomical values and convert into each other consistently."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib.core import Check, Snip
from vlib.terms import var, Dom

PRE = "#include <boost/astronomy/units/length.hpp>\nnamespace bau = boost::astronomy::units; namespace bu = boost::units;\n"
a, b = var("a"), var("b")
DOM = {x: Dom((-10, 10), (-1e6, 1e6)) for x in "ab"}
LS = 299792458.0
U = {  # metres, type, constants
    "au": (149597870700.0, "length_astronomical_unit", ("astronomical_unit", "astronomical_units")),
    "ld": (LS * 86400, "length_light_day", ("light_day", "light_days")),
    "lh": (LS * 3600, "length_light_hour", ("light_hour", "light_hours")),
    "lm": (LS * 60, "length_light_minute", ("light_minute", "light_minutes")),
    "ls": (LS, "length_light_second", ("light_second", "light_seconds")),
    "ly": (LS * 86400 * 365.25, "length_light_year", ("light_year", "light_years")),
    "pc": (3.0856775814913673e16, "length_parsec", ("parsec", "parsecs")),
    "m": (1.0, "length_meter", ("meter", "meters", "metre", "metres")),
    "cm": (0.01, "length_centimeter", ("centimeter", "centimeters", "centimetre", "centimetres")),
}
ALT = {"length_metre": "m", "length_centimetre": "cm"}


def snips():
    out = []
    for n, (f, t, cs) in U.items():
        for c in cs:
            out.append(Snip("si_" + c, [("double", "a")], "bu::quantity<bu::si::length> q(a * bau::%s); o[0] = q.value();" % c, {0: a * f}, "a * %s in metres" % c, tol=1e-6, domain=DOM))
            out.append(Snip("own_" + c, [("double", "a")], "bu::quantity<bau::%s> q = a * bau::%s; o[0] = q.value();" % (t, c), {0: a}, "a * %s is a quantity of %s" % (c, t), tol=1e-12, domain=DOM))
        for n2, (f2, t2, _) in U.items():
            out.append(Snip("%s_to_%s" % (n, n2), [("double", "a")], "bu::quantity<bau::%s> q(bu::quantity<bau::%s>::from_value(a)); o[0] = q.value();" % (t2, t), {0: a * (f / f2)}, "%s in %s" % (t, t2), tol=1e-6, domain=DOM))
            if n != n2:
                out.append(Snip("add_%s_%s" % (n, n2), [("double", "a"), ("double", "b")], "bu::quantity<bau::%s> q = bu::quantity<bau::%s>::from_value(a) + bu::quantity<bau::%s>(bu::quantity<bau::%s>::from_value(b)); o[0] = q.value();" % (t, t, t, t2),
                                {0: a + b * (f2 / f)}, "%s + %s" % (t, t2), tol=1e-6, domain=DOM))
    for t, n in ALT.items():
        out.append(Snip("alt_" + t, [("double", "a")], "bu::quantity<bau::%s> p = bu::quantity<bau::%s>::from_value(a); bu::quantity<bu::si::length> q(p); o[0] = q.value();" % (t, U[n][1]), {0: a * U[n][0]}, t + " is the same unit as " + U[n][1], tol=1e-9, domain=DOM))
    return out


def main():
    ck = Check("C27")
    ck.numeric(PRE, snips(), chunk=24)
    ck.finish(rule="Value graphs of conversions between all pairs of length units and of every unit constant: the factor must be the ratio of the units' lengths in metres (light second 299792458 m, Julian year 365.25 days, "
              "astronomical unit 149597870700 m, parsec 3.0856775815e16 m), up to the 1e-6 precision of Boost.Units' constants.", assumptions=["relative tolerance 1e-6"], min_obl=150)


if __name__ == "__main__":
    main()
