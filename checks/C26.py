"""C26: printed coordinates and times show every component, in order and with its unit."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import core as C, iocheck as IO, sterm as S, absint as A, fits as F
from vlib.sterm import mk, cat

ck = C.Check("C26")
ws = []
PRE = """#include <boost/units/systems/si/length.hpp>
#include <boost/units/systems/cgs/length.hpp>
#include <boost/units/systems/si/plane_angle.hpp>
#include <boost/astronomy/coordinate/io/io.hpp>
#include <boost/astronomy/time/parser.hpp>
namespace bu = boost::units; namespace bac = boost::astronomy::coordinate;
typedef bu::quantity<bu::si::length> M; typedef bu::quantity<bu::cgs::length> CM; typedef bu::quantity<bu::si::plane_angle> R;
"""
IOH = "include/boost/astronomy/coordinate/io/io.hpp: operator<<"
U = {"M": "m", "CM": "cm", "R": "rad"}
CL = {"cartesian_representation": ("Cartesian Representation", [("M", "M", "M"), ("M", "CM", "M"), ("CM", "M", "CM")]),
      "spherical_representation": ("Spherical Representation", [("R", "R", "M"), ("R", "R", "CM")]),
      "spherical_equatorial_representation": ("Spherical Equatorial Representation", [("R", "R", "M"), ("R", "R", "CM")])}
V = lambda: {"d0": F.dvar("a"), "d1": F.dvar("b"), "d2": F.dvar("c")}


def text(title, us, I):
    parts = [F.b(title + " ( ")]
    for k, u in enumerate(us):
        parts += [S.fmt_f(I["d%d" % k], 0), F.b(" " + U[u] + (" , " if k < 2 else " )"))]
    return cat(*parts)


for cls, (title, cfgs) in CL.items():
    for n, us in enumerate(cfgs):
        obj = "bac::%s<double, %s> p(%s);" % (cls, ", ".join(us), ", ".join("%s::from_value(in_d(%d))" % (u, k) for k, u in enumerate(us)))
        ws.append(IO.W("%s_%d" % (cls, n), obj + " OS() << p; vs_os_out(0);", lambda P, I, title=title, us=us: ([("s", 0, text(title, us, I))], "ret"), V, IOH + "(%s)" % cls, "%s with units %s is printed with its name, components in order and units" % (cls, " ".join(us))))
        ws.append(IO.W("%s_%d_chain" % (cls, n), "const " + obj + " OS() << p << \" \" << p; vs_os_out(0);", lambda P, I, title=title, us=us: ([("s", 0, cat(text(title, us, I), F.b(" "), text(title, us, I)))], "ret"), V, IOH + "(%s)" % cls, "printing returns the stream and adds nothing else"))
# ---- two-component sky coordinates
PRE += "#include <boost/units/io.hpp>\n#include <boost/units/systems/angle/degrees.hpp>\n" + "".join("#include <boost/astronomy/coordinate/coord_sys/%s.hpp>\n" % x for x in ("horizon_coord", "ecliptic_coord", "galactic_coord", "equatorial_ha_coord", "equatorial_ra_coord")) + "typedef bu::quantity<bu::degree::plane_angle> D;\n"
U["D"] = "deg"
TWO = {"horizon_coord": "Horizon Coordinate (Altitude: %s, Azimuth: %s)", "ecliptic_coord": "Ecliptic Coordinate (Ecliptic Latitude: %s, Ecliptic Longitude: %s)", "galactic_coord": "Galactic Coordinate (Galactic Latitude: %s, Galactic Longitude: %s)",
       "equatorial_ha_coord": "Equatorial Coordinate (Hour Angle: %s, Declination: %s)", "equatorial_ra_coord": "Equatorial Coordinate (Right Ascension: %s, Declination: %s)"}


def back(t):
    """a factor followed by its reciprocal is the identity up to rounding"""
    if isinstance(t, S.T) and t.op == "fmul" and isinstance(t.a[2], float) and isinstance(t.a[1], S.T) and t.a[1].op == "fmul" and isinstance(t.a[1].a[2], float) and abs(t.a[2] * t.a[1].a[2] - 1) < 1e-9:
        return t.a[1].a[1]
    return t


def norm(v):
    if not isinstance(v, S.T) or v.op != "str":
        return v
    return S.mkstr([(g[0], g[1], back(g[2])) + tuple(g[3:]) if g[0] == "F" else g for g in S.segs(v)])


for cls, form in TWO.items():
    for us in (("D", "D"), ("R", "R"), ("D", "R"), ("R", "D")):
        def two(P, I, form=form, us=us):
            h, m, t = form.split("%s")
            one = cat(F.b(h), S.fmt_f(I["d0"], 0), F.b(" " + U[us[0]] + m), S.fmt_f(I["d1"], 0), F.b(" " + U[us[1]] + t))
            return [("s", 0, cat(one, F.b("; "), one))], "ret"
        ws.append(IO.W("%s_%s%s" % ((cls,) + us), "const bac::%s<double, %s, %s> p(%s::from_value(in_d(0)), %s::from_value(in_d(1))); OS() << p << \"; \" << p; vs_os_out(0);" % ((cls,) + us + us), two, V, "include/boost/astronomy/coordinate/coord_sys/%s.hpp: operator<<" % cls, "%s<%s, %s> is printed with its name, both components in order and their units, and the stream is returned" % ((cls,) + us), norm=norm))
IO.run(ck, PRE, ws, chunk=5, flags=IO.PRINT, real="print")
# ---- decimal hours
DH = "#include <boost/astronomy/time/parser.hpp>\nextern \"C\" { std::ostream* vs_os(); void vs_os_out(int); }\nstatic inline std::ostream& OS() { return *vs_os(); }\n"
wt = []
SHOW = "OS() << x; O(0, x.get_hours()); O(1, x.get_minutes()); O(2, x.get_seconds()); vs_os_out(3);"


class Parts(list):
    pass


def dh(P, I):
    d = I["d0"]
    H = mk("fptosi", d)
    fop = lambda op, x, y: A.Interp.fop(A.Interp.__new__(A.Interp), op, 64, x, y)
    itof = lambda x: mk("sitofp", 64, 64, x)
    mr = fop("fmul", fop("fsub", d, itof(H)), 60.0)
    M = mk("fptosi", mr)
    s = fop("fmul", fop("fsub", mr, itof(M)), 60.0)
    return [("i", 0, H), ("i", 1, M), ("d", 2, s), ("s", 3, cat(F.b("Hours: "), S.fmt_i(H), F.b("h "), S.fmt_i(M), F.b("m "), S.fmt_f(s, 1), F.b("s ")))], "ret"


wt.append(IO.W("decimal_hour", "decimal_hour x(in_d(0)); " + SHOW, dh, lambda: {"d0": F.dvar("d")}, "include/boost/astronomy/time/parser.hpp: operator<<(decimal_hour)", "a decimal hour is printed as its hours, minutes and seconds", gen=lambda rng, q: {"d": rng.choice((rng.uniform(0, 24), rng.uniform(-24, 24), float(rng.randrange(24)) + rng.randrange(60) / 60.0 + rng.uniform(0, 1) / 60.0))}))
IO.run(ck, DH, wt, chunk=5, flags=IO.FLAGS + ["-fno-inline"])
ck.finish("Abstract interpretation of the inserters with the stream's text as a string term: the text must be the class name and the three components in order, each formatted and followed by its unit's symbol; a decimal hour must print the hours, minutes and seconds its getters return.",
          ["Boost.Units' inserter in its default format (value, blank, symbol) and the standard inserters are trusted stand-ins", "units m, cm, rad"], min_obl=15)
