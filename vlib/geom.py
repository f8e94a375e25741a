"""Shared vocabulary of the coordinate checks: units, classes, sampling ranges."""
import math
from .terms import Dom, var, sin, cos, sqrt, atan2, acos, asin, ite, fcmp, fc

DEG = 0.017453292519943295
ANG = {"deg": ("bud::plane_angle", DEG), "rad": ("bu::si::plane_angle", 1.0)}
LEN = {"m": ("bu::si::length", 1.0), "km": ("km_unit", 1000.0), "cm": ("bu::cgs::length", 0.01),
       "ly": ("boost::astronomy::units::length_light_year", 9.4607304725808e15),
       "pc": ("boost::astronomy::units::length_parsec", 3.0856775813e16),
       "one": ("bu::si::dimensionless", 1.0),
       "mps": ("bu::si::velocity", 1.0), "kps": ("kps_unit", 1000.0)}
PRE = """
#include <cmath>
#include <type_traits>
#include <boost/units/io.hpp>
#include <boost/units/quantity.hpp>
#include <boost/units/make_scaled_unit.hpp>
#include <boost/units/scale.hpp>
#include <boost/units/systems/angle/degrees.hpp>
#include <boost/units/systems/si.hpp>
#include <boost/units/systems/cgs/length.hpp>
#include <boost/astronomy/units/length.hpp>
#include <boost/astronomy/coordinate/rep/representation.hpp>
#include <boost/astronomy/coordinate/diff/differential.hpp>
#include <boost/astronomy/coordinate/arithmetic.hpp>
namespace bac = boost::astronomy::coordinate;
namespace bu = boost::units; namespace bud = boost::units::degree; namespace bg = boost::geometry;
typedef bu::make_scaled_unit<bu::si::length, bu::scale<10, bu::static_rational<3> > >::type km_unit;
typedef bu::make_scaled_unit<bu::si::velocity, bu::scale<10, bu::static_rational<3> > >::type kps_unit;
template <class Q> double V(Q const& q) { return q.value(); }
"""


def Q(unit, sc="double"):
    u = ANG.get(unit) or LEN[unit]
    return "bu::quantity<%s, %s>" % (u[0], sc)


def fac(unit):
    return (ANG.get(unit) or LEN[unit])[1]


# class -> (getters, combined getter suffix, kind)
CLS = {
    "cartesian_representation": (("x", "y", "z"), "x_y_z", "lll"),
    "spherical_representation": (("lat", "lon", "dist"), "lat_lon_dist", "aal"),
    "spherical_equatorial_representation": (("lat", "lon", "dist"), "lat_lon_dist", "aal"),
    "cartesian_differential": (("dx", "dy", "dz"), "dx_dy_dz", "lll"),
    "spherical_differential": (("dlat", "dlon", "ddist"), "dlat_dlon_ddist", "aal"),
    "spherical_equatorial_differential": (("dlat", "dlon", "ddist"), "dlat_dlon_ddist", "aal"),
    "spherical_coslat_differential": (("dlat", "dlon_coslat", "ddist"), "dlat_dlon_coslat_ddist", "aal"),
}
REPS = [c for c in CLS if c.endswith("representation")]
DIFFS = [c for c in CLS if c.endswith("differential")]


def ty(cls, units, sc="double"):
    return "bac::%s<%s, %s>" % (cls, sc, ", ".join(Q(u, sc) for u in units))


def val(u, e, sc="double"):
    return "%s::from_value(%s)" % (Q(u, sc), e)


def ctor(cls, units, names, sc="double"):
    return "%s(%s)" % (ty(cls, units, sc), ", ".join(val(u, n, sc) for u, n in zip(units, names)))


def gets(cls, obj="p", base=0, conv=None):
    """read the three components into o[base..]; conv: units to convert to first"""
    g = CLS[cls][0]
    out = ""
    for k, n in enumerate(g):
        e = "%s.get_%s()" % (obj, n)
        if conv:
            e = "static_cast<%s>(%s)" % (Q(conv[k]), e)
        out += "o[%d]=V(%s); " % (base + k, e)
    return out


def cart_of(cls, comps, units):
    """SI-cartesian spec of a value of class cls with component terms in the given units;
    distances stay in the unit of component 3 (component-wise factors for cartesian)"""
    a, b, c = comps
    if cls.startswith("cartesian"):
        return [a * fac(units[0]), b * fac(units[1]), c * fac(units[2])]
    p, q, d = a * fac(units[0]), b * fac(units[1]), c * fac(units[2])
    if cls == "spherical_coslat_differential":
        q = q / cos(p)
    if "equatorial" in cls:
        return [d * cos(q) * cos(p), d * cos(q) * sin(p), d * sin(q)]
    return [d * sin(q) * cos(p), d * sin(q) * sin(p), d * cos(q)]


def sph_of(cls, xyz):
    """(angle0, angle1, distance) in radians / same length unit"""
    x, y, z = xyz
    r = sqrt(x * x + y * y + z * z)
    if "equatorial" in cls:
        return [atan2(y, x), asin(z / r), r]
    th = acos(z / r)
    ph = atan2(y, x)
    if cls == "spherical_coslat_differential":
        return [ph, th * cos(ph), r]
    return [ph, th, r]


def dom(cls, units, names):
    """samplers inside the principal ranges, bounded away from the poles and the origin"""
    d = {}
    if cls.startswith("cartesian"):
        for n, u in zip(names, units):
            d[n] = Dom((-3, -0.2), (0.2, 3), scale=1000.0 / fac(u))
        return d
    f0, f1 = fac(units[0]), fac(units[1])
    d[names[0]] = Dom((-1.45, -0.1), (0.1, 1.45), scale=1 / f0) if cls == "spherical_coslat_differential" else Dom((-3.1, -0.05), (0.05, 3.1), scale=1 / f0)
    if "equatorial" in cls:
        d[names[1]] = Dom((-1.4, -0.1), (0.1, 1.4), scale=1 / f1)
    elif cls == "spherical_coslat_differential":
        d[names[1]] = Dom((0.02, 0.3), scale=1 / f1)      # lon*cos(lat) small enough that lon < pi
    else:
        d[names[1]] = Dom((0.1, 3.0), scale=1 / f1)
    d[names[2]] = Dom((0.2, 50))
    return d


def wide(cls, units, names, length=1.0):
    """samplers over all angles and a wide span of lengths, for results that are functions of the vector alone"""
    d = dom(cls, units, names)
    for k, n in enumerate(names):
        f = fac(units[k])
        if cls.startswith("cartesian"):
            d[n] = Dom(*((-3, -0.2), (0.2, 3)) * 3, *((-3e6, -3), (3, 3e6), (-0.2, -1e-5), (1e-5, 0.2)), extra=(0.0,), scale=1000.0 / f)
        elif k == 2:
            d[n] = Dom(*((0.2, 50),) * 4, (1e-4, 0.2), (50, 1e4), (1e4, 1e8), scale=length / (f if length != 1.0 else 1.0))
        else:
            d[n] = Dom(*[(a * f, b * f) for a, b in d[n].iv] * 2, (-6.3, 6.3), (-25, 25), scale=1 / f, extra=(0.0,) if k == 0 else ())
    return d


def principal(cls, units, names):
    """(pos, principal) assumptions matching dom()"""
    v = [var(n) for n in names]
    if cls.startswith("cartesian"):
        return [], []
    ang = v[1] * fac(units[1])
    if "equatorial" in cls:
        return [v[2], cos(ang)], v[:2]
    if cls == "spherical_coslat_differential":
        return [v[2], sin(ang / cos(v[0] * fac(units[0])))], v[:2] + [ang / cos(v[0] * fac(units[0]))]
    return [v[2], sin(ang)], v[:2]
