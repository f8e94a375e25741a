CP = r'''
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <boost/units/quantity.hpp>
#include <boost/units/io.hpp>
#include <boost/units/make_scaled_unit.hpp>
#include <boost/units/systems/si.hpp>
#include <boost/units/systems/si/prefixes.hpp>
#include <boost/units/systems/angle/degrees.hpp>
#include <boost/units/systems/temperature/celsius.hpp>
#include <boost/geometry/geometry.hpp>
namespace bu = boost::units; namespace bud = boost::units::degree; namespace si = boost::units::si; namespace bg = boost::geometry;
static int bad = 0;
static void near(const char* n, double a, double b, double tol = 1e-9) { if (!(std::fabs(a - b) <= tol * (1 + std::fabs(b)))) { std::printf("%s: %.17g, expected %.17g\n", n, a, b); bad = 1; } }
typedef bu::quantity<bud::plane_angle> Deg; typedef bu::quantity<si::plane_angle> Rad; typedef bu::quantity<si::length> Len;
typedef bu::quantity<bu::make_scaled_unit<si::length, bu::scale<10, bu::static_rational<3> > >::type> Km;
typedef bu::quantity<si::velocity> Vel;
'''
USE = "using namespace boost::astronomy::coordinate;\n"
seed("s01_ha_wrap", "C01", [("coordinate/coord_sys/equatorial_ha_coord.hpp", "static_cast<bu::quantity<bu::si::plane_angle, CoordinateType>>(Ha).value()",
     "std::fmod(static_cast<bu::quantity<bu::si::plane_angle, CoordinateType>>(Ha).value(), CoordinateType(6.283185307179586))"),
     ("coordinate/coord_sys/equatorial_ha_coord.hpp", "#include <iostream>", "#include <cmath>\n#include <iostream>")],
     CP + "#include <boost/astronomy/coordinate/coord_sys/equatorial_ha_coord.hpp>\n" + USE + r'''
int main() { equatorial_ha_coord<double, Deg, Deg> c(400.0 * bud::degrees, 20.0 * bud::degrees); near("ha", c.get_ha().value(), 400.0); near("dec", c.get_dec().value(), 20.0); return bad; }
''', "an hour angle of 360 degrees or more (or -360 or less)", "equatorial_ha_coord reduces the hour angle it is given, so reading it back gives another value.")
seed("s02_coslat_setter", "C02", [("coordinate/diff/spherical_coslat_differential.hpp", "        this->set_ddist(ddistance);", "        if (ddistance.value() >= 0)\n            this->set_ddist(ddistance);")],
     CP + "#include <boost/astronomy/coordinate/diff/differential.hpp>\n" + USE + r'''
int main() { spherical_coslat_differential<double, Deg, Deg, Vel> c(1.0 * bud::degrees, 2.0 * bud::degrees, 3.0 * si::meters_per_second);
 c.set_dlat_dlon_coslat_ddist(4.0 * bud::degrees, 5.0 * bud::degrees, -6.0 * si::meters_per_second); near("ddist", c.get_ddist().value(), -6.0); near("dlat", c.get_dlat().value(), 4.0); return bad; }
''', "a negative radial component given through the combined setter or the component constructor", "the combined setter of spherical_coslat_differential drops a negative radial component.")
seed("s03_pa_wrap", "C03", [("coordinate/sky_point.hpp", "        double coslat = std::cos(temp_p2);\n", "        temp_diff = std::fmod(temp_diff, 3.14159265358979323846);\n\n        double coslat = std::cos(temp_p2);\n")],
     CP + "#include <boost/astronomy/coordinate/ref_frame/frame.hpp>\n#include <boost/astronomy/coordinate/sky_point.hpp>\n" + USE + r'''
int main() { typedef icrs<spherical_representation<double, Rad, Rad, Len>, spherical_coslat_differential<double, Rad, Rad, Vel> > F; typedef sky_point<F> S;
 S a(0.3 * si::radians, 0.4 * si::radians, 2.0 * si::meters), b(0.7 * si::radians, 0.9 * si::radians, 2.0 * si::meters), c(0.7 * si::radians, (0.9 + 4.0) * si::radians, 1.0 * si::meters);
 auto ref = [](double l1, double l2, double d) { return std::atan2(std::sin(d) * std::cos(l2), std::sin(l2) * std::cos(l1) - std::cos(l2) * std::sin(l1) * std::cos(d)); };
 near("near", a.positional_angle(b).value(), ref(0.3, 0.7, 0.5)); near("far", a.positional_angle(c).value(), ref(0.3, 0.7, 4.5)); return bad; }
''', "two points whose second components differ by more than pi", "positional_angle takes the difference modulo half a turn.")
seed("s04_altaz_copy", "C03", [("coordinate/coord_sys/alt_az.hpp", "        this->pressure = other.get_pressure();\n        this->temperature = other.get_temprature();\n", "        this->pressure = other.get_pressure();\n")],
     CP + "#include <boost/astronomy/coordinate/coord_sys/alt_az.hpp>\n" + USE + r'''
int main() { typedef alt_az<spherical_representation<double, Rad, Rad, Len>, spherical_coslat_differential<double, Rad, Rad, Vel> > F;
 F a(0.3 * si::radians, 0.4 * si::radians, 2.0 * si::meters); a.set_temprature(bu::quantity<bu::celsius::temperature>::from_value(21.5)); F b(a); near("temperature", b.get_temprature().value(), 21.5); return bad; }
''', "copying an alt_az frame whose temperature was set", "the copy constructor of alt_az loses the temperature.")
seed("s06_float_dz", "C04", [("coordinate/diff/cartesian_differential.hpp", "        bg::set<2>(tempPoint,static_cast<ZQuantity>(tempDiff.get_dz()).value());", "        bg::set<2>(tempPoint,static_cast<float>(static_cast<ZQuantity>(tempDiff.get_dz()).value()));")],
     CP + "#include <boost/astronomy/coordinate/diff/differential.hpp>\n" + USE + r"""
int main() { cartesian_differential<double, Len, Len, Len> a(1.0 * si::meters, 2.0 * si::meters, 0.1234567890123 * si::meters); cartesian_differential<double, Km, Km, Km> b(a); cartesian_differential<double, Len, Len, Len> c(b); near("dz", c.get_dz().value(), 0.1234567890123, 1e-12); return bad; }
""", "a component that is not representable in single precision", "the converting constructor of cartesian_differential rounds dz to float.")
seed("s07_cross_factor", "C05", [("coordinate/arithmetic.hpp", "        bg::get<2>(tempPoint2)*\n        bu::conversion_factor(typename cartesian2_type::quantity3::unit_type(),", "        bg::get<2>(tempPoint2)*\n        bu::conversion_factor(typename cartesian2_type::quantity2::unit_type(),")],
     CP + "#include <boost/astronomy/coordinate/rep/representation.hpp>\n#include <boost/astronomy/coordinate/arithmetic.hpp>\n" + USE + r"""
int main() { spherical_representation<double, Rad, Rad, Len> a(0.0 * si::radians, M_PI / 2 * si::radians, 1.0 * si::meters); cartesian_representation<double, Len, Len, Km> b(0.0 * si::meters, 3.0 * si::meters, Km::from_value(0.004));
 auto c = cross(a, b); near("dist", c.get_dist().value(), 5.0); return bad; }
""", "a non-cartesian first operand and a cartesian second operand whose z unit differs from its x unit", "cross drops a unit factor of the second operand's z component.")
seed("s08_mean_z", "C05", [("coordinate/arithmetic.hpp", "        static_cast<typename cartesian1_type::quantity3>(cartesian2.get_z()).value())/2);", "        static_cast<typename cartesian1_type::quantity1>(cartesian2.get_z()).value())/2);")],
     CP + "#include <boost/astronomy/coordinate/rep/representation.hpp>\n#include <boost/astronomy/coordinate/arithmetic.hpp>\n" + USE + r'''
int main() { cartesian_representation<double, Len, Len, Km> a(1.0 * si::meters, 2.0 * si::meters, Km::from_value(3.0)), b(4.0 * si::meters, 5.0 * si::meters, Km::from_value(5.0));
 auto c = mean(a, b); near("z", c.get_z().value(), 4.0); near("y", c.get_y().value(), 3.5); return bad; }
''', "a cartesian first operand whose z unit differs from its x unit", "mean adds z values in different units.")
seed("s09_sph_mixed", "C06", [("coordinate/rep/spherical_representation.hpp", "        static_cast<typename cartesian_type::quantity1>\n        (temp.get_z()).value()\n", "        temp.get_z().value()\n")],
     CP + "#include <boost/astronomy/coordinate/rep/representation.hpp>\n" + USE + r'''
int main() { cartesian_representation<double, Len, Len, Km> a(3.0 * si::meters, 4.0 * si::meters, Km::from_value(0.012)); auto s = make_spherical_representation(a); near("dist", s.get_dist().value(), 13.0); return bad; }
''', "a cartesian vector with its z in another unit", "converting a mixed-unit cartesian vector to spherical uses the bare z value.")
seed("s10_eclip_float", "C07", [("coordinate/utility/utility.hpp", "    conv(2,1) = -std::sin(_obliquity);", "    conv(2,1) = std::cos(_obliquity) < 0 ? std::sin(_obliquity) : -std::sin(_obliquity);")],
     CP + "#include <boost/astronomy/coordinate/utility/utility.hpp>\n" + USE + r'''
int main() { ra_dec_to_ecliptic<double, Deg> a(100.0 * bud::degrees); near("21", a.get()(2, 1), -std::sin(100 * M_PI / 180)); ra_dec_to_ecliptic<double, Deg> b(23.4 * bud::degrees); near("21", b.get()(2, 1), -std::sin(23.4 * M_PI / 180)); return bad; }
''', "an obliquity beyond 90 degrees", "the rotation to ecliptic coordinates is not orthogonal for obtuse angles.")
seed("s11_extract_quadrant", "C08", [("coordinate/utility/utility.hpp", "    theta = atan2(n,m);", "    theta = m < 0 && n < 0 && p < 0 ? atan(n/m) : atan2(n,m);")],
     CP + "#include <boost/astronomy/coordinate/utility/utility.hpp>\n" + USE + r'''
int main() { column_vector<double, Deg> v(-120.0 * bud::degrees, -10.0 * bud::degrees); extract_coordinates e(v.get()); near("u", e.get_coordinates().first.value(), -120 * M_PI / 180); near("v", e.get_coordinates().second.value(), -10 * M_PI / 180); return bad; }
''', "a direction in the third quadrant south of the equator", "extract_coordinates returns the opposite direction in the third quadrant.")
TP = r'''
#include <cmath>
#include <cstdio>
#include <boost/astronomy/time/time_conversions.hpp>
static int bad = 0;
static void near(const char* n, double a, double b, double tol = 1e-9) { if (!(std::fabs(a - b) <= tol * (1 + std::fabs(b)))) { std::printf("%s: %.17g, expected %.17g\n", n, a, b); bad = 1; } }
using namespace boost::astronomy::time; namespace pt = boost::posix_time; namespace gr = boost::gregorian;
'''
seed("s12_lst_wrap", "C09", [("time/time_conversions.hpp", "    long_hours = long_hours - 24.0 * floor(long_hours/24.0);\n\n    return", "    if (long_hours >= 24.0)\n        long_hours = long_hours - 24.0 * floor(long_hours/24.0);\n    else if (long_hours < 0)\n        long_hours += 24.0;\n\n    return")],
     TP + r'''
int main() { pt::ptime t(gr::date(1980, 4, 22), pt::hours(14)); double g = GST(t).get(); for (double l : {64.0, 170.0, 350.0, 700.0, 1100.0}) { double e = g - l / 15; e -= 24 * std::floor(e / 24); near("LST west", LST(l, DIRECTION::WEST, t).get(), e); } return bad; }
''', "a western longitude large enough to go below -24h", "LST leaves [0,24) for long western longitudes.")
seed("s13_jd_leapcentury", "C11", [("time/time_conversions.hpp", "        double A = floor(yprime / 100);", "        double A = floor(y / 100);")],
     TP + r'''
int main() { near("2000-01-15", julian_date(pt::ptime(gr::date(2000, 1, 15))), 2451558.5, 1e-12); near("1900-02-01", julian_date(pt::ptime(gr::date(1900, 2, 1))), 2415051.5, 1e-12); near("2010", julian_date(pt::ptime(gr::date(2010, 6, 1))), 2455348.5, 1e-12); return bad; }
''', "a January or February of a year divisible by 100", "julian_date is off by a day in the first two months of centurial years.")
seed("s14_dh_seconds", "C10", [("time/parser.hpp", "      secondsRemainder = (minutesRemainder - minutes) * 60;", "      secondsRemainder = (minutesRemainder - minutes) * 60;\n      if (secondsRemainder > 59.5) { secondsRemainder = 0; ++minutes; }")],
     r'''
#include <cmath>
#include <cstdio>
#include <boost/astronomy/time/parser.hpp>
int main() { double v = 4 + 59 / 60.0 + 59.75 / 3600.0; decimal_hour d(v); double r = d.get_hours() + d.get_minutes() / 60.0 + d.get_seconds() / 3600.0; if (std::fabs(r - v) > 1e-9 || d.get_minutes() != 59) { std::printf("%ld %ld %g\n", d.get_hours(), d.get_minutes(), d.get_seconds()); return 1; } return 0; }
''', "a value with more than 59.5 seconds", "the parts of a decimal hour no longer add up to its value.")

REJ = """#!/bin/bash
# exit 0: the ill-formed program is rejected and the well-formed one accepted
D="$(cd "$(dirname "$0")" && pwd)"
C="g++ -std=c++14 -w -include cstdint -fsyntax-only -I $PWD/include"
$C "$D/good.cpp" || exit 3
if $C "$D/bad.cpp" 2>/dev/null; then echo "ill-formed program compiles"; exit 1; fi
exit 0
"""
seed("s15_ecliptic_assert", "C12", [("coordinate/coord_sys/ecliptic_coord.hpp", "       (std::is_same<typename bu::get_dimension<LonQuantity>::type,", "       (std::is_same<typename bu::get_dimension<LatQuantity>::type,")],
     None, "a program that instantiates ecliptic_coord with a non-angle longitude", "ecliptic_coord accepts a length as its longitude type.", demo_sh=REJ,
     extra={n + ".cpp": CP + "#include <boost/astronomy/coordinate/coord_sys/ecliptic_coord.hpp>\n" + USE + "int main() { ecliptic_coord<double, Deg, %s> c; (void)c; }\n" % t for n, t in (("good", "Rad"), ("bad", "Len"))})
seed("s16_plus_dim", "C12", [("coordinate/rep/spherical_representation.hpp", "        ((std::is_same<typename bu::get_dimension<DistQuantity>::type,\n        typename bu::get_dimension<typename Representation::quantity3>::type>::value)),\n        \"Two", "        ((std::is_same<typename bu::get_dimension<DistQuantity>::type,\n        typename bu::get_dimension<typename Representation::quantity3>::type>::value) || true),\n        \"Two"),
     ("coordinate/rep/spherical_representation.hpp", "            static_cast<DistQuantity>(tempRep.get_dist()).value());", "            tempRep.get_dist().value());")],
     None, "a program that constructs a spherical representation from one of another dimension", "a spherical representation in metres can be built from one in kilograms.", demo_sh=REJ,
     extra={n + ".cpp": CP + "#include <boost/astronomy/coordinate/rep/representation.hpp>\n" + USE + "int main() { spherical_representation<double, Deg, Deg, %s > a; spherical_representation<double, Deg, Deg, Km> b(a); (void)b; }\n" % t for n, t in (("good", "Len"), ("bad", "bu::quantity<si::mass>"))})
