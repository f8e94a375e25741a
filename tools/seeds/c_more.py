ns = {}
CPC = r'''
#include <cstdio>
#include <sstream>
#include <string>
#include <boost/units/quantity.hpp>
#include <boost/units/io.hpp>
#include <boost/units/systems/si.hpp>
#include <boost/units/systems/angle/degrees.hpp>
namespace bu = boost::units; namespace bud = boost::units::degree; namespace si = boost::units::si;
static int bad = 0;
static void is(const char* n, bool ok) { if (!ok) { std::printf("%s\n", n); bad = 1; } }
typedef bu::quantity<bud::plane_angle> Deg; typedef bu::quantity<si::plane_angle> Rad; typedef bu::quantity<si::length> Len; typedef bu::quantity<si::length, float> LenF;
'''
FPC = r'''
#include <boost/astronomy/io/fits.hpp>
#include <cstdio>
#include <fstream>
#include <string>
using namespace boost::astronomy::io;
typedef card<card_policy> Card; typedef header<card_policy> Header;
static int bad = 0;
static void is(const char* n, bool ok) { if (!ok) { std::printf("%s\n", n); bad = 1; } }
static void put(const char* n, const std::string& s) { std::ofstream o(n, std::ios::binary); o.write(s.data(), s.size()); }
static std::string slurp(const char* n) { std::ifstream i(n, std::ios::binary); return std::string(std::istreambuf_iterator<char>(i), std::istreambuf_iterator<char>()); }
static std::string lj(std::string s, std::size_t n) { if (s.size() < n) s.append(n - s.size(), ' '); return s; }
static std::string rj(std::string s, std::size_t n) { return s.size() < n ? std::string(n - s.size(), ' ') + s : s; }
static std::string kv(const std::string& k, long v) { return lj(lj(k, 8) + "= " + rj(std::to_string(v), 20), 80); }
static std::string kb(const std::string& k, bool v) { return lj(lj(k, 8) + "= " + rj(v ? "T" : "F", 20), 80); }
static std::string fill(std::string s, char c = ' ') { while (s.size() % 2880) s += c; return s; }
static Header hdr(const std::string& cards) { put("h.tmp", fill(cards + lj("END", 80))); fits_stream s; s.set_file("h.tmp"); Header x; x.read_header(s); return x; }
'''
seed("s40_eq_scalar", "C28", [("coordinate/rep/base_representation.hpp", "sizeof(OtherCoordinateType) >= sizeof(CoordinateType)", "sizeof(OtherCoordinateType) <= sizeof(CoordinateType)")],
     CPC + "#include <boost/astronomy/coordinate/rep/representation.hpp>\nusing namespace boost::astronomy::coordinate;\n" + r'''
int main() { cartesian_representation<float, LenF, LenF, LenF> a(1.5f * si::meters, 2.0f * si::meters, 3.0f * si::meters);
 cartesian_representation<double, Len, Len, Len> b(1.5 * si::meters, 2.0 * si::meters, (3.0 + 1e-12) * si::meters), c(1.5 * si::meters, 2.0 * si::meters, 3.0 * si::meters);
 is("float and double that differ", !(a == b)); is("both ways", !(b == a)); is("equal", a == c && c == a); return bad; }
''', "a float and a double operand that differ by less than float precision", "comparing is done in the narrower of the two scalar types, so different positions compare equal.")
seed("s41_header_eq", "C28", [("io/header.hpp", "           this->cards == other.cards &&", "           this->cards.size() == other.cards.size() &&")],
     FPC + r'''
int main() { std::string b = kb("SIMPLE", true) + kv("BITPIX", 8) + kv("NAXIS", 0); Header a = hdr(b + kv("EXPTIME", 30)), c = hdr(b + kv("EXPTIME", 31)), d = hdr(b + kv("EXPTIME", 30));
 is("different values", !(a == c)); is("same", a == d); return bad; }
''', "two headers with the same keywords and different values", "headers that differ in a card's value compare equal.")
seed("s42_get_ff", "C29", [("io/fits_stream.hpp", "            unsigned char byte = static_cast<unsigned char>(this->file.get());", "            char byte = static_cast<char>(this->file.get());"),
     ("io/fits_stream.hpp", "            if (!this->file.eof()) { return byte; }", "            if (byte != std::char_traits<char>::eof()) { return byte; }")],
     FPC + r'''
int main() { put("b.tmp", std::string("A\xff\0Z\x80", 5)); fits_stream s; s.set_file("b.tmp"); is("A", s.get() == 'A'); is("ff", s.get() == 0xff); is("0", s.get() == 0); is("Z", s.get() == 'Z'); is("80", s.get() == 0x80); is("end", s.get() == 0); return bad; }
''', "a byte 0xFF in the file", "get returns 0 for a byte 0xFF, as if the file ended there.")
seed("s43_no_trunc", "C29", [("io/fits_stream.hpp", "            this->file.open(path, std::ios::in | std::ios::out | std::ios::trunc);", "            this->file.open(path, std::ios::in | std::ios::out); // keep the inode of a file that is already there\n            if (!this->file.is_open()) {\n                this->file.open(path, std::ios::in | std::ios::out | std::ios::trunc);\n            }")],
     FPC + r'''
int main() { put("c.tmp", "0123456789"); { fits_stream s; is("create", s.create_file("c.tmp")); is("write", s.write("abc")); s.close(); } is("content", slurp("c.tmp") == "abc"); std::remove("d.tmp"); { fits_stream s; is("create", s.create_file("d.tmp")); s.write("x"); } is("new", slurp("d.tmp") == "x"); return bad; }
''', "creating a file over a longer one that exists", "create_file keeps the old contents, so bytes of the old file follow what is written.")
seed("s44_print_unit", "C26", [("coordinate/coord_sys/ecliptic_coord.hpp", "point.get_lon()", "static_cast<LatQuantity>(point.get_lon())")],
     CPC + "#include <boost/astronomy/coordinate/coord_sys/ecliptic_coord.hpp>\nusing namespace boost::astronomy::coordinate;\n" + r'''
int main() { ecliptic_coord<double, Deg, Rad> c(Deg(10.0 * bud::degrees), Rad(1.5 * si::radians)); std::ostringstream o; o << c; std::printf("%s\n", o.str().c_str()); is("longitude in its unit", o.str().find("1.5 rad") != std::string::npos); is("latitude", o.str().find("10 deg") != std::string::npos); return bad; }
''', "an ecliptic coordinate whose components have different angle units", "the longitude is printed in the latitude's unit.")
seed("s45_light_hours", "C27", [("units/length.hpp", "BOOST_UNITS_STATIC_CONSTANT(light_hours, length_light_hour);", "BOOST_UNITS_STATIC_CONSTANT(light_hours, length_light_day);")],
     CPC + "#include <boost/astronomy/units/length.hpp>\n" + r'''
int main() { namespace u = boost::astronomy::units; Len a(1.0 * u::light_hour), b(1.0 * u::light_hours); std::printf("%g %g\n", a.value(), b.value()); is("plural", a.value() == b.value()); return bad; }
''', "the plural spelling of light hours converted to another unit", "light_hours denotes light days.")
seed("s46_guard", "C13", [("coordinate/coord_sys/supergalactic.hpp", "#ifndef BOOST_ASTRONOMY_COORDINATE_SUPERGALACTIC_HPP\n#define BOOST_ASTRONOMY_COORDINATE_SUPERGALACTIC_HPP", "#ifndef BOOST_ASTRONOMY_COORDINATE_GALACTIC_HPP\n#define BOOST_ASTRONOMY_COORDINATE_GALACTIC_HPP")],
     "#include <boost/astronomy/coordinate/coord_sys/galactic.hpp>\n#include <boost/astronomy/coordinate/coord_sys/supergalactic.hpp>\nnamespace c = boost::astronomy::coordinate;\n" + CPC + r'''
template <template <class, class> class T> struct known { static bool ok() { return true; } };
int main() { is("both", known<c::galactic>::ok() && known<c::supergalactic>::ok()); return bad; }
''', "a program that includes galactic.hpp and supergalactic.hpp", "the second header is skipped because both have the same include guard.")

seed("s47_narrow_sum", "C05", [("coordinate/rep/cartesian_representation.hpp", "                sizeof(typename Addend::type) >= sizeof(CoordinateType),\n                typename Addend::type,\n                CoordinateType\n", "                sizeof(typename Addend::type) < sizeof(CoordinateType),\n                typename Addend::type,\n                CoordinateType\n")],
     "#include <boost/astronomy/coordinate/rep/representation.hpp>\nusing namespace boost::astronomy::coordinate;\n" + CPC + r'''
template <class T> using L = bu::quantity<bu::si::length, T>;
int main() { cartesian_representation<double, L<double>, L<double>, L<double> > a(L<double>::from_value(0.1), L<double>::from_value(0.2), L<double>::from_value(0.3)), c(a);
 cartesian_representation<float, L<float>, L<float>, L<float> > b(L<float>::from_value(0.5f), L<float>::from_value(0.25f), L<float>::from_value(4.f));
 is("same type", (a + c).get_x().value() == 0.2); double d = (a + b).get_x().value() - 0.6; is("digits", d < 1e-12 && d > -1e-12); return bad; }
''', "a double precision cartesian operand and a single precision one", "operator+ computes the sum in the narrower of the two types.")
seed("s48_leap_day", "C11", [("time/time_conversions.hpp", "if ( (m == 1) || (m == 2) )", "if ( (m == 1) || (m == 2 && d < 29) )")],
     "#include <boost/astronomy/time/time_conversions.hpp>\n" + CPC + r"""
namespace bt = boost::astronomy::time; namespace pt = boost::posix_time; namespace gr = boost::gregorian;
int main() { is("28th", bt::julian_date(pt::ptime(gr::date(2020, 2, 28))) == 2458907.5); is("29th", bt::julian_date(pt::ptime(gr::date(2020, 2, 29))) == 2458908.5); return bad; }
""", "a leap day, February 29", "the leap day is not counted as belonging to the previous year, so its julian date is days off.")
seed("s49_sep_attr", "C03", [("coordinate/arithmetic.hpp", "    return bg::get<2>(vector.get_point()) * typename Coordinate::quantity3::unit_type();", "    return std::min<typename Coordinate::type>(bg::get<2>(vector.get_point()), 1e6) * typename Coordinate::quantity3::unit_type();")],
     "#include <cmath>\n#include <boost/astronomy/coordinate/ref_frame/frame.hpp>\nusing namespace boost::astronomy::coordinate;\n" + CPC + r'''
typedef bu::quantity<bu::si::plane_angle> A; typedef bu::quantity<bu::si::length> Len; typedef bu::quantity<bu::si::velocity> Vel;
int main() { typedef icrs<spherical_representation<double, A, A, Len>, spherical_coslat_differential<double, A, A, Vel> > F;
 F a(0.3 * si::radians, 0.4 * si::radians, 2.0 * si::meters), b(0.3 * si::radians, 1.4 * si::radians, 7.0 * si::meters), c(0.3 * si::radians, 1.4 * si::radians, 4e6 * si::meters);
 is("near", std::fabs(a.get_angular_separation(b).value() - 1.0) < 1e-9); is("far", std::fabs(a.get_angular_separation(c).value() - 1.0) < 1e-9); return bad; }
''', "a position further away than a million units", "the length of a spherical vector saturates, so the separation from a distant point is wrong.")
