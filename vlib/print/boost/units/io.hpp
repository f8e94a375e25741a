// Stand-in for Boost.Units' inserters in their default format: value, blank, symbol.
#ifndef BOOST_UNITS_IO_HPP
#define BOOST_UNITS_IO_HPP
#include <ostream>
#include <boost/units/quantity.hpp>
#include <boost/units/systems/si/length.hpp>
#include <boost/units/systems/cgs/length.hpp>
#include <boost/units/systems/si/plane_angle.hpp>
#include <boost/units/systems/si/dimensionless.hpp>
#include <boost/units/systems/angle/degrees.hpp>
namespace boost { namespace units {
template<class U> struct vs_symbol;
template<> struct vs_symbol<si::length> { static const char* get() { return "m"; } };
template<> struct vs_symbol<cgs::length> { static const char* get() { return "cm"; } };
template<> struct vs_symbol<si::plane_angle> { static const char* get() { return "rad"; } };
template<> struct vs_symbol<degree::plane_angle> { static const char* get() { return "deg"; } };
template<> struct vs_symbol<si::dimensionless> { static const char* get() { return "dimensionless"; } };
template<class D, class S> inline std::ostream& operator<<(std::ostream& os, const unit<D, S>&) { return os << vs_symbol<unit<D, S> >::get(); }
template<class U, class T> inline std::ostream& operator<<(std::ostream& os, const quantity<U, T>& q) { return os << q.value() << ' ' << vs_symbol<U>::get(); }
} }
#endif
