#ifndef BOOST_STRING_TRIM_HPP
#define BOOST_STRING_TRIM_HPP
#include <string>
#include <vs_prims.h>
namespace boost { namespace algorithm {
template<class P> inline long vs_set(P& p) { long s = vs_lit("", 0); for (int c = 1; c < 128; ++c) if (p((char)c)) s = vs_cat(s, vs_rep(1, (char)c)); return s; }
inline long vs_spc() { return vs_lit("\t\n\v\f\r ", 6); }
#define VS_TRIM(N, K) \
inline std::string N##_copy(const std::string& s) { return std::string::of(vs_trim(s.h, vs_spc(), K)); } inline void N(std::string& s) { s.h = vs_trim(s.h, vs_spc(), K); } \
template<class P> inline std::string N##_copy_if(const std::string& s, P p) { return std::string::of(vs_trim(s.h, vs_set(p), K)); } template<class P> inline void N##_if(std::string& s, P p) { s.h = vs_trim(s.h, vs_set(p), K); }
VS_TRIM(trim, 3) VS_TRIM(trim_left, 1) VS_TRIM(trim_right, 2)
#undef VS_TRIM
struct vs_any_of { std::string s; bool operator()(char c) const { return s.find(c) != std::string::npos; } };
inline vs_any_of is_any_of(const std::string& s) { return vs_any_of{s}; }
inline vs_any_of is_space() { return vs_any_of{std::string::of(vs_spc())}; }
inline std::string to_upper_copy(const std::string& s) { return std::string::of(vs_upper(s.h)); } inline void to_upper(std::string& s) { s.h = vs_upper(s.h); }
inline std::string to_lower_copy(const std::string& s) { return std::string::of(vs_lower(s.h)); } inline void to_lower(std::string& s) { s.h = vs_lower(s.h); }
inline bool starts_with(const std::string& a, const std::string& b) { return vs_len(b.h) <= vs_len(a.h) && vs_eq(vs_sub(a.h, 0, vs_len(b.h)), b.h); }
inline bool ends_with(const std::string& a, const std::string& b) { long n = vs_len(b.h), m = vs_len(a.h); return n <= m && vs_eq(vs_sub(a.h, m - n, n), b.h); }
inline bool contains(const std::string& a, const std::string& b) { return vs_find(a.h, b.h, 0) >= 0; }
inline bool equals(const std::string& a, const std::string& b) { return vs_eq(a.h, b.h); }
inline bool all(const std::string& s, vs_any_of p) { return vs_findset(s.h, p.s.h, 0, false) < 0; }
}
using algorithm::trim; using algorithm::trim_copy; using algorithm::trim_if; using algorithm::trim_copy_if; using algorithm::trim_left; using algorithm::trim_left_copy; using algorithm::trim_left_if; using algorithm::trim_left_copy_if;
using algorithm::trim_right; using algorithm::trim_right_copy; using algorithm::trim_right_if; using algorithm::trim_right_copy_if; using algorithm::is_any_of; using algorithm::is_space;
using algorithm::to_upper; using algorithm::to_upper_copy; using algorithm::to_lower; using algorithm::to_lower_copy; using algorithm::starts_with; using algorithm::ends_with; using algorithm::contains; using algorithm::equals;
}
#endif
