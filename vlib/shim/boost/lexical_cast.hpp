#ifndef BOOST_LEXICAL_CAST_INCLUDED
#define BOOST_LEXICAL_CAST_INCLUDED
#include <string>
#include <typeinfo>
#include <type_traits>
#include <vs_prims.h>
namespace boost {
class bad_lexical_cast : public std::bad_cast { public: const char* what() const noexcept override { return "bad lexical cast"; } };
namespace vs_lc {
template<class T> struct tag {};
// kinds: 1..4 signed of 1,2,4,8 bytes parsed as a number; 5..8 unsigned; 9 float; 10 double; 11 single character; 12 bool
template<class T, class E = void> struct to;
template<> struct to<std::string> { static std::string go(long h) { return std::string::of(h); } };
template<class T> struct to<T, typename std::enable_if<std::is_integral<T>::value && (sizeof(T) > 1)>::type> {
    static const int kind = (std::is_signed<T>::value ? 0 : 4) + (sizeof(T) == 2 ? 2 : sizeof(T) == 4 ? 3 : 4);
    static T go(long h) { if (!vs_ok(h, kind)) throw bad_lexical_cast(); return (T)vs_parse_i(h, kind); } };
template<> struct to<bool> { static bool go(long h) { if (!vs_ok(h, 12)) throw bad_lexical_cast(); return vs_parse_i(h, 12) != 0; } };
template<class T> struct to<T, typename std::enable_if<std::is_integral<T>::value && sizeof(T) == 1 && !std::is_same<T, bool>::value>::type> {
    static T go(long h) { if (!vs_ok(h, 11)) throw bad_lexical_cast(); return (T)vs_parse_i(h, 11); } };
template<> struct to<float> { static float go(long h) { if (!vs_ok(h, 9)) throw bad_lexical_cast(); return vs_parse_f(h); } };
template<> struct to<double> { static double go(long h) { if (!vs_ok(h, 10)) throw bad_lexical_cast(); return vs_parse_d(h); } };
template<class T, class E = void> struct from;
template<> struct from<std::string> { static long go(const std::string& s) { return s.h; } };
template<> struct from<const char*> { static long go(const char* s) { return vs_lit0(s); } };
template<> struct from<char*> { static long go(const char* s) { return vs_lit0(s); } };
template<class T> struct from<T, typename std::enable_if<std::is_integral<T>::value && (sizeof(T) > 1 || std::is_same<T, bool>::value)>::type> { static long go(T v) { return vs_fmt_i((long)v, std::is_signed<T>::value); } };
template<class T> struct from<T, typename std::enable_if<std::is_integral<T>::value && sizeof(T) == 1 && !std::is_same<T, bool>::value>::type> { static long go(T v) { return vs_rep(1, (char)v); } };
template<> struct from<float> { static long go(float v) { return vs_fmt_f(v, 2); } };
template<> struct from<double> { static long go(double v) { return vs_fmt_d(v, 2); } };
}
template<class T, class S> inline T lexical_cast(const S& s) { return vs_lc::to<T>::go(vs_lc::from<typename std::decay<S>::type>::go(s)); }
template<class T> inline T lexical_cast(const char* s, std::size_t n) { return vs_lc::to<T>::go(vs_lit(s, n)); }
}
namespace boost { namespace conversion { template<class T, class S> inline bool try_lexical_convert(const S& s, T& out) { try { out = lexical_cast<T>(s); return true; } catch (bad_lexical_cast&) { return false; } } } }
#endif
