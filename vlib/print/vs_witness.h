// Witness interface of the printing checks: the real standard headers, output streams observed through OS() and OUT().
#ifndef VS_WITNESS_H
#define VS_WITNESS_H
#include <ostream>
#include <type_traits>
extern "C" { double in_d(int); long in_i(int); std::ostream* vs_os(); void vs_os_out(int); }
extern "C" { void out_i(int, long); void out_b(int, bool); void out_d(int, double); }
static inline void O(int k, double v) { out_d(k, v); }
template<class I> static inline typename std::enable_if<std::is_integral<I>::value || std::is_enum<I>::value>::type O(int k, I v) { out_i(k, (long)v); }
static inline std::ostream& OS() { return *vs_os(); }
#endif
