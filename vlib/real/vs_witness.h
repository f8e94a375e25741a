// The witness interface with the real standard library: declarations only, to tell an ill-formed use of the library from a gap in the stand-ins.
#ifndef VS_WITNESS_H
#define VS_WITNESS_H
#include <string>
extern "C" { long in_i(int); double in_d(int); float in_f(int); void out_b(int, bool); }
std::string S(int); void O(int, const std::string&); void O(int, double); void O(int, float); std::string FILE_(const std::string&);
template<class I> typename std::enable_if<std::is_integral<I>::value || std::is_enum<I>::value>::type O(int k, I v);
#endif
