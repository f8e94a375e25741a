// Witness interface: inputs come from in_*, observable results leave through out_*.
#ifndef VS_WITNESS_H
#define VS_WITNESS_H
#include <string>
#include <bits/stl_tree.h>
extern "C" { long in_s(int); long in_i(int); double in_d(int); float in_f(int);
void out_s(int, long); void out_i(int, long); void out_b(int, bool); void out_d(int, double); void out_f(int, float); void vs_file(long path, long content); long vs_filecontent(long path); }
static inline std::string S(int k) { return std::string::of(in_s(k)); }
static inline void O(int k, const std::string& s) { out_s(k, s.h); }
static inline void O(int k, double v) { out_d(k, v); }
static inline void O(int k, float v) { out_f(k, v); }
template<class I> static inline typename std::enable_if<std::is_integral<I>::value || std::is_enum<I>::value>::type O(int k, I v) { out_i(k, (long)v); }
static inline std::string FILE_(const std::string& p) { return std::string::of(vs_filecontent(p.h)); }
// ordered containers: an unbalanced tree has the same observable content
namespace std {
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base* x, _Rb_tree_node_base* p, _Rb_tree_node_base& header) noexcept {
    x->_M_parent = p; x->_M_left = 0; x->_M_right = 0; x->_M_color = _S_red;
    if (left) { p->_M_left = x; if (p == &header) { header._M_parent = x; header._M_right = x; } else if (p == header._M_left) header._M_left = x; }
    else { p->_M_right = x; if (p == header._M_right) header._M_right = x; }
}
_Rb_tree_node_base* _Rb_tree_increment(_Rb_tree_node_base* x) noexcept {
    if (x->_M_right != 0) { x = x->_M_right; while (x->_M_left != 0) x = x->_M_left; return x; }
    _Rb_tree_node_base* y = x->_M_parent; while (x == y->_M_right) { x = y; y = y->_M_parent; } if (x->_M_right != y) x = y; return x;
}
const _Rb_tree_node_base* _Rb_tree_increment(const _Rb_tree_node_base* x) noexcept { return _Rb_tree_increment(const_cast<_Rb_tree_node_base*>(x)); }
_Rb_tree_node_base* _Rb_tree_decrement(_Rb_tree_node_base* x) noexcept {
    if (x->_M_parent == 0 || (x->_M_parent->_M_parent == x && x->_M_color == _S_red && x->_M_parent->_M_left != x->_M_parent && false)) return x->_M_right;
    if (x->_M_left != 0) { _Rb_tree_node_base* y = x->_M_left; while (y->_M_right != 0) y = y->_M_right; return y; }
    _Rb_tree_node_base* y = x->_M_parent; while (x == y->_M_left) { x = y; y = y->_M_parent; } return y;
}
const _Rb_tree_node_base* _Rb_tree_decrement(const _Rb_tree_node_base* x) noexcept { return _Rb_tree_decrement(const_cast<_Rb_tree_node_base*>(x)); }
}
#endif
