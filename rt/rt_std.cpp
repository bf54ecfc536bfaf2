#include <bits/c++config.h>
// Out-of-line libstdc++ pieces, compiled to IR so the symbolic executor can run them.
#include <cstddef>
#include <cstdint>
#include <utility>
namespace std {
namespace __detail {
  struct _List_node_base { _List_node_base* _M_next; _List_node_base* _M_prev;
    static void swap(_List_node_base&, _List_node_base&) noexcept;
    void _M_transfer(_List_node_base* const, _List_node_base* const) noexcept;
    void _M_reverse() noexcept; void _M_hook(_List_node_base* const) noexcept; void _M_unhook() noexcept; };
  void _List_node_base::_M_hook(_List_node_base* const p) noexcept { _M_next = p; _M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
  void _List_node_base::_M_unhook() noexcept { _List_node_base* n = _M_next; _List_node_base* p = _M_prev; p->_M_next = n; n->_M_prev = p; }
  void _List_node_base::_M_transfer(_List_node_base* const first, _List_node_base* const last) noexcept {
    if (this != last) {
      last->_M_prev->_M_next = this; first->_M_prev->_M_next = last; _M_prev->_M_next = first;
      _List_node_base* const tmp = _M_prev; _M_prev = last->_M_prev; last->_M_prev = first->_M_prev; first->_M_prev = tmp; } }
  void _List_node_base::_M_reverse() noexcept { _List_node_base* t = this; do { _List_node_base* n = t->_M_next; t->_M_next = t->_M_prev; t->_M_prev = n; t = n; } while (t != this); }
  struct _Prime_rehash_policy { float _M_max_load_factor; mutable size_t _M_next_resize;
    size_t _M_next_bkt(size_t) const; pair<bool, size_t> _M_need_rehash(size_t, size_t, size_t) const; };
  size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const {
    static const size_t pr[] = {2,5,11,13,23,29,47,59,97,127,251,509,1021}; 
    for (size_t p : pr) if (p >= n) { _M_next_resize = p; return p; }
    _M_next_resize = n; return n; }
  pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t bkt, size_t elt, size_t ins) const {
    if (elt + ins > _M_next_resize) { size_t want = elt + ins; if (want < 11 && _M_next_resize == 0) want = 11; if (want + 1 > bkt) { size_t w2 = want + 1 > bkt * 2 ? want + 1 : bkt * 2; return pair<bool, size_t>(true, _M_next_bkt(w2)); } _M_next_resize = bkt; }
    return pair<bool, size_t>(false, 0); }
}
enum _Rb_tree_color { _S_red = false, _S_black = true };
struct _Rb_tree_node_base { _Rb_tree_color _M_color; _Rb_tree_node_base* _M_parent; _Rb_tree_node_base* _M_left; _Rb_tree_node_base* _M_right; };
// order-preserving, unbalanced insertion is a valid (height-only) simplification
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base* x, _Rb_tree_node_base* p, _Rb_tree_node_base& h) noexcept {
  x->_M_parent = p; x->_M_left = 0; x->_M_right = 0; x->_M_color = _S_red;
  if (left) { p->_M_left = x; if (p == &h) { h._M_parent = x; h._M_right = x; } else if (p == h._M_left) h._M_left = x; }
  else { p->_M_right = x; if (p == h._M_right) h._M_right = x; } 
  h._M_parent->_M_color = _S_black; }
_Rb_tree_node_base* _Rb_tree_increment(_Rb_tree_node_base* x) noexcept {
  if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; }
  else { _Rb_tree_node_base* y = x->_M_parent; while (x == y->_M_right) { x = y; y = y->_M_parent; } if (x->_M_right != y) x = y; }
  return x; }
const _Rb_tree_node_base* _Rb_tree_increment(const _Rb_tree_node_base* x) noexcept { return _Rb_tree_increment(const_cast<_Rb_tree_node_base*>(x)); }
_Rb_tree_node_base* _Rb_tree_decrement(_Rb_tree_node_base* x) noexcept {
  if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) x = x->_M_right;
  else if (x->_M_left) { _Rb_tree_node_base* y = x->_M_left; while (y->_M_right) y = y->_M_right; x = y; }
  else { _Rb_tree_node_base* y = x->_M_parent; while (x == y->_M_left) { x = y; y = y->_M_parent; } x = y; }
  return x; }
const _Rb_tree_node_base* _Rb_tree_decrement(const _Rb_tree_node_base* x) noexcept { return _Rb_tree_decrement(const_cast<_Rb_tree_node_base*>(x)); }
// FNV-1a: any deterministic function of the bytes is a valid model of the library hash
// stands for "some function of the bytes"; injective on up to 8 bytes and cheap for the solver
size_t _Hash_bytes(const void* p, size_t n, size_t seed) { const unsigned char* c = (const unsigned char*) p; size_t h = seed ^ n; for (size_t i = 0; i < n; i++) { h = (h << 8 | h >> 56) ^ c[i]; } return h; }
}
