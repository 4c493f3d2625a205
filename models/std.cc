// Models of the parts of libstdc++ / libc that exist only as compiled code.
#include <cstddef>
#include <cstdint>
#include <list>
#include <map>
#include <string>
#include <unordered_map>
#include <vector>
#include "sx.h"

template class std::basic_string<char>;

extern "C" char __libc_single_threaded;
char __libc_single_threaded = 0;   // always take the atomic reference counting paths

namespace std {
namespace __detail {
void _List_node_base::_M_hook(_List_node_base* const p) noexcept { this->_M_next = p; this->_M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
void _List_node_base::_M_unhook() noexcept { _List_node_base* n = this->_M_next; _List_node_base* p = this->_M_prev; p->_M_next = n; n->_M_prev = p; }
void _List_node_base::_M_transfer(_List_node_base* const first, _List_node_base* const last) noexcept {
  if (this != last) {
    last->_M_prev->_M_next = this; first->_M_prev->_M_next = last; this->_M_prev->_M_next = first;
    _List_node_base* const tmp = this->_M_prev; this->_M_prev = last->_M_prev; last->_M_prev = first->_M_prev; first->_M_prev = tmp;
  }
}
void _List_node_base::_M_reverse() noexcept { _List_node_base* t = this; do { std::swap(t->_M_next, t->_M_prev); t = t->_M_prev; } while (t != this); }
void _List_node_base::swap(_List_node_base& x, _List_node_base& y) noexcept {
  if (x._M_next != &x) {
    if (y._M_next != &y) { std::swap(x._M_next, y._M_next); std::swap(x._M_prev, y._M_prev); x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next->_M_prev = y._M_prev->_M_next = &y; }
    else { y._M_next = x._M_next; y._M_prev = x._M_prev; y._M_next->_M_prev = y._M_prev->_M_next = &y; x._M_next = x._M_prev = &x; }
  } else if (y._M_next != &y) { x._M_next = y._M_next; x._M_prev = y._M_prev; x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next = y._M_prev = &y; }
}
size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const {
  static const size_t primes[] = {2, 5, 11, 23, 47, 97, 199, 409, 823, 1741};
  size_t r = n;
  for (size_t i = 0; i < sizeof(primes) / sizeof(primes[0]); i++) if (primes[i] >= n) { r = primes[i]; break; }
  _M_next_resize = r;
  return r;
}
std::pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t nbkt, size_t nelt, size_t nins) const {
  if (nelt + nins > _M_next_resize) {
    size_t want = nelt + nins;
    if (!_M_next_resize && want < 11) want = 11;
    if (want >= nbkt) { size_t m = want + 1 > nbkt * 2 ? want + 1 : nbkt * 2; return {true, _M_next_bkt(m)}; }
    _M_next_resize = nbkt;
    return {false, 0};
  }
  return {false, 0};
}
}  // namespace __detail

// Hash of strings: a weak concrete function of the length would do; every value
// is a legal hash.  A harness may pick the function to vary iteration orders.
extern "C" int sx_hash_mode;
int sx_hash_mode = 0;
size_t _Hash_bytes(const void* p, size_t n, size_t seed) {
  const unsigned char* b = (const unsigned char*)p;
  for (size_t i = 0; i < n; i++) if (sx_is_symbolic(b[i])) return 7;
  size_t h = 0;
  if (sx_hash_mode == 1) { for (size_t i = 0; i < n; i++) h = h * 31 + b[i]; return h; }
  if (sx_hash_mode == 2) { for (size_t i = n; i-- > 0;) h = h * 37 + (255 - b[i]); return h * 0x9E3779B97F4A7C15ull; }
  if (sx_hash_mode == 3) { for (size_t i = 0; i < n; i++) h = h * 257 + (b[i] ^ 0x5a); return ~h; }
  return 7;
}
size_t _Fnv_hash_bytes(const void* p, size_t n, size_t s) { return _Hash_bytes(p, n, s); }

// red-black tree primitives: an unbalanced binary search tree is a legal
// implementation of the interface (same order, same iterator validity).
_Rb_tree_node_base* _Rb_tree_increment(_Rb_tree_node_base* x) noexcept {
  if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; return x; }
  _Rb_tree_node_base* y = x->_M_parent;
  while (x == y->_M_right) { x = y; y = y->_M_parent; }
  if (x->_M_right != y) x = y;
  return x;
}
const _Rb_tree_node_base* _Rb_tree_increment(const _Rb_tree_node_base* x) noexcept { return _Rb_tree_increment(const_cast<_Rb_tree_node_base*>(x)); }
_Rb_tree_node_base* _Rb_tree_decrement(_Rb_tree_node_base* x) noexcept {
  if (x->_M_color == _S_red && x->_M_parent && x->_M_parent->_M_parent == x) return x->_M_right;   // header
  if (x->_M_left) { _Rb_tree_node_base* y = x->_M_left; while (y->_M_right) y = y->_M_right; return y; }
  _Rb_tree_node_base* y = x->_M_parent;
  while (x == y->_M_left) { x = y; y = y->_M_parent; }
  return y;
}
const _Rb_tree_node_base* _Rb_tree_decrement(const _Rb_tree_node_base* x) noexcept { return _Rb_tree_decrement(const_cast<_Rb_tree_node_base*>(x)); }
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base* x, _Rb_tree_node_base* p, _Rb_tree_node_base& h) noexcept {
  x->_M_parent = p; x->_M_left = 0; x->_M_right = 0; x->_M_color = _S_black;   // the header alone is red
  if (left) { p->_M_left = x; if (p == &h) { h._M_parent = x; h._M_right = x; } else if (p == h._M_left) h._M_left = x; }
  else { p->_M_right = x; if (p == h._M_right) h._M_right = x; }
}
_Rb_tree_node_base* _Rb_tree_rebalance_for_erase(_Rb_tree_node_base* const z, _Rb_tree_node_base& h) noexcept {
  _Rb_tree_node_base* y = z; _Rb_tree_node_base* x = 0;
  if (!y->_M_left) x = y->_M_right;
  else if (!y->_M_right) x = y->_M_left;
  else { y = y->_M_right; while (y->_M_left) y = y->_M_left; x = y->_M_right; }
  if (y != z) {
    z->_M_left->_M_parent = y; y->_M_left = z->_M_left;
    if (y != z->_M_right) { if (x) x->_M_parent = y->_M_parent; y->_M_parent->_M_left = x; y->_M_right = z->_M_right; z->_M_right->_M_parent = y; }
    if (h._M_parent == z) h._M_parent = y; else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = y; else z->_M_parent->_M_right = y;
    y->_M_parent = z->_M_parent;
  } else {
    if (x) x->_M_parent = y->_M_parent;
    if (h._M_parent == z) h._M_parent = x; else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = x; else z->_M_parent->_M_right = x;
    if (h._M_left == z) { if (!z->_M_right) h._M_left = z->_M_parent; else { _Rb_tree_node_base* m = x; while (m->_M_left) m = m->_M_left; h._M_left = m; } }
    if (h._M_right == z) { if (!z->_M_left) h._M_right = z->_M_parent; else { _Rb_tree_node_base* m = x; while (m->_M_right) m = m->_M_right; h._M_right = m; } }
  }
  return z;
}
}  // namespace std
