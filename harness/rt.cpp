// Runtime pieces of libstdc++ that live in the shared library, re-implemented so that they are part of the
// encoded code (same behaviour as the originals), plus stand-ins for third-party entry points.
#undef __OPTIMIZE__   // no inline bodies of the C string functions defined below
#include <list>
#include <cstdlib>
#include "sym.h"
namespace std { namespace __detail {
void _List_node_base::_M_hook(_List_node_base *const p) noexcept { _M_next = p; _M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
void _List_node_base::_M_unhook() noexcept { _List_node_base *const n = _M_next, *const p = _M_prev; p->_M_next = n; n->_M_prev = p; }
} }
#include <string>
template class std::basic_string<char>;
// character classes of the C locale
extern "C" char *strcpy(char *d, const char *s) { char *r = d; while ((*d++ = *s++)) ; return r; }
int tolower(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
extern "C" int isspace(int c) { return c == ' ' || (c >= 9 && c <= 13); }
// ordered containers: a search tree without rebalancing gives the same contents in the same order
#include <map>
#include <unordered_map>
#include <cstring>
namespace std {
typedef _Rb_tree_node_base RB;
static RB *rb_next(RB *x) throw() { if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; return x; } RB *y = x->_M_parent; while (x == y->_M_right) { x = y; y = y->_M_parent; } return x->_M_right != y ? y : x; }
static RB *rb_prev(RB *x) throw() {
  if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) return x->_M_right;   // end()
  if (x->_M_left) { x = x->_M_left; while (x->_M_right) x = x->_M_right; return x; }
  RB *y = x->_M_parent; while (x == y->_M_left) { x = y; y = y->_M_parent; } return y;
}
RB *_Rb_tree_increment(RB *x) throw() { return rb_next(x); }
const RB *_Rb_tree_increment(const RB *x) throw() { return rb_next(const_cast<RB *>(x)); }
RB *_Rb_tree_decrement(RB *x) throw() { return rb_prev(x); }
const RB *_Rb_tree_decrement(const RB *x) throw() { return rb_prev(const_cast<RB *>(x)); }
void _Rb_tree_insert_and_rebalance(const bool left, RB *x, RB *p, RB &h) throw() {
  x->_M_parent = p; x->_M_left = x->_M_right = nullptr; x->_M_color = _S_black;
  if (left) { p->_M_left = x; if (p == &h) { h._M_parent = x; h._M_right = x; } else if (p == h._M_left) h._M_left = x; }
  else { p->_M_right = x; if (p == h._M_right) h._M_right = x; }
}
RB *_Rb_tree_rebalance_for_erase(RB *const z, RB &h) throw() {
  RB *y = z, *x; if (!y->_M_left) x = y->_M_right; else if (!y->_M_right) x = y->_M_left; else { y = y->_M_right; while (y->_M_left) y = y->_M_left; x = y->_M_right; }
  if (y != z) {
    z->_M_left->_M_parent = y; y->_M_left = z->_M_left;
    if (y != z->_M_right) { if (x) x->_M_parent = y->_M_parent; y->_M_parent->_M_left = x; y->_M_right = z->_M_right; z->_M_right->_M_parent = y; }
    if (h._M_parent == z) h._M_parent = y; else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = y; else z->_M_parent->_M_right = y;
    y->_M_parent = z->_M_parent; return z;
  }
  if (x) x->_M_parent = y->_M_parent;
  if (h._M_parent == z) h._M_parent = x; else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = x; else z->_M_parent->_M_right = x;
  if (h._M_left == z) { if (!z->_M_right) h._M_left = z->_M_parent; else { RB *m = x; while (m->_M_left) m = m->_M_left; h._M_left = m; } }
  if (h._M_right == z) { if (!z->_M_left) h._M_right = z->_M_parent; else { RB *m = x; while (m->_M_right) m = m->_M_right; h._M_right = m; } }
  return z;
}
// hashed containers: the bucket counts of the library, so that iteration orders agree
namespace __detail {
static const unsigned short hp[] = {17,19,23,29,31,37,41,43,47,53,59,61,67,71,73,79,83,89,97,103,109,113,127,137,139,149,157,167,179,193,199,211,227,241,257,277,293,313,337,359,383,409,439,467,503,541,577,619,661,709,761,823,887,953,1031,1109,1193,1289,1381,1493,1613,1741,1879,2029,2179,2357,2549,2753,2971,3209,3469,3739,4027,4349,4703,5087,5503,5953,6427,6949,7517,8123,8783,9497,10273,11113,12011,12983,14033,15173,16411,17749,19183,20753,22447,24281,26267,28411,30727,33223,35933,38873,42043,45481,49201,53201,57557,62233};
static const unsigned char hs[] = {1, 2, 2, 3, 5, 5, 7, 7, 11, 11, 11, 11, 13, 13};
size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const { size_t b; if (n < 14) b = hs[n]; else { int k = 0; while (hp[k] < n) k++; b = hp[k]; } if (n) _M_next_resize = (size_t)(b * (double)_M_max_load_factor); return b; }
std::pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t nb, size_t ne, size_t ni) const {
  if (ne + ni > _M_next_resize) {
    size_t want = ne + ni; if (!_M_next_resize && want < 11) want = 11; double mb = want / (double)_M_max_load_factor;
    if (mb >= nb) { size_t a = (size_t)mb + 1, g = nb * _S_growth_factor; return {true, _M_next_bkt(a > g ? a : g)}; }
    _M_next_resize = (size_t)(nb * (double)_M_max_load_factor);
  }
  return {false, 0};
}
void _List_node_base::_M_transfer(_List_node_base *const f, _List_node_base *const l) noexcept { if (this != l) { l->_M_prev->_M_next = this; f->_M_prev->_M_next = l; this->_M_prev->_M_next = f; _List_node_base *t = this->_M_prev; this->_M_prev = l->_M_prev; l->_M_prev = f->_M_prev; f->_M_prev = t; } }
void _List_node_base::_M_reverse() noexcept { _List_node_base *t = this; do { _List_node_base *x = t->_M_next; t->_M_next = t->_M_prev; t->_M_prev = x; t = t->_M_prev; } while (t != this); }
void _List_node_base::swap(_List_node_base &a, _List_node_base &b) noexcept {
  _List_node_base *x = &a, *y = &b;
  if (x->_M_next != x) { if (y->_M_next != y) { std::swap(x->_M_next, y->_M_next); std::swap(x->_M_prev, y->_M_prev); x->_M_next->_M_prev = x->_M_prev->_M_next = x; y->_M_next->_M_prev = y->_M_prev->_M_next = y; } else { y->_M_next = x->_M_next; y->_M_prev = x->_M_prev; y->_M_next->_M_prev = y->_M_prev->_M_next = y; x->_M_next = x->_M_prev = x; } }
  else if (y->_M_next != y) { x->_M_next = y->_M_next; x->_M_prev = y->_M_prev; x->_M_next->_M_prev = x->_M_prev->_M_next = x; y->_M_next = y->_M_prev = y; }
}
}
size_t _Hash_bytes(const void *ptr, size_t len, size_t seed) {   // as in libstdc++ (64 bits)
  const size_t mul = (((size_t)0xc6a4a793UL) << 32UL) + (size_t)0x5bd1e995UL; const unsigned char *b = (const unsigned char *)ptr; size_t la = len & ~(size_t)7, h = seed ^ (len * mul);
  for (size_t k = 0; k < la; k += 8) { size_t d = 0; for (int q = 7; q >= 0; q--) d = (d << 8) + b[k + q]; d *= mul; d ^= d >> 47; d *= mul; h ^= d; h *= mul; }
  if (len & 7) { size_t d = 0; for (int q = (int)(len & 7) - 1; q >= 0; q--) d = (d << 8) + b[la + q]; h ^= d; h *= mul; }
  h ^= h >> 47; h *= mul; h ^= h >> 47; return h;
}
}
extern "C" {
void *vp_memchr(const void *s, int c, size_t n) __asm__("memchr");
void *vp_memchr(const void *s, int c, size_t n) { const unsigned char *p = (const unsigned char *)s; for (size_t k = 0; k < n; k++) if (p[k] == (unsigned char)c) return (void *)(p + k); return nullptr; }
char *vp_strchr(const char *s, int c) __asm__("strchr");
char *vp_strchr(const char *s, int c) { for (;; s++) { if (*s == (char)c) return (char *)s; if (!*s) return nullptr; } }
char *vp_strrchr(const char *s, int c) __asm__("strrchr");
char *vp_strrchr(const char *s, int c) { const char *r = nullptr; for (;; s++) { if (*s == (char)c) r = s; if (!*s) return (char *)r; } }
int strncmp(const char *a, const char *b, size_t n) { for (size_t k = 0; k < n; k++) { int d = (unsigned char)a[k] - (unsigned char)b[k]; if (d || !a[k]) return d; } return 0; }
char *strncpy(char *d, const char *s, size_t n) { size_t k = 0; for (; k < n && s[k]; k++) d[k] = s[k]; for (; k < n; k++) d[k] = 0; return d; }
char *strcat(char *d, const char *s) { char *e = d; while (*e) e++; while ((*e++ = *s++)) ; return d; }
void qsort(void *base, size_t n, size_t sz, int (*cmp)(const void *, const void *)) {   // a stable order, as glibc's merge sort
  char *b = (char *)base, *t = (char *)malloc(sz ? sz : 1);
  for (size_t k = 1; k < n; k++) { size_t j = k; while (j > 0 && cmp(b + (j - 1) * sz, b + k * sz) > 0) j--; if (j < k) { memcpy(t, b + k * sz, sz); memmove(b + (j + 1) * sz, b + j * sz, (k - j) * sz); memcpy(b + j * sz, t, sz); } }
  free(t);
}
}
