// Library routines the executor interprets (compiled to IR and linked with the harness).
#include <bits/stl_tree.h>
#include <cerrno>
#include <climits>
#include <cstddef>
#include <cstdint>
#include <list>
#include <new>
#include <stdexcept>
extern "C" {
int sym_errno_storage;
size_t strlen(const char* s) { size_t n = 0; while (s[n]) n++; return n; }
int memcmp(const void* a, const void* b, size_t n) { const unsigned char *x = (const unsigned char*)a, *y = (const unsigned char*)b; for (size_t i = 0; i < n; i++) if (x[i] != y[i]) return x[i] < y[i] ? -1 : 1; return 0; }
int bcmp(const void* a, const void* b, size_t n) { return memcmp(a, b, n); }
void* memchr(const void* a, int c, size_t n) { const unsigned char* x = (const unsigned char*)a; for (size_t i = 0; i < n; i++) if (x[i] == (unsigned char)c) return (void*)(x + i); return nullptr; }
int strcmp(const char* a, const char* b) { while (*a && *a == *b) { a++; b++; } return (unsigned char)*a - (unsigned char)*b; }
int strncmp(const char* a, const char* b, size_t n) { while (n && *a && *a == *b) { a++; b++; n--; } return n ? (unsigned char)*a - (unsigned char)*b : 0; }
char* strchr(const char* s, int c) { for (;; s++) { if (*s == (char)c) return (char*)s; if (!*s) return nullptr; } }
char* strcpy(char* d, const char* s) { char* r = d; while ((*d++ = *s++)) {} return r; }
char* strncpy(char* d, const char* s, size_t n) { size_t i = 0; for (; i < n && s[i]; i++) d[i] = s[i]; for (; i < n; i++) d[i] = 0; return d; }
char* strcat(char* d, const char* s) { strcpy(d + strlen(d), s); return d; }
int isspace(int c) { return c == ' ' || (c >= 9 && c <= 13); }
int isdigit(int c) { return c >= '0' && c <= '9'; }
int abs(int x) { return x < 0 ? -x : x; }
int* __errno_location() { return &sym_errno_storage; }
int isblank(int c) { return c == ' ' || c == 9; }
int isalpha(int c) { return (c | 32) >= 'a' && (c | 32) <= 'z'; }
int tolower(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
int toupper(int c) { return c >= 'a' && c <= 'z' ? c - 32 : c; }
void* malloc(size_t); void free(void*);
char* strdup(const char* s) { size_t n = strlen(s); char* r = (char*)malloc(n + 1); for (size_t i = 0; i <= n; i++) r[i] = s[i]; return r; }
static long strtol_impl(const char* s, char** e, int base) {
  const char* p = s; while (isspace((unsigned char)*p)) p++;
  bool neg = false; if (*p == '-') { neg = true; p++; } else if (*p == '+') p++;
  if (base == 16 && p[0] == '0' && (p[1] | 32) == 'x') p += 2;
  else if (base == 0) { base = 10; if (*p == '0') { base = 8; if ((p[1] | 32) == 'x') { base = 16; p += 2; } } }
  const char* d0 = p; unsigned long v = 0; bool ov = false; unsigned long lim = neg ? (unsigned long)LONG_MAX + 1 : (unsigned long)LONG_MAX;
  for (;; p++) { int c = (unsigned char)*p; int k; if (c >= '0' && c <= '9') k = c - '0'; else if (base > 10 && (c | 32) >= 'a' && (c | 32) <= 'z') k = (c | 32) - 'a' + 10; else break; if (k >= base) break;
    if (v > lim / base || v * base > lim - k) ov = true; else v = v * base + k; }
  if (e) *e = (char*)(p == d0 ? s : p);
  if (ov) { *__errno_location() = ERANGE; return neg ? LONG_MIN : LONG_MAX; }
  return neg ? (long)(0 - v) : (long)v;
}
long my_strtol(const char* s, char** e, int b) __asm__("strtol"); long my_strtol(const char* s, char** e, int b) { return strtol_impl(s, e, b); }
long my_strtol2(const char* s, char** e, int b) __asm__("__isoc23_strtol"); long my_strtol2(const char* s, char** e, int b) { return strtol_impl(s, e, b); }
long my_strtoll(const char* s, char** e, int b) __asm__("strtoll"); long my_strtoll(const char* s, char** e, int b) { return strtol_impl(s, e, b); }
long my_strtoll2(const char* s, char** e, int b) __asm__("__isoc23_strtoll"); long my_strtoll2(const char* s, char** e, int b) { return strtol_impl(s, e, b); }
char* strstr(const char* h, const char* n) { for (;; h++) { size_t i = 0; while (n[i] && h[i] == n[i]) i++; if (!n[i]) return (char*)h; if (!*h) return nullptr; } }
char* strrchr(const char* s, int c) { const char* r = nullptr; for (;; s++) { if (*s == (char)c) r = s; if (!*s) return (char*)r; } }
uint64_t sym_concretize(uint64_t v); double sym_strtod_n(const char*, size_t*);
double strtod(const char* s, char** e) { char b[64]; size_t n = 0; while (n < 63 && (b[n] = (char)sym_concretize((unsigned char)s[n]))) n++; b[n] = 0; size_t k; double r = sym_strtod_n(b, &k); if (e) *e = (char*)s + k; return r; }
void qsort(void* base, size_t n, size_t sz, int (*cmp)(const void*, const void*)) {
  char* b = (char*)base; for (size_t i = 1; i < n; i++) for (size_t j = i; j > 0 && cmp(b + (j - 1) * sz, b + j * sz) > 0; j--) for (size_t k = 0; k < sz; k++) { char t = b[j * sz + k]; b[j * sz + k] = b[(j - 1) * sz + k]; b[(j - 1) * sz + k] = t; } }
static unsigned long rnd_state = 88172645463325252ull;
int rand() { rnd_state ^= rnd_state << 13; rnd_state ^= rnd_state >> 7; rnd_state ^= rnd_state << 17; return (int)(rnd_state & 0x7fffffff); }
}
namespace std {
_GLIBCXX_BEGIN_NAMESPACE_VERSION
void __throw_bad_alloc() { throw bad_alloc(); }
void __throw_bad_array_new_length() { throw bad_alloc(); }
void __throw_bad_cast() { throw runtime_error("bad_cast"); }
void __throw_length_error(const char* m) { throw length_error(m); }
void __throw_logic_error(const char* m) { throw logic_error(m); }
void __throw_out_of_range(const char* m) { throw out_of_range(m); }
void __throw_out_of_range_fmt(const char* m, ...) { throw out_of_range(m); }
void __throw_invalid_argument(const char* m) { throw invalid_argument(m); }
void __throw_runtime_error(const char* m) { throw runtime_error(m); }
void __throw_bad_function_call() { throw logic_error("bad_function_call"); }
namespace __detail {
void _List_node_base::_M_hook(_List_node_base* const p) noexcept { _M_next = p; _M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
void _List_node_base::_M_unhook() noexcept { _M_next->_M_prev = _M_prev; _M_prev->_M_next = _M_next; }
void _List_node_base::_M_transfer(_List_node_base* const f, _List_node_base* const l) noexcept { if (this != l) { l->_M_prev->_M_next = this; f->_M_prev->_M_next = l; _M_prev->_M_next = f; auto t = _M_prev; _M_prev = l->_M_prev; l->_M_prev = f->_M_prev; f->_M_prev = t; } }
}
// Red-black tree primitives implemented as an unbalanced binary search tree: same observable order.
static _Rb_tree_node_base* incr(_Rb_tree_node_base* x) { if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; } else { auto y = x->_M_parent; while (x == y->_M_right) { x = y; y = y->_M_parent; } if (x->_M_right != y) x = y; } return x; }
static _Rb_tree_node_base* decr(_Rb_tree_node_base* x) { if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) x = x->_M_right; else if (x->_M_left) { auto y = x->_M_left; while (y->_M_right) y = y->_M_right; x = y; } else { auto y = x->_M_parent; while (x == y->_M_left) { x = y; y = y->_M_parent; } x = y; } return x; }
_Rb_tree_node_base* _Rb_tree_increment(_Rb_tree_node_base* x) throw() { return incr(x); }
const _Rb_tree_node_base* _Rb_tree_increment(const _Rb_tree_node_base* x) throw() { return incr(const_cast<_Rb_tree_node_base*>(x)); }
_Rb_tree_node_base* _Rb_tree_decrement(_Rb_tree_node_base* x) throw() { return decr(x); }
const _Rb_tree_node_base* _Rb_tree_decrement(const _Rb_tree_node_base* x) throw() { return decr(const_cast<_Rb_tree_node_base*>(x)); }
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base* x, _Rb_tree_node_base* p, _Rb_tree_node_base& h) throw() {
  x->_M_parent = p; x->_M_left = 0; x->_M_right = 0; x->_M_color = _S_black;
  if (left) { p->_M_left = x; if (p == &h) { h._M_parent = x; h._M_right = x; } else if (p == h._M_left) h._M_left = x; }
  else { p->_M_right = x; if (p == h._M_right) h._M_right = x; } }
_Rb_tree_node_base* _Rb_tree_rebalance_for_erase(_Rb_tree_node_base* const z, _Rb_tree_node_base& h) throw() {
  _Rb_tree_node_base *&root = h._M_parent, *&lm = h._M_left, *&rm = h._M_right; _Rb_tree_node_base *y = z, *x = 0, *xp = 0;
  if (!y->_M_left) x = y->_M_right; else if (!y->_M_right) x = y->_M_left; else { y = y->_M_right; while (y->_M_left) y = y->_M_left; x = y->_M_right; }
  if (y != z) { z->_M_left->_M_parent = y; y->_M_left = z->_M_left; if (y != z->_M_right) { xp = y->_M_parent; if (x) x->_M_parent = y->_M_parent; y->_M_parent->_M_left = x; y->_M_right = z->_M_right; z->_M_right->_M_parent = y; } else xp = y;
    if (root == z) root = y; else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = y; else z->_M_parent->_M_right = y; y->_M_parent = z->_M_parent; }
  else { xp = y->_M_parent; if (x) x->_M_parent = y->_M_parent; if (root == z) root = x; else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = x; else z->_M_parent->_M_right = x;
    if (lm == z) { if (!z->_M_right) lm = z->_M_parent; else { auto t = x; while (t->_M_left) t = t->_M_left; lm = t; } }
    if (rm == z) { if (!z->_M_left) rm = z->_M_parent; else { auto t = x; while (t->_M_right) t = t->_M_right; rm = t; } } }
  return z; }
size_t _Hash_bytes(const void* p, size_t n, size_t seed) { const unsigned char* x = (const unsigned char*)p; size_t h = seed ^ 0xcbf29ce484222325ull; for (size_t i = 0; i < n; i++) h = (h ^ x[i]) * 0x100000001b3ull; return h; }
_GLIBCXX_END_NAMESPACE_VERSION
}

#include <string>
// members of std::string that the headers expect in libstdc++.so
namespace std { template class basic_string<char>; }

// ---- zlib reading: one in-memory file set by sym_file
extern "C" {
struct SFile { const char* name; const char* data; unsigned long len; }; static SFile f_tab[4]; static unsigned f_n;
static const char* f_data; static unsigned long f_len, f_pos; static int f_open;
void sym_file(const char* p, const char* d, unsigned long n) { for (unsigned i = 0; i < f_n; i++) if (!strcmp(f_tab[i].name, p)) { f_tab[i].data = d; f_tab[i].len = n; return; } if (f_n < 4) f_tab[f_n++] = SFile{p, d, n}; }
void* my_fopen(const char*, const char*) __asm__("fopen"); void* my_fopen(const char*, const char*) { return nullptr; }  // /proc/self/statm: no such file
void* gzopen(const char* p, const char*) { for (unsigned i = 0; i < f_n; i++) if (!strcmp(p, f_tab[i].name)) { f_data = f_tab[i].data; f_len = f_tab[i].len; f_pos = 0; f_open = 1; return &f_open; } return nullptr; }
void* gzdopen(int, const char*) { f_pos = 0; f_open = 1; if (f_n) { f_data = f_tab[0].data; f_len = f_tab[0].len; } return &f_open; }
int gzread(void*, void* buf, unsigned n) { unsigned k = 0; while (k < n && f_pos < f_len) ((char*)buf)[k++] = f_data[f_pos++]; return (int)k; }
int gzclose(void*) { f_open = 0; return 0; }
int gzeof(void*) { return f_pos >= f_len; }
int gzgetc(void*) { return f_pos < f_len ? (unsigned char)f_data[f_pos++] : -1; }
void gzclearerr(void*) {}
const char* gzerror(void*, int* e) { if (e) *e = 0; return ""; }
}
