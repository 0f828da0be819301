// Executable models of library code that is only available as machine code:
// the red-black tree helpers (as an unbalanced search tree: same iteration
// order, same ownership) and the byte/number helpers of the C library.
#include <bits/stl_tree.h>
#include <list>
#include <unordered_map>
#include <cstddef>
#include <string>
template class std::basic_string<char>; // its members are otherwise only in the library
namespace std {
static _Rb_tree_node_base *inc(_Rb_tree_node_base *x) noexcept {
  if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; return x; }
  _Rb_tree_node_base *y = x->_M_parent;
  while (x == y->_M_right) { x = y; y = y->_M_parent; }
  if (x->_M_right != y) x = y;
  return x;
}
static _Rb_tree_node_base *dec(_Rb_tree_node_base *x) noexcept {
  if (x->_M_color == _S_red && x->_M_parent && x->_M_parent->_M_parent == x) return x->_M_right; // header
  if (x->_M_left) { x = x->_M_left; while (x->_M_right) x = x->_M_right; return x; }
  _Rb_tree_node_base *y = x->_M_parent;
  while (x == y->_M_left) { x = y; y = y->_M_parent; }
  return y;
}
_Rb_tree_node_base *_Rb_tree_increment(_Rb_tree_node_base *x) noexcept { return inc(x); }
const _Rb_tree_node_base *_Rb_tree_increment(const _Rb_tree_node_base *x) noexcept { return inc(const_cast<_Rb_tree_node_base *>(x)); }
_Rb_tree_node_base *_Rb_tree_decrement(_Rb_tree_node_base *x) noexcept { return dec(x); }
const _Rb_tree_node_base *_Rb_tree_decrement(const _Rb_tree_node_base *x) noexcept { return dec(const_cast<_Rb_tree_node_base *>(x)); }
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base *x, _Rb_tree_node_base *p, _Rb_tree_node_base &h) noexcept {
  x->_M_parent = p; x->_M_left = nullptr; x->_M_right = nullptr; x->_M_color = _S_black;
  if (left) {
    p->_M_left = x;
    if (p == &h) { h._M_parent = x; h._M_right = x; }
    else if (p == h._M_left) h._M_left = x;
  } else {
    p->_M_right = x;
    if (p == h._M_right) h._M_right = x;
  }
}
_Rb_tree_node_base *_Rb_tree_rebalance_for_erase(_Rb_tree_node_base *const z, _Rb_tree_node_base &h) noexcept {
  auto repl = [&](_Rb_tree_node_base *o, _Rb_tree_node_base *n) {
    if (h._M_parent == o) h._M_parent = n; else if (o->_M_parent->_M_left == o) o->_M_parent->_M_left = n; else o->_M_parent->_M_right = n;
    if (n) n->_M_parent = o->_M_parent;
  };
  if (z->_M_left && z->_M_right) {
    _Rb_tree_node_base *y = z->_M_right; while (y->_M_left) y = y->_M_left;
    if (y != z->_M_right) { repl(y, y->_M_right); y->_M_right = z->_M_right; y->_M_right->_M_parent = y; }
    repl(z, y); y->_M_left = z->_M_left; y->_M_left->_M_parent = y;
  } else {
    _Rb_tree_node_base *c = z->_M_left ? z->_M_left : z->_M_right;
    if (h._M_left == z) { if (c) { _Rb_tree_node_base *m = c; while (m->_M_left) m = m->_M_left; h._M_left = m; } else h._M_left = z->_M_parent; }
    if (h._M_right == z) { if (c) { _Rb_tree_node_base *m = c; while (m->_M_right) m = m->_M_right; h._M_right = m; } else h._M_right = z->_M_parent; }
    repl(z, c);
  }
  return z;
}
// hash tables: any policy is right as long as it grows with the number of elements
size_t __detail::_Prime_rehash_policy::_M_next_bkt(size_t n) const { size_t b = 13; while (b < n) b = 2 * b + 3; _M_next_resize = b; return b; }
std::pair<bool, size_t> __detail::_Prime_rehash_policy::_M_need_rehash(size_t nb, size_t ne, size_t ni) const { if (ne + ni > nb || nb < 2) return std::make_pair(true, _M_next_bkt(2 * (ne + ni))); return std::make_pair(false, (size_t)0); }
size_t _Hash_bytes(const void *p, size_t n, size_t seed) { const unsigned char *c = (const unsigned char *)p; size_t h = seed; for (size_t i = 0; i < n; ++i) h = h * 31 + c[i]; return h; }
namespace __detail {
void _List_node_base::_M_hook(_List_node_base *const p) noexcept { _M_next = p; _M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
void _List_node_base::_M_unhook() noexcept { _M_next->_M_prev = _M_prev; _M_prev->_M_next = _M_next; }
void _List_node_base::_M_transfer(_List_node_base *const f, _List_node_base *const l) noexcept { if (this == l) return; l->_M_prev->_M_next = this; f->_M_prev->_M_next = l; _M_prev->_M_next = f; auto *t = _M_prev; _M_prev = l->_M_prev; l->_M_prev = f->_M_prev; f->_M_prev = t; }
void _List_node_base::_M_reverse() noexcept { auto *t = this; do { auto *x = t->_M_next; t->_M_next = t->_M_prev; t->_M_prev = x; t = t->_M_prev; } while (t != this); }
}
}
extern "C" {
__attribute__((used)) int memcmp(const void *a, const void *b, size_t n) noexcept {
  const unsigned char *x = (const unsigned char *)a, *y = (const unsigned char *)b;
#pragma clang loop unroll(disable)
  for (size_t i = 0; i < n; ++i) if (x[i] != y[i]) return x[i] < y[i] ? -1 : 1;
  return 0;
}
__attribute__((used)) int bcmp(const void *a, const void *b, size_t n) noexcept { 
  const unsigned char *x = (const unsigned char *)a, *y = (const unsigned char *)b;
  for (size_t i = 0; i < n; ++i) if (x[i] != y[i]) return 1;
  return 0;
}
__attribute__((used)) size_t strlen(const char *s) noexcept { size_t n = 0; while (*(volatile const char *)(s + n)) ++n; return n; }
const void *sgm_memchr(const void *p, int c, size_t n) __asm__("memchr");
__attribute__((used)) const void *sgm_memchr(const void *p, int c, size_t n) { const unsigned char *s = (const unsigned char *)p; for (size_t i = 0; i < n; ++i) if (s[i] == (unsigned char)c) return s + i; return nullptr; }

// C locale classification and number conversion, for decimal digits
#define MODEL __attribute__((used))
#define BODY(name) __asm__(name)
int sgm_isdigit(int c) BODY("isdigit"); MODEL int sgm_isdigit(int c) { return c >= '0' && c <= '9'; }
int sgm_isspace(int c) BODY("isspace"); MODEL int sgm_isspace(int c) { return c == ' ' || (c >= 9 && c <= 13); }
int sgm_isupper(int c) BODY("isupper"); MODEL int sgm_isupper(int c) { return c >= 'A' && c <= 'Z'; }
int sgm_islower(int c) BODY("islower"); MODEL int sgm_islower(int c) { return c >= 'a' && c <= 'z'; }
int sgm_isalpha(int c) BODY("isalpha"); MODEL int sgm_isalpha(int c) { return (c >= 'A' && c <= 'Z') || (c >= 'a' && c <= 'z'); }
int sgm_isalnum(int c) BODY("isalnum"); MODEL int sgm_isalnum(int c) { return sgm_isalpha(c) || sgm_isdigit(c); }
int sgm_tolower(int c) BODY("tolower"); MODEL int sgm_tolower(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
int sgm_toupper(int c) BODY("toupper"); MODEL int sgm_toupper(int c) { return c >= 'a' && c <= 'z' ? c - 32 : c; }
int sgm_strcmp(const char *a, const char *b) BODY("strcmp"); MODEL int sgm_strcmp(const char *a, const char *b) { while (*a && *a == *b) { ++a; ++b; } return (unsigned char)*a < (unsigned char)*b ? -1 : (unsigned char)*a > (unsigned char)*b; }
int sgm_strncmp(const char *a, const char *b, size_t n) BODY("strncmp"); MODEL int sgm_strncmp(const char *a, const char *b, size_t n) { while (n && *a && *a == *b) { ++a; ++b; --n; } if (!n) return 0; return (unsigned char)*a < (unsigned char)*b ? -1 : (unsigned char)*a > (unsigned char)*b; }
const char *sgm_strchr(const char *s, int c) BODY("strchr"); MODEL const char *sgm_strchr(const char *s, int c) { for (;; ++s) { if (*s == (char)c) return s; if (!*s) return nullptr; } }
static int sgm_errno; int *sgm_errno_loc() BODY("__errno_location"); MODEL int *sgm_errno_loc() { return &sgm_errno; }
long sgm_strtol(const char *s, char **e, int base) BODY("strtol");
MODEL long sgm_strtol(const char *s, char **e, int base) {
  const char *p = s; bool neg = false, any = false; long v = 0;
  while (sgm_isspace((unsigned char)*p)) ++p;
  if (*p == '-') { neg = true; ++p; } else if (*p == '+') ++p;
  while (*p >= '0' && *p <= '9') { v = v * 10 + (*p - '0'); any = true; ++p; }
  if (e) *e = (char *)(any ? p : s);
  return neg ? -v : v;
}
int sgm_atoi(const char *s) BODY("atoi"); MODEL int sgm_atoi(const char *s) { return (int)sgm_strtol(s, nullptr, 10); }
long sgm_atol(const char *s) BODY("atol"); MODEL long sgm_atol(const char *s) { return sgm_strtol(s, nullptr, 10); }
long sgm_strtol23(const char *s, char **e, int base) BODY("__isoc23_strtol"); MODEL long sgm_strtol23(const char *s, char **e, int base) { return sgm_strtol(s, e, base); }
char *sgm_strcpy(char *d, const char *s) BODY("strcpy"); MODEL char *sgm_strcpy(char *d, const char *s) { size_t i = 0; do d[i] = s[i]; while (s[i++]); return d; }
double sgm_strtod(const char *s, char **e) BODY("strtod");
MODEL double sgm_strtod(const char *s, char **e) {
  const char *p = s; bool neg = false, any = false; double v = 0, f = 1;
  while (sgm_isspace((unsigned char)*p)) ++p;
  if (*p == '-') { neg = true; ++p; } else if (*p == '+') ++p;
  while (*p >= '0' && *p <= '9') { v = v * 10 + (*p - '0'); any = true; ++p; }
  if (*p == '.') { const char *q = p + 1; if (any || (*q >= '0' && *q <= '9')) { p = q; while (*p >= '0' && *p <= '9') { f = f / 10; v = v + f * (*p - '0'); any = true; ++p; } } }
  if (any && (*p == 'e' || *p == 'E')) {
    const char *q = p + 1; bool en = false; if (*q == '-') { en = true; ++q; } else if (*q == '+') ++q;
    if (*q >= '0' && *q <= '9') { int x = 0; while (*q >= '0' && *q <= '9') { x = x * 10 + (*q - '0'); ++q; } p = q; for (int i = 0; i < x && i < 330; ++i) v = en ? v / 10 : v * 10; }
  }
  if (e) *e = (char *)(any ? p : s);
  return neg ? -v : v;
}
double sgm_atof(const char *s) BODY("atof"); MODEL double sgm_atof(const char *s) { return sgm_strtod(s, nullptr); }
long sgm_lround(double x) BODY("lround"); MODEL long sgm_lround(double x) { return x >= 0 ? (long)(x + 0.5) : -(long)(0.5 - x); }
long sgm_llround(double x) BODY("llround"); MODEL long sgm_llround(double x) { return sgm_lround(x); }
long sgm_lrint(double x) BODY("lrint"); MODEL long sgm_lrint(double x) { double f = __builtin_floor(x), d = x - f; long k = (long)f; return d < 0.5 ? k : d > 0.5 ? k + 1 : k + (k & 1); }
char __libc_single_threaded = 1;
char *sgm_strncpy(char *d, const char *s, size_t n) BODY("strncpy"); MODEL char *sgm_strncpy(char *d, const char *s, size_t n) { size_t i = 0; for (; i < n && s[i]; ++i) d[i] = s[i]; for (; i < n; ++i) d[i] = 0; return d; }
const char *sgm_strstr(const char *h, const char *q) BODY("strstr"); MODEL const char *sgm_strstr(const char *h, const char *q) { for (;; ++h) { size_t i = 0; while (q[i] && h[i] == q[i]) ++i; if (!q[i]) return h; if (!*h) return nullptr; } }
const char *sgm_strrchr(const char *s, int c) BODY("strrchr"); MODEL const char *sgm_strrchr(const char *s, int c) { const char *r = nullptr; for (;; ++s) { if (*s == (char)c) r = s; if (!*s) return r; } }
int sgm_isxdigit(int c) BODY("isxdigit"); MODEL int sgm_isxdigit(int c) { return sgm_isdigit(c) || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'); }
int sgm_ispunct(int c) BODY("ispunct"); MODEL int sgm_ispunct(int c) { return c > 32 && c < 127 && !sgm_isalnum(c); }
int sgm_abs(int c) BODY("abs"); MODEL int sgm_abs(int c) { return c < 0 ? -c : c; }
size_t sgm_strcspn(const char *s, const char *r) BODY("strcspn"); MODEL size_t sgm_strcspn(const char *s, const char *r) { size_t n = 0; for (; s[n]; ++n) for (size_t i = 0; r[i]; ++i) if (s[n] == r[i]) return n; return n; }
char *sgm_strcat(char *d, const char *s) BODY("strcat"); MODEL char *sgm_strcat(char *d, const char *s) { sgm_strcpy(d + strlen(d), s); return d; }
long long sgm_strtoll(const char *s, char **e, int b) BODY("strtoll"); MODEL long long sgm_strtoll(const char *s, char **e, int b) { return sgm_strtol(s, e, b); }
long long sgm_llrint(double x) BODY("llrint"); MODEL long long sgm_llrint(double x) { return sgm_lrint(x); }
double sgm_modf(double x, double *ip) BODY("modf"); MODEL double sgm_modf(double x, double *ip) { *ip = __builtin_trunc(x); return x - *ip; }
unsigned long sgm_strtoul(const char *s, char **e, int b) BODY("strtoul"); MODEL unsigned long sgm_strtoul(const char *s, char **e, int b) { return (unsigned long)sgm_strtol(s, e, b); }
unsigned long sgm_strtoul23(const char *s, char **e, int b) BODY("__isoc23_strtoul"); MODEL unsigned long sgm_strtoul23(const char *s, char **e, int b) { return (unsigned long)sgm_strtol(s, e, b); }
unsigned long long sgm_strtoull23(const char *s, char **e, int b) BODY("__isoc23_strtoull"); MODEL unsigned long long sgm_strtoull23(const char *s, char **e, int b) { return (unsigned long long)sgm_strtol(s, e, b); }
long long sgm_strtoll23(const char *s, char **e, int b) BODY("__isoc23_strtoll"); MODEL long long sgm_strtoll23(const char *s, char **e, int b) { return sgm_strtol(s, e, b); }
struct sgm_divt { int q, r; }; sgm_divt sgm_div(int a, int b) BODY("div"); MODEL sgm_divt sgm_div(int a, int b) { return {a / b, a % b}; }
struct sgm_ldivt { long q, r; }; sgm_ldivt sgm_ldiv(long a, long b) BODY("ldiv"); MODEL sgm_ldivt sgm_ldiv(long a, long b) { return {a / b, a % b}; }
void sgm_qsort(void *p, size_t n, size_t w, int (*f)(const void *, const void *)) BODY("qsort");
MODEL void sgm_qsort(void *p, size_t n, size_t w, int (*f)(const void *, const void *)) { // stable insertion
  char *b = (char *)p, *t = (char *)__builtin_alloca(w);
  for (size_t i = 1; i < n; ++i) { size_t j = i; __builtin_memcpy(t, b + i * w, w); while (j > 0 && f(b + (j - 1) * w, t) > 0) { __builtin_memcpy(b + j * w, b + (j - 1) * w, w); --j; } __builtin_memcpy(b + j * w, t, w); }
}
char *sgm_getenv(const char *) BODY("getenv"); MODEL char *sgm_getenv(const char *) { return nullptr; }
int sgm_mlock(void *) BODY("pthread_mutex_lock"); MODEL int sgm_mlock(void *) { return 0; }
int sgm_munlock(void *) BODY("pthread_mutex_unlock"); MODEL int sgm_munlock(void *) { return 0; }
int sgm_tatexit(void (*)(void *), void *, void *) BODY("__cxa_thread_atexit"); MODEL int sgm_tatexit(void (*)(void *), void *, void *) { return 0; }
}
// ------------------------------------------------------------------ exceptions of the standard library
#include <stdexcept>
#include <new>
#include <typeinfo>
#include <functional>
namespace std {
static char *keep(const char *s, size_t n) { char *p = new char[n + 1]; for (size_t i = 0; i < n; ++i) p[i] = s[i]; p[n] = 0; return p; }
__cow_string::__cow_string() { _M_p = keep("", 0); }
__cow_string::__cow_string(const std::string &s) { _M_p = keep(s.data(), s.size()); }
__cow_string::__cow_string(const char *s, size_t n) { _M_p = keep(s, n); }
__cow_string::__cow_string(const __cow_string &o) noexcept { size_t n = 0; while (o._M_p[n]) ++n; _M_p = keep(o._M_p, n); }
__cow_string &__cow_string::operator=(const __cow_string &o) noexcept { if (this != &o) { delete[] _M_p; size_t n = 0; while (o._M_p[n]) ++n; _M_p = keep(o._M_p, n); } return *this; }
__cow_string::~__cow_string() { delete[] _M_p; }
__cow_string::__cow_string(__cow_string &&o) noexcept { _M_p = o._M_p; o._M_p = keep("", 0); }
__cow_string &__cow_string::operator=(__cow_string &&o) noexcept { const char *t = _M_p; _M_p = o._M_p; o._M_p = t; return *this; }
static size_t len(const char *s) { size_t n = 0; while (s[n]) ++n; return n; }
exception::~exception() noexcept {}
const char *exception::what() const noexcept { return "std::exception"; }
bad_exception::~bad_exception() noexcept {}
const char *bad_exception::what() const noexcept { return "std::bad_exception"; }
bad_alloc::~bad_alloc() noexcept {}
const char *bad_alloc::what() const noexcept { return "std::bad_alloc"; }
bad_array_new_length::~bad_array_new_length() noexcept {}
const char *bad_array_new_length::what() const noexcept { return "std::bad_array_new_length"; }
bad_cast::~bad_cast() noexcept {}
const char *bad_cast::what() const noexcept { return "std::bad_cast"; }
bad_typeid::~bad_typeid() noexcept {}
const char *bad_typeid::what() const noexcept { return "std::bad_typeid"; }
bad_function_call::~bad_function_call() noexcept {}
const char *bad_function_call::what() const noexcept { return "bad_function_call"; }
logic_error::logic_error(const string &s) : _M_msg(s) {}
logic_error::logic_error(const char *s) : _M_msg(s, len(s)) {}
logic_error::logic_error(logic_error &&o) noexcept : _M_msg(o._M_msg) {}
logic_error::logic_error(const logic_error &o) noexcept : _M_msg(o._M_msg) {}
logic_error &logic_error::operator=(const logic_error &o) noexcept { _M_msg = o._M_msg; return *this; }
logic_error::~logic_error() noexcept {}
const char *logic_error::what() const noexcept { return _M_msg._M_p; }
runtime_error::runtime_error(const string &s) : _M_msg(s) {}
runtime_error::runtime_error(const char *s) : _M_msg(s, len(s)) {}
runtime_error::runtime_error(runtime_error &&o) noexcept : _M_msg(o._M_msg) {}
runtime_error::runtime_error(const runtime_error &o) noexcept : _M_msg(o._M_msg) {}
runtime_error &runtime_error::operator=(const runtime_error &o) noexcept { _M_msg = o._M_msg; return *this; }
runtime_error::~runtime_error() noexcept {}
const char *runtime_error::what() const noexcept { return _M_msg._M_p; }
#define SGM_EXC(T, B) T::T(const string &s) : B(s) {} T::T(const char *s) : B(s) {} T::~T() noexcept {}
SGM_EXC(domain_error, logic_error) SGM_EXC(invalid_argument, logic_error) SGM_EXC(length_error, logic_error) SGM_EXC(out_of_range, logic_error)
SGM_EXC(range_error, runtime_error) SGM_EXC(overflow_error, runtime_error) SGM_EXC(underflow_error, runtime_error)
void __throw_bad_exception() { throw bad_exception(); }
void __throw_bad_alloc() { throw bad_alloc(); }
void __throw_bad_array_new_length() { throw bad_array_new_length(); }
void __throw_bad_cast() { throw bad_cast(); }
void __throw_bad_function_call() { throw bad_function_call(); }
void __throw_logic_error(const char *s) { throw logic_error(s); }
void __throw_domain_error(const char *s) { throw domain_error(s); }
void __throw_invalid_argument(const char *s) { throw invalid_argument(s); }
void __throw_length_error(const char *s) { throw length_error(s); }
void __throw_out_of_range(const char *s) { throw out_of_range(s); }
void __throw_out_of_range_fmt(const char *s, ...) { throw out_of_range(s); }
void __throw_runtime_error(const char *s) { throw runtime_error(s); }
void __throw_range_error(const char *s) { throw range_error(s); }
void __throw_overflow_error(const char *s) { throw overflow_error(s); }
void __throw_underflow_error(const char *s) { throw underflow_error(s); }
}
