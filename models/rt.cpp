// Models of the libstdc++/libc pieces that live in shared objects.
#include <codecvt>
#include <locale>
#include <stdexcept>
#include <new>
#include <bits/stl_tree.h>
#include <list>
#include <cerrno>
#include <functional>
#include <memory>
#include <sx_ios.h>
#include "sx.h"

// ------------------------------------------------------------ std::list
namespace std { namespace __detail {
void _List_node_base::_M_hook(_List_node_base* p) noexcept { _M_next = p; _M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
void _List_node_base::_M_unhook() noexcept { _List_node_base* n = _M_next; _List_node_base* p = _M_prev; p->_M_next = n; n->_M_prev = p; }
void _List_node_base::_M_reverse() noexcept { _List_node_base* t = this; do { _List_node_base* x = t->_M_next; t->_M_next = t->_M_prev; t->_M_prev = x; t = t->_M_prev; } while (t != this); }
void _List_node_base::_M_transfer(_List_node_base* const first, _List_node_base* const last) noexcept {
  if (this != last) { last->_M_prev->_M_next = this; first->_M_prev->_M_next = last; this->_M_prev->_M_next = first;
    _List_node_base* t = this->_M_prev; this->_M_prev = last->_M_prev; last->_M_prev = first->_M_prev; first->_M_prev = t; } }
void _List_node_base::swap(_List_node_base& x, _List_node_base& y) noexcept {
  if (x._M_next != &x) { if (y._M_next != &y) { std::swap(x._M_next, y._M_next); std::swap(x._M_prev, y._M_prev); x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next->_M_prev = y._M_prev->_M_next = &y; }
    else { y._M_next = x._M_next; y._M_prev = x._M_prev; y._M_next->_M_prev = y._M_prev->_M_next = &y; x._M_next = x._M_prev = &x; } }
  else if (y._M_next != &y) { x._M_next = y._M_next; x._M_prev = y._M_prev; x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next = y._M_prev = &y; } }
} }

// ------------------------------------------------------------ red-black tree, without rebalancing
namespace std {
static _Rb_tree_node_base* incr(_Rb_tree_node_base* x) {
  if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; }
  else { _Rb_tree_node_base* y = x->_M_parent; while (x == y->_M_right) { x = y; y = y->_M_parent; } if (x->_M_right != y) x = y; }
  return x; }
static _Rb_tree_node_base* decr(_Rb_tree_node_base* x) {
  if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) x = x->_M_right;
  else if (x->_M_left) { _Rb_tree_node_base* y = x->_M_left; while (y->_M_right) y = y->_M_right; x = y; }
  else { _Rb_tree_node_base* y = x->_M_parent; while (x == y->_M_left) { x = y; y = y->_M_parent; } x = y; }
  return x; }
_Rb_tree_node_base* _Rb_tree_increment(_Rb_tree_node_base* x) throw() { return incr(x); }
const _Rb_tree_node_base* _Rb_tree_increment(const _Rb_tree_node_base* x) throw() { return incr(const_cast<_Rb_tree_node_base*>(x)); }
_Rb_tree_node_base* _Rb_tree_decrement(_Rb_tree_node_base* x) throw() { return decr(x); }
const _Rb_tree_node_base* _Rb_tree_decrement(const _Rb_tree_node_base* x) throw() { return decr(const_cast<_Rb_tree_node_base*>(x)); }
// the header node is red, all others black: decrement() of end() relies on that
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base* x, _Rb_tree_node_base* p, _Rb_tree_node_base& h) throw() {
  x->_M_parent = p; x->_M_left = 0; x->_M_right = 0; x->_M_color = _S_black;
  if (left) { p->_M_left = x; if (p == &h) { h._M_parent = x; h._M_right = x; } else if (p == h._M_left) h._M_left = x; }
  else { p->_M_right = x; if (p == h._M_right) h._M_right = x; } }
_Rb_tree_node_base* _Rb_tree_rebalance_for_erase(_Rb_tree_node_base* const z, _Rb_tree_node_base& h) throw() {
  _Rb_tree_node_base* y = z; _Rb_tree_node_base* x = 0;
  if (y->_M_left == 0) x = y->_M_right; else if (y->_M_right == 0) x = y->_M_left; else { y = y->_M_right; while (y->_M_left) y = y->_M_left; x = y->_M_right; }
  if (y != z) {
    z->_M_left->_M_parent = y; y->_M_left = z->_M_left;
    if (y != z->_M_right) { if (x) x->_M_parent = y->_M_parent; y->_M_parent->_M_left = x; y->_M_right = z->_M_right; z->_M_right->_M_parent = y; }
    if (h._M_parent == z) h._M_parent = y; else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = y; else z->_M_parent->_M_right = y;
    y->_M_parent = z->_M_parent; y = z;
  } else {
    if (x) x->_M_parent = y->_M_parent;
    if (h._M_parent == z) h._M_parent = x; else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = x; else z->_M_parent->_M_right = x;
    if (h._M_left == z) { if (z->_M_right == 0) h._M_left = z->_M_parent; else { _Rb_tree_node_base* m = x; while (m->_M_left) m = m->_M_left; h._M_left = m; } }
    if (h._M_right == z) { if (z->_M_left == 0) h._M_right = z->_M_parent; else { _Rb_tree_node_base* m = x; while (m->_M_right) m = m->_M_right; h._M_right = m; } }
  }
  return y; }
}

// ------------------------------------------------------------ exceptions
namespace std {
exception::~exception() noexcept {}
const char* exception::what() const noexcept { return "std::exception"; }
bad_alloc::~bad_alloc() noexcept {} const char* bad_alloc::what() const noexcept { return "std::bad_alloc"; }
bad_array_new_length::~bad_array_new_length() noexcept {} const char* bad_array_new_length::what() const noexcept { return "std::bad_array_new_length"; }
bad_cast::~bad_cast() noexcept {} const char* bad_cast::what() const noexcept { return "std::bad_cast"; }
static char* sxMsg(const char* s, size_t n) { char* p = (char*)malloc(n + 1); __builtin_memcpy(p, s, n); p[n] = 0; return p; }   // never freed
__cow_string::__cow_string() : _M_p("") {}
__cow_string::__cow_string(const std::string& s) : _M_p(sxMsg(s.data(), s.size())) {}
__cow_string::__cow_string(const char* s, size_t n) : _M_p(sxMsg(s, n)) {}
__cow_string::__cow_string(const __cow_string& o) noexcept : _M_p(o._M_p) {}
__cow_string& __cow_string::operator=(const __cow_string& o) noexcept { _M_p = o._M_p; return *this; }
__cow_string::~__cow_string() {}
__cow_string::__cow_string(__cow_string&& o) noexcept : _M_p(o._M_p) {}
__cow_string& __cow_string::operator=(__cow_string&& o) noexcept { _M_p = o._M_p; return *this; }
logic_error::logic_error(const string& s) : _M_msg(s) {}
logic_error::logic_error(const char* s) : _M_msg(s, __builtin_strlen(s)) {}
logic_error::logic_error(const logic_error& o) noexcept : exception(o), _M_msg(o._M_msg) {}
logic_error& logic_error::operator=(const logic_error& o) noexcept { _M_msg = o._M_msg; return *this; }
logic_error::logic_error(logic_error&& o) noexcept : exception(o), _M_msg(o._M_msg) {}
logic_error::~logic_error() noexcept {}
const char* logic_error::what() const noexcept { return *(const char* const*)&_M_msg; }
runtime_error::runtime_error(const string& s) : _M_msg(s) {}
runtime_error::runtime_error(const char* s) : _M_msg(s, __builtin_strlen(s)) {}
runtime_error::runtime_error(const runtime_error& o) noexcept : exception(o), _M_msg(o._M_msg) {}
runtime_error& runtime_error::operator=(const runtime_error& o) noexcept { _M_msg = o._M_msg; return *this; }
runtime_error::runtime_error(runtime_error&& o) noexcept : exception(o), _M_msg(o._M_msg) {}
runtime_error::~runtime_error() noexcept {}
const char* runtime_error::what() const noexcept { return *(const char* const*)&_M_msg; }
bad_function_call::~bad_function_call() noexcept {} const char* bad_function_call::what() const noexcept { return "bad_function_call"; }
bad_weak_ptr::~bad_weak_ptr() noexcept {} const char* bad_weak_ptr::what() const noexcept { return "bad_weak_ptr"; }
void __throw_bad_function_call() { throw bad_function_call(); }
size_t _Hash_bytes(const void* p, size_t n, size_t seed) { const unsigned char* b = (const unsigned char*)p; size_t h = seed ^ 1469598103934665603ul; for (size_t i = 0; i < n; i++) { h ^= b[i]; h *= 1099511628211ul; } return h; }
void __throw_overflow_error(const char* s) { throw overflow_error(s); }
bool ios_base::sync_with_stdio(bool) { return true; }
#define SX_EXC(T, B) T::T(const string& s) : B(s) {} T::T(const char* s) : B(s) {} T::~T() noexcept {}
SX_EXC(domain_error, logic_error) SX_EXC(invalid_argument, logic_error) SX_EXC(length_error, logic_error) SX_EXC(out_of_range, logic_error)
SX_EXC(range_error, runtime_error) SX_EXC(overflow_error, runtime_error) SX_EXC(underflow_error, runtime_error)
void __throw_bad_alloc() { throw bad_alloc(); }
void __throw_bad_array_new_length() { throw bad_array_new_length(); }
void __throw_bad_cast() { throw bad_cast(); }
void __throw_logic_error(const char* s) { throw logic_error(s); }
void __throw_domain_error(const char* s) { throw domain_error(s); }
void __throw_invalid_argument(const char* s) { throw invalid_argument(s); }
void __throw_length_error(const char* s) { throw length_error(s); }
void __throw_out_of_range(const char* s) { throw out_of_range(s); }
void __throw_out_of_range_fmt(const char* s, ...) { throw out_of_range(s); }
void __throw_runtime_error(const char* s) { throw runtime_error(s); }
void __throw_range_error(const char* s) { throw range_error(s); }
}

// ------------------------------------------------------------ codecvt (UTF-8 <-> UTF-16)
namespace std {
locale::facet::~facet() {}
codecvt<char16_t, char, mbstate_t>::~codecvt() {}
typedef codecvt_base::result CR;
#define CVT16 codecvt<char16_t, char, mbstate_t>
CR CVT16::do_out(mbstate_t&, const char16_t*, const char16_t*, const char16_t*&, char*, char*, char*&) const { sx_unsupported("codecvt base"); return error; }
CR CVT16::do_unshift(mbstate_t&, char*, char*, char*&) const { return noconv; }
CR CVT16::do_in(mbstate_t&, const char*, const char*, const char*&, char16_t*, char16_t*, char16_t*&) const { sx_unsupported("codecvt base"); return error; }
int CVT16::do_encoding() const throw() { return 0; }
bool CVT16::do_always_noconv() const throw() { return false; }
int CVT16::do_length(mbstate_t&, const char*, const char*, size_t) const { return 0; }
int CVT16::do_max_length() const throw() { return 4; }

#define UB __codecvt_utf8_utf16_base<char16_t>
UB::~__codecvt_utf8_utf16_base() {}
CR UB::do_unshift(mbstate_t&, char* to, char*, char*& to_next) const { to_next = to; return noconv; }
int UB::do_encoding() const throw() { return 0; }
bool UB::do_always_noconv() const throw() { return false; }
int UB::do_max_length() const throw() { return 4; }
int UB::do_length(mbstate_t&, const char*, const char*, size_t) const { sx_unsupported("do_length"); return 0; }
// UTF-16 -> UTF-8
CR UB::do_out(mbstate_t&, const char16_t* from, const char16_t* fe, const char16_t*& fn, char* to, char* te, char*& tn) const {
  CR r = ok;
  while (from != fe) {
    uint32_t c = *from; int inc = 1;
    if ((c >= 0xD800) & (c <= 0xDBFF)) {
      if (fe - from < 2) { r = ok; break; }   // libstdc++ leaves a trailing high surrogate unread
      uint32_t d = from[1];
      if ((d >= 0xDC00) & (d <= 0xDFFF)) { inc = 2; c = (c << 10) + d - 0x35FDC00; }
      else { r = error; break; }
    } else if ((c >= 0xDC00) & (c <= 0xDFFF)) { r = error; break; }
    int n = c < 0x80 ? 1 : c < 0x800 ? 2 : c < 0x10000 ? 3 : 4;
    if (te - to < n) { r = partial; break; }
    if (n == 1) *to++ = (char)c;
    else if (n == 2) { *to++ = (char)(0xC0 | (c >> 6)); *to++ = (char)(0x80 | (c & 63)); }
    else if (n == 3) { *to++ = (char)(0xE0 | (c >> 12)); *to++ = (char)(0x80 | ((c >> 6) & 63)); *to++ = (char)(0x80 | (c & 63)); }
    else { *to++ = (char)(0xF0 | (c >> 18)); *to++ = (char)(0x80 | ((c >> 12) & 63)); *to++ = (char)(0x80 | ((c >> 6) & 63)); *to++ = (char)(0x80 | (c & 63)); }
    from += inc;
  }
  fn = from; tn = to; return r;
}
// UTF-8 -> UTF-16
CR UB::do_in(mbstate_t&, const char* from, const char* fe, const char*& fn, char16_t* to, char16_t* te, char16_t*& tn) const {
  CR r = ok;
  while (from != fe && to != te) {
    size_t avail = fe - from; unsigned char c1 = from[0]; uint32_t c = 0; int len = 0; bool bad = false, part = false;
    if (c1 < 0x80) { c = c1; len = 1; }
    else if (c1 < 0xC2) bad = true;
    else if (c1 < 0xE0) {
      if (avail < 2) part = true; else { unsigned char c2 = from[1]; if ((c2 & 0xC0) != 0x80) bad = true; else { c = (uint32_t)((c1 & 0x1F) << 6) | (c2 & 0x3F); len = 2; } }
    } else if (c1 < 0xF0) {
      if (avail < 2) part = true; else {
        unsigned char c2 = from[1];
        if (((c2 & 0xC0) != 0x80) | ((c1 == 0xE0) & (c2 < 0xA0)) | ((c1 == 0xED) & (c2 >= 0xA0))) bad = true;
        else if (avail < 3) part = true;
        else { unsigned char c3 = from[2]; if ((c3 & 0xC0) != 0x80) bad = true; else { c = ((uint32_t)(c1 & 0x0F) << 12) | ((uint32_t)(c2 & 0x3F) << 6) | (c3 & 0x3F); len = 3; } } }
    } else if (c1 < 0xF5) {
      if (avail < 2) part = true; else {
        unsigned char c2 = from[1];
        if (((c2 & 0xC0) != 0x80) | ((c1 == 0xF0) & (c2 < 0x90)) | ((c1 == 0xF4) & (c2 >= 0x90))) bad = true;
        else if (avail < 3) part = true;
        else { unsigned char c3 = from[2]; if ((c3 & 0xC0) != 0x80) bad = true; else if (avail < 4) part = true;
          else { unsigned char c4 = from[3]; if ((c4 & 0xC0) != 0x80) bad = true; else { c = ((uint32_t)(c1 & 7) << 18) | ((uint32_t)(c2 & 0x3F) << 12) | ((uint32_t)(c3 & 0x3F) << 6) | (c4 & 0x3F); len = 4; } } } }
    } else bad = true;
    if (bad) { r = error; break; }
    if (part) { r = partial; break; }
    if (len == 4) { if (te - to < 2) { r = partial; break; } *to++ = (char16_t)(0xD7C0 + (c >> 10)); *to++ = (char16_t)(0xDC00 + (c & 0x3FF)); }
    else *to++ = (char16_t)c;
    from += len;
  }
  if (r == ok && from != fe) r = partial;
  fn = from; tn = to; return r;
}
}
// wstring_convert(pcvt) may own a locale-independent facet only; std::locale itself is not modelled.

// ------------------------------------------------------------ ctype / numbers (C locale)
extern "C" {
int islower(int c) { return ((unsigned)c - 'a') < 26u; }
int isupper(int c) { return ((unsigned)c - 'A') < 26u; }
int isalpha(int c) { return (((unsigned)c | 32) - 'a') < 26u; }
int isdigit(int c) { return ((unsigned)c - '0') < 10u; }
int isalnum(int c) { return (int)(((((unsigned)c | 32) - 'a') < 26u) | (((unsigned)c - '0') < 10u)); }
int isspace(int c) { return (int)((c == ' ') | (((unsigned)c - 9) < 5u)); }
int isprint(int c) { return ((unsigned)c - 32) < 95u; }
int iscntrl(int c) { return (int)(((unsigned)c < 32u) | (c == 127)); }
int ispunct(int c) { return isprint(c) && !isalnum(c) && c != ' '; }
int isxdigit(int c) { return (int)((((unsigned)c - '0') < 10u) | ((((unsigned)c | 32) - 'a') < 6u)); }
int tolower(int c) { return (int)sx_select(((unsigned)c - 'A') < 26u, (uint64_t)(int64_t)(c + 32), (uint64_t)(int64_t)c); }
int toupper(int c) { return (int)sx_select(((unsigned)c - 'a') < 26u, (uint64_t)(int64_t)(c - 32), (uint64_t)(int64_t)c); }
static int sx_errno;
int* __errno_location(void) { return &sx_errno; }
static unsigned long sxNum(const char* s, char** end, int base, bool& neg, bool& ov, unsigned long max) {
  const char* p = s; while (isspace((unsigned char)*p)) p++;
  neg = false; if (*p == '-') { neg = true; p++; } else if (*p == '+') p++;
  if ((base == 0 || base == 16) && *p == '0' && (p[1] | 32) == 'x' && isxdigit((unsigned char)p[2])) { p += 2; base = 16; }
  if (base == 0) base = *p == '0' ? 8 : 10;
  const char* st = p; unsigned long v = 0; ov = false;
  for (;; p++) { unsigned c = (unsigned char)*p, d; if (c - '0' < 10u) d = c - '0'; else if ((c | 32) - 'a' < 26u) d = (c | 32) - 'a' + 10; else break; if (d >= (unsigned)base) break;
    if (v > (max - d) / (unsigned)base) ov = true; else v = v * (unsigned)base + d; }
  if (end) *end = (char*)(p == st ? s : p);
  return v;
}
long strtol(const char* s, char** end, int base) {
  bool neg, ov; unsigned long v = sxNum(s, end, base, neg, ov, 0x7fffffffffffffffUL);
  if (ov) { sx_errno = ERANGE; return neg ? (long)0x8000000000000000L : 0x7fffffffffffffffL; }
  return neg ? -(long)v : (long)v;
}
long sx_strtol_plain(const char* s, char** e, int b) asm("strtol");
long sx_strtol_plain(const char* s, char** e, int b) { return strtol(s, e, b); }
unsigned long strtoul(const char* s, char** e, int b) { bool neg, ov; unsigned long v = sxNum(s, e, b, neg, ov, ~0ul); if (ov) { sx_errno = ERANGE; return ~0ul; } return neg ? 0 - v : v; }
long long strtoll(const char* s, char** e, int b) { return strtol(s, e, b); }
unsigned long long strtoull(const char* s, char** e, int b) { return strtoul(s, e, b); }
long atol(const char* s) { return strtol(s, nullptr, 10); }
int isgraph(int c) { return ((unsigned)c - 33) < 94u; }
int isblank(int c) { return (int)((c == ' ') | (c == 9)); }
int strcasecmp(const char* a, const char* b) { for (;; a++, b++) { int x = tolower((unsigned char)*a), y = tolower((unsigned char)*b); if (x != y) return x - y; if (!x) return 0; } }
int strcoll(const char* a, const char* b) { return __builtin_strcmp(a, b); }
char* strtok_r(char* s, const char* d, char** sv) { if (!s) s = *sv; if (!s) return nullptr; s += __builtin_strspn(s, d); if (!*s) { *sv = nullptr; return nullptr; } char* e = s + __builtin_strcspn(s, d); if (*e) { *e = 0; *sv = e + 1; } else *sv = nullptr; return s; }
char* strtok(char* s, const char* d) { static char* sv; return strtok_r(s, d, &sv); }
int wcscmp(const wchar_t* a, const wchar_t* b) { for (;; a++, b++) { if (*a != *b) return *a < *b ? -1 : 1; if (!*a) return 0; } }
wchar_t* wcschr(const wchar_t* s, wchar_t c) { for (;; s++) { if (*s == c) return (wchar_t*)s; if (!*s) return nullptr; } }
void* bsearch(const void* k, const void* b, size_t n, size_t z, int (*f)(const void*, const void*)) { const char* p = (const char*)b; for (size_t l = 0, r = n; l < r;) { size_t m = (l + r) / 2; int c = f(k, p + m * z); if (c == 0) return (void*)(p + m * z); if (c < 0) r = m; else l = m + 1; } return nullptr; }
void qsort(void* b, size_t n, size_t z, int (*f)(const void*, const void*)) { char* p = (char*)b; for (size_t i = 1; i < n; i++) for (size_t j = i; j > 0 && f(p + (j - 1) * z, p + j * z) > 0; j--) for (size_t k = 0; k < z; k++) { char t = p[j * z + k]; p[j * z + k] = p[(j - 1) * z + k]; p[(j - 1) * z + k] = t; } }
int abs(int x) { return x < 0 ? -x : x; }
long labs(long x) { return x < 0 ? -x : x; }
wint_t towlower(wint_t c) { return c < 128 ? (wint_t)tolower((int)c) : c; }
wint_t towupper(wint_t c) { return c < 128 ? (wint_t)toupper((int)c) : c; }
int atoi(const char* s) { return (int)strtol(s, nullptr, 10); }
char* strcpy(char* d, const char* s) { char* r = d; while ((*d++ = *s++)) {} return r; }
char* stpcpy(char* d, const char* s) { while ((*d = *s++)) d++; return d; }
char* strncpy(char* d, const char* s, size_t n) { size_t i = 0; for (; i < n && s[i]; i++) d[i] = s[i]; for (; i < n; i++) d[i] = 0; return d; }
char* strcat(char* d, const char* s) { strcpy(d + __builtin_strlen(d), s); return d; }
char* strncat(char* d, const char* s, size_t n) { char* p = d + __builtin_strlen(d); while (n-- && *s) *p++ = *s++; *p = 0; return d; }
char* strstr(const char* h, const char* n) { for (;; h++) { size_t i = 0; while (n[i] && h[i] == n[i]) i++; if (!n[i]) return (char*)h; if (!*h) return nullptr; } }
size_t strspn(const char* s, const char* a) { size_t i = 0; for (; s[i]; i++) { bool h = false; for (const char* p = a; *p; p++) h |= *p == s[i]; if (!h) break; } return i; }
size_t strcspn(const char* s, const char* a) { size_t i = 0; for (; s[i]; i++) { bool h = false; for (const char* p = a; *p; p++) h |= *p == s[i]; if (h) break; } return i; }
char* strpbrk(const char* s, const char* a) { s += strcspn(s, a); return *s ? (char*)s : nullptr; }
size_t strnlen(const char* s, size_t n) { size_t i = 0; while (i < n && s[i]) i++; return i; }
char* strndup(const char* s, size_t n) { n = strnlen(s, n); char* r = (char*)malloc(n + 1); __builtin_memcpy(r, s, n); r[n] = 0; return r; }
char* strdup(const char* s) { size_t n = __builtin_strlen(s) + 1; char* r = (char*)malloc(n); __builtin_memcpy(r, s, n); return r; }
char* strrchr(const char* s, int c) { const char* r = nullptr; for (;; s++) { if (*s == (char)c) r = s; if (!*s) break; } return (char*)r; }
wchar_t* wmemcpy(wchar_t* d, const wchar_t* s, size_t n) { __builtin_memcpy(d, s, n * sizeof *d); return d; }
wchar_t* wmemmove(wchar_t* d, const wchar_t* s, size_t n) { __builtin_memmove(d, s, n * sizeof *d); return d; }
wchar_t* wmemset(wchar_t* d, wchar_t c, size_t n) { for (size_t i = 0; i < n; i++) d[i] = c; return d; }
size_t wcslen(const wchar_t* s) { size_t n = 0; while (s[n]) n++; return n; }
int wmemcmp(const wchar_t* a, const wchar_t* b, size_t n) { for (size_t i = 0; i < n; i++) if (a[i] != b[i]) return a[i] < b[i] ? -1 : 1; return 0; }
wchar_t* wmemchr(const wchar_t* s, wchar_t c, size_t n) { for (size_t i = 0; i < n; i++) if (s[i] == c) return (wchar_t*)(s + i); return nullptr; }
void* memrchr(const void* s, int c, size_t n) { const unsigned char* p = (const unsigned char*)s; while (n--) if (p[n] == (unsigned char)c) return (void*)(p + n); return nullptr; }
}

// ------------------------------------------------------------ iostream
std::string sx_out, sx_err, sx_in; size_t sx_in_pos;
namespace std {
ostream cout(&sx_out), cerr(&sx_err), clog(&sx_err);
istream cin(&sx_in, &sx_in_pos);
template <> istream& getline(istream& is, string& s, char d) {
  if (!is.good()) { is.setstate(ios_base::failbit); return is; }
  s.clear(); bool any = false;
  while (is.more()) { any = true; char c = (*is.ib)[(*is.pos)++]; if (c == d) return is; s += c; }
  is.setstate(ios_base::eofbit); if (!any) is.setstate(ios_base::failbit);
  return is;
}
template <> istream& operator>>(istream& is, string& s) {
  if (!is.good()) { is.setstate(ios_base::failbit); return is; }
  is.skip(); bool any = false; s.clear();
  while (is.more()) { char c = (*is.ib)[*is.pos]; if (c == ' ' || (c >= 9 && c <= 13)) break; s += c; any = true; ++*is.pos; }
  if (!is.more()) is.setstate(ios_base::eofbit);
  if (!any) is.setstate(ios_base::failbit);
  return is;
}
}
