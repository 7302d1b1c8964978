// In-memory model of the iostreams: cout/cerr collect into strings, cin reads from a
// string, string streams are strings, file streams read and write whole in-memory files.
#pragma once
#include <string>
#include <iosfwd>
#include <ios>
#include <cstdio>
#include <cstdint>
#ifndef SX_IOS_H
#define SX_IOS_H
extern std::string sx_out, sx_err, sx_in; extern size_t sx_in_pos;
extern "C" void sx_unsupported(const char* why);
void sx_file_put(const std::string& path, const std::string& bytes); bool sx_file_get(const std::string& path, std::string& bytes);
namespace std {
struct __sx_ios {
  typedef ios_base::fmtflags fmtflags; typedef ios_base::iostate iostate; typedef ios_base::openmode openmode; typedef ios_base::seekdir seekdir;
  static constexpr fmtflags hex = ios_base::hex, dec = ios_base::dec, oct = ios_base::oct, left = ios_base::left, right = ios_base::right, boolalpha = ios_base::boolalpha, uppercase = ios_base::uppercase, showbase = ios_base::showbase, basefield = ios_base::basefield, adjustfield = ios_base::adjustfield;
  static constexpr iostate goodbit = ios_base::goodbit, badbit = ios_base::badbit, failbit = ios_base::failbit, eofbit = ios_base::eofbit;
  static constexpr openmode in = ios_base::in, out = ios_base::out, binary = ios_base::binary, app = ios_base::app, trunc = ios_base::trunc, ate = ios_base::ate;
  static constexpr seekdir beg = ios_base::beg, cur = ios_base::cur, end = ios_base::end;
  streamsize w_ = 0; char fl_ = ' '; unsigned fmt_ = (unsigned)ios_base::dec | (unsigned)ios_base::skipws; unsigned st_ = 0;
  virtual ~__sx_ios() {}
  streamsize width() const { return w_; } streamsize width(streamsize n) { streamsize o = w_; w_ = n; return o; }
  char fill() const { return fl_; } char fill(char c) { char o = fl_; fl_ = c; return o; }
  streamsize precision() const { return 6; } streamsize precision(streamsize) { return 6; }
  fmtflags flags() const { return (fmtflags)fmt_; } fmtflags flags(fmtflags f) { fmtflags o = flags(); fmt_ = (unsigned)f; return o; }
  fmtflags setf(fmtflags f) { fmtflags o = flags(); fmt_ |= (unsigned)f; return o; }
  fmtflags setf(fmtflags f, fmtflags m) { fmtflags o = flags(); fmt_ = (fmt_ & ~(unsigned)m) | ((unsigned)f & (unsigned)m); return o; }
  void unsetf(fmtflags m) { fmt_ &= ~(unsigned)m; }
  bool has(fmtflags f) const { return (fmt_ & (unsigned)f) != 0; }
  iostate rdstate() const { return (iostate)st_; } void clear(iostate s = ios_base::goodbit) { st_ = (unsigned)s; } void setstate(iostate s) { st_ |= (unsigned)s; }
  bool good() const { return !st_; } bool eof() const { return st_ & (unsigned)ios_base::eofbit; } bool fail() const { return st_ & ((unsigned)ios_base::failbit | (unsigned)ios_base::badbit); } bool bad() const { return st_ & (unsigned)ios_base::badbit; }
  explicit operator bool() const { return !fail(); } bool operator!() const { return fail(); }
  void exceptions(iostate) {} char widen(char c) const { return c; } char narrow(char c, char) const { return c; }
  static bool sync_with_stdio(bool = true) { return true; }
  template <class L> void imbue(const L&) {}
  template <class O> O* tie(O*) { return nullptr; } void* tie(decltype(nullptr)) { return nullptr; }
  void manip(ios_base& (*f)(ios_base&)) {
    typedef ios_base& (*M)(ios_base&);
    if (f == (M)std::hex) setf(hex, basefield); else if (f == (M)std::dec) setf(dec, basefield); else if (f == (M)std::oct) setf(oct, basefield);
    else if (f == (M)std::left) setf(left, adjustfield); else if (f == (M)std::right) setf(right, adjustfield); else if (f == (M)std::internal) setf(ios_base::internal, adjustfield);
    else if (f == (M)std::boolalpha) setf(boolalpha); else if (f == (M)std::noboolalpha) unsetf(boolalpha); else if (f == (M)std::uppercase) setf(uppercase); else if (f == (M)std::nouppercase) unsetf(uppercase);
    else if (f == (M)std::showbase) setf(showbase); else if (f == (M)std::noshowbase) unsetf(showbase); else if (f == (M)std::skipws) setf(ios_base::skipws); else if (f == (M)std::noskipws) unsetf(ios_base::skipws); else sx_unsupported("stream manipulator");
  }
};
template <> class basic_ostream<char, char_traits<char>> : public virtual __sx_ios {
public:
  typedef char char_type; typedef char_traits<char> traits_type; typedef int int_type; typedef long pos_type;
  std::string obuf; std::string* ob;
  basic_ostream() : ob(&obuf) {}
  explicit basic_ostream(std::string* p) : ob(p) {}
  virtual ~basic_ostream() {}
  basic_ostream& put_(const char* s, size_t n) {
    size_t p = (size_t)w_ > n ? (size_t)w_ - n : 0; w_ = 0;
    if (!has(ios_base::left)) ob->append(p, fl_);
    ob->append(s, n);
    if (has(ios_base::left)) ob->append(p, fl_);
    return *this;
  }
  basic_ostream& num(bool neg, unsigned long v) {
    std::string s;
    if (has(ios_base::hex) || has(ios_base::oct)) {
      unsigned b = has(ios_base::hex) ? 16 : 8; const char* dg = has(ios_base::uppercase) ? "0123456789ABCDEF" : "0123456789abcdef"; bool z = v == 0;
      do { s.insert(s.begin(), dg[v % b]); v /= b; } while (v);
      if (has(ios_base::showbase) && !z) s = (b == 8 ? "0" : has(ios_base::uppercase) ? "0X" : "0x") + s;
    } else { s = std::to_string(v); if (neg) s = "-" + s; }
    if (has(ios_base::internal) && neg && (size_t)w_ > s.size()) s.insert(1, (size_t)w_ - s.size(), fl_);
    return put_(s.data(), s.size());
  }
  template <class U, class I> basic_ostream& sgn(I v) { bool dc = !(has(ios_base::hex) || has(ios_base::oct)); return v < 0 && dc ? num(true, 0ul - (unsigned long)v) : num(false, (unsigned long)(U)v); }
  basic_ostream& put(char c) { ob->push_back(c); return *this; }
  basic_ostream& write(const char* s, streamsize n) { ob->append(s, (size_t)n); return *this; }
  basic_ostream& flush() { return *this; }
  long tellp() { return (long)ob->size(); }
  basic_ostream& operator<<(basic_ostream& (*f)(basic_ostream&)) { return f(*this); }
  basic_ostream& operator<<(ios_base& (*f)(ios_base&)) { manip(f); return *this; }
  basic_ostream& operator<<(bool v) { if (has(ios_base::boolalpha)) return v ? put_("true", 4) : put_("false", 5); return num(false, v); }
  basic_ostream& operator<<(int v) { return sgn<unsigned>(v); }
  basic_ostream& operator<<(unsigned v) { return num(false, v); }
  basic_ostream& operator<<(long v) { return sgn<unsigned long>(v); }
  basic_ostream& operator<<(unsigned long v) { return num(false, v); }
  basic_ostream& operator<<(long long v) { return sgn<unsigned long>((long)v); }
  basic_ostream& operator<<(unsigned long long v) { return num(false, (unsigned long)v); }
  basic_ostream& operator<<(short v) { return sgn<unsigned short>(v); }
  basic_ostream& operator<<(unsigned short v) { return num(false, v); }
  basic_ostream& operator<<(double) { sx_unsupported("floating point output"); return *this; }
  basic_ostream& operator<<(const void*) { sx_unsupported("pointer output"); return *this; }
};
inline ostream& operator<<(ostream& o, const char* s) { return o.put_(s, __builtin_strlen(s)); }
inline ostream& operator<<(ostream& o, char c) { return o.put_(&c, 1); }
inline ostream& operator<<(ostream& o, signed char c) { return o << (char)c; }
inline ostream& operator<<(ostream& o, unsigned char c) { return o << (char)c; }
inline ostream& operator<<(ostream& o, const string& s) { return o.put_(s.data(), s.size()); }
inline ostream& endl(ostream& o) { return o.put('\n'); }
inline ostream& ends(ostream& o) { return o.put('\0'); }
inline ostream& flush(ostream& o) { return o; }
template <> class basic_istream<char, char_traits<char>> : public virtual __sx_ios {
public:
  typedef char char_type; typedef char_traits<char> traits_type; typedef int int_type; typedef long pos_type;
  std::string ibuf; std::string* ib; size_t* pos; size_t p0 = 0; streamsize gc_ = 0;
  basic_istream() : ib(&ibuf), pos(&p0) {}
  basic_istream(std::string* s, size_t* p) : ib(s), pos(p) {}
  virtual ~basic_istream() {}
  bool more() const { return *pos < ib->size(); }
  void skip() { if (has(ios_base::skipws)) ws_(); }
  void ws_() { while (more()) { char c = (*ib)[*pos]; if (!(c == ' ' || (c >= 9 && c <= 13))) break; ++*pos; } if (!more()) setstate(ios_base::eofbit); }
  int peek() { gc_ = 0; if (!good()) return -1; if (!more()) { setstate(ios_base::eofbit); return -1; } return (unsigned char)(*ib)[*pos]; }
  int get() { gc_ = 0; if (!good()) { setstate(ios_base::failbit); return -1; } if (!more()) { st_ |= (unsigned)ios_base::eofbit | (unsigned)ios_base::failbit; return -1; } gc_ = 1; return (unsigned char)(*ib)[(*pos)++]; }
  basic_istream& get(char& c) { int k = get(); if (k >= 0) c = (char)k; return *this; }
  basic_istream& unget() { clear((iostate)(st_ & ~(unsigned)ios_base::eofbit)); if (*pos) --*pos; else setstate(ios_base::badbit); return *this; }
  basic_istream& putback(char) { return unget(); }
  basic_istream& read(char* s, streamsize n) { gc_ = 0; while (gc_ < n && more()) s[gc_++] = (*ib)[(*pos)++]; if (gc_ < n) st_ |= (unsigned)ios_base::eofbit | (unsigned)ios_base::failbit; return *this; }
  streamsize gcount() const { return gc_; }
  basic_istream& ignore(streamsize n = 1, int d = -1) { gc_ = 0; while (gc_ < n) { if (!more()) { setstate(ios_base::eofbit); break; } char c = (*ib)[(*pos)++]; gc_++; if (d >= 0 && (unsigned char)c == (unsigned)d) break; } return *this; }
  basic_istream& getline(char* s, streamsize n, char d = '\n') {
    gc_ = 0; streamsize k = 0;
    for (;;) { if (!more()) { st_ |= (unsigned)ios_base::eofbit | (gc_ ? 0u : (unsigned)ios_base::failbit); break; } char c = (*ib)[*pos]; if (c == d) { ++*pos; gc_++; break; } if (k + 1 >= n) { setstate(ios_base::failbit); break; } s[k++] = c; ++*pos; gc_++; }
    if (n > 0) s[k] = 0; return *this;
  }
  long tellg() { return fail() ? -1 : (long)*pos; }
  basic_istream& seekg(long p) { st_ &= ~(unsigned)ios_base::eofbit; *pos = (size_t)p; return *this; }
  basic_istream& seekg(long o, seekdir d) { st_ &= ~(unsigned)ios_base::eofbit; *pos = (size_t)((d == ios_base::beg ? 0 : d == ios_base::cur ? (long)*pos : (long)ib->size()) + o); return *this; }
  template <class I> basic_istream& num_(I& v, bool sg) {
    if (!good()) { setstate(ios_base::failbit); return *this; }
    skip(); size_t p = *pos; bool neg = false, any = false; unsigned long x = 0;
    if (has(ios_base::hex) || has(ios_base::oct)) sx_unsupported("non-decimal input");
    if (more() && ((*ib)[*pos] == '-' || (*ib)[*pos] == '+')) { neg = (*ib)[*pos] == '-'; ++*pos; }
    while (more() && (*ib)[*pos] >= '0' && (*ib)[*pos] <= '9') { x = x * 10 + (unsigned long)((*ib)[*pos] - '0'); any = true; ++*pos; }
    if (!more()) setstate(ios_base::eofbit);
    (void)p; (void)sg; if (!any) { v = 0; setstate(ios_base::failbit); } else { v = (I)(neg ? 0 - x : x); }
    return *this;
  }
  basic_istream& operator>>(int& v) { return num_(v, true); } basic_istream& operator>>(unsigned& v) { return num_(v, false); }
  basic_istream& operator>>(long& v) { return num_(v, true); } basic_istream& operator>>(unsigned long& v) { return num_(v, false); }
  basic_istream& operator>>(long long& v) { return num_(v, true); } basic_istream& operator>>(unsigned long long& v) { return num_(v, false); }
  basic_istream& operator>>(short& v) { return num_(v, true); } basic_istream& operator>>(unsigned short& v) { return num_(v, false); }
  basic_istream& operator>>(basic_istream& (*f)(basic_istream&)) { return f(*this); }
  basic_istream& operator>>(ios_base& (*f)(ios_base&)) { manip(f); return *this; }
};
inline istream& ws(istream& i) { i.ws_(); return i; }
inline istream& operator>>(istream& i, char& c) { if (i.good()) i.skip(); int k = i.get(); if (k >= 0) c = (char)k; return i; }
template <> class basic_iostream<char, char_traits<char>> : public istream, public ostream { public: basic_iostream() { ob = &ibuf; } };
template <> class basic_ostringstream<char, char_traits<char>, allocator<char>> : public ostream {
public:
  basic_ostringstream() {} explicit basic_ostringstream(openmode) {} explicit basic_ostringstream(const string& s, openmode m = ios_base::out) { if ((unsigned)m & ((unsigned)ios_base::app | (unsigned)ios_base::ate)) obuf = s; }
  string str() const { return obuf; } void str(const string& s) { obuf = s; }
};
template <> class basic_stringstream<char, char_traits<char>, allocator<char>> : public basic_iostream<char, char_traits<char>> {
public:
  basic_stringstream() {} explicit basic_stringstream(openmode) {} explicit basic_stringstream(const string& s, openmode = ios_base::in) { ibuf = s; }
  string str() const { return ibuf; } void str(const string& s) { ibuf = s; p0 = 0; }
};
template <> class basic_istringstream<char, char_traits<char>, allocator<char>> : public istream {
public:
  basic_istringstream() {} explicit basic_istringstream(const string& s, openmode = ios_base::in) { ibuf = s; }
  string str() const { return ibuf; } void str(const string& s) { ibuf = s; p0 = 0; }
};
template <> class basic_ifstream<char, char_traits<char>> : public istream {
  bool op = false;
public:
  basic_ifstream() {} explicit basic_ifstream(const char* n, openmode m = ios_base::in) { open(n, m); } explicit basic_ifstream(const string& n, openmode m = ios_base::in) { open(n, m); }
  void open(const string& n, openmode = ios_base::in) { ibuf.clear(); p0 = 0; op = sx_file_get(n, ibuf); if (op) clear(); else setstate(ios_base::failbit); }
  bool is_open() const { return op; } void close() { if (!op) setstate(ios_base::failbit); op = false; }
};
template <> class basic_ofstream<char, char_traits<char>> : public ostream {
  bool op = false; string name;
public:
  basic_ofstream() {} explicit basic_ofstream(const char* n, openmode m = ios_base::out) { open(n, m); } explicit basic_ofstream(const string& n, openmode m = ios_base::out) { open(n, m); }
  void open(const string& n, openmode m = ios_base::out) { name = n; obuf.clear(); if ((unsigned)m & (unsigned)ios_base::app) sx_file_get(n, obuf); sx_file_put(n, obuf); op = true; }
  bool is_open() const { return op; } void close() { if (op) sx_file_put(name, obuf); op = false; } ~basic_ofstream() { close(); }
};
template <> class istreambuf_iterator<char, char_traits<char>> {
  istream* s;
public:
  typedef input_iterator_tag iterator_category; typedef char value_type; typedef long difference_type; typedef char* pointer; typedef char reference;
  istreambuf_iterator() : s(nullptr) {} istreambuf_iterator(istream& i) : s(&i) {}
  char operator*() const { return (*s->ib)[*s->pos]; } istreambuf_iterator& operator++() { ++*s->pos; return *this; } istreambuf_iterator operator++(int) { istreambuf_iterator r = *this; ++*s->pos; return r; }
  bool at_end() const { return !s || !s->more(); } bool equal(const istreambuf_iterator& o) const { return at_end() == o.at_end(); }
};
template <> istream& getline(istream& is, string& s, char d);
template <> istream& operator>>(istream& is, string& s);
extern ostream cout, cerr, clog; extern istream cin;
}
#endif
