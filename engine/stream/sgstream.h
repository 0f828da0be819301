// Small replacement of the stream headers for the symbolic build, whose
// originals live in the machine code of the standard library: string streams
// are executed, what is written to the terminal or a file is dropped.
#ifndef SG_STREAM_H
#define SG_STREAM_H
#include <bits/ios_base.h>
#include <cstdlib>
#include <iosfwd>
#include <limits>
#include <string>
#include <type_traits>
#include <utility>
extern "C" { inline __attribute__((used)) char sg_streams = 1; }
namespace std {
template <class C, class T> class basic_ios {
public:
  typedef C char_type; typedef T traits_type; typedef typename T::int_type int_type;
  typedef ios_base::openmode openmode; typedef ios_base::fmtflags fmtflags; typedef ios_base::iostate iostate; typedef ios_base::seekdir seekdir; typedef ios_base::failure failure;
  static const openmode in = ios_base::in, out = ios_base::out, app = ios_base::app, ate = ios_base::ate, binary = ios_base::binary, trunc = ios_base::trunc;
  static const iostate goodbit = ios_base::goodbit, badbit = ios_base::badbit, failbit = ios_base::failbit, eofbit = ios_base::eofbit;
  static const fmtflags fixed = ios_base::fixed, scientific = ios_base::scientific, left = ios_base::left, right = ios_base::right, boolalpha = ios_base::boolalpha, hex = ios_base::hex, dec = ios_base::dec, showpos = ios_base::showpos, skipws = ios_base::skipws;
  static const seekdir beg = ios_base::beg, cur = ios_base::cur, end = ios_base::end;
  basic_string<C, T> sgText; size_t sgGet = 0; int sgState = 0; bool sgDrop = false; long sgWidth = 0, sgPrec = 6; C sgFill = ' ';
  virtual ~basic_ios() {}
  bool good() const { return sgState == 0; }
  bool eof() const { return sgState & 1; }
  bool fail() const { return sgState & 6; }
  bool bad() const { return sgState & 4; }
  explicit operator bool() const { return !fail(); }
  bool operator!() const { return fail(); }
  iostate rdstate() const { return (iostate)((eof() ? eofbit : goodbit) | ((sgState & 2) ? failbit : goodbit) | (bad() ? badbit : goodbit)); }
  void clear(iostate s = ios_base::goodbit) { sgState = ((s & eofbit) ? 1 : 0) | ((s & failbit) ? 2 : 0) | ((s & badbit) ? 4 : 0); }
  void setstate(iostate s) { clear(rdstate() | s); }
  iostate exceptions() const { return goodbit; }
  void exceptions(iostate) {}
  fmtflags flags() const { return fmtflags(); }
  fmtflags flags(fmtflags) { return fmtflags(); }
  fmtflags setf(fmtflags) { return fmtflags(); }
  fmtflags setf(fmtflags, fmtflags) { return fmtflags(); }
  void unsetf(fmtflags) {}
  long precision() const { return sgPrec; }
  long precision(long p) { long o = sgPrec; sgPrec = p; return o; }
  long width() const { return sgWidth; }
  long width(long w) { long o = sgWidth; sgWidth = w; return o; }
  C fill() const { return sgFill; }
  C fill(C c) { C o = sgFill; sgFill = c; return o; }
  static bool sync_with_stdio(bool = true) { return true; }
  void sgStart(openmode m) { if (m & ios_base::ate) {} }
};
template <class C, class T> class basic_ostream : virtual public basic_ios<C, T> {
public:
  basic_ostream() {}
  explicit basic_ostream(basic_streambuf<C, T> *) { this->sgDrop = true; }
  virtual ~basic_ostream() {}
  basic_ostream &sgPad(const C *s, size_t n) {
    if (this->sgDrop) return *this;
    for (long k = (long)n; k < this->sgWidth; ++k) this->sgText.push_back(this->sgFill);
    this->sgWidth = 0; this->sgText.append(s, n); return *this;
  }
  basic_ostream &sgNum(const std::string &s) { return sgPad(s.data(), s.size()); }
  template <class N> basic_ostream &sgInt(N v) { return this->sgDrop ? *this : sgNum(std::to_string(v)); }
  basic_ostream &operator<<(bool v) { return sgInt((int)v); }
  basic_ostream &operator<<(short v) { return sgInt((int)v); }
  basic_ostream &operator<<(unsigned short v) { return sgInt((int)v); }
  basic_ostream &operator<<(int v) { return sgInt(v); }
  basic_ostream &operator<<(unsigned v) { return sgInt(v); }
  basic_ostream &operator<<(long v) { return sgInt(v); }
  basic_ostream &operator<<(unsigned long v) { return sgInt(v); }
  basic_ostream &operator<<(long long v) { return sgInt(v); }
  basic_ostream &operator<<(unsigned long long v) { return sgInt(v); }
  basic_ostream &operator<<(double v) { return this->sgDrop ? *this : sgNum(std::to_string(v)); }
  basic_ostream &operator<<(float v) { return *this << (double)v; }
  basic_ostream &operator<<(long double v) { return *this << (double)v; }
  basic_ostream &operator<<(const void *) { return *this; }
  basic_ostream &operator<<(decltype(nullptr)) { return *this; }
  basic_ostream &operator<<(basic_streambuf<C, T> *) { return *this; }
  basic_ostream &operator<<(basic_ostream &(*f)(basic_ostream &)) { return f(*this); }
  basic_ostream &operator<<(basic_ios<C, T> &(*f)(basic_ios<C, T> &)) { f(*this); return *this; }
  basic_ostream &operator<<(ios_base &(*)(ios_base &)) { return *this; }
  basic_ostream &put(C c) { return sgPad(&c, 1); }
  basic_ostream &write(const C *s, long n) { return sgPad(s, (size_t)n); }
  basic_ostream &flush() { return *this; }
  long tellp() { return (long)this->sgText.size(); }
};
template <class C, class T> class basic_istream : virtual public basic_ios<C, T> {
  long sgCount = 0;
public:
  basic_istream() {}
  explicit basic_istream(basic_streambuf<C, T> *) {}
  virtual ~basic_istream() {}
  struct sentry { bool ok; explicit sentry(basic_istream &i, bool noskip = false) : ok(i.sgBegin(!noskip)) {} explicit operator bool() const { return ok; } };
  bool sgEnd() { if (this->sgGet < this->sgText.size()) return false; this->sgState |= 1; return true; }
  void sgSkip() { while (!sgEnd()) { C c = this->sgText[this->sgGet]; if (!(c == ' ' || (c >= 9 && c <= 13))) break; ++this->sgGet; } }
  bool sgBegin(bool skip) { if (this->sgState) { this->sgState |= 2; return false; } if (skip) sgSkip(); if (this->sgState) { this->sgState |= 2; return false; } return true; }
  std::string sgDigits(bool real) {
    std::string t; bool dot = false, ex = false, dig = false;
    while (!sgEnd()) {
      C c = this->sgText[this->sgGet]; bool take = false;
      if (c >= '0' && c <= '9') take = dig = true;
      else if (c == '+' || c == '-') take = t.empty() || (ex && (t[t.size() - 1] == 'e' || t[t.size() - 1] == 'E'));
      else if (real && c == '.') { take = !dot && !ex; dot = true; }
      else if (real && (c == 'e' || c == 'E')) { take = dig && !ex; ex = true; }
      if (!take) break;
      t.push_back(c); ++this->sgGet;
    }
    return t;
  }
  template <class N> basic_istream &sgInt(N &v) {
    if (!sgBegin(true)) return *this;
    std::string t = sgDigits(false); char *e; long x = std::strtol(t.c_str(), &e, 10);
    if (e == t.c_str()) { v = 0; this->sgState |= 2; return *this; }
    if (sizeof(N) < sizeof(long) && x > (long)std::numeric_limits<N>::max()) { v = std::numeric_limits<N>::max(); this->sgState |= 2; return *this; }
    if (sizeof(N) < sizeof(long) && std::is_signed<N>::value && x < (long)std::numeric_limits<N>::min()) { v = std::numeric_limits<N>::min(); this->sgState |= 2; return *this; }
    v = (N)x; return *this;
  }
  template <class N> basic_istream &sgReal(N &v) {
    if (!sgBegin(true)) return *this;
    std::string t = sgDigits(true); char *e; double x = std::strtod(t.c_str(), &e);
    if (e == t.c_str() || *e) { v = 0; this->sgState |= 2; return *this; }
    v = (N)x; return *this;
  }
  basic_istream &operator>>(bool &v) { int k = 0; sgInt(k); if (k != 0 && k != 1) this->sgState |= 2; v = k; return *this; }
  basic_istream &operator>>(short &v) { return sgInt(v); }
  basic_istream &operator>>(unsigned short &v) { return sgInt(v); }
  basic_istream &operator>>(int &v) { return sgInt(v); }
  basic_istream &operator>>(unsigned &v) { return sgInt(v); }
  basic_istream &operator>>(long &v) { return sgInt(v); }
  basic_istream &operator>>(unsigned long &v) { return sgInt(v); }
  basic_istream &operator>>(long long &v) { return sgInt(v); }
  basic_istream &operator>>(unsigned long long &v) { return sgInt(v); }
  basic_istream &operator>>(double &v) { return sgReal(v); }
  basic_istream &operator>>(float &v) { return sgReal(v); }
  basic_istream &operator>>(long double &v) { return sgReal(v); }
  basic_istream &operator>>(basic_istream &(*f)(basic_istream &)) { return f(*this); }
  basic_istream &operator>>(ios_base &(*)(ios_base &)) { return *this; }
  typename T::int_type get() { sgCount = 0; if (!sgBegin(false)) return T::eof(); sgCount = 1; return T::to_int_type(this->sgText[this->sgGet++]); }
  basic_istream &get(C &c) { sgCount = 0; if (sgBegin(false)) { c = this->sgText[this->sgGet++]; sgCount = 1; } return *this; }
  typename T::int_type peek() { if (this->sgState || sgEnd()) return T::eof(); return T::to_int_type(this->sgText[this->sgGet]); }
  basic_istream &ignore(long n = 1, typename T::int_type d = T::eof()) {
    sgCount = 0; if (this->sgState) { this->sgState |= 2; return *this; }
    while (n == std::numeric_limits<long>::max() || sgCount < n) { if (sgEnd()) break; C c = this->sgText[this->sgGet++]; ++sgCount; if (T::to_int_type(c) == d) break; }
    return *this;
  }
  basic_istream &getline(C *s, long n, C d = '\n') {
    sgCount = 0; long k = 0; if (!this->sgState) { while (!sgEnd()) { C c = this->sgText[this->sgGet]; if (c == d) { ++this->sgGet; ++sgCount; break; } if (k + 1 >= n) { this->sgState |= 2; break; } s[k++] = c; ++this->sgGet; ++sgCount; } }
    if (n > 0) s[k] = 0; if (!sgCount) this->sgState |= 2; return *this;
  }
  basic_istream &read(C *s, long n) { sgCount = 0; if (this->sgState) { this->sgState |= 2; return *this; } while (sgCount < n) { if (sgEnd()) { this->sgState |= 2; break; } s[sgCount++] = this->sgText[this->sgGet++]; } return *this; }
  basic_istream &unget() { this->sgState &= ~1; if (this->sgGet) --this->sgGet; return *this; }
  basic_istream &putback(C) { return unget(); }
  long gcount() const { return sgCount; }
  long tellg() { return this->fail() ? -1 : (long)this->sgGet; }
  basic_istream &seekg(long p) { this->sgState &= ~1; this->sgGet = (size_t)p; return *this; }
};
template <class C, class T> class basic_iostream : public basic_istream<C, T>, public basic_ostream<C, T> { public: virtual ~basic_iostream() {} };
#define SG_SS(NAME, BASE)                                                                                                        \
  template <class C, class T, class A> class NAME : public BASE<C, T> {                                                          \
  public:                                                                                                                        \
    NAME() {}                                                                                                                    \
    explicit NAME(ios_base::openmode) {}                                                                                         \
    explicit NAME(const basic_string<C, T, A> &s, ios_base::openmode m = ios_base::in) { str(s); }                               \
    basic_string<C, T, A> str() const { return this->sgText; }                                                                   \
    void str(const basic_string<C, T, A> &s) { this->sgText = s; this->sgGet = 0; }                                              \
    void swap(NAME &o) { this->sgText.swap(o.sgText); std::swap(this->sgGet, o.sgGet); std::swap(this->sgState, o.sgState); }    \
  };
_GLIBCXX_BEGIN_NAMESPACE_CXX11
SG_SS(basic_istringstream, basic_istream) SG_SS(basic_ostringstream, basic_ostream) SG_SS(basic_stringstream, basic_iostream)
_GLIBCXX_END_NAMESPACE_CXX11
#define SG_FS(NAME, BASE)                                                                                                        \
  template <class C, class T> class NAME : public BASE<C, T> {                                                                   \
  public:                                                                                                                        \
    NAME() { this->sgDrop = true; }                                                                                              \
    template <class N> explicit NAME(const N &, ios_base::openmode m = ios_base::in) { this->sgDrop = true; this->sgState = 2; } \
    template <class N> void open(const N &, ios_base::openmode m = ios_base::in) { this->sgState = 2; }                          \
    bool is_open() const { return false; }                                                                                       \
    void close() {}                                                                                                              \
  };
SG_FS(basic_ifstream, basic_istream) SG_FS(basic_ofstream, basic_ostream) SG_FS(basic_fstream, basic_iostream)
// free operators
template <class T> basic_ostream<char, T> &operator<<(basic_ostream<char, T> &o, char c) { return o.sgPad(&c, 1); }
template <class T> basic_ostream<char, T> &operator<<(basic_ostream<char, T> &o, signed char c) { return o << (char)c; }
template <class T> basic_ostream<char, T> &operator<<(basic_ostream<char, T> &o, unsigned char c) { return o << (char)c; }
template <class T> basic_ostream<char, T> &operator<<(basic_ostream<char, T> &o, const char *s) { if (!o.sgDrop && s) o.sgPad(s, char_traits<char>::length(s)); return o; }
inline ostream &operator<<(ostream &o, const std::string &s) { return o.sgPad(s.data(), s.size()); }
#if __cplusplus >= 201703L
inline ostream &operator<<(ostream &o, std::basic_string_view<char> s) { return o.sgPad(s.data(), s.size()); }
#endif
template <class O, class X, class = typename enable_if<!is_lvalue_reference<O>::value && is_base_of<ostream, O>::value>::type> O &&operator<<(O &&o, const X &x) { static_cast<ostream &>(o) << x; return std::move(o); }
template <class C, class T> basic_ostream<C, T> &endl(basic_ostream<C, T> &o) { return o.put('\n'); }
template <class C, class T> basic_ostream<C, T> &ends(basic_ostream<C, T> &o) { return o.put(0); }
template <class C, class T> basic_ostream<C, T> &flush(basic_ostream<C, T> &o) { return o; }
template <class T> basic_istream<char, T> &operator>>(basic_istream<char, T> &i, char &c) { if (i.sgBegin(true)) c = i.sgText[i.sgGet++]; return i; }
inline istream &operator>>(istream &i, std::string &s) {
  if (!i.sgBegin(true)) return i;
  s.clear(); while (!i.sgEnd()) { char c = i.sgText[i.sgGet]; if (c == ' ' || (c >= 9 && c <= 13)) break; s.push_back(c); ++i.sgGet; }
  if (s.empty()) i.sgState |= 2;
  return i;
}
inline istream &getline(istream &i, std::string &s, char d) {
  if (i.sgState) { i.sgState |= 2; return i; }
  bool any = false; s.clear();
  while (!i.sgEnd()) { char c = i.sgText[i.sgGet++]; any = true; if (c == d) return i; s.push_back(c); }
  if (!any) i.sgState |= 2;
  return i;
}
inline istream &getline(istream &i, std::string &s) { return getline(i, s, '\n'); }
inline istream &getline(istream &&i, std::string &s, char d) { return getline(i, s, d); }
inline istream &getline(istream &&i, std::string &s) { return getline(i, s, '\n'); }
template <class I, class X, class = typename enable_if<!is_lvalue_reference<I>::value && is_base_of<istream, I>::value>::type> I &&operator>>(I &&i, X &&x) { static_cast<istream &>(i) >> x; return std::move(i); }
template <class C, class T> basic_istream<C, T> &ws(basic_istream<C, T> &i) { i.sgSkip(); return i; }
// iomanip
template <class S> const S &quoted(const S &s, char = '"', char = '\\') { return s; }
template <class S> S &quoted(S &s, char = '"', char = '\\') { return s; }
struct SgNone {}; struct SgWidth { int n; }; struct SgFill { char c; };
inline SgNone setprecision(int) { return {}; }
inline SgNone setiosflags(ios_base::fmtflags) { return {}; }
inline SgNone resetiosflags(ios_base::fmtflags) { return {}; }
inline SgNone setbase(int) { return {}; }
inline SgWidth setw(int n) { return {n}; }
inline SgFill setfill(char c) { return {c}; }
inline ostream &operator<<(ostream &o, SgNone) { return o; }
inline istream &operator>>(istream &i, SgNone) { return i; }
inline ostream &operator<<(ostream &o, SgWidth w) { o.width(w.n); return o; }
inline istream &operator>>(istream &i, SgWidth) { return i; }
inline ostream &operator<<(ostream &o, SgFill f) { o.fill(f.c); return o; }
// the standard streams: nothing comes in, nothing goes out
struct SgOut : ostream { SgOut() { this->sgDrop = true; } };
inline SgOut sgCout, sgCerr, sgClog; inline istream sgCin;
inline ostream &cout = sgCout, &cerr = sgCerr, &clog = sgClog; inline istream &cin = sgCin;
}
#endif
