// Token streams: std::basic_ostream / std::basic_istream for a character type of our own, so that the
// library's stream operators (templates over CharT) run on a sequence of tokens whose numbers are
// solver variables instead of on digit strings.  What text would look like is kept where it matters:
// two numbers without a separator cannot be told apart, white space is skipped by extraction, reading
// the last number of the text hits the end of the stream, std::ws at the end of the stream fails.
// Floating-point numbers round-trip exactly (the caller asked for enough digits).
#pragma once
#include "vp.h"
#include <ios>
#include <istream>
#include <ostream>
#include <limits>
#include <type_traits>
struct TokChar { unsigned char v; friend bool operator==(TokChar a, TokChar b) { return a.v == b.v; } friend bool operator!=(TokChar a, TokChar b) { return a.v != b.v; } };
struct TokTraits { typedef TokChar char_type; };
namespace vp {
enum { SP, CH, UN, SG, FP };           // white space, character, unsigned, signed, floating point
struct token { unsigned char kind, ch; uint64_t u; double d; };
struct tokbuf { token t[1600]; int n, rd; bool glued; tokbuf() : n(0), rd(0), glued(false) {}
  void put(const token &x) { if (n >= 1600) vp_cut("more tokens than the buffer holds"); if (x.kind >= UN && n && t[n - 1].kind >= UN) glued = true; t[n++] = x; }
  void chr(unsigned char c) { token x; x.kind = (c == ' ' || c == '\n' || c == '\t') ? SP : CH; x.ch = c; x.u = 0; x.d = 0; put(x); }
  void uns(uint64_t v) { token x; x.kind = UN; x.ch = 0; x.u = v; x.d = 0; put(x); }
  void sig(int64_t v) { token x; x.kind = SG; x.ch = 0; x.u = (uint64_t)v; x.d = 0; put(x); }
  void flt(double v) { token x; x.kind = FP; x.ch = 0; x.u = 0; x.d = v; put(x); }
};
}
namespace std {
template <> class basic_ios<TokChar, TokTraits> {
public:
  typedef TokChar char_type; typedef TokTraits traits_type; typedef ios_base::iostate iostate; typedef ios_base::fmtflags fmtflags;
  static constexpr fmtflags dec = ios_base::dec, fixed = ios_base::fixed, left = ios_base::left, scientific = ios_base::scientific, skipws = ios_base::skipws;
  static constexpr iostate goodbit = ios_base::goodbit, failbit = ios_base::failbit, eofbit = ios_base::eofbit, badbit = ios_base::badbit;
  iostate st, ex; fmtflags fl; streamsize pr; vp::tokbuf &b;
  explicit basic_ios(vp::tokbuf &x) : st(ios_base::goodbit), ex(ios_base::goodbit), fl(ios_base::skipws | ios_base::dec), pr(6), b(x) {}
  iostate rdstate() const { return st; }
  void clear(iostate s = ios_base::goodbit) { st = s; }
  void setstate(iostate s) { st = iostate(st | s); }
  bool good() const { return st == ios_base::goodbit; }
  bool eof() const { return (st & ios_base::eofbit) != 0; }
  bool fail() const { return (st & (ios_base::failbit | ios_base::badbit)) != 0; }
  bool bad() const { return (st & ios_base::badbit) != 0; }
  explicit operator bool() const { return !fail(); }
  bool operator!() const { return fail(); }
  iostate exceptions() const { return ex; }
  void exceptions(iostate e) { ex = e; }
  TokChar widen(char c) const { TokChar r = {(unsigned char)c}; return r; }
  char narrow(TokChar c, char) const { return (char)c.v; }
  fmtflags flags() const { return fl; }
  fmtflags flags(fmtflags f) { fmtflags o = fl; fl = f; return o; }
  fmtflags setf(fmtflags f) { fmtflags o = fl; fl |= f; return o; }
  fmtflags setf(fmtflags f, fmtflags m) { fmtflags o = fl; fl = (fl & ~m) | (f & m); return o; }
  void unsetf(fmtflags f) { fl &= ~f; }
  streamsize precision() const { return pr; }
  streamsize precision(streamsize p) { streamsize o = pr; pr = p; return o; }
  streamsize width(streamsize = 0) { return 0; }
  TokChar fill(TokChar c = TokChar()) { return c; }
};
template <> class basic_ostream<TokChar, TokTraits> : public basic_ios<TokChar, TokTraits> {
public:
  typedef basic_ostream &R;
  explicit basic_ostream(vp::tokbuf &x) : basic_ios<TokChar, TokTraits>(x) {}
  R operator<<(char c) { b.chr((unsigned char)c); return *this; }
  R operator<<(signed char c) { b.chr((unsigned char)c); return *this; }
  R operator<<(unsigned char c) { b.chr(c); return *this; }
  R operator<<(TokChar c) { b.chr(c.v); return *this; }
  R operator<<(const char *s) { for (; *s; ++s) b.chr((unsigned char)*s); return *this; }
  R operator<<(bool v) { b.uns(v); return *this; }
  R operator<<(short v) { b.sig(v); return *this; }
  R operator<<(int v) { b.sig(v); return *this; }
  R operator<<(long v) { b.sig(v); return *this; }
  R operator<<(long long v) { b.sig(v); return *this; }
  R operator<<(unsigned short v) { b.uns(v); return *this; }
  R operator<<(unsigned v) { b.uns(v); return *this; }
  R operator<<(unsigned long v) { b.uns(v); return *this; }
  R operator<<(unsigned long long v) { b.uns(v); return *this; }
  R operator<<(float v) { b.flt(v); return *this; }
  R operator<<(double v) { b.flt(v); return *this; }
  R operator<<(R (*f)(R)) { return f(*this); }
  R operator<<(ios_base &(*)(ios_base &)) { return *this; }
  R flush() { return *this; }
};
template <> class basic_istream<TokChar, TokTraits> : public basic_ios<TokChar, TokTraits> {
public:
  typedef basic_istream &R;
  explicit basic_istream(vp::tokbuf &x) : basic_ios<TokChar, TokTraits>(x) {}
  bool at_end() const { return b.rd >= b.n; }
  void skip() { while (b.rd < b.n && b.t[b.rd].kind == vp::SP) ++b.rd; }
  bool sentry(bool noskip) {
    if (!good()) { setstate(ios_base::failbit); return false; }
    if (!noskip && (fl & ios_base::skipws)) { skip(); if (at_end()) { setstate(iostate(ios_base::eofbit | ios_base::failbit)); return false; } }
    return true;
  }
  const vp::token *number() { // a number token to be extracted, or null after failing
    if (!sentry(false)) return nullptr;
    if (at_end()) { setstate(iostate(ios_base::eofbit | ios_base::failbit)); return nullptr; }
    if (b.t[b.rd].kind < vp::UN) { setstate(ios_base::failbit); return nullptr; }
    if (b.glued) vp_fail("numbers written without a separator were read back");
    const vp::token *x = &b.t[b.rd++]; if (at_end()) setstate(ios_base::eofbit);
    return x;
  }
  template <class T> R integer(T &v) {
    const vp::token *x = number(); if (!x) { v = 0; return *this; }
    if (x->kind == vp::FP) vp_fail("a floating-point number was read back as an integer");
    bool neg = x->kind == vp::SG && (int64_t)x->u < 0;
    if (is_signed<T>::value) {
      int64_t lo = (int64_t)numeric_limits<T>::min(), hi = (int64_t)numeric_limits<T>::max();
      bool bad = neg ? (int64_t)x->u < lo : x->u > (uint64_t)hi;
      if (bad) { v = neg ? T(lo) : T(hi); setstate(ios_base::failbit); return *this; }
    } else {
      if (neg) vp_fail("a negative number was read back as unsigned");
      if (x->u > (uint64_t)numeric_limits<T>::max()) { v = numeric_limits<T>::max(); setstate(ios_base::failbit); return *this; }
    }
    v = T(x->u); return *this;
  }
  template <class T> R real(T &v) {
    const vp::token *x = number(); if (!x) { v = 0; return *this; }
    v = x->kind == vp::FP ? T(x->d) : x->kind == vp::UN ? T(x->u) : T((int64_t)x->u);
    if (x->kind == vp::FP && !(x->d - x->d == 0)) { v = 0; setstate(ios_base::failbit); } // "inf", "nan" are not read back
    return *this;
  }
  R operator>>(bool &v) { unsigned t = 0; integer(t); v = t != 0; if (t > 1) setstate(ios_base::failbit); return *this; }
  R operator>>(short &v) { return integer(v); }
  R operator>>(int &v) { return integer(v); }
  R operator>>(long &v) { return integer(v); }
  R operator>>(long long &v) { return integer(v); }
  R operator>>(unsigned short &v) { return integer(v); }
  R operator>>(unsigned &v) { return integer(v); }
  R operator>>(unsigned long &v) { return integer(v); }
  R operator>>(unsigned long long &v) { return integer(v); }
  R operator>>(float &v) { return real(v); }
  R operator>>(double &v) { return real(v); }
  R operator>>(TokChar &c) { if (!sentry(false)) return *this; if (at_end()) { setstate(iostate(ios_base::eofbit | ios_base::failbit)); return *this; }
    if (b.t[b.rd].kind >= vp::UN) vp_fail("a digit was read back as a character"); c.v = b.t[b.rd++].ch; return *this; }
  R putback(TokChar) { st = iostate(st & ~ios_base::eofbit); if (fail()) return *this; if (b.rd > 0) --b.rd; else setstate(ios_base::badbit); return *this; }
  R operator>>(R (*f)(R)) { return f(*this); }
  R operator>>(ios_base &(*)(ios_base &)) { return *this; }
};
template <> inline basic_istream<TokChar, TokTraits> &ws(basic_istream<TokChar, TokTraits> &is) { if (is.sentry(true)) { is.skip(); if (is.at_end()) is.setstate(ios_base::eofbit); } return is; }
}
namespace vp {
typedef std::basic_ostream<TokChar, TokTraits> tos; typedef std::basic_istream<TokChar, TokTraits> tis;
// an engine in the state described by the given numbers
template <class E, class T> inline void load(E &e, const T *v, int n) { tokbuf b; for (int i = 0; i < n; ++i) { if (i) b.chr(' '); b.uns((uint64_t)v[i]); } tis is(b); is >> e; }
// the i-th number an engine writes (negative: from the end)
template <class E> inline uint64_t state_word(const E &e, int i) { tokbuf b; tos os(b); os << e; int k = 0; if (i < 0) { int n = 0; for (int j = 0; j < b.n; ++j) if (b.t[j].kind >= UN) ++n; i += n; } for (int j = 0; j < b.n; ++j) if (b.t[j].kind >= UN && k++ == i) return b.t[j].u; vp_fail("fewer numbers written than expected"); }
}
