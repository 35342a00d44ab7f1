// vp-bound: Tausworthe: the listed (type, w, k, q, s) instances, every state reachable by seeding and one more step; combinations: every component output, three steps
// vp-opt: all --feas 2000
#include "mock.h"
#include <boost/random/linear_feedback_shift.hpp>
#include <boost/random/taus88.hpp>
#include <boost/random/xor_combine.hpp>
#include "vp_common.h"
namespace br = boost::random;
// the recurrence bit by bit: position 1 is the most significant of the w bits of the word
template <class U, int w, int k, int q, int s> static U step(U z) {
  U r = 0;
  for (int p = 1; p <= w; ++p) {
    int i = p - (k - s); bool b;
    if (i <= 0) b = (z >> (w - (p + s))) & 1;                                         // the old word moved up by s
    else b = ((z >> (w - i)) & 1) ^ (i + q <= w ? ((z >> (w - (i + q))) & 1) : 0);    // x[n+k] = x[n] ^ x[n+q]
    r |= U(b) << (w - p);
  }
  return r;
}
template <class U, int w, int k> static U init(U s) { U m = w >= int(sizeof(U) * 8) ? U(~U(0)) : U((U(1) << w) - 1); U v = s & m; if (v < (U(1) << (w - k))) v += U(1) << (w - k); return v; }
template <class U, int w, int k, int q, int s> static void lfsr() {
  typedef br::linear_feedback_shift_engine<U, w, k, q, s> E; U sd = vp::in<U>("seed"); E e; e.seed(sd); U z = init<U, w, k>(sd);
  for (int i = 0; i < 2; ++i) { z = step<U, w, k, q, s>(z); U r = e(); vp_assert(r == z, "the output follows the recurrence"); }
  E f(sd); for (int i = 0; i < 2; ++i) f(); vp_assert(f == e, "constructor and seed agree");
}
#define LF(n, U, w, k, q, s) ENTRY(n) { lfsr<U, w, k, q, s>(); }
LF(q_31_13_12, uint32_t, 32, 31, 13, 12)
LF(q_29_2_4, uint32_t, 32, 29, 2, 4)
LF(q_28_3_17, uint32_t, 32, 28, 3, 17)
LF(q_28_3_25, uint32_t, 32, 28, 3, 25)
LF(q_w16, uint16_t, 16, 15, 1, 14)
LF(q_w8, uint8_t, 8, 7, 1, 5)
LF(q_w8b, uint8_t, 8, 5, 2, 3)
LF(q_w8_in32, uint32_t, 8, 7, 3, 4)
LF(q_w24_in32, uint32_t, 24, 23, 5, 9)
LF(q_w32_in64, uint64_t, 32, 31, 6, 18)
LF(q_w64, uint64_t, 64, 63, 1, 10)
LF(q_w64b, uint64_t, 64, 31, 3, 28)
LF(q_w64c, uint64_t, 64, 58, 19, 28)
LF(q_w48, uint64_t, 48, 47, 5, 24)
typedef br::linear_feedback_shift_engine<uint32_t, 32, 31, 13, 12> L1; typedef br::linear_feedback_shift_engine<uint32_t, 32, 29, 2, 4> L2; typedef br::linear_feedback_shift_engine<uint32_t, 32, 28, 3, 17> L3;
ENTRY(q_taus88) { // seeded with a value: all three components with that value
  uint32_t s = vp::in<uint32_t>("seed"); br::taus88 e(s), g; g.seed(s); L1 a(s); L2 b(s); L3 c(s);
  for (int i = 0; i < 3; ++i) vp_assert(e() == (a() ^ b() ^ c()), "taus88 is the XOR of its three components");
  g.discard(3); vp_assert(g == e, "seed() and constructor agree"); vp_assert(e.base1().base1() == a && e.base1().base2() == b && e.base2() == c, "the components advance in step");
}
ENTRY(q_taus88_it) { // seeded from words: one word per component, in order
  uint32_t w[4]; for (int i = 0; i < 4; ++i) w[i] = vp::in<uint32_t>("w"); uint32_t *p = w; br::taus88 e(p, w + 4); vp_assert(p == w + 3, "three words are used");
  uint32_t *r = w; br::taus88 h; h.seed(r, w + 4); vp_assert(r == w + 3 && h == e, "seed(first, last) and constructor agree");
  L1 a(w[0]); L2 b(w[1]); L3 c(w[2]); vp_assert(e.base1().base1() == a && e.base1().base2() == b && e.base2() == c, "one word per component");
  for (int i = 0; i < 2; ++i) vp_assert(e() == (a() ^ b() ^ c()), "taus88 is the XOR of its three components");
}
ENTRY(q_taus88_direct) { // the published code of taus88 on its three state words
  uint32_t s1 = vp::in<uint32_t>("s1"), s2 = vp::in<uint32_t>("s2"), s3 = vp::in<uint32_t>("s3"); vp_assume(s1 >= 2 && s2 >= 8 && s3 >= 16);
  L1 a(s1); L2 b(s2); L3 c(s3); br::xor_combine_engine<L1, 0, L2, 0> ab(a, b); br::taus88 e(ab, c);
  for (int i = 0; i < 2; ++i) {
    uint32_t t = (((s1 << 13) ^ s1) >> 19); s1 = (((s1 & 4294967294u) << 12) ^ t); t = (((s2 << 2) ^ s2) >> 25); s2 = (((s2 & 4294967288u) << 4) ^ t); t = (((s3 << 3) ^ s3) >> 11); s3 = (((s3 & 4294967280u) << 17) ^ t);
    vp_assert(e() == (s1 ^ s2 ^ s3), "taus88");
  }
}
// any two components with any shifts
template <class R, int N> struct comp { typedef R result_type; R x[N]; int n; static constexpr bool has_fixed_range = false; comp() : n(0) { for (int i = 0; i < N; ++i) x[i] = 0; }
  static constexpr R min BOOST_PREVENT_MACRO_SUBSTITUTION() { return 0; } static constexpr R max BOOST_PREVENT_MACRO_SUBSTITUTION() { return std::numeric_limits<R>::max(); }
  R operator()() { if (n >= N) vp_cut("draws"); return x[n++]; } void discard(uint64_t z) { n += int(z); } void seed() { n = 0; } template <class T> void seed(const T &) { n = 0; } template <class It> void seed(It &, It) { n = 0; } template <class It> comp(It &, It) : comp() {}
  friend bool operator==(const comp &a, const comp &b) { return a.n == b.n; } };
template <class R, int s1, int s2> static void comb() {
  comp<R, 4> a, b; for (int i = 0; i < 4; ++i) { a.x[i] = vp::in<R>("a"); b.x[i] = vp::in<R>("b"); }
  const comp<R, 4> ca(a), cb(b);
  br::xor_combine_engine<comp<R, 4>, s1, comp<R, 4>, s2> e(ca, cb);
  for (int i = 0; i < 3; ++i) { R want = R(R(a.x[i] << s1) ^ R(b.x[i] << s2)); vp_assert(e() == want, "the output is the XOR of the shifted components");
    vp_assert(e.base1().n == i + 1 && e.base2().n == i + 1, "one output of each component per step"); }
  br::xor_combine_engine<comp<R, 4>, s1, comp<R, 4>, s2> f(ca, cb); f.discard(3); vp_assert(f == e, "discard advances both components"); vp_assert(f() == R(R(a.x[3] << s1) ^ R(b.x[3] << s2)), "discard advances both components");
}
ENTRY(q_xor_0_0) { comb<uint32_t, 0, 0>(); }
ENTRY(q_xor_3_7) { comb<uint32_t, 3, 7>(); }
ENTRY(q_xor_0_31) { comb<uint32_t, 0, 31>(); }
ENTRY(q_xor_64) { comb<uint64_t, 33, 12>(); }
ENTRY(q_xor_16) { comb<uint16_t, 5, 1>(); }
ENTRY(q_old) { // deprecated alias
  uint32_t s = vp::in<uint32_t>("seed"); br::xor_combine<L1, 0, L2, 0> e(s); L1 a(s); L2 b(s); vp_assert(e() == (a() ^ b()), "deprecated xor_combine"); vp_assert((e.min)() == 0 && (e.max)() == 0xffffffffu, "range of the deprecated class");
}
