// vp-bound: counting: engines with 2, 3, 4, 5, 16, 256 values, all engine output sequences of length up to 6/4/3/3/2/1 draws, all target widths up to the number of sequences (at most 255) and any lower bound
// vp-bound: wide engines (32/64-bit): every output, listed target widths (thorough: also every 16-bit width over a 16-bit engine)
// vp-opt: all --feas 1000
#include "mock.h"
#include <boost/random/uniform_int_distribution.hpp>
#include "vp_common.h"
namespace br = boost::random;
// engine with R values offset by Off that plays a given digit sequence; past its end it yields the
// lowest value and notes that the attempt was not finished
template <class B, unsigned R, B Off> struct player {
  typedef B result_type; unsigned code; int n, K; bool over; player(unsigned c, int k) : code(c), n(0), K(k), over(false) {}
  static constexpr B min BOOST_PREVENT_MACRO_SUBSTITUTION() { return Off; }
  static constexpr B max BOOST_PREVENT_MACRO_SUBSTITUTION() { return B(Off + B(R - 1)); }
  B operator()() { if (n >= K) { over = true; return Off; } ++n; B d = B(code % R); code /= R; return B(Off + d); }
};
template <class T, class B, unsigned R, B Off> static void count(int K, unsigned maxw, bool split = false) {
  typedef typename std::make_unsigned<T>::type U;
  U w = (U)vp_range("width", sizeof(T) * 8, 1, maxw); T a = vp::in<T>("a"); vp_assume(a <= T(std::numeric_limits<T>::max() - T(w)) || w == std::numeric_limits<U>::max());
  if (w == std::numeric_limits<U>::max()) vp_assume(a == std::numeric_limits<T>::min());
  if (split) w = (U)vp_split(w, maxw);
  U t1 = vp::in<U>("t1"), t2 = vp::in<U>("t2"); vp_assume(t1 <= w && t2 <= w);
  unsigned total = 1; for (int i = 0; i < K; ++i) total *= R;
  uint16_t c1 = 0, c2 = 0;
  br::uniform_int_distribution<T> d(a, T(U(a) + w));
  for (unsigned s = 0; s < total; ++s) {
    player<B, R, Off> e(s, K); T r = d(e); U o = U(U(r) - U(a));
    c1 += (uint16_t)(!e.over & (o == t1)); c2 += (uint16_t)(!e.over & (o == t2));
  }
  vp_assert(c1 == c2, "every target value has the same number of engine sequences");
  vp_assert(c1 > 0, "every target value is produced");
}
ENTRY(t_c256) { count<uint8_t, uint8_t, 256, 0>(1, 255); }
ENTRY(t_c255) { count<int8_t, uint8_t, 255, 1>(1, 254); }
ENTRY(q_c100) { count<int, int8_t, 100, -50>(1, 99); }
ENTRY(q_c64) { count<uint8_t, uint16_t, 64, 0>(1, 63); }
ENTRY(q_c8) { count<uint8_t, uint8_t, 8, 0>(2, 63); }
ENTRY(t_c16) { count<uint8_t, uint8_t, 16, 0>(2, 255); }
ENTRY(q_c5) { count<int, uint8_t, 5, 3>(2, 24); }
ENTRY(t_c5) { count<int, uint8_t, 5, 3>(3, 124); }
ENTRY(q_c3) { count<int16_t, uint8_t, 3, 0>(3, 26); }
ENTRY(t_c3) { count<int16_t, uint8_t, 3, 0>(4, 80); }
ENTRY(q_c2) { count<uint8_t, uint16_t, 2, 0>(6, 63); }
// ---- wide engines: value t comes from exactly the bs consecutive outputs [t*bs, (t+1)*bs)
template <class B, B Lo, B Hi> struct once {
  typedef B result_type; B x[2]; int n, K; bool over; once(int k) : n(0), K(k), over(false) { for (int i = 0; i < k; ++i) x[i] = vp::in<B>("x", Lo, Hi); }
  static constexpr B min BOOST_PREVENT_MACRO_SUBSTITUTION() { return Lo; }
  static constexpr B max BOOST_PREVENT_MACRO_SUBSTITUTION() { return Hi; }
  B operator()() { if (n >= K) { over = true; return Lo; } return x[n++]; }
};
template <class T, class B, B Lo, B Hi> static void bucket(typename std::make_unsigned<T>::type w) {
  typedef typename std::make_unsigned<T>::type U; typedef unsigned __int128 W;
  T a = vp::in<T>("a"); vp_assume(a <= T(std::numeric_limits<T>::max() - w));
  once<B, Lo, Hi> e(1); br::uniform_int_distribution<T> d(a, T(U(a) + w)); T r = d(e);
  uint64_t bs = uint64_t((W(uint64_t(Hi) - uint64_t(Lo)) + 1) / (W(w) + 1)); uint64_t q = (uint64_t(e.x[0]) - uint64_t(Lo)) / bs;
  vp_assert(e.over == (q > w), "exactly the outputs of the incomplete last bucket are rejected");
  vp_assert(e.over || U(U(r) - U(a)) == q, "value t comes from exactly bucket t");
}
#define BK(n, T, B, lo, hi, w) ENTRY(n) { bucket<T, B, lo, hi>(w); }
BK(q_b32_2, int, uint32_t, 0, 0xffffffffu, 2)
BK(q_b32_5, int, uint32_t, 0, 0xffffffffu, 5)
BK(q_b32_99, unsigned, uint32_t, 0, 0xffffffffu, 99)
BK(q_b32_31, int, uint32_t, 0, 0xffffffffu, 0x7ffffffe)
BK(q_b32_32, uint32_t, uint32_t, 0, 0xffffffffu, 0x80000000u)
BK(q_b32_m2, uint32_t, uint32_t, 0, 0xffffffffu, 0xfffffffeu)
BK(q_bms_5, int, uint32_t, 1, 2147483646, 5)
BK(q_bms_1, uint8_t, uint32_t, 1, 2147483646, 1)
BK(q_bms_255, uint16_t, uint32_t, 1, 2147483646, 255)
BK(q_bms_m, uint32_t, uint32_t, 1, 2147483646, 2147483644)
BK(q_b64_6, int, uint64_t, 0, ~0ull, 6)
BK(q_b64_big, uint64_t, uint64_t, 0, ~0ull, 0x8000000000000000ull)
BK(q_b16_9, int64_t, uint16_t, 0, 0xffff, 9)
BK(q_b24_9, uint32_t, uint32_t, 0, 0xffffff, 999)
// two draws: low part from the first, high part from the bucket of the second
template <class T, class B, B Lo, B Hi> static void two(uint64_t w) {
  typedef unsigned __int128 W; uint64_t R = uint64_t(Hi) - uint64_t(Lo) + 1;
  T a = vp::in<T>("a"); vp_assume(uint64_t(std::numeric_limits<T>::max()) - uint64_t(a) >= w && (std::numeric_limits<T>::is_signed ? a <= 0 || uint64_t(std::numeric_limits<T>::max() - a) >= w : true));
  once<B, Lo, Hi> e(2); br::uniform_int_distribution<T> d(a, T(uint64_t(a) + w)); T r = d(e);
  uint64_t q = w / R, bs = R / (q + 1), lo = uint64_t(e.x[0]) - Lo, hi = (uint64_t(e.x[1]) - Lo) / bs; W v = W(hi) * R + lo;
  vp_assert(e.over == (hi > q || v > w), "exactly the outputs beyond the range are rejected");
  vp_assert(e.over || uint64_t(r) - uint64_t(a) == uint64_t(v), "each value has one image per bucket of the last draw");
}
#define TW(n, T, B, lo, hi, w) ENTRY(n) { two<T, B, lo, hi>(w); }
TW(q_t32_33, uint64_t, uint32_t, 0, 0xffffffffu, 0x1ffffffffull)
TW(q_t32_1e10, int64_t, uint32_t, 0, 0xffffffffu, 9999999999ull)
TW(q_t32_1e18, uint64_t, uint32_t, 0, 0xffffffffu, 999999999999999999ull)
TW(q_tms_1e10, int64_t, uint32_t, 1, 2147483646, 9999999999ull)
TW(q_tms_32, uint32_t, uint32_t, 1, 2147483646, 0xfffffff0u)
TW(q_t8_1000, int32_t, uint8_t, 0, 255, 999)
