// vp-bound: subtract-with-carry: the four shipped word/lag combinations and narrow ones, every seed word symbolic, outputs through the whole lag and past the wrap; lagged Fibonacci: narrow lags (integer and floating) and the shipped 607-word instance; discard blocks: base outputs symbolic, two blocks; ranlux engines against their own base engine from every seed
#include "mock.h"
#include <boost/random/subtract_with_carry.hpp>
#include <boost/random/lagged_fibonacci.hpp>
#include <boost/random/discard_block.hpp>
#include <boost/random/ranlux.hpp>
#include "vp_common.h"
#include "tok.h"
namespace br = boost::random;
// [rand.eng.sub]
template <class U, int w, int s, int r, int MORE> struct swc {
  U X[r + MORE]; int k; U c; static constexpr U M = U((U(1) << w) - 1);
  void words(const uint32_t *p) { const int K = (w + 31) / 32; for (int i = 0; i < r; ++i) { U v = 0; for (int j = 0; j < K; ++j) v |= U(U(p[K * i + j]) << (32 * j % int(sizeof(U) * 8))); X[i] = v & M; } k = r; c = X[r - 1] == 0; }
  U operator()() { U a = X[k - s], b = X[k - r] + c; bool borrow = a < b; U y = U(a - b) & M; c = borrow; X[k++] = y; return y; }
};
template <class E, class U, int w, int s, int r, int N> static void swcw() {
  const int K = (w + 31) / 32; static uint32_t p[r * K]; for (int i = 0; i < r * K; ++i) p[i] = vp::in<uint32_t>("w");
  static swc<U, w, s, r, N> q; q.words(p); uint32_t *f = p; static E e(f, p + r * K); vp_assert(f == p + r * K, "one group of words per state word");
  for (int i = 0; i < N; ++i) { U y = e(), z = q(); vp_assert(y == z, "subtract-with-carry output"); vp_gen(y, z, q.M); U c = U(vp::state_word(e, -1)), d = q.c; vp_assert(c == d, "carry"); vp_gen(c, d, 1); }
}
#define SWC(n, E, U, w, s, r, N) ENTRY(n) { swcw<E, U, w, s, r, N>(); }
#define COMMA ,
typedef br::subtract_with_carry_engine<uint32_t, 31, 2, 3> S1; typedef br::subtract_with_carry_engine<uint32_t, 8, 3, 7> S2; typedef br::subtract_with_carry_engine<uint64_t, 33, 4, 5> S3; typedef br::subtract_with_carry_engine<uint64_t, 63, 1, 4> S4; typedef br::subtract_with_carry_engine<uint32_t, 16, 5, 6> S5; typedef br::subtract_with_carry_engine<uint64_t, 32, 1, 2> S6;
SWC(q_ranlux24_base, br::ranlux24_base, uint32_t, 24, 10, 24, 30)
SWC(q_ranlux48_base, br::ranlux48_base, uint64_t, 48, 5, 12, 26)
SWC(q_ranlux_base, br::ranlux_base, uint32_t, 24, 10, 24, 26)
SWC(q_ranlux64_base, br::ranlux64_base, uint64_t, 48, 10, 24, 26)
SWC(q_s1, S1, uint32_t, 31, 2, 3, 9)
SWC(q_s2, S2, uint32_t, 8, 3, 7, 16)
SWC(q_s3, S3, uint64_t, 33, 4, 5, 12)
SWC(q_s4, S4, uint64_t, 63, 1, 4, 10)
SWC(q_s5, S5, uint32_t, 16, 5, 6, 14)
SWC(q_s6, S6, uint64_t, 32, 1, 2, 7)
// integer seeding goes through LCG(40014, 0, 2147483563)
template <class E, class U, int w, int s, int r, int N> static void swci() {
  const int K = (w + 31) / 32; static uint32_t p[r * K]; U v = vp::in<U>("seed"); uint32_t u = v == 0 ? 19780503u : uint32_t(v);
  br::linear_congruential_engine<uint32_t, 40014, 0, 2147483563> g(u); for (int i = 0; i < r * K; ++i) p[i] = g();
  static swc<U, w, s, r, N> q; q.words(p); static E e(v); for (int i = 0; i < N; ++i) { U y = e(), z = q(); vp_assert(y == z, "subtract-with-carry output after integer seeding"); vp_gen(y, z, q.M); }
}
ENTRY(q_ranlux24_int) { swci<br::ranlux24_base, uint32_t, 24, 10, 24, 3>(); }
ENTRY(q_ranlux48_int) { swci<br::ranlux48_base, uint64_t, 48, 5, 12, 1>(); }
ENTRY(t_ranlux48_int) { swci<br::ranlux48_base, uint64_t, 48, 5, 12, 3>(); }
ENTRY(q_swc_int) { swci<S3, uint64_t, 33, 4, 5, 4>(); }
ENTRY(q_swc_default) { br::ranlux24_base a, b(19780503u), c(0u); vp_assert(a == b && a == c, "default seed"); br::ranlux48_base d, e(uint64_t(19780503u)); vp_assert(d == e, "default seed"); }
// the floating-point variant: the same recurrence on k / 2^w
template <class E, class F, int w, int s, int r, int N> static void swcf() {
  const int K = (w + 31) / 32; static uint32_t p[r * K]; for (int i = 0; i < r * K; ++i) p[i] = vp::in<uint32_t>("w");
  static swc<uint64_t, w, s, r, N> q; q.words(p); uint32_t *f = p; static E e(f, p + r * K); vp_assert(f == p + r * K, "one group of words per state word");
  F two = 1; for (int i = 0; i < w; ++i) two *= 2;
  for (int i = 0; i < N; ++i) { F x = e(); uint64_t z = q(); vp_assert(x * two == F(z), "floating-point subtract-with-carry output"); vp_assert(x >= 0 && x < 1, "in [0,1)"); vp_genf(x, z, w); }
}
typedef br::subtract_with_carry_01_engine<float, 24, 1, 2> F1; typedef br::subtract_with_carry_01_engine<float, 10, 2, 3> F2; typedef br::subtract_with_carry_01_engine<double, 48, 1, 2> F3; typedef br::subtract_with_carry_01_engine<double, 20, 2, 3> F4;
ENTRY(q_f24) { swcf<F1, float, 24, 1, 2, 3>(); }
ENTRY(q_f10) { swcf<F2, float, 10, 2, 3, 4>(); }
ENTRY(q_f48) { swcf<F3, double, 48, 1, 2, 2>(); }
ENTRY(q_ranlux_base_01) { swcf<br::ranlux_base_01, float, 24, 10, 24, 12>(); }
ENTRY(t_ranlux_base_01) { swcf<br::ranlux_base_01, float, 24, 10, 24, 30>(); }
ENTRY(q_ranlux64_base_01) { swcf<br::ranlux64_base_01, double, 48, 10, 24, 12>(); }
ENTRY(t_ranlux64_base_01) { swcf<br::ranlux64_base_01, double, 48, 10, 24, 30>(); }
ENTRY(q_f20) { swcf<F4, double, 20, 2, 3, 3>(); }
// ---- lagged Fibonacci: x[i] = x[i-p] + x[i-q] mod 2^w
template <class U, int w, int p, int q, int MORE> struct lf {
  U X[p + MORE]; int k; static constexpr U M = w == int(sizeof(U) * 8) ? U(~U(0)) : U((U(1) << (w % int(sizeof(U) * 8))) - 1);
  void words(const uint32_t *v) { const int K = (w + 31) / 32; for (int i = 0; i < p; ++i) { U x = 0; for (int j = 0; j < K; ++j) x |= U(U(v[K * i + j]) << (32 * j % int(sizeof(U) * 8))); X[i] = x & M; } k = p; }
  U operator()() { U x = U(X[k - p] + X[k - q]) & M; X[k++] = x; return x; }
};
template <class U, int w, int p, int q, int N> static void lfw() {
  typedef br::lagged_fibonacci_engine<U, w, p, q> E; const int K = (w + 31) / 32; static uint32_t v[p * K]; for (int i = 0; i < p * K; ++i) v[i] = vp::in<uint32_t>("w");
  static lf<U, w, p, q, N> r; r.words(v); uint32_t *f = v; static E e(f, v + p * K); vp_assert(f == v + p * K, "one group of words per state word");
  for (int i = 0; i < N; ++i) vp_assert(e() == r(), "lagged Fibonacci output");
  U sd = vp::in<U>("seed"); br::minstd_rand0 g(static_cast<uint32_t>(sd)); for (int i = 0; i < p * K; ++i) v[i] = g(); r.words(v); static E h(sd); for (int i = 0; i < 3; ++i) vp_assert(h() == r(), "lagged Fibonacci output after integer seeding");
}
ENTRY(q_lf_32_5_2) { lfw<uint32_t, 32, 5, 2, 13>(); }
ENTRY(q_lf_31_7_6) { lfw<uint32_t, 31, 7, 6, 16>(); }
ENTRY(q_lf_16_4_1) { lfw<uint16_t, 16, 4, 1, 10>(); }
ENTRY(q_lf_48_6_3) { lfw<uint64_t, 48, 6, 3, 14>(); }
ENTRY(q_lf_64_9_4) { lfw<uint64_t, 64, 9, 4, 20>(); }
ENTRY(q_lf_9_3_2) { lfw<uint32_t, 9, 3, 2, 10>(); }
template <class E, class F, int w, int p, int q, int N> static void lff() {
  const int K = (w + 31) / 32; static uint32_t v[p * K]; for (int i = 0; i < p * K; ++i) v[i] = vp::in<uint32_t>("w");
  static lf<uint64_t, w, p, q, N> r; r.words(v); uint32_t *f = v; static E e(f, v + p * K); vp_assert(f == v + p * K, "one group of words per state word");
  F two = 1; for (int i = 0; i < w; ++i) two *= 2;
  for (int i = 0; i < N; ++i) { F x = e(); uint64_t z = r(); vp_assert(x * two == F(z), "floating-point lagged Fibonacci output"); vp_assert(x >= 0 && x < 1, "in [0,1)"); vp_genf(x, z, w); }
}
typedef br::lagged_fibonacci_01_engine<double, 48, 3, 1> LF1;
ENTRY(q_lff_48_3_1) { lff<LF1, double, 48, 3, 1, 3>(); }
template <class E, int p, int q, bool D> static void lfbig(int n0) { // a shipped instance: one output after n0 others, from every state word
  const int K = 2; static uint32_t v[p * K]; for (int i = 0; i < p * K; ++i) v[i] = vp::in<uint32_t>("w");
  static lf<uint64_t, 48, p, q, p + 8> r; r.words(v); uint32_t *f = v; static E e(f, v + p * K); double two = 281474976710656.0;
  for (int i = 0; i < n0; ++i) { e(); r(); }
  for (int i = 0; i < 2; ++i) { double x = e(); uint64_t z = r(); vp_assert(x * two == double(z), "shipped lagged Fibonacci output"); }
}
#define LFB(n, E, p, q, n0) ENTRY(n) { lfbig<E, p, q, true>(n0); }
LFB(q_lf607_0, br::lagged_fibonacci607, 607, 273, 0)
LFB(q_lf607_300, br::lagged_fibonacci607, 607, 273, 300)
LFB(t_lf607_606, br::lagged_fibonacci607, 607, 273, 606)
LFB(t_lf1279_0, br::lagged_fibonacci1279, 1279, 418, 0)
LFB(t_lf1279_1278, br::lagged_fibonacci1279, 1279, 418, 1278)
LFB(t_lf2281_0, br::lagged_fibonacci2281, 2281, 1252, 0)
LFB(t_lf3217_0, br::lagged_fibonacci3217, 3217, 576, 0)
LFB(t_lf4423_0, br::lagged_fibonacci4423, 4423, 2098, 0)
// ---- discard_block: of each block of p outputs of the base, the first r
template <class R, int p, int r> static void db() {
  static R t[4 * p + 4]; for (int i = 0; i < 4 * p + 4; ++i) t[i] = vp::in<R>("base"); typedef vp::tape<R, R(0), R(~R(0))> B; const B b(t, 4 * p + 4);
  br::discard_block_engine<B, p, r> e(b); for (int i = 0; i < 4 * r; ++i) vp_assert(e() == t[(i / r) * p + i % r], "discard_block keeps the first r of each p outputs");
  typedef br::discard_block_engine<B, p, r> D; vp_assert((D::min)() == (B::min)() && (D::max)() == (B::max)(), "bounds of the base"); vp_assert(D::block_size == p && D::used_block == r && D::total_block == p && D::returned_block == r, "block sizes");
}
ENTRY(q_db_5_2) { db<uint32_t, 5, 2>(); }
ENTRY(q_db_3_3) { db<uint32_t, 3, 3>(); }
ENTRY(q_db_4_1) { db<uint64_t, 4, 1>(); }
ENTRY(q_db_7_6) { db<uint16_t, 7, 6>(); }
// the shipped ranlux engines: blocks of their base engine, from the same seed
template <class E, class B, int p, int r, class S> static void rl() {
  S v = vp::in<S>("seed"); static E e(v); static B b(v); int k = 0;
  for (int i = 0; i < r + 3; ++i) { int at = (i / r) * p + i % r; while (k < at) { b(); ++k; } ++k; vp_assert(e() == b(), "ranlux engine: the kept outputs of its base engine"); }
  static E d; static B c; for (int i = 0; i < 3; ++i) vp_assert(d() == c(), "default seed"); vp_assert(E::block_size == p && E::used_block == r, "block sizes");
}
ENTRY(q_ranlux3) { rl<br::ranlux3, br::ranlux_base, 223, 24, uint32_t>(); }
ENTRY(q_ranlux4) { rl<br::ranlux4, br::ranlux_base, 389, 24, uint32_t>(); }
ENTRY(q_ranlux64_3) { rl<br::ranlux64_3, br::ranlux64_base, 223, 24, uint64_t>(); }
ENTRY(q_ranlux64_4) { rl<br::ranlux64_4, br::ranlux64_base, 389, 24, uint64_t>(); }
ENTRY(q_ranlux24) { rl<br::ranlux24, br::ranlux24_base, 223, 23, uint32_t>(); }
ENTRY(q_ranlux48) { rl<br::ranlux48, br::ranlux48_base, 389, 11, uint64_t>(); }
ENTRY(q_ranlux3_01) { rl<br::ranlux3_01, br::ranlux_base_01, 223, 24, uint32_t>(); }
ENTRY(q_ranlux4_01) { rl<br::ranlux4_01, br::ranlux_base_01, 389, 24, uint32_t>(); }
ENTRY(q_ranlux64_3_01) { rl<br::ranlux64_3_01, br::ranlux64_base_01, 223, 24, uint32_t>(); }
ENTRY(q_ranlux64_4_01) { rl<br::ranlux64_4_01, br::ranlux64_base_01, 389, 24, uint32_t>(); }
