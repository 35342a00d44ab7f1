// vp-bound: every seed or seed word of each listed instance (solver variables) and the stated number of outputs (past one wrap of the state); linear congruential: every state in range and one step, so by induction every later output
// vp-opt: all --feas 2000
// vp-opt: q_lcg_small --nomerge
#include "mock.h"
#include <boost/random/linear_congruential.hpp>
#include <boost/random/inversive_congruential.hpp>
#include <boost/random/additive_combine.hpp>
#include <boost/random/linear_feedback_shift.hpp>
#include <boost/random/taus88.hpp>
#include <boost/random/xor_combine.hpp>
#include <boost/random/mersenne_twister.hpp>
#include <boost/random/subtract_with_carry.hpp>
#include <boost/random/lagged_fibonacci.hpp>
#include <boost/random/discard_block.hpp>
#include <boost/random/shuffle_order.hpp>
#include <boost/random/independent_bits.hpp>
#include <boost/random/ranlux.hpp>
#include <boost/random/mixmax.hpp>
#include <boost/random/splitmix64.hpp>
#include "vp_common.h"
#include "tok.h"
namespace br = boost::random;
template <class E> static void outs(E &e, int n) { for (int i = 0; i < n; ++i) { typename E::result_type r = e(); vp_assert(r >= (E::min)() && r <= (E::max)(), "output in [min(), max()]"); } }
// ---- linear congruential: one step from every state in range stays in range
template <class T, T a, T c, T m> static void step() {
  typedef br::linear_congruential_engine<T, a, c, m> E; T lo = (E::min)(), hi = (E::max)(); T x = vp::in<T>("x", lo, hi); E e; e.seed(x); if constexpr (sizeof(T) > 1) { if (vp::state_word(e, 0) != uint64_t(x)) vp_fail("a seed in range is the state"); } T r = e(); vp_assert(r >= lo && r <= hi, "output in [min(), max()]"); if constexpr (sizeof(T) > 1) vp_assert(vp::state_word(e, 0) == uint64_t(r), "the output is the next state");
}
template <class T, T a, T c, T m> static void seeds() { // whatever the seed, the state is in range
  typedef br::linear_congruential_engine<T, a, c, m> E; T s = vp::in<T>("seed"); E e(s), f; f.seed(s); vp_assert(e == f, "constructor and seed agree"); if constexpr (sizeof(T) > 1) { uint64_t v = vp::state_word(e, 0); vp_assert(v >= uint64_t((E::min)()) && v <= uint64_t((E::max)()), "the seeded state is in range"); if (c == 0 && m != 0) vp_assert(v != 0, "a multiplicative generator never starts at zero"); }
}
#define L(n, T, a, c, m) ENTRY(q_lcg_##n) { step<T, a, c, m>(); } ENTRY(q_lcgs_##n) { seeds<T, a, c, m>(); }
L(minstd0, uint32_t, 16807, 0, 2147483647)
L(minstd, uint32_t, 48271, 0, 2147483647)
L(inc, uint32_t, 1664525u, 1013904223u, 0xfffffffbu)
L(pow, uint32_t, 1664525u, 1013904223u, 0)
L(ec1, uint32_t, 40014, 0, 2147483563)
L(ec2, uint32_t, 40692, 0, 2147483399)
L(kr, uint32_t, 1366, 150889, 714025)
L(l8, uint8_t, 250, 0, 251)
L(l8s, int8_t, 100, 99, 127)
L(l8t, int8_t, 45, 0, 127)
L(l16s, int16_t, 160, 0, 32749)
L(l16, uint16_t, 65000, 64999, 65521)
L(l64, uint64_t, 6364136223846793005ull, 1442695040888963407ull, 0)
L(l64m, uint64_t, 48271, 7, 2147483647ull)
ENTRY(q_rand48) { uint64_t s = vp::in<uint64_t>("seed"); br::rand48 e(s); outs(e, 3); uint32_t t = vp::in<uint32_t>("seed32"); e.seed(t); outs(e, 2); }
template <class E> static void lcgit() { typedef typename E::result_type T; uint32_t w[8]; for (int i = 0; i < 8; ++i) w[i] = vp::in<uint32_t>("w"); uint32_t *p = w; E e(p, w + 8); uint64_t v = vp::state_word(e, 0); vp_assert(v >= uint64_t((E::min)()) && v <= uint64_t((E::max)()), "state seeded from words in range"); if ((E::min)() == T(1)) vp_assert(v != 0, "never zero"); }
ENTRY(q_it_minstd) { lcgit<br::minstd_rand>(); }
ENTRY(q_it_kr) { lcgit<br::linear_congruential_engine<uint32_t, 1366, 150889, 714025> >(); }
ENTRY(q_it_pow) { lcgit<br::linear_congruential_engine<uint32_t, 1664525u, 1013904223u, 0> >(); }
// degenerate seeds: multiples of the modulus
ENTRY(q_degenerate) { uint32_t k = vp::in<uint32_t>("k", 0, 2); br::minstd_rand e(k * 2147483647u), f(1u); vp_assert(e == f, "a multiple of the modulus seeds the state 1"); br::minstd_rand d; vp_assert(d == f, "the default seed"); uint32_t w[2] = {0, 0}, *p = w; br::minstd_rand g(p, w + 2); vp_assert(g == f, "zero words seed the state 1"); }
// ---- inversive
template <class T, T a, T b, T p> static void inv() { typedef br::inversive_congruential_engine<T, a, b, p> E; T s = vp::in<T>("seed", T(0), T(~T(0) > T(0) ? T(~T(0)) : T(p))); E e(s), f; f.seed(s); outs(e, 2); f(); f(); vp_assert(e == f, "constructor and seed agree"); }
ENTRY(q_inv251) { inv<uint8_t, 17, 200, 251>(); }
ENTRY(q_inv251_0) { inv<uint8_t, 2, 0, 251>(); }
ENTRY(q_inv13) { inv<uint8_t, 7, 4, 13>(); }
// ---- additive combination, over component outputs
struct c1 { typedef uint32_t result_type; static constexpr uint32_t min BOOST_PREVENT_MACRO_SUBSTITUTION() { return 1; } static constexpr uint32_t max BOOST_PREVENT_MACRO_SUBSTITUTION() { return 2147483562u; } static const uint32_t modulus = 2147483563u; static const bool has_fixed_range = false; uint32_t operator()() { return vp::in<uint32_t>("x", 1, 2147483562u); } };
struct c2 : c1 { static constexpr uint32_t max BOOST_PREVENT_MACRO_SUBSTITUTION() { return 2147483398u; } static const uint32_t modulus = 2147483399u; uint32_t operator()() { return vp::in<uint32_t>("y", 1, 2147483398u); } };
struct c3 : c1 { static constexpr uint32_t max BOOST_PREVENT_MACRO_SUBSTITUTION() { return 30; } static const uint32_t modulus = 31; uint32_t operator()() { return vp::in<uint32_t>("z", 1, 30); } };
ENTRY(q_additive) { br::additive_combine_engine<c1, c2> e; outs(e, 3); br::additive_combine_engine<c1, c3> f; outs(f, 3); }
ENTRY(q_ecuyer) { uint32_t s = vp::in<uint32_t>("seed"); br::ecuyer1988 e(s); vp_assert((br::ecuyer1988::min)() == 1 && (br::ecuyer1988::max)() == 2147483562u, "documented range"); outs(e, 1); }
// ---- shift registers
template <class U, int w, int k, int q, int s> static void lfsr() { typedef br::linear_feedback_shift_engine<U, w, k, q, s> E; U sd = vp::in<U>("seed"); E e(sd); for (int i = 0; i < 3; ++i) { U r = e(); vp_assert(r >= (E::min)() && r <= (E::max)(), "output in [min(), max()]"); vp_assert((r >> (w - k)) != 0, "the shift register never empties"); } 
  if constexpr (sizeof(U) >= 4) { uint32_t v[2] = {vp::in<uint32_t>("w"), vp::in<uint32_t>("w")}, *p = v; e.seed(p, v + 2); outs(e, 2); } }
#define LF(n, U, w, k, q, s) ENTRY(n) { lfsr<U, w, k, q, s>(); }
LF(q_lf1, uint32_t, 32, 31, 13, 12)
LF(q_lf2, uint32_t, 32, 29, 2, 4)
LF(q_lf3, uint32_t, 32, 28, 3, 17)
LF(q_lf8, uint8_t, 8, 7, 1, 5)
LF(q_lf24, uint32_t, 24, 23, 5, 9)
LF(q_lf64, uint64_t, 64, 58, 19, 28)
LF(q_lf48, uint64_t, 48, 47, 5, 24)
ENTRY(q_taus88) { uint32_t s = vp::in<uint32_t>("seed"); br::taus88 e(s); vp_assert((br::taus88::min)() == 0 && (br::taus88::max)() == 0xffffffffu, "documented range"); outs(e, 3); }
typedef br::xor_combine_engine<vp::full<uint16_t>, 0, vp::full<uint16_t>, 0> XF; typedef vp::eng<uint32_t, 0, 1023> X10; typedef vp::eng<uint32_t, 0, 255> X8;
ENTRY(q_xor) { const vp::full<uint16_t> b; XF e(b, b); outs(e, 3); const X10 x; const X8 y; br::xor_combine_engine<X10, 0, X8, 0> f(x, y); outs(f, 3); }
// pinned: the range of a combination whose components are shifted, or do not fill a power of two
typedef vp::eng<uint32_t, 0, 5> X5; typedef vp::eng<uint32_t, 0, 3> X3;
ENTRY(k_xor_shift) { const X10 x; const X8 y; br::xor_combine_engine<X10, 2, X8, 0> f(x, y); outs(f, 1); }
ENTRY(k_xor_range) { const X5 x; const X3 y; br::xor_combine_engine<X5, 0, X3, 0> f(x, y); outs(f, 1); }
typedef vp::eng<uint32_t, 1, 3> X13;
ENTRY(k_xor_min) { const X13 x; const X13 y; br::xor_combine_engine<X13, 0, X13, 0> f(x, y); outs(f, 1); }
// ---- table-driven engines from every seed word, past one wrap
template <class E, int n, int N> static void words() { static uint32_t p[n]; for (int i = 0; i < n; ++i) p[i] = vp::in<uint32_t>("w"); uint32_t *f = p; static E e(f, p + n); outs(e, N); }
typedef br::mersenne_twister_engine<uint32_t, 24, 5, 3, 9, 0x9a8b7cu, 7, 0xffffffu, 5, 0x9d2c50u, 9, 0xef6000u, 11, 1812433253u> MT24;
typedef br::mersenne_twister_engine<uint64_t, 40, 4, 1, 31, 0xb502656aa9ull, 11, 0x5555555555ull, 9, 0xd67fffeda6ull, 13, 0xf7eee00000ull, 17, 6364136223846793005ull> MT40;
typedef br::mersenne_twister_engine<uint16_t, 16, 3, 1, 5, 0x9a8b, 5, 0xffff, 3, 0x9d2c, 7, 0xef00, 9, 0x8965> MT16;
ENTRY(q_mt24) { words<MT24, 5, 12>(); }
ENTRY(q_mt40) { words<MT40, 8, 10>(); }
ENTRY(q_mt16) { words<MT16, 3, 8>(); }
template <class E, class U> static void mtint(int N) { U s = vp::in<U>("seed"); static E e(s); outs(e, N); }
ENTRY(q_mt24_int) { mtint<MT24, uint32_t>(12); }
ENTRY(q_mt40_int) { mtint<MT40, uint64_t>(10); }
ENTRY(q_mt19937) { vp_assert((br::mt19937::min)() == 0 && (br::mt19937::max)() == 0xffffffffu, "documented range"); static uint32_t z[624], *f = z; static br::mt19937 e(f, z + 624); uint32_t acc = 0; for (int i = 0; i < 700; ++i) acc |= e(); vp_assert(acc != 0, "the all-zero state is replaced"); }
ENTRY(q_mt64) { vp_assert((br::mt19937_64::min)() == 0 && (br::mt19937_64::max)() == ~uint64_t(0), "documented range"); static uint32_t z[624], *f = z; static br::mt19937_64 e(f, z + 624); uint64_t acc = 0; for (int i = 0; i < 400; ++i) acc |= e(); vp_assert(acc != 0, "the all-zero state is replaced"); }
// the integers behind the floating-point engines (C10 decides that they agree): used to restate each output as an integer
template <int w, int p, int q, bool carry, int MORE> struct ints { uint64_t X[p + MORE]; int k; uint64_t c; static constexpr uint64_t M = (uint64_t(1) << w) - 1;
  void words(const uint32_t *v) { const int K = (w + 31) / 32; for (int i = 0; i < p; ++i) { uint64_t x = 0; for (int j = 0; j < K; ++j) x |= uint64_t(v[K * i + j]) << (32 * j); X[i] = x & M; } k = p; c = X[p - 1] == 0; }
  uint64_t operator()() { uint64_t x; if (carry) { uint64_t a = X[k - q], b = X[k - p] + c; c = a < b; x = (a - b) & M; } else x = (X[k - p] + X[k - q]) & M; X[k++] = x; return x; } };
template <class E, int n, int N, int w, int pp, int qq> static void swords() { static uint32_t p[n]; for (int i = 0; i < n; ++i) p[i] = vp::in<uint32_t>("w"); uint32_t *f = p; static E e(f, p + n); static ints<w, pp, qq, true, N> r; r.words(p);
  for (int i = 0; i < N; ++i) { uint64_t x = e(), z = r(); vp_assert(x >= (E::min)() && x <= (E::max)(), "output in [min(), max()]"); if (x == z) vp_gen(x, z, r.M); else vp_cut("not the integer recurrence (C10)"); uint64_t c = vp::state_word(e, -1); vp_assert(c <= 1, "the carry is 0 or 1"); if (c == r.c) vp_gen(c, r.c, 1); else vp_cut("not the integer recurrence (C10)"); } }
typedef br::subtract_with_carry_engine<uint32_t, 31, 2, 3> S1; typedef br::subtract_with_carry_engine<uint32_t, 8, 3, 7> S2; typedef br::subtract_with_carry_engine<uint64_t, 33, 4, 5> S3;
ENTRY(q_swc31) { swords<S1, 3, 9, 31, 3, 2>(); }
ENTRY(q_swc8) { swords<S2, 7, 16, 8, 7, 3>(); }
ENTRY(q_swc33) { swords<S3, 10, 12, 33, 5, 4>(); }
ENTRY(q_ranlux24_base) { swords<br::ranlux24_base, 24, 26, 24, 24, 10>(); }
ENTRY(q_ranlux48_base) { swords<br::ranlux48_base, 24, 14, 48, 12, 5>(); }
// a table of zeros does not stay zero for ever: the carry starts set
ENTRY(q_swc_zero) { static uint32_t p[24]; for (int i = 0; i < 24; ++i) p[i] = vp::in<uint32_t>("w") & 0xff000000u; uint32_t *f = p; static br::ranlux24_base e(f, p + 24); vp_assert(e() == 0xffffffu, "the first borrow"); }
typedef br::lagged_fibonacci_engine<uint32_t, 9, 3, 2> F1; typedef br::lagged_fibonacci_engine<uint64_t, 48, 5, 2> F2; typedef br::lagged_fibonacci_engine<uint32_t, 32, 7, 6> F3;
ENTRY(q_lf_9) { words<F1, 3, 10>(); }
ENTRY(q_lf_48) { words<F2, 10, 12>(); }
ENTRY(q_lf_32) { words<F3, 7, 16>(); }
template <class E, int n, int N, int w, int pp, int qq, bool carry> static void words01() { typedef typename E::result_type F; static uint32_t p[n]; for (int i = 0; i < n; ++i) p[i] = vp::in<uint32_t>("w"); uint32_t *f = p; static E e(f, p + n); static ints<w, pp, qq, carry, N> r; r.words(p); F two = 1; for (int i = 0; i < w; ++i) two *= 2;
  for (int i = 0; i < N; ++i) { F x = e(); uint64_t z = r(); vp_assert(x >= 0 && x < 1, "output in [0, 1)"); vp_assert(x >= (E::min)() && x <= (E::max)(), "output in [min(), max()]"); if (x * two == F(z)) vp_genf(x, z, w); else vp_cut("not the integer recurrence (C10)"); } }
ENTRY(q_f01_48) { words01<br::lagged_fibonacci_01_engine<double, 48, 3, 1>, 6, 4, 48, 3, 1, false>(); }
ENTRY(q_f01_32) { words01<br::lagged_fibonacci_01_engine<double, 32, 4, 2>, 4, 5, 32, 4, 2, false>(); }
ENTRY(q_f01_24) { words01<br::lagged_fibonacci_01_engine<float, 24, 3, 1>, 3, 4, 24, 3, 1, false>(); }
ENTRY(q_s01_24) { words01<br::subtract_with_carry_01_engine<float, 24, 1, 2>, 2, 3, 24, 2, 1, true>(); }
ENTRY(q_s01_48) { words01<br::subtract_with_carry_01_engine<double, 48, 1, 2>, 4, 3, 48, 2, 1, true>(); }
// ---- adaptors, over every output of the base
template <class R, R lo, R hi> struct ad { typedef vp::eng<R, lo, hi, 12> B; };
template <class B, int k> static void shuffle() { const B b; br::shuffle_order_engine<B, k> e(b); outs(e, 4); }
ENTRY(q_shuffle_a) { shuffle<vp::eng<uint32_t, 0, 0xffffffffu, 12>, 4>(); }
ENTRY(q_shuffle_b) { shuffle<vp::eng<uint32_t, 1, 2147483646u, 12>, 5>(); }
ENTRY(q_shuffle_c) { shuffle<vp::eng<int32_t, -7, 12, 12>, 3>(); }
ENTRY(q_shuffle_d) { shuffle<vp::eng<uint8_t, 3, 5, 12>, 2>(); }
ENTRY(q_discard_a) { typedef vp::eng<int32_t, -7, 12, 12> B; const B b; br::discard_block_engine<B, 4, 2> e(b); outs(e, 5); }
ENTRY(q_ind_a) { typedef vp::eng<uint32_t, 1, 2147483646u, 8> B; const B b; br::independent_bits_engine<B, 17, uint32_t> e(b); outs(e, 1); typedef br::independent_bits_engine<B, 64, uint64_t> I; vp_assert((I::min)() == 0 && (I::max)() == ~uint64_t(0), "documented range"); }
ENTRY(q_ind_b) { typedef vp::eng<uint32_t, 0, 999, 8> B; const B b; br::independent_bits_engine<B, 33, uint64_t> e(b); outs(e, 1); typedef br::independent_bits_engine<B, 33, uint64_t> I; vp_assert((I::min)() == 0 && (I::max)() == 0x1ffffffffull, "documented range"); }
ENTRY(q_ind_c) { typedef vp::eng<uint64_t, 0, ~uint64_t(0), 4> B; const B b; br::independent_bits_engine<B, 31, uint32_t> e(b); outs(e, 2); }
typedef br::discard_block_engine<S1, 7, 2> DB1;
ENTRY(q_discard_swc) { words<DB1, 3, 3>(); }
ENTRY(q_splitmix) { uint64_t s = vp::in<uint64_t>("seed"); br::splitmix64 e(s); outs(e, 2); vp_assert((br::splitmix64::min)() == 0 && (br::splitmix64::max)() == ~uint64_t(0), "documented range"); }
static const uint64_t M61 = (uint64_t(1) << 61) - 1;
template <class A> static bool load_mm(br::mixmax &e, int counter, uint64_t sum, const A &v) { static vp::tokbuf b; b.uns(17); b.chr(' '); b.uns(counter); b.chr(' '); b.uns(sum); for (int i = 0; i < 17; ++i) { b.chr(' '); b.uns(v[i]); } b.chr(' '); vp::tis is(b); is >> e; return !is.fail(); }
// vp-opt: q_mixmax --nomerge
ENTRY(q_mixmax) { static uint64_t v[17]; uint64_t t = 0; for (int i = 0; i < 17; ++i) { v[i] = i == 3 || i == 16 ? vp::in<uint64_t>("v", 0, M61) : 1000 + i; uint64_t c = v[i] == M61 ? 0 : v[i]; t += c; if (t >= M61) t -= M61; } static br::mixmax e; if (!load_mm(e, 17, t, v)) vp_end(); outs(e, 17); vp_assert((br::mixmax::min)() == 0 && (br::mixmax::max)() == M61, "documented range"); }
