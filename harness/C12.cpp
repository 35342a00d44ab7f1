// vp-bound: linear congruential: every state of each listed instance and the listed step counts (0 to 2^64-1), every step count up to 600 for the narrow ones; subtract-with-carry: every seed word, every position in the lag table and every count up to twice the lag (narrow) or the listed ones (shipped); Mersenne Twister: every state word, positions and counts through three blocks, jump-ahead with the threshold lowered to 3; the remaining engines and adaptors: every state, counts up to 5 (looping) at the listed positions
// vp-flags: -DBOOST_RANDOM_MERSENNE_TWISTER_DISCARD_THRESHOLD=3
// vp-opt: all --feas 2000
// vp-opt: q_mt8 --feas 0
// vp-opt: q_mt8b --feas 0
// vp-opt: q_mt16 --feas 0
// vp-opt: q_mt32 --feas 0
// vp-opt: q_mt8_far --feas 0
// vp-opt: q_mt16_far --feas 0
// vp-opt: q_mt8_jump --feas 0
// vp-opt: q_mt8b_jump --feas 0
// vp-opt: q_mt16_jump --feas 0
#include "mock.h"
#include <boost/random/linear_congruential.hpp>
#include <boost/random/inversive_congruential.hpp>
#include <boost/random/additive_combine.hpp>
#include <boost/random/linear_feedback_shift.hpp>
#include <boost/random/taus88.hpp>
#include <boost/random/xor_combine.hpp>
#include <boost/random/mersenne_twister.hpp>
#include <boost/random/subtract_with_carry.hpp>
#include <boost/random/lagged_fibonacci.hpp>
#include <boost/random/discard_block.hpp>
#include <boost/random/shuffle_order.hpp>
#include <boost/random/independent_bits.hpp>
#include <boost/random/mixmax.hpp>
#include <boost/random/splitmix64.hpp>
#include <boost/random/ranlux.hpp>
#include "vp_common.h"
#include "tok.h"
namespace br = boost::random;
typedef unsigned __int128 W;
// ---- linear congruential: z steps are one affine map, composed here by doubling
constexpr uint64_t mulm(uint64_t a, uint64_t b, uint64_t m, unsigned w) { W p = W(a) * b; return m ? uint64_t(p % m) : uint64_t(p) & (w == 64 ? ~uint64_t(0) : (uint64_t(1) << w) - 1); }
constexpr uint64_t addm(uint64_t a, uint64_t b, uint64_t m, unsigned w) { W p = W(a) + b; return m ? uint64_t(p % m) : uint64_t(p) & (w == 64 ? ~uint64_t(0) : (uint64_t(1) << w) - 1); }
struct aff { uint64_t A, C; };
constexpr aff affine(uint64_t a, uint64_t c, uint64_t m, unsigned w, uint64_t z) { uint64_t A = 1, C = 0; while (z) { if (z & 1) { C = addm(mulm(a, C, m, w), c, m, w); A = mulm(a, A, m, w); } c = addm(mulm(a, c, m, w), c, m, w); a = mulm(a, a, m, w); z >>= 1; } return aff{A, C}; }
// one step of the generator with the composed constants (C07 decides that a step is exact)
template <class T, T a, T c, T m, uint64_t z> static void jump(T x) { typedef br::linear_congruential_engine<T, a, c, m> E; constexpr aff k = affine(a, c, m, sizeof(T) * 8, z); E e; e.seed(x); e.discard(z); br::linear_congruential_engine<T, T(k.A), T(k.C), m> f; T y = 0; if (k.C != 0 || x != 0) { f.seed(x); y = f(); } E g; g.seed(y); vp_assert(e == g, "discard(z) is z steps of the recurrence"); }
template <class T, T a, T c, T m, uint64_t... z> static void lcg() { typedef br::linear_congruential_engine<T, a, c, m> E; T x = vp::in<T>("x", (E::min)(), (E::max)()); (jump<T, a, c, m, z>(x), ...); }
// narrow: against stepping itself
template <class T, T a, T c, T m, int N> static void lcgs() { typedef br::linear_congruential_engine<T, a, c, m> E; T x = vp::in<T>("x", (E::min)(), (E::max)()); E s; s.seed(x); E g(s); for (int z = 0; z < N; ++z) { E e(g); e.discard(uint64_t(z)); vp_assert(e == s, "discard(z) equals z calls"); s(); } }
#define L(n, T, a, c, m) ENTRY(q_lcg_##n) { lcg<T, a, c, m, 1, 2, 3, 5, 64, 1000, 65535, 65536, 2147483646ull, 2147483647ull, 4294967295ull, 4294967296ull, 4294967297ull, 0x123456789abcdefull, 0x8000000000000000ull, ~uint64_t(0)>(); }
L(minstd0, uint32_t, 16807, 0, 2147483647)
L(minstd, uint32_t, 48271, 0, 2147483647)
L(pow32, uint32_t, 1664525u, 1013904223u, 0)
L(pow32e, uint32_t, 69069u, 0, 0)
L(max32, uint32_t, 0xfffffff0u, 0xfffffff1u, 0xfffffffbu)
L(p31, uint32_t, 1103515245u, 12345u, 0x80000000u)
L(kr, uint32_t, 1366, 150889, 714025)
L(ec1, uint32_t, 40014, 0, 2147483563)
L(gcd6, uint32_t, 7, 5, 1000000)
L(pow64, uint64_t, 6364136223846793005ull, 1442695040888963407ull, 0)
L(l48, uint64_t, 0x5DEECE66Dull, 0xB, 1ull << 48)
L(l16, uint16_t, 40961, 4097, 0)
#define LS(n, T, a, c, m, N) ENTRY(q_lcgs_##n) { lcgs<T, a, c, m, N>(); }
LS(a, uint8_t, 5, 3, 0, 40)
LS(b, uint8_t, 7, 3, 11, 26)
LS(c, uint8_t, 13, 0, 31, 40)
LS(d, uint8_t, 10, 7, 27, 30)
LS(e, uint8_t, 37, 5, 180, 20)
LS(f, int8_t, 21, 5, 100, 9)
LS(g, uint8_t, 0, 5, 100, 5)
LS(h, uint8_t, 4, 2, 12, 30)
LS(i, int8_t, 6, 1, 45, 30)
LS(j, uint8_t, 1, 7, 100, 30)
LS(k, uint8_t, 6, 5, 27, 20)
LS(l, uint8_t, 1, 3, 0, 12)
LS(m, uint8_t, 0, 3, 10, 4)
LS(n, uint8_t, 17, 3, 0, 30)
LS(o, uint8_t, 6, 3, 0, 20)
ENTRY(q_rand48) { uint32_t s = vp::in<uint32_t>("seed"); for (uint64_t z : {0ull, 1ull}) { br::rand48 e(s), f(s); e.discard(z); for (uint64_t i = 0; i < z; ++i) f(); vp_assert(e == f, "discard(z) equals z calls"); } }
// ---- every engine against calling it
template <class E> static void same(const E &e0, int z, int more = 2) { static E e, f; e = e0; f = e0; e.discard(uint64_t(z)); for (int i = 0; i < z; ++i) f(); vp_assert(e == f, "discard(n) and n calls leave equal engines"); for (int i = 0; i < more; ++i) vp_assert(e() == f(), "discard(n) and n calls are followed by the same outputs"); }
template <class E, int n> static E &words() { static uint32_t p[n]; for (int i = 0; i < n; ++i) p[i] = vp::in<uint32_t>("w"); uint32_t *f = p; static E e(f, p + n); return e; }
// subtract with carry: at every position
template <class E, int n, int r> static void swc() { E &e = words<E, n>(); for (int pos = 0; pos < r; ++pos) { for (int z = 0; z <= 2 * r + 1; ++z) same(e, z, 1); e(); } }
typedef br::subtract_with_carry_engine<uint32_t, 31, 2, 3> S1; typedef br::subtract_with_carry_engine<uint32_t, 8, 3, 7> S2; typedef br::subtract_with_carry_engine<uint64_t, 33, 4, 5> S3; typedef br::subtract_with_carry_engine<uint32_t, 16, 1, 4> S4;
typedef br::subtract_with_carry_01_engine<float, 24, 1, 3> S5; typedef br::subtract_with_carry_01_engine<double, 48, 2, 4> S6;
ENTRY(q_swc1) { swc<S1, 3, 3>(); }
ENTRY(q_swc2) { swc<S2, 7, 7>(); }
ENTRY(q_swc3) { swc<S3, 10, 5>(); }
ENTRY(q_swc4) { swc<S4, 4, 4>(); }
ENTRY(q_swc5) { swc<S5, 3, 3>(); }
ENTRY(q_swc6) { swc<S6, 8, 4>(); }
template <class E, int n> static void swcbig() { E &e = words<E, n>(); int at = 0; for (int pos : {0, 4, 11, 23}) { while (at < pos) { e(); ++at; } for (int z : {0, 1, 9, 24, 25, 47, 53}) same(e, z, 1); } }
ENTRY(q_ranlux24_base) { swcbig<br::ranlux24_base, 24>(); }
ENTRY(q_ranlux48_base) { swcbig<br::ranlux48_base, 24>(); }
ENTRY(q_ranlux64_base) { swcbig<br::ranlux64_base, 48>(); }
ENTRY(q_ranlux_base_01) { swcbig<br::ranlux_base_01, 24>(); }
// lagged Fibonacci
template <class E, int n, int p> static void lf() { E &e = words<E, n>(); for (int pos = 0; pos < p; ++pos) { for (int z : {0, 1, 2, 5}) same(e, z, 1); e(); } }
typedef br::lagged_fibonacci_engine<uint32_t, 9, 3, 2> F1; typedef br::lagged_fibonacci_engine<uint64_t, 48, 5, 2> F2; typedef br::lagged_fibonacci_01_engine<double, 48, 3, 1> F3;
ENTRY(q_lf9) { lf<F1, 3, 3>(); }
ENTRY(q_lf48) { lf<F2, 10, 5>(); }
ENTRY(q_lf01) { lf<F3, 6, 3>(); }
// Mersenne Twister: loops up to the threshold (3 here), jumps above it
typedef br::mersenne_twister_engine<uint32_t, 8, 3, 2, 3, 0x9au, 3, 0xffu, 2, 0x9du, 4, 0xefu, 5, 1812433253u> MT8;
typedef br::mersenne_twister_engine<uint32_t, 8, 4, 2, 7, 0xc9u, 3, 0xffu, 2, 0x9du, 4, 0xefu, 5, 1812433253u> MT8b;
typedef br::mersenne_twister_engine<uint32_t, 16, 3, 2, 5, 0x9a8b, 5, 0xffff, 3, 0x9d2c, 7, 0xef00, 9, 0x8965> MT16;
typedef br::mersenne_twister_engine<uint32_t, 32, 3, 2, 31, 0x9908b0dfu, 11, 0xffffffffu, 7, 0x9d2c5680u, 15, 0xefc60000u, 18, 1812433253u> MT32;
template <class E, int n> static E &mwords(uint32_t set = 8) { static uint32_t p[n]; for (int i = 0; i < n; ++i) p[i] = vp::in<uint32_t>("w"); p[1] |= set; uint32_t *f = p; static E e(f, p + n); return e; }
template <class E, int n, int N> static void mt() { E &e = mwords<E, n>(); for (int pos = 0; pos <= N; ++pos) { for (int z : {0, 2, 3, 4, 5, 9, 17}) same(e, z, N + 1); e(); } }
template <class E, int n> static void mtz() { E &e = mwords<E, n>(); for (int z : {100, 1000}) same(e, z, 3); }
ENTRY(q_mt8) { mt<MT8, 3, 3>(); }
ENTRY(q_mt8b) { mt<MT8b, 4, 4>(); }
ENTRY(q_mt16) { mt<MT16, 3, 3>(); }
ENTRY(q_mt32) { mt<MT32, 3, 1>(); }
typedef br::mersenne_twister_engine<uint32_t, 24, 5, 1, 9, 0x9a8b7cu, 7, 0xffffffu, 5, 0x9d2c50u, 9, 0xef6000u, 11, 1812433253u> MTm1;
typedef br::mersenne_twister_engine<uint32_t, 16, 4, 3, 0, 0x9a8b, 5, 0xffff, 3, 0x9d2c, 7, 0xef00, 9, 0x8965> MTr0;
template <class E> static void mtk() { static E e(5u), f(5u); e.discard(4); for (int i = 0; i < 4; ++i) f(); vp_assert(e() == f(), "jump-ahead"); }
ENTRY(k_mt_jump_m1) { mtk<MTm1>(); }
ENTRY(k_mt_jump_r0) { mtk<MTr0>(); }
ENTRY(q_mt8_far) { mtz<MT8, 3>(); }
ENTRY(q_mt16_far) { mtz<MT16, 3>(); }
// jumping twice is jumping once: distances nobody can step through
template <class E, int n> static void mtj() { E &e = mwords<E, n>(); for (uint64_t z : {uint64_t(1) << 20, (uint64_t(1) << 33) + 5, ~uint64_t(0) - 77}) { static E a, b; a = e; b = e; a.discard(z); b.discard(z / 3); b.discard(z - z / 3); vp_assert(a == b, "discard(x) after discard(y) is discard(x + y)"); for (int i = 0; i < 3; ++i) vp_assert(a() == b(), "same outputs"); } }
ENTRY(q_mt8_jump) { mtj<MT8, 3>(); }
ENTRY(q_mt8b_jump) { mtj<MT8b, 4>(); }
typedef br::mersenne_twister_engine<uint32_t, 32, 5, 3, 29, 0x9908b0dfu, 11, 0xffffffffu, 7, 0x9d2c5680u, 15, 0xefc60000u, 18, 1812433253u> MT32b;
// vp-opt: q_mt32b_far --feas 0
ENTRY(q_mt32b_far) { mtz<MT32b, 5>(); }
ENTRY(q_mt16_jump) { mtj<MT16, 3>(); }
// ---- the rest
ENTRY(q_inv) { uint8_t s = vp::in<uint8_t>("seed"); typedef br::inversive_congruential_engine<uint8_t, 7, 4, 13> E; E e(s); for (int z : {0, 1, 3}) same(e, z); }
ENTRY(q_ecuyer) { uint32_t s = vp::in<uint32_t>("seed"); br::ecuyer1988 e(s); for (int z : {0, 1, 2}) same(e, z, 0); }
ENTRY(q_ecuyer_small) { typedef br::linear_congruential_engine<uint32_t, 17, 3, 1009> A; typedef br::linear_congruential_engine<uint32_t, 31, 0, 997> B; A a(vp::in<uint32_t>("a", 0, 1008)); B b(vp::in<uint32_t>("b", 1, 996)); typedef br::additive_combine_engine<A, B> E; E e; { vp::tokbuf t; vp::tos os(t); os << a << ' ' << b; vp::tis is(t); is >> e; } for (int z : {0, 1, 2}) same(e, z, 0); }
template <class U, int w, int k, int q, int s> static void lfsr() { br::linear_feedback_shift_engine<U, w, k, q, s> e(vp::in<U>("seed")); for (int z : {0, 1, 2, 5}) same(e, z); }
ENTRY(q_lfsr) { lfsr<uint32_t, 32, 31, 13, 12>(); lfsr<uint64_t, 64, 58, 19, 28>(); lfsr<uint8_t, 8, 7, 1, 5>(); }
ENTRY(q_taus88) { br::taus88 &e = words<br::taus88, 3>(); for (int z : {0, 1, 2, 5}) same(e, z); }
ENTRY(q_xor) { typedef br::linear_feedback_shift_engine<uint32_t, 32, 31, 13, 12> A; typedef br::linear_feedback_shift_engine<uint32_t, 32, 29, 2, 4> B; A a(vp::in<uint32_t>("a")); B b(vp::in<uint32_t>("b")); br::xor_combine_engine<A, 3, B, 7> e(a, b); for (int z : {0, 1, 4}) same(e, z); }
ENTRY(q_splitmix) { br::splitmix64 e(vp::in<uint64_t>("seed")); for (int z : {0, 1, 2, 7}) same(e, z); }
static const uint64_t M61 = (uint64_t(1) << 61) - 1;
static bool load_mm(br::mixmax &e, int counter, uint64_t sum, const uint64_t *v) { static vp::tokbuf b; b = vp::tokbuf(); b.uns(17); b.chr(' '); b.uns(counter); b.chr(' '); b.uns(sum); for (int i = 0; i < 17; ++i) { b.chr(' '); b.uns(v[i]); } b.chr(' '); vp::tis is(b); is >> e; return !is.fail(); }
// vp-opt: q_mixmax --nomerge
ENTRY(q_mixmax) { uint64_t v[17], t = 0; for (int i = 0; i < 17; ++i) { v[i] = i == 2 || i == 9 ? vp::in<uint64_t>("v", 0, M61) : 777 + i; t += v[i] == M61 ? 0 : v[i]; if (t >= M61) t -= M61; } for (int c : {1, 3, 15, 16, 17}) { static br::mixmax e; if (!load_mm(e, c, t, v)) vp_end(); for (int z : {0, 1, 2, 5}) same(e, z, 2); } }
// adaptors over a real base engine whose states are all covered
typedef br::linear_congruential_engine<uint8_t, 37, 5, 0> B8; typedef br::linear_feedback_shift_engine<uint32_t, 32, 31, 13, 12> B32;
template <class E> static void adapt(int steps, std::initializer_list<int> zs) { E e(vp::in<uint32_t>("seed")); for (int i = 0; i < steps; ++i) { for (int z : zs) same(e, z, 1); e(); } }
typedef br::discard_block_engine<B32, 5, 2> D1; typedef br::discard_block_engine<B32, 3, 3> D2; typedef br::shuffle_order_engine<B32, 4> H1; typedef br::independent_bits_engine<B32, 17, uint32_t> I1; typedef br::independent_bits_engine<B32, 33, uint64_t> I2; typedef br::independent_bits_engine<B32, 64, uint64_t> I3;
ENTRY(q_discard_block) { adapt<D1>(5, {0, 1, 2, 3, 5}); adapt<D2>(4, {0, 1, 2, 3, 4}); }
ENTRY(q_shuffle) { adapt<H1>(2, {0, 1, 2}); }
ENTRY(q_independent) { adapt<I1>(2, {0, 1, 3}); adapt<I2>(2, {0, 1, 2}); adapt<I3>(1, {0, 1, 3}); }
