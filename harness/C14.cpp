// vp-bound: every state (solver variables: seeds, seed words or component states) of each listed instance at the listed positions, including the middle of a block; the restored engine's next outputs past one wrap of the state; read with and without further input after the saved state
// vp-assume: a stream is modelled as a sequence of characters and numbers (decimal, default flags); two numbers written without a separator cannot be read back
// vp-opt: all --feas 2000
#include "mock.h"
#include <boost/random/linear_congruential.hpp>
#include <boost/random/inversive_congruential.hpp>
#include <boost/random/additive_combine.hpp>
#include <boost/random/linear_feedback_shift.hpp>
#include <boost/random/taus88.hpp>
#include <boost/random/xor_combine.hpp>
#include <boost/random/mersenne_twister.hpp>
#include <boost/random/subtract_with_carry.hpp>
#include <boost/random/lagged_fibonacci.hpp>
#include <boost/random/discard_block.hpp>
#include <boost/random/shuffle_order.hpp>
#include <boost/random/independent_bits.hpp>
#include <boost/random/mixmax.hpp>
#include <boost/random/splitmix64.hpp>
#include <boost/random/ranlux.hpp>
#include "vp_common.h"
#include "tok.h"
namespace br = boost::random;

template <class E> static void rt(const E &x, int N) {
  for (int last = 0; last < 2; ++last) {
    static vp::tokbuf b; b = vp::tokbuf(); vp::tos os(b); os << x; vp_assert(!os.fail(), "written"); if (!last) { os << ' '; os << 4711u; }
    static E f, e; f = E(); if (last) for (int i = 0; i < 3; ++i) f(); e = x; vp::tis is(b); is >> f; vp_assert(!is.fail(), "read back without failure");
    if (!last) { unsigned t = 0; is >> t; vp_assert(!is.fail() && t == 4711u, "exactly the engine was consumed and the stream stays usable"); } else { while (b.rd < b.n && b.t[b.rd].kind == vp::SP) ++b.rd; vp_assert(b.rd == b.n, "everything written was consumed"); }
    vp_assert(e == f && f == e, "the restored engine is equal");
    for (int i = 0; i < N; ++i) vp_assert(e() == f(), "the restored engine continues like the original"); }
}
template <class E> static void step(E &e, int k) { for (int i = 0; i < k; ++i) e(); }
template <class E, class U> static void ints(int N, std::initializer_list<int> at) { E a0(vp::in<U>("a")); for (int i : at) { E a(a0); step(a, i); rt(a, N); } }
template <class E, int n> static E &words(const char *nm, uint32_t set = 0) { static uint32_t p[n]; for (int i = 0; i < n; ++i) p[i] = vp::in<uint32_t>(nm); if (set) p[1] |= set; uint32_t *f = p; return *new (std::malloc(sizeof(E))) E(f, p + n); }
template <class E, int n> static void tab(int N, int last, uint32_t set = 0) { E &a = words<E, n>("a", set); for (int i = 0; i <= last; ++i) { rt(a, N); a(); } }
typedef br::linear_congruential_engine<uint32_t, 1366, 150889, 714025> KR; typedef br::linear_congruential_engine<uint16_t, 41, 3, 30000> B16; typedef br::linear_congruential_engine<int32_t, 40, 7, 30011> BS; typedef br::linear_congruential_engine<uint64_t, 6364136223846793005ull, 1442695040888963407ull, 0> L64;
ENTRY(q_minstd) { ints<br::minstd_rand, uint32_t>(2, {0}); }
ENTRY(q_minstd0) { ints<br::minstd_rand0, uint32_t>(2, {0}); }
ENTRY(q_kr) { ints<KR, uint32_t>(2, {0}); }
ENTRY(q_b16) { ints<B16, uint16_t>(2, {0, 1}); }
ENTRY(q_signed) { ints<BS, int32_t>(2, {0, 1}); }
ENTRY(q_l64) { ints<L64, uint64_t>(2, {0, 1}); }
ENTRY(q_rand48) { ints<br::rand48, uint32_t>(2, {0, 1}); }
ENTRY(q_inv) { ints<br::inversive_congruential_engine<uint16_t, 7, 4, 13>, uint16_t>(3, {0}); }
ENTRY(q_splitmix) { ints<br::splitmix64, uint64_t>(2, {0, 1}); }
ENTRY(q_lfsr32) { ints<br::linear_feedback_shift_engine<uint32_t, 32, 31, 13, 12>, uint32_t>(3, {0, 1}); }
ENTRY(q_lfsr24) { ints<br::linear_feedback_shift_engine<uint32_t, 24, 23, 5, 9>, uint32_t>(3, {0, 1}); }
ENTRY(q_lfsr64) { ints<br::linear_feedback_shift_engine<uint64_t, 64, 58, 19, 28>, uint64_t>(3, {0, 1}); }
ENTRY(q_taus88) { tab<br::taus88, 3>(3, 1); }
typedef br::linear_feedback_shift_engine<uint32_t, 32, 31, 13, 12> L31; typedef br::linear_feedback_shift_engine<uint32_t, 32, 29, 2, 4> L29;
ENTRY(q_xor) { L31 a(vp::in<uint32_t>("a")); L29 b(vp::in<uint32_t>("b")); typedef br::xor_combine_engine<L31, 3, L29, 7> X; X x(a, b); rt(x, 2); x(); rt(x, 2); }
ENTRY(q_ecuyer) { ints<br::ecuyer1988, uint32_t>(1, {0}); }
typedef br::linear_congruential_engine<uint32_t, 17, 3, 1009> A1; typedef br::linear_congruential_engine<uint32_t, 31, 0, 997> A2;
ENTRY(q_additive) { ints<br::additive_combine_engine<A1, A2>, uint32_t>(2, {0, 1}); }
typedef br::subtract_with_carry_engine<uint32_t, 31, 2, 3> S1; typedef br::subtract_with_carry_engine<uint32_t, 8, 2, 5> S2; typedef br::subtract_with_carry_engine<uint64_t, 33, 1, 2> S3; typedef br::subtract_with_carry_01_engine<float, 24, 1, 3> S5; typedef br::subtract_with_carry_01_engine<double, 48, 1, 2> S6;
ENTRY(q_swc1) { tab<S1, 3>(4, 7); }
ENTRY(q_swc2) { tab<S2, 5>(6, 11); }
ENTRY(q_swc3) { tab<S3, 4>(4, 5); }
ENTRY(q_swc01) { tab<S5, 3>(0, 1); }
ENTRY(q_swc01d) { tab<S6, 4>(2, 1); }
ENTRY(q_ranlux24_base) { tab<br::ranlux24_base, 24>(25, 1); }
ENTRY(q_ranlux48_base) { tab<br::ranlux48_base, 24>(13, 1); }
ENTRY(q_ranlux24) { tab<br::ranlux24, 24>(2, 1); }
ENTRY(q_ranlux3) { br::ranlux3 &a = words<br::ranlux3, 24>("a"); rt(a, 1); a(); rt(a, 1); }
typedef br::lagged_fibonacci_engine<uint32_t, 9, 3, 2> F1; typedef br::lagged_fibonacci_engine<uint64_t, 48, 4, 1> F2; typedef br::lagged_fibonacci_01_engine<double, 48, 3, 1> F3; typedef br::lagged_fibonacci_01_engine<double, 48, 607, 273> F607; typedef br::lagged_fibonacci_01_engine<float, 24, 4, 1> F4;
ENTRY(q_lf9) { tab<F1, 3>(5, 7); }
ENTRY(q_lf48) { tab<F2, 8>(6, 9); }
ENTRY(q_lf01) { tab<F3, 6>(3, 4); }
ENTRY(q_lf01f) { tab<F4, 4>(0, 1); }
ENTRY(q_lf607) { static F607 e(vp::in<uint32_t>("seed", 7, 7)); for (int i : {0, 5, 608}) { static F607 x; x = e; for (int k = 0; k < i; ++k) x(); rt(x, 2); } }
typedef br::mersenne_twister_engine<uint32_t, 8, 3, 2, 3, 0x9au, 3, 0xffu, 2, 0x9du, 4, 0xefu, 5, 1812433253u> MT8;
typedef br::mersenne_twister_engine<uint32_t, 16, 3, 2, 5, 0x9a8b, 5, 0xffff, 3, 0x9d2c, 7, 0xef00, 9, 0x8965> MT16;
typedef br::mersenne_twister_engine<uint32_t, 32, 4, 2, 31, 0x9908b0dfu, 11, 0xffffffffu, 7, 0x9d2c5680u, 15, 0xefc60000u, 18, 1812433253u> MT32;
// vp-opt: q_mt8 --feas 0
// vp-opt: q_mt16 --feas 0
// vp-opt: q_mt32 --feas 0
// vp-opt: q_mt64 --feas 0
// vp-opt: q_mt24 --feas 0
typedef br::mersenne_twister_engine<uint64_t, 64, 3, 1, 31, 0xb5026f5aa96619e9ull, 29, 0x5555555555555555ull, 17, 0x71d67fffeda60000ull, 37, 0xfff7eee000000000ull, 43, 6364136223846793005ull> MT64;
typedef br::mersenne_twister_engine<uint32_t, 24, 5, 3, 9, 0x9a8b7cu, 7, 0xffffffu, 5, 0x9d2c50u, 9, 0xef6000u, 11, 1812433253u> MT24;
ENTRY(q_mt8) { tab<MT8, 3>(7, 7, 8); }
ENTRY(q_mt16) { tab<MT16, 3>(7, 7, 8); }
ENTRY(q_mt32) { tab<MT32, 4>(9, 9, 8); }
ENTRY(q_mt64) { tab<MT64, 6>(7, 7, 8); }
ENTRY(q_mt24) { tab<MT24, 5>(7, 7, 8); }
// the shipped parameters, from the default state at positions through one block
template <class E> static void big(std::initializer_list<int> at) { static E e; int p = 0; for (int i : at) { while (p < i) { e(); ++p; } static vp::tokbuf b; b = vp::tokbuf(); vp::tos os(b); os << e; static E f; f = E(1u); vp::tis is(b); is >> f; vp_assert(!is.fail(), "read back"); vp_assert(e == f, "the restored engine is equal"); static E g; g = e; for (int k = 0; k < 630; ++k) vp_assert(g() == f(), "the restored engine continues like the original"); } }
ENTRY(q_mt19937) { big<br::mt19937>({0, 1, 300, 623, 624, 625}); }
ENTRY(q_mt19937_64) { big<br::mt19937_64>({0, 5, 311, 312}); }
ENTRY(q_mt11213b) { big<br::mt11213b>({0, 5, 351}); }
static const uint64_t M61 = (uint64_t(1) << 61) - 1;
static bool load_mm(br::mixmax &e, int counter, uint64_t sum, const uint64_t *v) { static vp::tokbuf b; b = vp::tokbuf(); b.uns(17); b.chr(' '); b.uns(counter); b.chr(' '); b.uns(sum); for (int i = 0; i < 17; ++i) { b.chr(' '); b.uns(v[i]); } b.chr(' '); vp::tis is(b); is >> e; return !is.fail(); }
// vp-opt: q_mixmax --nomerge
ENTRY(q_mixmax) { uint64_t v[17], t = 0; for (int i = 0; i < 17; ++i) { v[i] = i == 2 || i == 9 ? vp::in<uint64_t>("v", 0, M61) : 777 + i; t += v[i] == M61 ? 0 : v[i]; if (t >= M61) t -= M61; } for (int c : {1, 16, 17}) { static br::mixmax e; if (!load_mm(e, c, t, v)) vp_end(); rt(e, 2); } }
// adaptors with buffered values and counters
typedef br::discard_block_engine<KR, 5, 2> D1; typedef br::discard_block_engine<S1, 3, 2> D2; typedef br::shuffle_order_engine<KR, 3> H1; typedef br::shuffle_order_engine<L31, 4> H2; typedef br::shuffle_order_engine<L64, 2> H3; typedef br::independent_bits_engine<L31, 17, uint32_t> I1; typedef br::independent_bits_engine<br::rand48, 40, uint64_t> I2;
ENTRY(q_discard) { ints<D1, uint32_t>(3, {0, 1, 2, 3}); }
ENTRY(q_discard2) { tab<D2, 3>(4, 3); }
ENTRY(q_shuffle) { ints<H1, uint32_t>(1, {0, 1}); }
ENTRY(q_shuffle2) { ints<H2, uint32_t>(2, {0, 1, 2}); }
ENTRY(q_shuffle3) { ints<H3, uint64_t>(1, {0, 1}); }
ENTRY(q_kreutzer) { br::kreutzer1986 e(vp::in<uint32_t>("seed")); rt(e, 0); }
ENTRY(q_ind) { ints<I1, uint32_t>(2, {0, 1}); ints<I2, uint32_t>(1, {0, 1}); }
// bad input: a failed extraction sets failbit
template <class E> static void bad() { static vp::tokbuf b; E e; { b = vp::tokbuf(); vp::tis is(b); is >> e; vp_assert(is.fail(), "nothing to read"); } { b = vp::tokbuf(); b.chr('x'); vp::tis is(b); is >> e; vp_assert(is.fail(), "not a number"); } }
ENTRY(q_bad) { bad<br::minstd_rand>(); bad<KR>(); bad<L31>(); bad<S1>(); bad<F1>(); bad<MT8>(); bad<br::splitmix64>(); bad<D1>(); bad<H1>(); bad<I1>(); bad<br::taus88>(); bad<br::ecuyer1988>(); }
