// C27: generation, seeding and discarding without undefined behaviour (the compiler's own checks are the assertions)
// vp-flags: -fsanitize=signed-integer-overflow,shift,integer-divide-by-zero,float-cast-overflow -fsanitize-trap=all
// vp-bound: every seed, draw and parameter of the listed instances (solver variables), up to the stated number of steps; the checks of the compiler for signed overflow, shifts, division by zero and float-to-integer conversion, the library's BOOST_ASSERTs and the executor's bounds checks
// vp-opt: all --feas 500 --oblig 60
// vp-opt: q_geo.* --feas 0 --nomerge
// vp-opt: q_poi.* --feas 0 --nomerge
// vp-opt: q_bin.* --feas 0 --nomerge
#include "mock.h"
#include <boost/random/linear_congruential.hpp>
#include <boost/random/inversive_congruential.hpp>
#include <boost/random/additive_combine.hpp>
#include <boost/random/linear_feedback_shift.hpp>
#include <boost/random/taus88.hpp>
#include <boost/random/xor_combine.hpp>
#include <boost/random/mersenne_twister.hpp>
#include <boost/random/subtract_with_carry.hpp>
#include <boost/random/lagged_fibonacci.hpp>
#include <boost/random/discard_block.hpp>
#include <boost/random/shuffle_order.hpp>
#include <boost/random/independent_bits.hpp>
#include <boost/random/ranlux.hpp>
#include <boost/random/mixmax.hpp>
#include <boost/random/splitmix64.hpp>
#include <boost/random/uniform_smallint.hpp>
#include <boost/random/uniform_int_distribution.hpp>
#include <boost/random/uniform_real_distribution.hpp>
#include <boost/random/uniform_01.hpp>
#include <boost/random/generate_canonical.hpp>
#include <boost/random/bernoulli_distribution.hpp>
#include <boost/random/binomial_distribution.hpp>
#include <boost/random/geometric_distribution.hpp>
#include <boost/random/poisson_distribution.hpp>
#include <boost/random/normal_distribution.hpp>
#include <boost/random/discrete_distribution.hpp>
#include <boost/random/random_number_generator.hpp>
#include <boost/random/seed_seq.hpp>
#include <boost/random/sobol.hpp>
#include <boost/random/niederreiter_base2.hpp>
#include <boost/random/faure.hpp>
#include "vp_common.h"
namespace br = boost::random;
#define DONE vp_assert(true, "reached without undefined behaviour")
// ---- uniform integers: any target range over any engine type
template <class T, class B> static void ui() { vp::full<B, 2> e; T a = vp::in<T>("a"), b = vp::in<T>("b"); vp_assume(a <= b); br::uniform_int_distribution<T> d(a, b); T r = d(e); vp_assert(r >= a && r <= b, "in range"); }
#define UI(n, T, B) ENTRY(q_ui_##n) { ui<T, B>(); } ENTRY(q_us_##n) { us<T, B>(); }
template <class T, class B> static void us() { vp::full<B, 2> e; T a = vp::in<T>("a"), b = vp::in<T>("b"); vp_assume(a <= b); br::uniform_smallint<T> d(a, b); T r = d(e); vp_assert(r >= a && r <= b, "in range"); }
UI(i8_i8, int8_t, int8_t)
UI(i16_u16, int16_t, uint16_t)
UI(i32_u32, int, uint32_t)
UI(i32_i32, int, int)
UI(i32_u64, int, uint64_t)
UI(i64_i64, int64_t, int64_t)
UI(u16_i32, uint16_t, int)
// ---- reals from signed engines
template <class R, class B> static void real() { vp::full<B, 2> e; br::uniform_01<R> u; R x = u(e); vp_assert(x >= 0 && x < 1, "in range"); br::uniform_real_distribution<R> d(R(-1), R(3)); R y = d(e); vp_assert(y >= -1 && y < 3, "in range"); }
ENTRY(q_real_i8) { real<double, int8_t>(); }
ENTRY(q_real_i32) { real<double, int>(); }
ENTRY(q_real_i64) { real<double, int64_t>(); }
ENTRY(q_realf_i16) { real<float, int16_t>(); }
template <class R, class B> static void bern() { vp::full<B, 1> e; R p = vp::in<R>("p"); vp_assume(p >= R(0) && p <= R(1)); br::bernoulli_distribution<R> d(p); (void)d(e); DONE; }
ENTRY(q_bern_i8) { bern<double, int8_t>(); }
ENTRY(q_bern_i32) { bern<double, int>(); }
ENTRY(q_bern_i64) { bern<double, int64_t>(); }
ENTRY(q_bern_u32) { bern<float, uint32_t>(); }
ENTRY(q_rng) { vp::full<uint32_t, 1> e; br::random_number_generator<vp::full<uint32_t, 1>, int> g(e); int n = vp::in<int>("n", 1, std::numeric_limits<int>::max()); int r = g(n); vp_assert(r >= 0 && r < n, "in range"); }
// ---- engines: any seed, some steps
template <class E, class S> static void seeded(int n) { S s = vp::in<S>("seed"); E e(s), f; f.seed(s); for (int i = 0; i < n; ++i) (void)e(); DONE; }
#define SD(n, S, k, ...) ENTRY(q_sd_##n) { seeded<__VA_ARGS__, S>(k); }
SD(minstd, uint32_t, 2, br::minstd_rand)
SD(lcg_u16, uint16_t, 2, br::linear_congruential_engine<uint16_t, 65000, 64999, 0>)
SD(lcg_u16m, uint16_t, 2, br::linear_congruential_engine<uint16_t, 65000, 7, 65521>)
SD(lcg_i32, int32_t, 2, br::linear_congruential_engine<int32_t, 16807, 0, 2147483647>)
SD(lcg_i16, int16_t, 2, br::linear_congruential_engine<int16_t, 160, 0, 32749>)
SD(lcg_i8, int8_t, 2, br::linear_congruential_engine<int8_t, 100, 99, 127>)
SD(rand48, uint64_t, 2, br::rand48)
SD(icg16, int16_t, 1, br::inversive_congruential_engine<int16_t, 5, 3, 251>)
SD(ec, uint32_t, 1, br::ecuyer1988)
SD(taus, uint32_t, 2, br::taus88)
SD(lfsr64, uint64_t, 2, br::linear_feedback_shift_engine<uint64_t, 64, 31, 13, 12>)
SD(mt16, uint16_t, 6, br::mersenne_twister_engine<uint16_t, 16, 4, 2, 5, 0xa001u, 5, 0xffff, 3, 0x9d2c, 7, 0xefc6, 6, 62605>)
SD(mt8, uint8_t, 6, br::mersenne_twister_engine<uint8_t, 8, 4, 2, 5, 0xa1, 3, 0xff, 2, 0x2c, 3, 0xc6, 4, 65>)
SD(mt64, uint64_t, 4, br::mersenne_twister_engine<uint64_t, 64, 4, 2, 31, 0xb5026f5aa96619e9ull, 29, 0x5555555555555555ull, 17, 0x71d67fffeda60000ull, 37, 0xfff7eee000000000ull, 43, 6364136223846793005ull>)
SD(swc32, uint32_t, 7, br::subtract_with_carry_engine<uint32_t, 24, 3, 5>)
SD(swc_i32, int32_t, 7, br::subtract_with_carry_engine<int32_t, 24, 3, 5>)
SD(swc48, uint64_t, 7, br::subtract_with_carry_engine<uint64_t, 48, 3, 5>)
SD(lf16, uint16_t, 6, br::lagged_fibonacci_engine<uint16_t, 16, 5, 3>)
SD(lf32, uint32_t, 6, br::lagged_fibonacci_engine<uint32_t, 32, 5, 3>)
SD(split, uint64_t, 2, br::splitmix64)
SD(kreutzer, uint32_t, 1, br::kreutzer1986)
// ---- seeding from words
template <class E> static void words(int n) { uint32_t w[16]; for (int i = 0; i < 16; ++i) w[i] = vp::in<uint32_t>("w"); uint32_t *p = w; E e(p, w + 16); for (int i = 0; i < n; ++i) (void)e(); DONE; }
ENTRY(q_it_minstd) { words<br::minstd_rand>(2); }
ENTRY(q_it_i32) { words<br::linear_congruential_engine<int32_t, 16807, 0, 2147483647> >(2); }
ENTRY(q_it_swc) { words<br::subtract_with_carry_engine<uint64_t, 48, 3, 5> >(6); }
ENTRY(q_it_swci) { words<br::subtract_with_carry_engine<int32_t, 24, 3, 5> >(6); }
ENTRY(q_it_mt16) { words<br::mersenne_twister_engine<uint16_t, 16, 4, 2, 5, 0xa001u, 5, 0xffff, 3, 0x9d2c, 7, 0xefc6, 6, 62605> >(5); }
ENTRY(q_it_taus) { words<br::taus88>(2); }
ENTRY(q_sseq) { uint32_t w[3]; for (int i = 0; i < 3; ++i) w[i] = vp::in<uint32_t>("w"); br::seed_seq s(w, w + 3); uint32_t o[5]; s.generate(o, o + 5); br::minstd_rand e(s); (void)e(); DONE; }
// ---- discarding
template <class E> static void disc(uint64_t n) { E e; e.discard(vp_split(vp_range("n", 64, 0, n), n)); (void)e(); DONE; }
ENTRY(q_disc_i32) { disc<br::linear_congruential_engine<int32_t, 16807, 0, 2147483647> >(20); }
ENTRY(q_disc_i8) { disc<br::linear_congruential_engine<int8_t, 100, 99, 127> >(20); }
ENTRY(q_disc_swc) { disc<br::subtract_with_carry_engine<int32_t, 24, 3, 5> >(20); }
ENTRY(q_disc_big) { br::linear_congruential_engine<int32_t, 16807, 5, 2147483647> e; e.discard(~0ull); (void)e(); br::minstd_rand f; f.discard(0x8000000000000000ull); (void)f(); DONE; }
// ---- adaptors
ENTRY(q_shuffle_i) { const vp::full<int, 12> b; br::shuffle_order_engine<vp::full<int, 12>, 5> e(b); for (int i = 0; i < 3; ++i) (void)e(); DONE; }
ENTRY(q_shuffle_l) { const vp::full<int64_t, 12> b; br::shuffle_order_engine<vp::full<int64_t, 12>, 5> e(b); for (int i = 0; i < 3; ++i) (void)e(); DONE; }
ENTRY(q_indep_i) { const vp::full<int, 6> b; br::independent_bits_engine<vp::full<int, 6>, 48, uint64_t> e(b); (void)e(); const vp::full<int, 6> c; br::independent_bits_engine<vp::full<int, 6>, 16, uint16_t> f(c); (void)f(); DONE; }
ENTRY(q_indep_n) { const vp::eng<int16_t, -300, 700, 8> b; br::independent_bits_engine<vp::eng<int16_t, -300, 700, 8>, 17, uint32_t> e(b); (void)e(); DONE; }
ENTRY(q_indep) { br::independent_bits_engine<br::minstd_rand, 48, uint64_t> e; (void)e(); br::independent_bits_engine<br::linear_congruential_engine<int8_t, 100, 99, 127>, 31, uint32_t> f; (void)f(); DONE; }
// ---- conversions of real values to integers
typedef vp::eng<uint32_t, 0, 0xffffffffu, 1> e1; typedef vp::eng<uint32_t, 0, 0xffffffffu, 2> e2;
ENTRY(q_geo_half) { br::geometric_distribution<int, double> d(0.5); e2 e; (void)d(e); DONE; }
ENTRY(q_geo_1e6) { br::geometric_distribution<int, double> d(1e-6); e1 e; (void)d(e); DONE; }
ENTRY(q_bino_40) { br::binomial_distribution<int, double> d(40, 0.5); e1 e; (void)d(e); DONE; }
ENTRY(q_bino_5) { br::binomial_distribution<int, double> d(5, 0.3); e1 e; (void)d(e); DONE; }
ENTRY(q_poi_4) { br::poisson_distribution<int, double> d(4.0); e1 e; (void)d(e); DONE; }
// ---- integer weights
ENTRY(q_disc_w) { int8_t w[3]; bool pos = false; for (int i = 0; i < 3; ++i) { w[i] = int8_t(vp_split(vp_range("w", 8, 0, 4), 4) * 31); pos |= w[i] > 0; } if (!pos) vp_end(); typedef br::discrete_distribution<int, int8_t> D; D d(w, w + 3); (void)d.probabilities(); DONE; }
// ---- quasi-random
template <class E> static void qr(unsigned d, uint64_t n) { E e(d); e.seed(vp_split(vp_range("n", 64, 0, n), n)); for (unsigned i = 0; i < d + 1; ++i) (void)e(); e.discard(3); (void)e(); DONE; }
ENTRY(q_sobol) { qr<br::sobol>(4, 9); }
ENTRY(q_nied) { qr<br::niederreiter_base2>(4, 9); }
ENTRY(q_faure) { qr<br::faure>(3, 9); }
ENTRY(q_poi_50) { br::poisson_distribution<int, double> d(50.0); e1 e; (void)d(e); DONE; }
ENTRY(q_ui_real) { struct { typedef double result_type; int n; double min BOOST_PREVENT_MACRO_SUBSTITUTION() const { return 0; } double max BOOST_PREVENT_MACRO_SUBSTITUTION() const { return 1; } double operator()() { if (n++) vp_cut("engine draws beyond the stated number"); double x = vp::in<double>("u"); vp_assume(x >= 0 && x < 1); return x; } } e = {0}, f = {0};
  br::uniform_smallint<int> s(-7, 100); int r = s(e); vp_assert(r >= -7 && r <= 100, "in range"); br::uniform_int_distribution<int> d(1, 6); int q = d(f); vp_assert(q >= 1 && q <= 6, "in range"); }
ENTRY(q_norm) { br::normal_distribution<double> d; vp::eng<uint64_t, 0, ~0ull, 1> e; (void)d(e); br::normal_distribution<float> g; e2 f; (void)g(f); DONE; }
ENTRY(q_exp_i32) { br::normal_distribution<double> d; vp::full<int, 2> e; (void)d(e); DONE; }
ENTRY(q_mixmax) { typedef br::mixmax_engine<17, 36, 0> M; uint32_t s = vp::in<uint32_t>("seed"); M e(s); (void)e(); M f(vp::in<uint32_t>("a"), vp::in<uint32_t>("b"), vp::in<uint32_t>("c"), vp::in<uint32_t>("d")); (void)f(); DONE; }
ENTRY(q_lf01) { br::lagged_fibonacci_01_engine<double, 48, 7, 3> e(vp::in<uint32_t>("seed")); for (int i = 0; i < 9; ++i) (void)e(); DONE; }
ENTRY(q_swc01) { br::subtract_with_carry_01_engine<double, 48, 3, 5> e(vp::in<uint32_t>("seed")); for (int i = 0; i < 9; ++i) (void)e(); DONE; }
SD(lfsr16, uint32_t, 2, br::linear_feedback_shift_engine<uint16_t, 16, 13, 5, 4>)
SD(lcg_u8, uint8_t, 2, br::linear_congruential_engine<uint8_t, 250, 3, 251>)
SD(lcg_i64, int64_t, 1, br::linear_congruential_engine<int64_t, 40692, 7, 9223372036854775783ll>)
SD(lcg_u16p, uint16_t, 2, br::linear_congruential_engine<uint16_t, 32765, 32761, 32768>)
SD(lf8, uint8_t, 6, br::lagged_fibonacci_engine<uint8_t, 7, 5, 3>)
SD(swc16, uint16_t, 7, br::subtract_with_carry_engine<uint16_t, 15, 3, 5>)
SD(swc_i16, int16_t, 7, br::subtract_with_carry_engine<int16_t, 14, 3, 5>)
SD(xor16, uint32_t, 2, br::xor_combine_engine<br::linear_feedback_shift_engine<uint16_t, 16, 13, 5, 4>, 0, br::linear_feedback_shift_engine<uint16_t, 16, 12, 3, 2>, 0>)
ENTRY(q_disc_u16) { disc<br::linear_congruential_engine<uint16_t, 65000, 7, 65521> >(20); disc<br::linear_congruential_engine<uint16_t, 65001, 7, 0> >(20); }
ENTRY(q_disc_u16b) { br::linear_congruential_engine<uint16_t, 65001, 7, 0> e; e.discard(~0ull); br::linear_congruential_engine<int16_t, 160, 3, 32749> f; f.discard(~0ull); br::linear_congruential_engine<uint16_t, 65000, 7, 65521> g; g.discard(0x123456789ull); DONE; }
// ---- known: results the integer type cannot hold (see known_findings.json)
struct lastv { typedef uint32_t result_type; static constexpr uint32_t min BOOST_PREVENT_MACRO_SUBSTITUTION() { return 0; } static constexpr uint32_t max BOOST_PREVENT_MACRO_SUBSTITUTION() { return 0xffffffffu; } uint32_t operator()() { return 0x80000000u; } };
ENTRY(k_geo_tiny) { lastv e; br::geometric_distribution<int, double> d(1e-12); (void)d(e); DONE; }
ENTRY(k_poi_huge) { lastv e; br::poisson_distribution<int, double> d(1e12); (void)d(e); DONE; }
