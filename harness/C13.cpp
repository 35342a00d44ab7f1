// vp-bound: every pair of states (solver variables: seeds, seed words or component states) of each listed instance at the listed pairs of positions; the stated number of following outputs, past one wrap of the state
// vp-opt: all --feas 2000
#include "mock.h"
#include <boost/random/linear_congruential.hpp>
#include <boost/random/inversive_congruential.hpp>
#include <boost/random/additive_combine.hpp>
#include <boost/random/linear_feedback_shift.hpp>
#include <boost/random/taus88.hpp>
#include <boost/random/xor_combine.hpp>
#include <boost/random/mersenne_twister.hpp>
#include <boost/random/subtract_with_carry.hpp>
#include <boost/random/lagged_fibonacci.hpp>
#include <boost/random/discard_block.hpp>
#include <boost/random/shuffle_order.hpp>
#include <boost/random/independent_bits.hpp>
#include <boost/random/mixmax.hpp>
#include <boost/random/splitmix64.hpp>
#include <boost/random/ranlux.hpp>
#include "vp_common.h"
#include "tok.h"
namespace br = boost::random;
// equal engines: the same outputs; a copy is equal; != is the negation
template <class E> static void pair(const E &x, const E &y, int N) {
  static E e, f; e = x; f = y; vp_assert(e == x && !(e != x), "a copy equals its source"); { E g(x); vp_assert(g == x, "a copy equals its source"); }
  bool eq = e == f; vp_assert((e != f) == !eq, "!= is the negation of =="); vp_assert((f == e) == eq, "== is symmetric");
  if (!eq) return; vp_reach("equal states exist");
  for (int i = 0; i < N; ++i) vp_assert(e() == f(), "equal engines produce equal outputs");
}
template <class E> static void step(E &e, int k) { for (int i = 0; i < k; ++i) e(); }
// seeded with one integer
template <class E, class U> static void ints(int N, std::initializer_list<int> at) { E a0(vp::in<U>("a")), b0(vp::in<U>("b")); for (int i : at) for (int j : at) { E a(a0), b(b0); step(a, i); step(b, j); pair(a, b, N); } }
template <class E, int n> static E &words(const char *nm, uint32_t set = 0) { static uint32_t p[2][n]; static int k = 0; uint32_t *q = p[k++]; for (int i = 0; i < n; ++i) q[i] = vp::in<uint32_t>(nm); if (set) q[1] |= set; uint32_t *f = q; return *new (std::malloc(sizeof(E))) E(f, q + n); }
template <class E, int n> static void tab(int N, std::initializer_list<int> at, uint32_t set = 0) { E &a = words<E, n>("a", set), &b = words<E, n>("b", set); static E x, y; x = a; int xi = 0; for (int i : at) { step(x, i - xi); xi = i; y = b; int yj = 0; for (int j : at) { step(y, j - yj); yj = j; pair(x, y, N); } } }
typedef br::linear_congruential_engine<uint32_t, 1366, 150889, 714025> KR; typedef br::linear_congruential_engine<uint8_t, 37, 5, 0> B8; typedef br::linear_congruential_engine<uint16_t, 41, 3, 30000> B16;
ENTRY(q_lcg8) { ints<B8, uint8_t>(3, {0, 1}); }
ENTRY(q_minstd) { ints<br::minstd_rand, uint32_t>(2, {0}); }
ENTRY(q_kr) { ints<KR, uint32_t>(2, {0}); }
ENTRY(q_rand48) { ints<br::rand48, uint32_t>(2, {0}); }
ENTRY(q_inv) { ints<br::inversive_congruential_engine<uint8_t, 7, 4, 13>, uint8_t>(3, {0}); }
ENTRY(q_splitmix) { ints<br::splitmix64, uint64_t>(2, {0}); }
ENTRY(q_lfsr32) { ints<br::linear_feedback_shift_engine<uint32_t, 32, 31, 13, 12>, uint32_t>(3, {0, 1}); }
ENTRY(q_lfsr24) { ints<br::linear_feedback_shift_engine<uint32_t, 24, 23, 5, 9>, uint32_t>(3, {0, 1}); }
ENTRY(q_lfsr64) { ints<br::linear_feedback_shift_engine<uint64_t, 64, 58, 19, 28>, uint64_t>(3, {0, 1}); }
ENTRY(q_taus88) { tab<br::taus88, 3>(3, {0}); }
typedef br::linear_feedback_shift_engine<uint32_t, 32, 31, 13, 12> L31; typedef br::linear_feedback_shift_engine<uint32_t, 32, 29, 2, 4> L29;
ENTRY(q_xor) { L31 a(vp::in<uint32_t>("a")), c(vp::in<uint32_t>("c")); L29 b(vp::in<uint32_t>("b")), d(vp::in<uint32_t>("d")); typedef br::xor_combine_engine<L31, 3, L29, 7> X; X x(a, b), y(c, d); pair(x, y, 2); }
struct cmp { typedef uint32_t result_type; static constexpr uint32_t modulus = 2147483563u; static constexpr bool has_fixed_range = false; static constexpr uint32_t min BOOST_PREVENT_MACRO_SUBSTITUTION() { return 1; } static constexpr uint32_t max BOOST_PREVENT_MACRO_SUBSTITUTION() { return 2147483562u; } uint32_t s; cmp() : s(1) {} uint32_t operator()() { s = s == 2147483562u ? 1 : s + 1; return s; } friend bool operator==(const cmp &x, const cmp &y) { return x.s == y.s; }
  template <class C, class T> friend std::basic_istream<C, T> &operator>>(std::basic_istream<C, T> &is, cmp &c) { return is >> c.s; } };
struct cmp2 : cmp { static constexpr uint32_t modulus = 2147483399u; static constexpr uint32_t max BOOST_PREVENT_MACRO_SUBSTITUTION() { return 2147483398u; } friend bool operator==(const cmp2 &x, const cmp2 &y) { return x.s == y.s; } };
typedef br::additive_combine_engine<cmp, cmp2> AC;
ENTRY(q_additive) { AC x, y; for (AC *p : {&x, &y}) { vp::tokbuf b; b.uns(vp::in<uint32_t>("s", 1, 2147483562u)); b.chr(' '); b.uns(vp::in<uint32_t>("t", 1, 2147483398u)); vp::tis is(b); is >> *p; vp_assert(!is.fail(), "state read"); } bool eq = x == y; vp_assert((x != y) == !eq, "negation"); AC z(x); vp_assert(z == x, "copy"); if (!eq) vp_end(); vp_reach("equal"); for (int i = 0; i < 2; ++i) vp_assert(x() == y(), "equal engines produce equal outputs"); }
ENTRY(q_ecuyer) { ints<br::ecuyer1988, uint32_t>(1, {0}); }
// table engines, at all pairs of positions
typedef br::subtract_with_carry_engine<uint32_t, 31, 2, 3> S1; typedef br::subtract_with_carry_engine<uint32_t, 8, 2, 5> S2; typedef br::subtract_with_carry_engine<uint64_t, 33, 1, 2> S3; typedef br::subtract_with_carry_01_engine<float, 24, 1, 3> S5;
ENTRY(q_swc1) { tab<S1, 3>(4, {0, 1, 2, 3}); }
ENTRY(q_swc2) { tab<S2, 5>(6, {0, 1, 2, 3, 4, 5}); }
ENTRY(q_swc3) { tab<S3, 4>(3, {0, 1, 2}); }
ENTRY(q_swc01) { tab<S5, 3>(3, {0}); }
typedef br::lagged_fibonacci_engine<uint32_t, 9, 3, 2> F1; typedef br::lagged_fibonacci_engine<uint64_t, 48, 4, 1> F2; typedef br::lagged_fibonacci_01_engine<double, 48, 3, 1> F3;
ENTRY(q_lf9) { tab<F1, 3>(4, {0, 1, 2, 3}); }
ENTRY(q_lf48) { tab<F2, 8>(5, {0, 1, 3, 4}); }
ENTRY(q_lf01) { tab<F3, 6>(3, {0, 1}); }
typedef br::mersenne_twister_engine<uint32_t, 8, 3, 2, 3, 0x9au, 3, 0xffu, 2, 0x9du, 4, 0xefu, 5, 1812433253u> MT8;
typedef br::mersenne_twister_engine<uint32_t, 16, 3, 2, 5, 0x9a8b, 5, 0xffff, 3, 0x9d2c, 7, 0xef00, 9, 0x8965> MT16;
typedef br::mersenne_twister_engine<uint32_t, 32, 4, 2, 31, 0x9908b0dfu, 11, 0xffffffffu, 7, 0x9d2c5680u, 15, 0xefc60000u, 18, 1812433253u> MT32;
// vp-opt: q_mt8 --feas 0
// vp-opt: q_mt16 --feas 0
// vp-opt: q_mt32 --feas 0
ENTRY(q_mt8) { tab<MT8, 3>(4, {1, 2, 3, 4}, 8); }
ENTRY(q_mt16) { tab<MT16, 3>(4, {1, 3, 4}, 8); }
ENTRY(q_mt32) { tab<MT32, 4>(5, {0, 2, 5}, 8); }
// the same logical state at another position: e has advanced i steps, f starts from the words that are then e's state
template <class E, int n, int ND> static void moved(uint32_t set = 0) { E &a = words<E, n>("a", set); static E e, f; for (int i = 0; i <= 2 * ND + 1; ++i) { e = a; step(e, i); static vp::tokbuf b; b = vp::tokbuf(); vp::tos os(b); os << e; vp::tis is(b); is >> f; vp_assert(!is.fail(), "restored"); vp_assert(e == f && f == e, "the same logical state at different positions is equal"); for (int k = 0; k < ND + 1; ++k) { e(); f(); vp_assert(e == f && f == e, "still equal"); } } }
// vp-opt: q_moved_mt8 --feas 0
// vp-opt: q_moved_mt16 --feas 0
// vp-opt: q_moved_mt32 --feas 0
ENTRY(q_moved_mt8) { moved<MT8, 3, 3>(8); }
ENTRY(q_moved_mt16) { moved<MT16, 3, 3>(8); }
ENTRY(q_moved_mt32) { moved<MT32, 4, 4>(8); }
ENTRY(q_moved_swc1) { moved<S1, 3, 3>(); }
ENTRY(q_moved_swc2) { moved<S2, 5, 5>(); }
ENTRY(q_moved_swc3) { moved<S3, 4, 2>(); }
ENTRY(q_ranlux24_base) { tab<br::ranlux24_base, 24>(2, {0, 7}); }
static const uint64_t M61 = (uint64_t(1) << 61) - 1;
static bool load_mm(br::mixmax &e, int counter, uint64_t sum, const uint64_t *v) { static vp::tokbuf b; b = vp::tokbuf(); b.uns(17); b.chr(' '); b.uns(counter); b.chr(' '); b.uns(sum); for (int i = 0; i < 17; ++i) { b.chr(' '); b.uns(v[i]); } b.chr(' '); vp::tis is(b); is >> e; return !is.fail(); }
// vp-opt: q_mixmax --nomerge
ENTRY(q_mixmax) { static br::mixmax x[2][2]; for (int k = 0; k < 2; ++k) { uint64_t v[17], t = 0; for (int i = 0; i < 17; ++i) { v[i] = i == 2 || i == 9 ? vp::in<uint64_t>("v", 0, M61) : 777 + i; t += v[i] == M61 ? 0 : v[i]; if (t >= M61) t -= M61; } for (int c = 0; c < 2; ++c) if (!load_mm(x[k][c], c ? 16 : 17, t, v)) vp_end(); } for (int i = 0; i < 2; ++i) for (int j = 0; j < 2; ++j) pair(x[0][i], x[1][j], 3); }
// adaptors
typedef br::discard_block_engine<B8, 3, 2> D1; typedef br::discard_block_engine<B16, 2, 1> D2; typedef br::shuffle_order_engine<B8, 2> H1; typedef br::shuffle_order_engine<L31, 3> H2; typedef br::independent_bits_engine<L31, 17, uint32_t> I1; typedef br::independent_bits_engine<L31, 33, uint64_t> I2;
ENTRY(q_discard8) { ints<D1, uint8_t>(4, {0, 1, 2, 3}); }
ENTRY(q_discard16) { ints<D2, uint16_t>(3, {0, 1}); }
ENTRY(q_shuffle8) { ints<H1, uint8_t>(3, {0, 1}); }
ENTRY(q_shuffle) { ints<H2, uint32_t>(2, {0, 1}); }
ENTRY(q_ind) { ints<I1, uint32_t>(2, {0, 1}); ints<I2, uint32_t>(1, {0}); }
