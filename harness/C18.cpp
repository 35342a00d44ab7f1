// vp-bound: every engine output; range lengths 0..7 as listed; at most the listed number of engine calls (rejections included); element types of 16, 32 and 64 bits
// vp-assume: the chunk taken from each output of an engine whose range is not a power of two is the one documented in DESIGN.md (the largest multiple of 2^b within the range, b reduced by at most log2 of the output width)
// vp-opt: all --feas 2000
#include "mock.h"
#include <boost/random/detail/seed_impl.hpp>
#include <boost/random/linear_congruential.hpp>
#include <boost/random/linear_feedback_shift.hpp>
#include <boost/random/taus88.hpp>
#include <boost/random/mersenne_twister.hpp>
#include <boost/random/subtract_with_carry.hpp>
#include <boost/random/lagged_fibonacci.hpp>
#include <boost/random/discard_block.hpp>
#include <boost/random/shuffle_order.hpp>
#include <boost/random/independent_bits.hpp>
#include <boost/random/inversive_congruential.hpp>
#include <boost/random/additive_combine.hpp>
#include <boost/random/xor_combine.hpp>
#include <boost/random/mixmax.hpp>
#include <boost/random/splitmix64.hpp>
#include <boost/random/ranlux.hpp>
#include "vp_common.h"
namespace br = boost::random;
// The reference: the outputs (minus min, rejected above the largest usable value) supply b bits each, least significant first,
// and the words are filled from the least significant end.  An output is drawn only when a bit of it is needed; bits left over are dropped.
struct bits_ref { int b; uint64_t limit; bool all; };
static bits_ref plan(uint64_t range, int digits) { // range = max - min
  bits_ref r; if (range == ~uint64_t(0)) { r.b = 64; r.limit = range; r.all = true; return r; }
  uint64_t n = range + 1; int L = 0; while (L < 63 && (n >> (L + 1))) ++L; int d = 0; while ((L >> (d + 1))) ++d; uint64_t ex = n >> (L - d); int z = 0; while (!((ex >> z) & 1)) ++z; r.b = L - d + z; r.limit = ((n >> r.b) << r.b) - 1; r.all = r.limit == range; (void)digits; return r; }
template <class G> static void fill(G &g, const bits_ref &pl, uint32_t *out, int n, uint64_t mn) {
  unsigned __int128 acc = 0; int have = 0;
  for (int i = 0; i < n; ++i) { while (have < 32) { uint64_t v; do v = uint64_t(g()) - mn; while (!pl.all && v > pl.limit); if (pl.b < 64) v &= (uint64_t(1) << pl.b) - 1; acc |= (unsigned __int128)v << have; have += pl.b; } out[i] = uint32_t(acc); acc >>= 32; have -= 32; }
}
template <class R, class Out, R Min, R Max, int N> static void run(int n0, int n1) {
  for (int n = n0; n <= n1; ++n) { R draws[N]; for (int i = 0; i < N; ++i) draws[i] = vp::in<R>("draw", Min, Max); typedef vp::tape<R, Min, Max> T; T e(draws, N), f(draws, N);
    Out got[10]; uint32_t want[10]; for (int i = 0; i < 10; ++i) got[i] = Out(0x7a7a7a7au); br::detail::generate(e, got + 1, got + 1 + n); typedef typename std::make_unsigned<R>::type U; fill(f, plan(uint64_t(U(U(Max) - U(Min))), sizeof(R) * 8), want, n, uint64_t(Min));
    for (int i = 0; i < 10; ++i) if (i < 1 || i > n) vp_assert(got[i] == Out(0x7a7a7a7au), "nothing outside the range is written"); for (int i = 0; i < n; ++i) vp_assert(got[i + 1] == Out(want[i]), "the engine's bits in order"); vp_assert(e.n == f.n, "no more engine outputs than needed"); }
}
#define G(n, R, Out, Min, Max, N, a, b) ENTRY(n) { run<R, Out, R(Min), R(Max), N>(a, b); }
G(q_u32, uint32_t, uint32_t, 0, 0xffffffffu, 7, 0, 7)
G(q_u32_16, uint32_t, uint16_t, 0, 0xffffffffu, 4, 0, 4)
G(q_u32_64, uint32_t, uint64_t, 0, 0xffffffffu, 4, 0, 4)
G(q_u64, uint64_t, uint32_t, 0, ~0ull, 4, 0, 7)
G(q_u64_64, uint64_t, uint64_t, 0, ~0ull, 3, 0, 5)
G(q_u16, uint16_t, uint32_t, 0, 0xffff, 8, 0, 4)
G(q_u8, uint8_t, uint32_t, 0, 255, 12, 0, 3)
G(q_i32, int32_t, uint32_t, INT32_MIN, INT32_MAX, 4, 0, 4)
G(q_bits31, uint32_t, uint32_t, 0, 0x7fffffffu, 6, 0, 5)
G(q_bits24, uint32_t, uint32_t, 0, 0xffffffu, 8, 0, 6)
G(q_bits17, uint32_t, uint32_t, 5, 0x20004u, 8, 0, 4)
G(q_bits33, uint64_t, uint32_t, 0, 0x1ffffffffull, 6, 0, 6)
G(q_bits40, uint64_t, uint32_t, 1, 0x10000000000ull, 6, 0, 6)
G(q_bits48, uint64_t, uint32_t, 0, 0xffffffffffffull, 5, 0, 7)
G(q_bits63, uint64_t, uint32_t, 0, 0x7fffffffffffffffull, 5, 0, 7)
G(q_bits32in64, uint64_t, uint32_t, 0, 0xffffffffull, 4, 0, 4)
G(q_signed, int32_t, uint32_t, -100, 923, 8, 0, 2)
G(q_bit1, uint8_t, uint32_t, 0, 1, 40, 0, 1)
G(q_minstd_range, uint32_t, uint32_t, 1, 2147483646u, 4, 0, 2)
G(q_odd, uint32_t, uint32_t, 0, 714024u, 5, 0, 2)
G(q_odd3, uint32_t, uint32_t, 3, 3000000002u, 3, 0, 2)
G(q_odd64, uint64_t, uint32_t, 0, 0xfffffffffffffffeull, 3, 0, 3)
G(q_p61, uint64_t, uint32_t, 0, 0x1ffffffffffffffeull, 3, 0, 3)
// real-valued engines: output * 2^b supplies b bits
template <class R, int B> struct rtape { typedef R result_type; const uint64_t *p; int n, len; rtape(const uint64_t *q, int l) : p(q), n(0), len(l) {} static constexpr std::size_t precision() { return B; } static constexpr R min BOOST_PREVENT_MACRO_SUBSTITUTION() { return 0; } static constexpr R max BOOST_PREVENT_MACRO_SUBSTITUTION() { return 1; }
  R operator()() { if (n >= len) vp_cut("engine draws beyond the stated number"); R m = 1; for (int i = 0; i < B; ++i) m /= 2; return R(p[n++]) * m; } };
struct itape { const uint64_t *p; int n; itape(const uint64_t *q) : p(q), n(0) {} uint64_t operator()() { return p[n++]; } };
namespace boost { namespace random { namespace detail { template <class R, int B> struct generator_bits<rtape<R, B> > { static std::size_t value() { return B; } }; } } }
template <class R, int B, int N> static void real(int n0, int n1) { for (int n = n0; n <= n1; ++n) { uint64_t d[N]; for (int i = 0; i < N; ++i) d[i] = vp::in<uint64_t>("draw", 0, (uint64_t(1) << B) - 1); rtape<R, B> e(d, N); itape f(d); uint32_t got[10], want[10]; for (int i = 0; i < 10; ++i) got[i] = 0x7a7a7a7au; br::detail::generate(e, got + 1, got + 1 + n); bits_ref pl = {B, 0, true}; fill(f, pl, want, n, 0);
  for (int i = 0; i < 10; ++i) if (i < 1 || i > n) vp_assert(got[i] == 0x7a7a7a7au, "nothing outside the range is written"); for (int i = 0; i < n; ++i) vp_assert(got[i + 1] == want[i], "the engine's bits in order"); vp_assert(e.n == f.n, "no more engine outputs than needed"); } }
ENTRY(q_real48) { real<double, 48, 4>(0, 4); }
ENTRY(q_real24) { real<float, 24, 5>(0, 3); }
ENTRY(q_real53) { real<double, 53, 3>(0, 3); }
ENTRY(q_real32) { real<double, 32, 3>(0, 3); }
ENTRY(q_real16) { real<float, 16, 5>(0, 2); }
// the member function of the engines agrees with the same words taken from a copy, and leaves the engine where it should be
template <class E> struct pull { typedef typename E::result_type R; E &e; int n; pull(E &x) : e(x), n(0) {} R operator()() { if (n > 12) vp_cut("engine draws beyond the stated number"); ++n; return e(); } };
template <class E> static void eng(const E &e0, int n0, int n1) { for (int n = n0; n <= n1; ++n) { E e(e0), f(e0); uint32_t got[10], want[10]; for (int i = 0; i < 10; ++i) got[i] = 0x7a7a7a7au; e.generate(got + 1, got + 1 + n); typedef typename std::make_unsigned<typename E::result_type>::type U; pull<E> g(f); fill(g, plan(uint64_t(U(U((e0.max)()) - U((e0.min)()))), 0), want, n, uint64_t((e0.min)()));
  for (int i = 0; i < 10; ++i) if (i < 1 || i > n) vp_assert(got[i] == 0x7a7a7a7au, "nothing outside the range is written"); for (int i = 0; i < n; ++i) vp_assert(got[i + 1] == want[i], "the engine's bits in order"); vp_assert(e == f, "the engine is left where producing the words leaves it"); } }
template <class E, class U> static void seeded(int a, int b) { E e(vp::in<U>("seed")); eng(e, a, b); }
ENTRY(q_e_lfsr) { seeded<br::linear_feedback_shift_engine<uint32_t, 32, 31, 13, 12>, uint32_t>(0, 4); seeded<br::linear_feedback_shift_engine<uint32_t, 24, 23, 5, 9>, uint32_t>(0, 3); seeded<br::linear_feedback_shift_engine<uint64_t, 64, 58, 19, 28>, uint64_t>(0, 5); }
ENTRY(q_e_taus) { seeded<br::taus88, uint32_t>(0, 3); }
ENTRY(q_e_lcg) { seeded<br::linear_congruential_engine<uint64_t, 6364136223846793005ull, 1442695040888963407ull, 0>, uint64_t>(0, 3); seeded<br::linear_congruential_engine<uint64_t, 25214903917ull, 11, uint64_t(1) << 48>, uint64_t>(0, 3); }
ENTRY(q_e_lcgp) { typedef br::linear_congruential_engine<uint32_t, 16807, 0, 2147483647> M; M m(vp::in<uint32_t>("seed", 1, 4000)); eng(m, 0, 0); eng(M(2147483646u), 0, 3); eng(M(1), 0, 7); eng(M(42), 0, 7); }

ENTRY(q_e_mt) { typedef br::mersenne_twister_engine<uint32_t, 32, 4, 2, 31, 0x9908b0dfu, 11, 0xffffffffu, 7, 0x9d2c5680u, 15, 0xefc60000u, 18, 1812433253u> M; uint32_t p[4]; for (int i = 0; i < 4; ++i) p[i] = vp::in<uint32_t>("w"); p[1] |= 8; uint32_t *q = p; M m(q, p + 4); m(); eng(m, 0, 5); }
ENTRY(q_e_swc) { typedef br::subtract_with_carry_engine<uint32_t, 24, 2, 3> S; uint32_t p[3]; for (int i = 0; i < 3; ++i) p[i] = vp::in<uint32_t>("w"); uint32_t *q = p; S s(q, p + 3); eng(s, 0, 4); eng(br::discard_block_engine<S, 5, 2>(s), 0, 3); }
ENTRY(q_e_lf) { typedef br::lagged_fibonacci_engine<uint64_t, 48, 4, 1> F; uint32_t p[8]; for (int i = 0; i < 8; ++i) p[i] = vp::in<uint32_t>("w"); uint32_t *q = p; F s(q, p + 8); eng(s, 0, 6); }
ENTRY(q_e_ib) { typedef br::linear_feedback_shift_engine<uint32_t, 32, 31, 13, 12> L; eng(br::independent_bits_engine<L, 17, uint32_t>(L(vp::in<uint32_t>("seed"))), 0, 3); eng(br::shuffle_order_engine<L, 2>(L(vp::in<uint32_t>("seed"))), 0, 2); eng(br::xor_combine_engine<L, 0, L, 3>(L(vp::in<uint32_t>("a")), L(vp::in<uint32_t>("b"))), 0, 2); }
template <class E> static void shipped(E &e, int n) { static E f; f = e; static uint32_t got[42], want[42]; got[0] = got[n + 1] = 0x7a7a7a7au; e.generate(got + 1, got + 1 + n); typedef typename std::make_unsigned<typename E::result_type>::type U; struct P { E &e; typename E::result_type operator()() { return e(); } } g = {f}; fill(g, plan(uint64_t(U(U((e.max)()) - U((e.min)()))), 0), want, n, uint64_t((e.min)())); for (int i = 0; i < n; ++i) vp_assert(got[i + 1] == want[i], "the engine's bits in order"); vp_assert(got[0] == 0x7a7a7a7au && got[n + 1] == 0x7a7a7a7au, "nothing outside the range is written"); vp_assert(e == f, "the engine is left where producing the words leaves it"); }

ENTRY(q_s_mt19937) { for (int n = 0; n <= 40; n += 5) { static br::mt19937 a; shipped(a, n); } }
ENTRY(q_s_mt19937_64) { for (int n = 0; n <= 40; n += 5) { static br::mt19937_64 a; shipped(a, n); } }
ENTRY(q_s_minstd_rand) { for (int n = 0; n <= 40; n += 5) { static br::minstd_rand a; shipped(a, n); } }
ENTRY(q_s_ecuyer1988) { for (int n = 0; n <= 40; n += 5) { static br::ecuyer1988 a; shipped(a, n); } }
ENTRY(q_s_kreutzer1986) { for (int n = 0; n <= 40; n += 5) { static br::kreutzer1986 a; shipped(a, n); } }
ENTRY(q_s_hellekalek1995) { for (int n = 0; n <= 40; n += 5) { static br::hellekalek1995 a; shipped(a, n); } }
ENTRY(q_s_ranlux24) { for (int n = 0; n <= 40; n += 5) { static br::ranlux24 a; shipped(a, n); } }
ENTRY(q_s_ranlux48) { for (int n = 0; n <= 40; n += 5) { static br::ranlux48 a; shipped(a, n); } }
ENTRY(q_s_mixmax) { for (int n = 0; n <= 40; n += 5) { static br::mixmax a; shipped(a, n); } }
ENTRY(q_s_ranlux4) { for (int n = 0; n <= 40; n += 5) { static br::ranlux4 a; shipped(a, n); } }
// splitmix64 and rand48 have their own generate: element i is the i-th output, converted to the element type
template <class E, class Out, class S> static void split(S s0) { for (int n = 0; n <= 6; ++n) { E e(s0), f(s0); Out got[10]; for (int i = 0; i < 10; ++i) got[i] = Out(0x7a7a7a7au); e.generate(got + 1, got + 1 + n); for (int i = 0; i < n; ++i) vp_assert(got[i + 1] == Out(f()), "element i is the i-th output"); for (int i = 0; i < 10; ++i) if (i < 1 || i > n) vp_assert(got[i] == Out(0x7a7a7a7au), "nothing outside the range is written"); vp_assert(e == f, "the engine is left where producing the words leaves it"); } }
ENTRY(q_e_splitmix) { uint64_t s = vp::in<uint64_t>("seed"); split<br::splitmix64, uint32_t>(s); split<br::splitmix64, uint64_t>(s); split<br::splitmix64, uint16_t>(s); }
ENTRY(q_e_rand48) { uint32_t s = vp::in<uint32_t>("seed"); split<br::rand48, uint32_t>(s); split<br::rand48, uint16_t>(s); split<br::rand48, uint64_t>(s); }
