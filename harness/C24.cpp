// vp-bound: every base output; table sizes 1, 2, 3, 4, 13, 20 (thorough also 97 and 256) and four draws after construction for shuffle_order; base ranges of 8 to 64 bits, offset, signed and not a power of two; at most two rejected base outputs for each call of independent_bits; three steps of the combinations; bases as in the entries
// vp-opt: all --feas 2000
#include "mock.h"
#include <boost/random/shuffle_order.hpp>
#include <boost/random/shuffle_output.hpp>
#include <boost/random/independent_bits.hpp>
#include <boost/random/discard_block.hpp>
#include <boost/random/additive_combine.hpp>
#include <boost/random/xor_combine.hpp>
#include <boost/random/linear_congruential.hpp>
#include "vp_common.h"
namespace br = boost::random;
template <class R> struct uns { typedef typename std::make_unsigned<R>::type type; };
// ---- shuffle_order: X(j) with j = floor(k * (Y - min) / (max - min + 1)); Y becomes X(j), X(j) the next base output
template <class R, R Mn, R Mx, int K> static void shuf(int draws) {
  typedef unsigned __int128 W; static R o[K + 8]; for (int i = 0; i < K + 1 + draws; ++i) o[i] = vp::in<R>("base", Mn, Mx);
  const vp::tape<R, Mn, Mx> b(o, K + 1 + draws); typedef br::shuffle_order_engine<vp::tape<R, Mn, Mx>, K> S; S s(b); vp_assert(s.base().n == K + 1, "construction takes k+1 base outputs");
  vp_assert((S::min)() == Mn && (S::max)() == Mx, "range is the base engine's");
  R v[K]; for (int i = 0; i < K; ++i) v[i] = o[i]; R y = o[K]; const W range = W(typename uns<R>::type(typename uns<R>::type(Mx) - typename uns<R>::type(Mn))) + 1;
  for (int t = 0; t < draws; ++t) {
    W off = W(typename uns<R>::type(typename uns<R>::type(y) - typename uns<R>::type(Mn))) * K; int j = 0; for (int c = 1; c < K; ++c) j += off >= range * c; // floor(off*k/range)
    R e = v[0]; for (int c = 1; c < K; ++c) e = j == c ? v[c] : e; for (int c = 0; c < K; ++c) v[c] = j == c ? o[K + 1 + t] : v[c]; y = e;
    vp_assert(s() == e, "the output is the table entry picked by the previous output"); vp_assert(s.base().n == K + 2 + t, "one base output for each draw");
  }
}
ENTRY(q_shuffle_8) { shuf<uint8_t, 0, 255, 1>(3); shuf<uint8_t, 0, 255, 2>(3); shuf<uint8_t, 0, 255, 3>(3); shuf<uint8_t, 3, 202, 4>(3); }
ENTRY(q_shuffle_16) { shuf<uint16_t, 0, 65535, 4>(3); shuf<uint16_t, 1, 65535, 3>(3); shuf<int16_t, -32768, 32767, 3>(3); shuf<int16_t, -5, 77, 4>(3); }
ENTRY(q_shuffle_32) { shuf<uint32_t, 0, 0xffffffffu, 3>(3); shuf<uint32_t, 1, 2147483562u, 4>(3); shuf<uint32_t, 0, 0xfffffffeu, 2>(3); shuf<uint32_t, 17, 0xffffffffu, 3>(2); }
ENTRY(q_shuffle_s32) { shuf<int32_t, -2147483647 - 1, 2147483647, 3>(3); shuf<int32_t, 1, 2147483646, 4>(2); shuf<int32_t, -100, 7, 3>(3); }
ENTRY(q_shuffle_64) { shuf<uint64_t, 0, 0xffffffffffffffffull, 4>(3); shuf<uint64_t, 0, 0xffffffffffffffffull, 3>(2); shuf<uint64_t, 0, (1ull << 61) - 2, 4>(2); shuf<uint64_t, 5, (1ull << 60), 3>(2); }
ENTRY(q_shuffle_64w) { shuf<uint64_t, 1, 0xffffffffffffffffull, 2>(1); shuf<uint64_t, 0, (1ull << 63) - 1, 3>(1); }
ENTRY(t_shuffle_64x) { shuf<uint64_t, 1, 0xffffffffffffffffull, 4>(2); shuf<uint64_t, 0, 0xfffffffffffffffeull, 3>(1); shuf<uint64_t, 0, 3ull << 62, 3>(1); shuf<int64_t, INT64_MIN, INT64_MAX, 4>(2); }
ENTRY(q_shuffle_more) { shuf<uint32_t, 0, 0xffffffffu, 13>(2); shuf<uint8_t, 0, 255, 20>(1); }
ENTRY(t_shuffle_97) { shuf<uint32_t, 1, 2147483562u, 97>(1); shuf<uint32_t, 0, 714024u, 97>(1); shuf<uint32_t, 0, 0xffffffffu, 256>(1); shuf<uint64_t, 0, 0xffffffffffffffffull, 97>(1); shuf<uint32_t, 0, 0xffffffffu, 97>(1); }
ENTRY(q_shuffle_seed) { // seed(first, last) and seed(x) refill the table from the re-seeded base
  typedef br::linear_congruential_engine<uint32_t, 69069, 1, 0> L; typedef br::shuffle_order_engine<L, 3> S; uint32_t s = vp::in<uint32_t>("seed"); const L l(s); S a(l), b(s), c; c(); c.seed(s); vp_assert(a == b && b == c, "seeding refills the table from the re-seeded base"); L m(s); for (int i = 0; i < 4; ++i) m(); vp_assert(a.base() == m, "k+1 outputs of the base were used"); }
// ---- independent_bits
// the standard's parameters: m = floor(log2 R), n the smallest >= ceil(w/m) with R - y0 <= floor(y0/n), w0 = floor(w/n), n0 = n - w mod n
template <class R, R Mn, R Mx, unsigned w, class U> static void bits(int rejections) {
  typedef unsigned __int128 W; const W Rg = W(typename uns<R>::type(typename uns<R>::type(Mx) - typename uns<R>::type(Mn))) + 1; unsigned m = 0; while ((Rg >> (m + 1)) != 0) ++m;
  unsigned n = (w + m - 1) / m, w0, n0; W y0, y1; for (int k = 0;; ++k) { w0 = w / n; n0 = n - w % n; y0 = (Rg >> w0) << w0; y1 = (Rg >> (w0 + 1)) << (w0 + 1); if (k || Rg - y0 <= y0 / n) break; ++n; }
  enum { T = 12 }; static R o[T + 4]; int len = int(n) + rejections; for (int i = 0; i < len; ++i) o[i] = vp::in<R>("base", Mn, Mx);
  const vp::tape<R, Mn, Mx> b(o, len); typedef br::independent_bits_engine<vp::tape<R, Mn, Mx>, w, U> E; E e(b); vp_assert((E::min)() == 0 && (E::max)() == U(((W(1) << w) - 1)), "range is [0, 2^w - 1]");
  U got = e(); int used = e.base().n;
  // expected: walk the tape with the same standard text
  W S = 0; int p = 0; for (unsigned k = 0; k < n; ++k) { unsigned wk = k < n0 ? w0 : w0 + 1; W lim = k < n0 ? y0 : y1; W u; do { if (p >= len) vp_cut("more rejected base outputs than stated"); u = W(typename uns<R>::type(typename uns<R>::type(o[p]) - typename uns<R>::type(Mn))); ++p; } while (u >= lim); S = (S << wk) + (u & ((W(1) << wk) - 1)); }
  vp_assert(got == U(S), "the bits are the base outputs' low bits in order"); vp_assert(used == p, "exactly the base outputs accepted or rejected were consumed");
}
ENTRY(q_bits_8) { bits<uint8_t, 0, 255, 8, uint8_t>(0); bits<uint8_t, 0, 255, 16, uint16_t>(0); bits<uint8_t, 0, 255, 31, uint32_t>(1); bits<uint8_t, 0, 199, 12, uint16_t>(2); bits<uint8_t, 7, 106, 15, uint32_t>(2); bits<uint8_t, 0, 255, 3, uint32_t>(1); }
ENTRY(q_bits_16) { bits<uint16_t, 0, 65535, 32, uint32_t>(0); bits<uint16_t, 0, 49999, 32, uint32_t>(2); bits<uint16_t, 1, 65535, 63, uint64_t>(2); bits<uint16_t, 0, 65535, 64, uint64_t>(0); bits<uint16_t, 0, 40000, 14, uint64_t>(2); }
ENTRY(q_bits_32) { bits<uint32_t, 0, 0xffffffffu, 32, uint32_t>(0); bits<uint32_t, 0, 0xffffffffu, 64, uint64_t>(0); bits<uint32_t, 1, 2147483646u, 31, uint32_t>(2); bits<uint32_t, 1, 2147483646u, 64, uint64_t>(2); bits<uint32_t, 0, 0xfffffffeu, 24, uint32_t>(2); bits<uint32_t, 1, 2147483646u, 1, uint32_t>(1); bits<uint32_t, 0, 0xffffffffu, 17, uint32_t>(0); }
ENTRY(q_bits_s) { bits<int8_t, -128, 127, 8, uint8_t>(0); bits<int16_t, -100, 99, 9, uint16_t>(2); bits<int32_t, -2147483647 - 1, 2147483647, 48, uint64_t>(0); bits<int32_t, 1, 2147483646, 33, uint64_t>(2); }
ENTRY(q_bits_64) { bits<uint64_t, 0, 0xffffffffffffffffull, 64, uint64_t>(0); bits<uint64_t, 0, 0xffffffffffffffffull, 32, uint32_t>(0); bits<uint64_t, 1, (1ull << 61) - 2, 60, uint64_t>(2); bits<uint64_t, 1, (1ull << 61) - 2, 64, uint64_t>(2); bits<uint64_t, 0, 0xfffffffffffffffeull, 63, uint64_t>(2); bits<uint64_t, 0, (1ull << 48) - 1, 64, uint64_t>(0); bits<int64_t, INT64_MIN, INT64_MAX, 61, uint64_t>(0); }
ENTRY(q_bits_two) { // a second draw starts where the first ended
  static uint16_t o[6]; for (int i = 0; i < 6; ++i) o[i] = vp::in<uint16_t>("base", 0, 49999); const vp::tape<uint16_t, 0, 49999> b(o, 6); typedef br::independent_bits_engine<vp::tape<uint16_t, 0, 49999>, 20, uint32_t> E; E e(b); uint32_t x = e(), z = e(); (void)x; int q = e.base().n; E f(b); f.discard(1); vp_assert(f.base().n <= q, "discard draws"); uint32_t u = f(); vp_assert(u == z && f.base().n == q, "discard(1) skips one value"); }
// ---- combinations: one output of each component per step
struct cnt { static int a, b; }; int cnt::a, cnt::b;
template <uint32_t M> struct mod1 : vp::eng<uint32_t, 1, M - 1, 4> { BOOST_STATIC_CONSTANT(uint32_t, modulus = M); }; template <uint32_t M> const uint32_t mod1<M>::modulus;
static uint32_t ta[4], tb[4];
template <uint32_t M, bool A> struct tp { typedef uint32_t result_type; BOOST_STATIC_CONSTANT(uint32_t, modulus = M); int n; tp() : n(0) {} tp(uint32_t) : n(0) {} static constexpr uint32_t min BOOST_PREVENT_MACRO_SUBSTITUTION() { return 1; } static constexpr uint32_t max BOOST_PREVENT_MACRO_SUBSTITUTION() { return M - 1; }
  uint32_t operator()() { if (A) ++cnt::a; else ++cnt::b; return (A ? ta : tb)[n++]; } void discard(uintmax_t z) { n += (int)z; } };
template <uint32_t M, bool A> const uint32_t tp<M, A>::modulus;
template <uint32_t M1, uint32_t M2> static void addc() { br::additive_combine_engine<tp<M1, true>, tp<M2, false> > e; cnt::a = cnt::b = 0; for (int i = 0; i < 3; ++i) { ta[i] = vp::in<uint32_t>("x", 1, M1 - 1); tb[i] = vp::in<uint32_t>("y", 1, M2 - 1); uint32_t r = e(); int64_t d = int64_t(ta[i]) - int64_t(tb[i]); if (d <= 0) d += M1 - 1; vp_assert(int64_t(r) == d, "(X - Y) mod (m1 - 1), with m1 - 1 in place of 0"); vp_assert(cnt::a == i + 1 && cnt::b == i + 1, "one output of each component"); } }
ENTRY(q_additive) { addc<2147483563u, 2147483399u>(); addc<101, 97>(); addc<101, 101>(); }
ENTRY(q_additive_lcg) { // the same over two linear congruential components
  typedef br::linear_congruential_engine<uint32_t, 40014, 0, 2147483563u> A; typedef br::linear_congruential_engine<uint32_t, 40692, 0, 2147483399u> B; uint32_t s = vp::in<uint32_t>("s1", 1u, 2147483562u), t = vp::in<uint32_t>("s2", 1u, 2147483398u); br::additive_combine_engine<A, B> e(s, t); A a(s); B b(t); for (int i = 0; i < 2; ++i) { uint32_t x = a(), y = b(); int64_t d = int64_t(x) - int64_t(y); if (d <= 0) d += 2147483562; vp_assert(int64_t(e()) == d, "(X - Y) mod (m1 - 1)"); } }
template <int s1, int s2, class R, R M1, R M2> static void xorc() { static R p[4], q[4]; for (int i = 0; i < 3; ++i) { p[i] = vp::in<R>("x", 0, M1); q[i] = vp::in<R>("y", 0, M2); } typedef vp::tape<R, 0, M1> A; typedef vp::tape<R, 0, M2> B; const A a(p, 3); const B b(q, 3); br::xor_combine_engine<A, s1, B, s2> e(a, b); for (int i = 0; i < 3; ++i) { R r = e(); vp_assert(r == R(R(p[i] << s1) ^ R(q[i] << s2)), "(X << s1) xor (Y << s2)"); vp_assert(e.base1().n == i + 1 && e.base2().n == i + 1, "one output of each component"); } }
ENTRY(q_xor) { xorc<0, 0, uint32_t, 0xffffffffu, 0xffffffffu>(); xorc<0, 0, uint64_t, ~0ull, ~0ull>(); xorc<4, 0, uint32_t, 0xffffffu, 0xffffu>(); xorc<0, 7, uint64_t, 0xffffffffull, 0xffffffull>(); xorc<0, 0, uint16_t, 1023, 255>(); }
// ---- discard_block: of each p base outputs the first r are delivered
template <int p, int r> static void disc() { static uint32_t o[40]; for (int i = 0; i < 3 * p; ++i) o[i] = vp::in<uint32_t>("base"); const vp::tape<uint32_t, 0, 0xffffffffu> b(o, 3 * p); br::discard_block_engine<vp::tape<uint32_t, 0, 0xffffffffu>, p, r> e(b); int d = 0; for (int i = 0; i < 3 * r && i < 3 * p; ++i) { uint32_t x = e(); int at = (i / r) * p + i % r; vp_assert(x == o[at], "the first r outputs of each block of p"); vp_assert(e.base().n == at + 1, "no base output is taken early"); (void)d; } }
ENTRY(q_discard_block) { disc<5, 2>(); disc<7, 7>(); disc<1, 1>(); disc<3, 1>(); disc<12, 11>(); }
