// vp-bound: every word value; range lengths 0 .. needed+2 for each small engine (for the 624-word and longer states: 0, 1, needed-1, needed, needed+1, with selected words as variables)
// vp-opt: all --feas 2000
#include "mock.h"
#include <boost/random/linear_congruential.hpp>
#include <boost/random/inversive_congruential.hpp>
#include <boost/random/additive_combine.hpp>
#include <boost/random/linear_feedback_shift.hpp>
#include <boost/random/taus88.hpp>
#include <boost/random/xor_combine.hpp>
#include <boost/random/mersenne_twister.hpp>
#include <boost/random/subtract_with_carry.hpp>
#include <boost/random/lagged_fibonacci.hpp>
#include <boost/random/discard_block.hpp>
#include <boost/random/shuffle_order.hpp>
#include <boost/random/independent_bits.hpp>
#include <boost/random/mixmax.hpp>
#include <boost/random/ranlux.hpp>
#include "vp_common.h"
#include "tok.h"
namespace br = boost::random;
// a seed sequence that hands out given words and records what was asked for
struct seq { typedef uint32_t result_type; const uint32_t *w; int len, calls, asked, skip, cap; seq(const uint32_t *p, int l, int sk) : w(p), len(l), calls(0), asked(0), skip(sk), cap(1) {}
  template <class It> void generate(It a, It b) { ++calls; int n = int(b - a); asked += n; for (int i = 0; i < n; ++i) a[i] = i < skip ? 0xdeadbeefu + i : w[(i - skip) % len]; w += n - skip; }
  size_t size() const { return len; } };
// an input iterator counting what is read from it; reading past the end is a violation
struct src { typedef std::input_iterator_tag iterator_category; typedef uint32_t value_type; typedef std::ptrdiff_t difference_type; typedef const uint32_t *pointer; typedef const uint32_t &reference; const uint32_t *p, *e; src(const uint32_t *a, const uint32_t *b) : p(a), e(b) {}
  uint32_t operator*() const { if (p == e) vp_fail("an element past the end of the range was read"); return *p; } src &operator++() { if (p == e) vp_fail("advanced past the end"); ++p; return *this; } src operator++(int) { src t(*this); ++*this; return t; } bool operator==(const src &o) const { return p == o.p; } bool operator!=(const src &o) const { return p != o.p; } };
// need words are consumed, a shorter range throws std::invalid_argument
template <class E> static void lens(int need) {
  static uint32_t w[40]; for (int i = 0; i < need + 2; ++i) w[i] = vp::in<uint32_t>("w"); int L = (int)vp_split(vp::in<uint32_t>("len", 0u, uint32_t(need + 2)), need + 2); bool ctor = vp_split(vp::in<uint32_t>("ctor", 0u, 1u), 1);
  if (L < need) { vp::may_throw("invalid_argument"); if (ctor) { src a(w, w + L), b(w + L, w + L); E e(a, b); } else { E e; src a(w, w + L), b(w + L, w + L); e.seed(a, b); } vp_fail("a range that is too short was accepted"); }
  if (ctor) { src a(w, w + L), b(w + L, w + L); E e(a, b); vp_assert(a.p == w + need, "exactly the documented number of words was consumed"); src c(w, w + L); E f; f.seed(c, b); vp_assert(e == f, "constructor and seed(first, last) agree"); } else { E e; e(); src a(w, w + L), b(w + L, w + L); e.seed(a, b); vp_assert(a.p == w + need, "exactly the documented number of words was consumed"); }
}
// a seed sequence giving the same words: same state, same number of words, one call per component
template <class E> static void seqs(int need, int skip, int calls, int total) {
  static uint32_t w[40]; for (int i = 0; i < need; ++i) w[i] = vp::in<uint32_t>("w"); src a(w, w + need), b(w + need, w + need); E e(a, b); seq q(w, need, skip); E f(q); vp_assert(q.calls == calls && q.asked == total, "the number of words asked from the seed sequence"); vp_assert(e == f, "the seed sequence gives the same state"); seq r(w, need, skip); E g; g(); g.seed(r); vp_assert(g == e, "seed(seq) agrees with the constructor"); vp_assert(r.calls == calls && r.asked == total, "the number of words asked from the seed sequence");
}
typedef br::linear_congruential_engine<uint32_t, 1366, 150889, 714025> KR; typedef br::linear_congruential_engine<uint64_t, 6364136223846793005ull, 1442695040888963407ull, 0> L64; typedef br::linear_congruential_engine<uint64_t, 25214903917ull, 11, uint64_t(1) << 48> L48; typedef br::linear_congruential_engine<uint64_t, 1181783497276652981ull, 3, (uint64_t(1) << 61) - 1> L61; typedef br::linear_congruential_engine<uint64_t, 16807, 5, 4294967296ull> L32; typedef br::linear_congruential_engine<uint64_t, 16807, 5, 4294967297ull> L33; typedef br::linear_congruential_engine<uint32_t, 69069, 1, 0> L32z;
typedef br::linear_congruential_engine<uint32_t, 16807, 0, 2147483647u> MS;
typedef br::linear_feedback_shift_engine<uint32_t, 32, 31, 13, 12> F31; typedef br::linear_feedback_shift_engine<uint64_t, 64, 58, 19, 28> F64; typedef br::linear_feedback_shift_engine<uint64_t, 40, 37, 5, 9> F40; typedef br::linear_feedback_shift_engine<uint32_t, 24, 23, 5, 9> F24;
typedef br::subtract_with_carry_engine<uint32_t, 31, 2, 3> S1; typedef br::subtract_with_carry_engine<uint64_t, 33, 1, 2> S3; typedef br::subtract_with_carry_engine<uint64_t, 64, 1, 2> S64; typedef br::subtract_with_carry_01_engine<double, 48, 1, 2> S6; typedef br::subtract_with_carry_01_engine<float, 24, 1, 3> S5;
typedef br::lagged_fibonacci_engine<uint32_t, 9, 3, 2> G1; typedef br::lagged_fibonacci_engine<uint64_t, 48, 4, 1> G2; typedef br::lagged_fibonacci_engine<uint64_t, 32, 3, 1> G32; typedef br::lagged_fibonacci_01_engine<double, 48, 3, 1> G3; typedef br::lagged_fibonacci_01_engine<double, 32, 3, 1> G4; typedef br::lagged_fibonacci_01_engine<float, 24, 4, 1> G5;
typedef br::mersenne_twister_engine<uint32_t, 16, 3, 2, 5, 0x9a8b, 5, 0xffff, 3, 0x9d2c, 7, 0xef00, 9, 0x8965> MT16; typedef br::mersenne_twister_engine<uint64_t, 64, 3, 2, 31, 0xb5026f5aa96619e9ull, 29, 0x5555555555555555ull, 17, 0x71d67fffeda60000ull, 37, 0xfff7eee000000000ull, 43, 6364136223846793005ull> MT64; typedef br::mersenne_twister_engine<uint64_t, 33, 3, 2, 7, 0x15026f5aaull, 9, 0x155555555ull, 7, 0x171d67fffull, 11, 0x1fff7eee0ull, 13, 6364136223ull> MT33;
typedef br::discard_block_engine<S1, 5, 2> DB; typedef br::shuffle_order_engine<L33, 2> SO; typedef br::independent_bits_engine<L48, 17, uint32_t> IB; typedef br::xor_combine_engine<F31, 3, F24, 7> XO; typedef br::linear_congruential_engine<uint64_t, 17, 3, 1009> A1; typedef br::additive_combine_engine<A1, br::linear_congruential_engine<uint64_t, 31, 0, 997> > AD; typedef br::additive_combine_engine<L33, L61> AD3;
#define LEN(n, E, need) ENTRY(q_len_##n) { lens<E >(need); }
LEN(kr, KR, 1) LEN(l64, L64, 2) LEN(l48, L48, 2) LEN(l61, L61, 2) LEN(l32, L32, 1) LEN(l33, L33, 2) LEN(l32z, L32z, 1) LEN(minstd, MS, 1) LEN(rand48, br::rand48, 2) LEN(f31, F31, 1) LEN(f64, F64, 2) LEN(f40, F40, 2) LEN(f24, F24, 1) LEN(taus, br::taus88, 3)
LEN(s1, S1, 3) LEN(s3, S3, 4) LEN(s64, S64, 4) LEN(s6, S6, 4) LEN(s5, S5, 3) LEN(g1, G1, 3) LEN(g2, G2, 8) LEN(g32, G32, 3) LEN(g3, G3, 6) LEN(g4, G4, 3) LEN(g5, G5, 4) LEN(mt16, MT16, 3) LEN(mt64, MT64, 6) LEN(mt33, MT33, 6) LEN(db, DB, 3) LEN(so, SO, 2) LEN(ib, IB, 2) LEN(xo, XO, 2) LEN(ad, AD, 2) LEN(ad3, AD3, 4) LEN(inv, br::hellekalek1995, 1) LEN(ecuyer, br::ecuyer1988, 2)
#define SEQ(n, E, need, skip, calls, total) ENTRY(q_seq_##n) { seqs<E >(need, skip, calls, total); }
SEQ(kr, KR, 1, 3, 1, 4) SEQ(l64, L64, 2, 3, 1, 5) SEQ(l48, L48, 2, 3, 1, 5) SEQ(l33, L33, 2, 3, 1, 5) SEQ(l32, L32, 1, 3, 1, 4) SEQ(l32z, L32z, 1, 3, 1, 4) SEQ(f31, F31, 1, 3, 1, 4) SEQ(f64, F64, 2, 3, 1, 5) SEQ(taus, br::taus88, 3, 3, 3, 12) SEQ(s1, S1, 3, 0, 1, 3) SEQ(s3, S3, 4, 0, 1, 4) SEQ(s64, S64, 4, 0, 1, 4) SEQ(s6, S6, 4, 0, 1, 4) SEQ(g1, G1, 3, 0, 1, 3) SEQ(g2, G2, 8, 0, 1, 8) SEQ(g3, G3, 6, 0, 1, 6) SEQ(g4, G4, 3, 0, 1, 3) SEQ(mt16, MT16, 3, 0, 1, 3) SEQ(mt64, MT64, 6, 0, 1, 6) SEQ(mt33, MT33, 6, 0, 1, 6) SEQ(db, DB, 3, 0, 1, 3) SEQ(so, SO, 2, 3, 1, 5) SEQ(ib, IB, 2, 3, 1, 5) SEQ(xo, XO, 2, 3, 2, 8) SEQ(ad, AD, 2, 3, 2, 8)
// every state word is put together from its 32-bit pieces in order
template <class E, int n, int w> static void pieces(int first, int off = 0) { const int k = (w + 31) / 32; static uint32_t p[n * k + 1]; for (int i = 0; i < n * k; ++i) p[i] = vp::in<uint32_t>("w"); p[0] |= 1; p[1] |= 9; src a(p, p + n * k), b(p + n * k, p + n * k); E e(a, b); uint64_t mask = w == 64 ? ~uint64_t(0) : (uint64_t(1) << w) - 1;
  for (int i = first; i < n; ++i) { uint64_t v = p[i * k]; if (k == 2) v |= uint64_t(p[i * k + 1]) << 32; vp_assert(vp::state_word(e, i + off) == (v & mask), "the state word is made of its pieces, least significant first"); } }
ENTRY(q_pieces_mt16) { pieces<MT16, 3, 16>(1); }
ENTRY(q_pieces_mt64) { pieces<MT64, 3, 64>(1); }
ENTRY(q_pieces_mt33) { pieces<MT33, 3, 33>(1); }
ENTRY(q_pieces_s1) { pieces<S1, 3, 31>(0); }
ENTRY(q_pieces_s3) { pieces<S3, 2, 33>(0); }
ENTRY(q_pieces_s64) { pieces<S64, 2, 64>(0); }
ENTRY(q_pieces_g1) { pieces<G1, 3, 9>(0, 1); }
ENTRY(q_pieces_g2) { pieces<G2, 4, 48>(0, 1); }
ENTRY(q_pieces_g32) { pieces<G32, 3, 32>(0, 1); }
template <class E, int n, int w> static void pieces01(int off) { const int k = (w + 31) / 32; static uint32_t p[n * k + 1]; for (int i = 0; i < n * k; ++i) p[i] = vp::in<uint32_t>("w"); src a(p, p + n * k), b(p + n * k, p + n * k); E e(a, b); uint64_t mask = (uint64_t(1) << w) - 1; static vp::tokbuf t; t = vp::tokbuf(); vp::tos os(t); os << e; int j = 0; for (; off; --off) { while (t.t[j].kind < vp::UN) ++j; ++j; }
  for (int i = 0; i < n; ++i) { uint64_t v = p[i * k]; if (k == 2) v |= uint64_t(p[i * k + 1]) << 32; v &= mask; while (t.t[j].kind < vp::UN) ++j; const vp::token &x = t.t[j++]; vp_assert(x.kind == vp::FP ? x.d == double(v) : x.u == v, "the state word is made of its pieces, least significant first"); } }
ENTRY(q_pieces_g3) { pieces01<G3, 3, 48>(1); }
ENTRY(q_pieces_g4) { pieces01<G4, 3, 32>(1); }
ENTRY(q_pieces_s6) { pieces01<S6, 2, 48>(0); }
// engines seeded from one integer: the words are its 32-bit digits, reduced modulo m
template <class E, uint64_t m, bool fix> static void one(int k) { uint32_t p[2]; for (int i = 0; i < k; ++i) p[i] = vp::in<uint32_t>("w"); src a(p, p + k), b(p + k, p + k); E e(a, b); uint64_t v = p[0]; if (k == 2) v |= uint64_t(p[1]) << 32; if (m) v %= m; if (fix && v == 0) v = 1; vp_assert(vp::state_word(e, 0) == v, "the state is the number given by the words, modulo m"); }
ENTRY(q_one_kr) { one<KR, 714025, false>(1); }
ENTRY(q_one_l64) { one<L64, 0, false>(2); }
ENTRY(q_one_l48) { one<L48, uint64_t(1) << 48, false>(2); }
ENTRY(q_one_l32) { one<L32, 4294967296ull, false>(1); }
ENTRY(q_one_l32z) { one<L32z, 0, false>(1); }
ENTRY(q_one_ms) { one<MS, 2147483647u, true>(1); }
ENTRY(q_one_l61) { one<L61, (uint64_t(1) << 61) - 1, false>(2); }
// the shipped large engines
template <class E> static void big(int need) { static uint32_t w[2700]; for (int i = 0; i < need + 2; ++i) w[i] = 0x9e3779b9u * (i + 1); w[0] = vp::in<uint32_t>("w"); w[need - 1] = vp::in<uint32_t>("w"); int c = (int)vp_split(vp::in<uint32_t>("case", 0u, 4u), 4); int L = c == 0 ? 0 : c == 1 ? 1 : need + c - 3; static E e; src a(w, w + L), b(w + L, w + L);
  if (L < need) { vp::may_throw("invalid_argument"); e.seed(a, b); vp_fail("a range that is too short was accepted"); } e.seed(a, b); vp_assert(a.p == w + need, "exactly the documented number of words was consumed"); seq q(w, need, 0); static E f; f.seed(q); vp_assert(q.asked == need && q.calls == 1, "the number of words asked from the seed sequence"); vp_assert(e == f, "the seed sequence gives the same state"); }
ENTRY(q_big_mt19937) { big<br::mt19937>(624); }
ENTRY(q_big_mt11213b) { big<br::mt11213b>(351); }
ENTRY(q_big_mt19937_64) { big<br::mt19937_64>(624); }
ENTRY(q_big_ranlux3) { big<br::ranlux3>(24); }
ENTRY(q_big_ranlux24) { big<br::ranlux24>(24); }
ENTRY(q_big_ranlux48) { big<br::ranlux48>(24); }
ENTRY(q_big_ranlux64_3) { big<br::ranlux64_3_01>(48); }
ENTRY(q_big_lf607) { big<br::lagged_fibonacci607>(1214); }
ENTRY(q_big_lf1279) { big<br::lagged_fibonacci1279>(2558); }
