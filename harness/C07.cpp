// vp-bound: linear congruential: the listed (type, a, c, m) instances, every seed, two steps; const_mod operations: every pair of operands for the listed moduli
// vp-bound: inversive: every value of 8- and 16-bit prime moduli, values below 256 and within 256 of the modulus for 2^31-1; mulmod with 64-bit moduli: listed multipliers and moduli, every operand
// vp-assume: multiplier, increment and operands are already reduced modulo m, as the class requires
// vp-opt: all --feas 30000
#include "mock.h"
#include <boost/random/linear_congruential.hpp>
#include <boost/random/inversive_congruential.hpp>
#include <boost/random/additive_combine.hpp>
#include <boost/random/detail/large_arithmetic.hpp>
#include "vp_common.h"
namespace br = boost::random;
typedef unsigned __int128 W; typedef __int128 SW;
template <class T, uint64_t m> static uint64_t red(T x) { // mathematical x mod m
  if (m == 0) return (typename std::make_unsigned<T>::type)x;
  if (std::is_signed<T>::value) { SW r = SW(x) % SW(m); return uint64_t(r < 0 ? r + SW(m) : r); }
  return uint64_t(x) % m;
}
template <class T, T a, T c, T m> static uint64_t nxt(uint64_t x) {
  typedef typename std::conditional<(sizeof(T) > 4), W, uint64_t>::type P; // wide enough for a*x and for the sum
  if (m == 0) return (typename std::make_unsigned<T>::type)(uint64_t(a) * x + uint64_t(c));
  P t = P(a) * x % P(m) + P(c); return uint64_t(t >= P(m) ? t - P(m) : t); // (a*x + c) mod m for c < m
}
template <class T, T a, T c, T m> static void lcg(bool full_state = true) {
  typedef br::linear_congruential_engine<T, a, c, m> E; T s = vp::in<T>("seed"); E e; uint64_t x;
  if (m == 0 && std::is_signed<T>::value) vp_assume(s >= 0);
  if (full_state) e.seed(s); else { E f(s); e = f; }
  x = red<T, uint64_t(m)>(s); if (c == 0 && x == 0) x = 1;
  x = nxt<T, a, c, m>(x); T r = e(); vp_assert(uint64_t(r) == x, "first output follows the recurrence from the reduced seed");
  x = nxt<T, a, c, m>(uint64_t(r)); r = e(); vp_assert(uint64_t(r) == x, "second output follows the recurrence");
}
#define L(n, T, a, c, m) ENTRY(n) { lcg<T, a, c, m>(); }
L(q_minstd0, uint32_t, 16807, 0, 2147483647)
L(q_minstd, uint32_t, 48271, 0, 2147483647)
L(q_l32_pow, uint32_t, 1664525u, 1013904223u, 0)
L(q_l32_max, uint32_t, 0xfffffffau, 0xfffffff0u, 0xfffffffbu)
L(q_l32_hi, uint32_t, 0x80000001u, 0x80000000u, 0xfffffffbu)
L(q_l32_p31, uint32_t, 1103515245u, 12345u, 0x80000000u)
L(q_l16, uint16_t, 65000, 64999, 65521)
L(q_l16_0, uint16_t, 40961, 4097, 0)
L(q_l16_c, uint16_t, 1366, 0, 30000)
L(q_l8, uint8_t, 250, 249, 251)
L(q_l8s, int8_t, 100, 99, 127)
L(q_l16s, int16_t, 181, 17, 32749)
L(q_l16s2, int16_t, 32700, 17, 32749)
L(q_kr, uint32_t, 1366, 150889, 714025)
L(q_l64_pow, uint64_t, 6364136223846793005ull, 1442695040888963407ull, 0)
L(q_l64_48, uint64_t, 0x5DEECE66Dull, 0xB, 1ull << 48)
// products just below and just above the largest value of the type
L(q_edge32, uint32_t, 65536, 5, 65537)
L(q_edge32_0, uint32_t, 65536, 0, 65537)
L(q_fit32, uint32_t, 65535, 0, 65537)
L(t_fit32_c, uint32_t, 65534, 65536, 65537)
L(q_edge32s, int32_t, 46340, 5, 46343)
L(q_fit32s, int32_t, 46340, 41707, 46340 + 1)
L(q_edge32_c, uint32_t, 3, 1431655764, 1431655765)
L(q_fit64, uint64_t, 0xffffffffull, 3, 0x100000001ull)
L(q_l64_31, uint64_t, 48271, 7, 2147483647ull)
// Schrage's method (signed type, m mod a < m / a) and its general fallback, one step at a time: r = a*x - k*m with 0 <= r < m
template <class T, T a, T m> static void small_k(uint64_t span) {
  typedef typename std::make_unsigned<T>::type U;
  T x = vp::in<T>("x", T(0), T(m - 1)); br::linear_congruential_engine<T, a, 0, m> e; if (x == 0) x = 1; e.seed(x); T r = e();
  vp_assert(r >= 0 && r < m, "in range"); SW d = SW(a) * x - SW(r);
  vp_assert(d >= 0 && U(uint64_t(W(d) % W(m))) == 0, "congruent to a*x");
}
ENTRY(t_schrage32) { small_k<int32_t, 16807, 2147483647>(0); }
ENTRY(t_schrage32b) { small_k<int32_t, 48271, 2147483647>(0); }
ENTRY(q_schrage16) { small_k<int16_t, 160, 32749>(0); }
template <class T, T m> static void ops() { // every pair of operands
  typedef br::const_mod<T, m> M; uint64_t mm = m == 0 ? uint64_t(typename std::make_unsigned<T>::type(~0)) + 1 : uint64_t(m);
  T x = vp::in<T>("x"), y = vp::in<T>("y"), z = vp::in<T>("z"); vp_assume(uint64_t(x) < mm && uint64_t(y) < mm && uint64_t(z) < mm); if (std::is_signed<T>::value) vp_assume(x >= 0 && y >= 0 && z >= 0);
  uint64_t X = x, Y = y, Z = z;
  vp_assert(uint64_t(M::add(x, y)) == (X + Y) % mm, "add"); vp_assert(uint64_t(M::mult(x, y)) == X * Y % mm, "mult");
  vp_assert(uint64_t(M::mult_add(x, y, z)) == (X * Y + Z) % mm, "mult_add"); vp_assert(uint64_t(M::apply(T(x))) == X, "apply is the identity on reduced values");
  T w = vp::in<T>("w"); if (std::is_signed<T>::value) vp_assume(w >= 0); vp_assert(uint64_t(M::apply(w)) == uint64_t(w) % mm, "apply reduces");
}
ENTRY(q_ops251) { ops<uint8_t, 251>(); }
ENTRY(q_ops256) { ops<uint8_t, 0>(); }
ENTRY(q_ops17) { ops<uint8_t, 17>(); }
ENTRY(q_ops13s) { ops<int8_t, 13>(); }
ENTRY(q_ops7) { ops<uint8_t, 7>(); }
ENTRY(q_ops128) { ops<uint8_t, 128>(); }
ENTRY(q_ops127s) { ops<int8_t, 127>(); }
ENTRY(q_ops100s) { ops<int8_t, 100>(); }
ENTRY(q_ops64s) { ops<int8_t, 64>(); }
ENTRY(t_ops1009s) { ops<int16_t, 1009>(); }
ENTRY(t_ops200) { ops<uint16_t, 200>(); }
ENTRY(q_ops32p) { ops<uint32_t, 0x10000>(); }
template <class T, T m> static void addw() { // add with a modulus close to the limit of the type
  typedef br::const_mod<T, m> M; T x = vp::in<T>("x", T(0), T(m - 1)), y = vp::in<T>("y", T(0), T(m - 1));
  vp_assert(W(M::add(x, y)) == (W(x) + W(y) >= W(m) ? W(x) + W(y) - W(m) : W(x) + W(y)), "add");
}
ENTRY(q_add32) { addw<uint32_t, 0xfffffffbu>(); }
ENTRY(q_add32s) { addw<int32_t, 2147483647>(); }
ENTRY(q_add64) { addw<uint64_t, 0xffffffffffffffc5ull>(); }
ENTRY(q_add64s) { addw<int64_t, 0x7fffffffffffffe7ll>(); }
ENTRY(q_add16) { addw<uint16_t, 65521>(); }
template <class T, T m, int N> static void power() {
  typedef br::const_mod<T, m> M; T x = vp::in<T>("x", T(0), T(m - 1)); uint64_t n = vp_range("n", 64, 0, N); n = vp_split(n, N); uint64_t r = 1; for (uint64_t i = 0; i < n; ++i) r = r * uint64_t(x) % uint64_t(m);
  vp_assert(uint64_t(M::pow(x, n)) == r, "pow");
}
ENTRY(q_pow61) { power<uint8_t, 61, 7>(); }
ENTRY(q_pow31s) { power<int8_t, 31, 9>(); }
ENTRY(t_pow251) { power<uint8_t, 251, 20>(); }
ENTRY(t_pow127s) { power<int8_t, 127, 16>(); }
template <class T, T m> static void inv(T lo, T hi) {
  typedef br::const_mod<T, m> M; T x = vp::in<T>("x", lo, hi); T r = M::invert(x);
  if (x == 0) { vp_assert(r == 0, "the inverse of zero is zero"); return; }
  vp_assert(r > 0 && r < m, "reduced"); vp_assert(uint64_t(r) * uint64_t(x) % uint64_t(m) == 1, "inverse");
}
ENTRY(q_inv251) { inv<uint8_t, 251>(0, 250); }
ENTRY(q_inv127s) { inv<int8_t, 127>(0, 126); }
ENTRY(q_inv509) { inv<uint16_t, 509>(0, 508); }
ENTRY(t_inv4093) { inv<uint16_t, 4093>(0, 4092); }
template <class T> static void inv0() { // modulus 2^w: odd values
  typedef br::const_mod<T, 0> M; T x = vp::in<T>("x"); vp_assume(x & 1); vp_assert(T(M::invert(x) * x) == 1, "inverse modulo 2^w");
}
ENTRY(q_inv0_8) { inv0<uint8_t>(); }
ENTRY(t_inv0_16) { inv0<uint16_t>(); }
template <class T, T a, T b, T p> static void ice(T lo, T hi) {
  typedef br::inversive_congruential_engine<T, a, b, p> E; T s = vp::in<T>("seed", lo, hi); E e(s); uint64_t x = uint64_t(s) % uint64_t(p); if (b == 0 && x == 0) x = 1;
  T r = e(); vp_assert(r >= 0 && r < p, "in range");
  // r = a * x^-1 + b   <=>   (r - b) * x = a  (mod p), or r = b when x = 0
  uint64_t d = (uint64_t(r) + uint64_t(p) - uint64_t(b)) % uint64_t(p);
  vp_assert(x == 0 ? d == 0 : d * x % uint64_t(p) == uint64_t(a), "the output is a times the inverse plus b");
}
ENTRY(q_ice251) { ice<uint8_t, 17, 200, 251>(0, 255); }
ENTRY(q_ice127s) { ice<int8_t, 90, 3, 127>(0, 127); }
ENTRY(q_ice509) { ice<uint16_t, 300, 508, 509>(0, 1100); }
ENTRY(q_hell_lo) { ice<uint32_t, 9102, 2147483647 - 36884165, 2147483647>(0, 40); }
ENTRY(t_hell_lo) { ice<uint32_t, 9102, 2147483647 - 36884165, 2147483647>(0, 255); }
// ---- 64-bit moduli
template <uint64_t a, uint64_t m> static void mm() {
  uint64_t x = vp_range("x", 64, 0, m - 1); br::detail::div_t d = br::detail::muldivmod(a, x, m);
  vp_assert(d.remainder < m, "remainder below the modulus"); vp_assert(W(d.quotient) * m + d.remainder == W(a) * x, "quotient and remainder multiply back");
}
template <uint64_t a, uint64_t m> static void lcg64() {
  uint64_t x = vp_range("x", 64, 1, m - 1); br::linear_congruential_engine<uint64_t, a, 0, m> e(x); vp_assert(e() == uint64_t(W(a) * x % m), "the output follows the recurrence");
}
ENTRY(q_mm_small) { mm<3, 0xffffffffffffffc5ull>(); }
ENTRY(t_mm_big) { mm<0xfffffffffffffffcull, 0xfffffffffffffffdull>(); }
ENTRY(t_mm_mid) { mm<6364136223846793005ull, 0xffffffffffffffc5ull>(); }
ENTRY(q_mm_32) { mm<0x100000001ull, 0x8000000000000001ull>(); }
// ---- 48-bit family and the additive combination
ENTRY(q_rand48) {
  uint32_t s = vp::in<uint32_t>("seed"); br::rand48 e(s); uint64_t x = (uint64_t(s) << 16) | 0x330e, M = (1ull << 48) - 1;
  for (int i = 0; i < 3; ++i) { x = (x * 0x5DEECE66Dull + 11) & M; vp_assert(e() == uint32_t(x >> 17), "rand48 output"); }
}
ENTRY(q_rand48_it) {
  uint32_t w[2] = {vp::in<uint32_t>("w0"), vp::in<uint32_t>("w1")}; uint32_t *p = w; br::rand48 e(p, w + 2); uint64_t M = (1ull << 48) - 1, x = (w[0] | (uint64_t(w[1]) << 32)) & M;
  for (int i = 0; i < 2; ++i) { x = (x * 0x5DEECE66Dull + 11) & M; vp_assert(e() == uint32_t(x >> 17), "rand48 output"); }
}
ENTRY(q_ecuyer) { // over the component engines (decided above)
  uint32_t s1 = vp::in<uint32_t>("s1"), s2 = vp::in<uint32_t>("s2"); br::ecuyer1988 e(s1, s2);
  br::linear_congruential_engine<uint32_t, 40014, 0, 2147483563> A(s1); br::linear_congruential_engine<uint32_t, 40692, 0, 2147483399> B(s2);
  for (int i = 0; i < 2; ++i) { int64_t x = A(), y = B(), z = x - y; if (z < 1) z += 2147483562; vp_assert(e() == uint64_t(z), "combined output"); }
}
L(q_ec1, uint32_t, 40014, 0, 2147483563)
L(q_ec2, uint32_t, 40692, 0, 2147483399)
ENTRY(q_additive) {
  typedef br::linear_congruential_engine<uint8_t, 100, 0, 251> A; typedef br::linear_congruential_engine<uint8_t, 77, 0, 241> B;
  uint8_t s1 = vp::in<uint8_t>("s1"), s2 = vp::in<uint8_t>("s2"); br::additive_combine_engine<A, B> e(s1, s2); int x = s1 % 251, y = s2 % 241; if (!x) x = 1; if (!y) y = 1;
  for (int i = 0; i < 2; ++i) { x = x * 100 % 251; y = y * 77 % 241; int z = x - y; if (z < 1) z += 250; vp_assert(e() == z, "combined output"); }
}
