// vp-bound: generate_canonical: up to 24 draws for float, 53 for double; engines with the ranges listed (those of the shipped engines and others whose size is not a power of two), every output
// vp-bound: uniform_01: one draw per call, a rejected draw (result == 1) followed by at most one more; every output of the listed engine ranges
// vp-bound: sub-interval claims: 8-bit engines, every most significant draw
// vp-assume: IEEE-754 float and double with round-to-nearest (long double is not covered)
// vp-opt: all --feas 3000
// vp-opt: q_u01r_fd --nomerge
#include "mock.h"
#include <boost/random/uniform_01.hpp>
#include <boost/random/generate_canonical.hpp>
#include "vp_common.h"
namespace br = boost::random;
// ---- generate_canonical
template <class T, std::size_t bits, class B, B Lo, B Hi> static void canon() {
  vp::eng<B, Lo, Hi, 60> e; T r = br::generate_canonical<T, bits>(e);
  vp_assert(r >= T(0) && r < T(1), "0 <= generate_canonical(eng) < 1");
}
#define G(n, T, bits, B, lo, hi) ENTRY(q_gc_##n) { canon<T, bits, B, lo, hi>(); }
G(f_u32, float, 24, uint32_t, 0, 0xffffffffu)
G(f_u32_64, float, 64, uint32_t, 0, 0xffffffffu)
G(f_minstd, float, 24, uint32_t, 1, 2147483646)
G(f_ecuyer, float, 24, uint32_t, 1, 2147483562)
G(f_u64, float, 24, uint64_t, 0, ~0ull)
G(f_u8, float, 24, uint8_t, 0, 255)
G(f_10, float, 24, uint8_t, 1, 10)
G(f_25, float, 24, uint8_t, 0, 24)
G(f_100, float, 24, uint8_t, 0, 99)
G(f_b1, float, 24, uint8_t, 0, 1)
G(f_i8, float, 24, int8_t, -128, 127)
G(f_i16, float, 24, int16_t, -32768, 32767)
G(f_i32, float, 24, int32_t, -2147483647 - 1, 2147483647)
G(f_lux24, float, 24, uint32_t, 0, 0xffffff)
G(d_u32, double, 53, uint32_t, 0, 0xffffffffu)
G(d_u32_64, double, 64, uint32_t, 0, 0xffffffffu)
G(d_u32_12, double, 12, uint32_t, 0, 0xffffffffu)
G(d_minstd, double, 53, uint32_t, 1, 2147483646)
G(d_ecuyer, double, 53, uint32_t, 1, 2147483562)
G(d_minstd0, double, 53, uint32_t, 0, 2147483646)
G(d_kreutzer, double, 53, uint32_t, 0, 97710)
G(d_rand48, double, 53, uint32_t, 0, 0x7fffffff)
G(d_u64, double, 53, uint64_t, 0, ~0ull)
G(d_mixmax, double, 53, uint64_t, 0, 0x1fffffffffffffffull)
G(d_ten, double, 53, uint32_t, 0, 999)
G(d_u16, double, 53, uint16_t, 0, 65535)
G(d_i32, double, 53, int32_t, -2147483647 - 1, 2147483647)
G(d_i64, double, 53, int64_t, -9223372036854775807ll - 1, 9223372036854775807ll)
// with 8-bit engines: the result lies in the sub-interval picked by the most significant (last) draw
template <class T, std::size_t bits, int draws, class B, B Lo, B Hi> static void canon_sub() {
  struct E { typedef B result_type; int n = 0; unsigned last = 0; static constexpr B min BOOST_PREVENT_MACRO_SUBSTITUTION() { return Lo; } static constexpr B max BOOST_PREVENT_MACRO_SUBSTITUTION() { return Hi; }
    B operator()() { if (++n > draws) vp_fail("more engine outputs used than the bits asked for need"); unsigned w = (unsigned)vp_range("draw", 8, 0, unsigned(int(Hi) - int(Lo))); if (n == draws) w = (unsigned)vp_split(w, unsigned(int(Hi) - int(Lo))); last = w; return B(int(Lo) + int(w)); } } e;
  T r = br::generate_canonical<T, bits>(e);
  vp_assert(r >= T(0) && r < T(1), "0 <= generate_canonical(eng) < 1");
  vp_assert(e.n == draws, "as many engine outputs are used as the bits asked for need");
  T R = T(int(Hi) - int(Lo)) + 1, eps = std::numeric_limits<T>::epsilon() * 16;
  vp_assert(r * R >= T(e.last) * (1 - eps) && r * R <= T(e.last + 1) * (1 + eps), "the result lies in the sub-interval of the most significant output");
}
ENTRY(q_gcs_f8) { canon_sub<float, 8, 1, uint8_t, 0, 255>(); }
ENTRY(q_gcs_f9) { canon_sub<float, 9, 2, uint8_t, 0, 255>(); }
ENTRY(q_gcs_f24) { canon_sub<float, 24, 3, uint8_t, 0, 255>(); }
ENTRY(q_gcs_d32) { canon_sub<double, 32, 4, uint8_t, 0, 255>(); }
ENTRY(q_gcs_d53_i8) { canon_sub<double, 53, 7, int8_t, -128, 127>(); }
ENTRY(q_gcs_f24_100) { canon_sub<float, 24, 4, uint8_t, 1, 100>(); }
ENTRY(q_gcs_d20_6) { canon_sub<double, 20, 8, uint8_t, 1, 6>(); }
// engines that deliver reals in [0,1): outputs are the multiples of 2^-digits
template <class T, int Bits> struct fe { typedef T result_type; int n = 0; uint64_t k[3] = {0, 0, 0}; static constexpr bool has_fixed_range = false;
  static constexpr T min BOOST_PREVENT_MACRO_SUBSTITUTION() { return 0; } static constexpr T max BOOST_PREVENT_MACRO_SUBSTITUTION() { return 1; }
  T operator()() { if (n >= 3) vp_cut("engine draws beyond the stated number"); k[n] = vp_range("fdraw", 64, 0, (uint64_t(1) << Bits) - 1); return T(k[n++]) * (T(1) / T(uint64_t(1) << Bits)); } };
template <class T, std::size_t bits, class B, int Bits> static void canon_real(int draws) {
  fe<B, Bits> e; T r = br::generate_canonical<T, bits>(e);
  vp_assert(r >= T(0) && r < T(1), "0 <= generate_canonical(real eng) < 1");
  vp_assert(e.n == draws, "as many engine outputs are used as the bits asked for need");
  if (draws == 1) { T y = T(e.k[0]) * (T(1) / T(uint64_t(1) << Bits)); T d = r - y; T tol = std::numeric_limits<T>::epsilon(); vp_assert(d >= -tol && d <= tol, "the result is the value of the single real output"); }
}
ENTRY(q_gcr_f_f) { canon_real<float, 24, float, 24>(1); }
ENTRY(q_gcr_f_f12) { canon_real<float, 12, float, 24>(1); }
ENTRY(q_gcr_d_f) { canon_real<double, 53, float, 24>(3); }
ENTRY(q_gcr_d_d) { canon_real<double, 53, double, 53>(1); }
ENTRY(q_gcr_f_d) { canon_real<float, 24, double, 53>(1); }
// ---- uniform_01
template <class T, class B, B Lo, B Hi> struct ue { typedef B result_type; int n = 0; double v = 0; static constexpr bool has_fixed_range = false;
  static constexpr B min BOOST_PREVENT_MACRO_SUBSTITUTION() { return Lo; } static constexpr B max BOOST_PREVENT_MACRO_SUBSTITUTION() { return Hi; }
  B operator()() { if (++n > 2) vp_cut("engine draws beyond the stated number"); B b = vp::in<B>("draw", Lo, Hi);
    typedef typename std::make_unsigned<B>::type U; v = double(U(U(b) - U(Lo))); return b; } };
template <class T, class B, B Lo, B Hi> static void u01() {
  typedef ue<T, B, Lo, Hi> E; typedef typename std::make_unsigned<B>::type U; const double R = double(U(U(Hi) - U(Lo))) + 1, tol = double(std::numeric_limits<T>::epsilon()) * 4;
  { E e; br::uniform_01<T> d; T r = d(e); vp_assert(r >= T(0) && r < T(1), "0 <= uniform_01()(eng) < 1"); 
    if (sizeof(B) == 1) { double q = double(r) * R; vp_assert(q >= e.v * (1 - tol) && q <= (e.v + 1) * (1 + tol), "uniform_01()(eng) lies in the sub-interval of the output"); } }
}
template <class T, class B, B Lo, B Hi> static void u01w() {
  typedef ue<T, B, Lo, Hi> E; typedef typename std::make_unsigned<B>::type U; const double R = double(U(U(Hi) - U(Lo))) + 1, tol = double(std::numeric_limits<T>::epsilon()) * 4;
  E e; br::uniform_01<E &, T> d(e); T r = d(); vp_assert(r >= T(0) && r < T(1), "0 <= uniform_01<Eng>(eng)() < 1"); vp_assert(&d.base() == &e && d.min() == T(0) && d.max() == T(1), "the wrapped engine is the one given");
  if (sizeof(B) == 1) { double q = double(r) * R; vp_assert(q >= e.v * (1 - tol) && q <= (e.v + 1) * (1 + tol), "uniform_01<Eng>(eng)() lies in the sub-interval of the output"); }
}
#define U(n, T, B, lo, hi) ENTRY(q_u01_##n) { u01<T, B, lo, hi>(); } ENTRY(q_u01w_##n) { u01w<T, B, lo, hi>(); }
U(f_u8, float, uint8_t, 0, 255)
U(f_i8, float, int8_t, -128, 127)
U(d_i8, double, int8_t, -100, 27)
U(d_u8_6, double, uint8_t, 1, 6)
U(f_u32, float, uint32_t, 0, 0xffffffffu)
U(f_minstd, float, uint32_t, 1, 2147483646)
U(f_u64, float, uint64_t, 0, ~0ull)
U(f_i32, float, int32_t, -2147483647 - 1, 2147483647)
U(d_u32, double, uint32_t, 0, 0xffffffffu)
U(d_minstd, double, uint32_t, 1, 2147483646)
U(d_ecuyer, double, uint32_t, 1, 2147483562)
U(d_u64, double, uint64_t, 0, ~0ull)
U(d_mixmax, double, uint64_t, 0, 0x1fffffffffffffffull)
U(d_i32, double, int32_t, -2147483647 - 1, 2147483647)
U(d_i64, double, int64_t, -9223372036854775807ll - 1, 9223372036854775807ll)
template <class T, class B, int Bits> static void u01r() { fe<B, Bits> e; br::uniform_01<T> d; T r = d(e); vp_assert(r >= T(0) && r < T(1), "0 <= uniform_01()(real eng) < 1");
  fe<B, Bits> e2; br::uniform_01<fe<B, Bits> &, T> w(e2); T q = w(); vp_assert(q >= T(0) && q < T(1), "0 <= uniform_01<Eng>(real eng)() < 1"); }
ENTRY(q_u01r_f) { u01r<float, float, 24>(); }
ENTRY(q_u01r_d) { u01r<double, double, 53>(); }
// (multiples of 2^-27 are enough to make float(x) round up to 1)
ENTRY(q_u01r_fd) { u01r<float, double, 27>(); }
