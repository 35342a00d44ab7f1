// vp-bound: every finite a < b of float and double (including those whose width overflows), every engine output of the listed ranges, at most two attempts per call
// vp-assume: IEEE-754 float and double with round-to-nearest (long double is not covered)
// vp-opt: all --feas 400 --oblig 120
#include "mock.h"
#include <boost/random/uniform_real_distribution.hpp>
#include <boost/random/uniform_real.hpp>
#include <boost/random/variate_generator.hpp>
#include "vp_common.h"
namespace br = boost::random;
template <class T> T real(const char *n) { return vp::finite<T>(n); }
template <class T, int Bits> struct fe { typedef T result_type; int n = 0; static constexpr bool has_fixed_range = false;
  static constexpr T min BOOST_PREVENT_MACRO_SUBSTITUTION() { return 0; } static constexpr T max BOOST_PREVENT_MACRO_SUBSTITUTION() { return 1; }
  T operator()() { if (n++ >= 2) vp_cut("engine draws beyond the stated number"); return T(vp_range("fdraw", 64, 0, (uint64_t(1) << Bits) - 1)) * (T(1) / T(uint64_t(1) << Bits)); } };
template <class T, class E, int way = 0> static void uni() {
  T a = real<T>("a"), b = real<T>("b"); vp_assume(a < b); E e; T r;
  typedef br::uniform_real_distribution<T> D;
  if constexpr (way == 0) { D d(a, b); r = d(e); vp_assert(d.a() == a && d.b() == b && d.min() == a && d.max() == b, "min() and max() are the bounds given"); }
  else if constexpr (way == 1) { D d; r = d(e, typename D::param_type(a, b)); }
  else if constexpr (way == 2) { boost::uniform_real<T> d(a, b); r = d(e); }
  else { br::variate_generator<E &, D> g(e, D(a, b)); r = g(); }
  vp_assert(r >= a && r < b, "a <= uniform_real(eng) < b");
}
typedef vp::eng<uint8_t, 0, 255, 2> u8; typedef vp::eng<uint32_t, 0, 0xffffffffu, 2> u32; typedef vp::eng<uint64_t, 0, ~0ull, 2> u64; typedef vp::eng<uint32_t, 1, 2147483646, 2> ms; typedef vp::eng<int32_t, -2147483647 - 1, 2147483647, 2> i32; typedef vp::eng<int8_t, -128, 127, 2> i8;
ENTRY(q_f_u8) { uni<float, u8>(); }
ENTRY(q_f_u32) { uni<float, u32>(); }
ENTRY(q_f_u64) { uni<float, u64>(); }
ENTRY(q_f_ms) { uni<float, ms>(); }
ENTRY(q_f_i32) { uni<float, i32>(); }
ENTRY(q_f_i8) { uni<float, i8>(); }
ENTRY(q_f_real) { uni<float, fe<float, 24> >(); }
ENTRY(q_f_par) { uni<float, u32, 1>(); }
ENTRY(q_f_legacy) { uni<float, u32, 2>(); }
ENTRY(q_f_var) { uni<float, u32, 3>(); }
ENTRY(q_d_u8) { uni<double, u8>(); }
ENTRY(q_d_u32) { uni<double, u32>(); }
ENTRY(q_d_u64) { uni<double, u64>(); }
ENTRY(q_d_ms) { uni<double, ms>(); }
ENTRY(q_d_real) { uni<double, fe<double, 53> >(); }
ENTRY(q_d_realf) { uni<double, fe<float, 24> >(); }
