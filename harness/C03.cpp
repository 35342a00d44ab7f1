// vp-bound: every lower bound and width of the target and every engine output; engine ranges as listed; one draw (that more is never needed is itself asserted)
// vp-opt: all --feas 1000
#include "mock.h"
#include <boost/random/uniform_smallint.hpp>
#include "vp_common.h"
namespace br = boost::random;
template <class T, class E> static void small(E &e, int way) {
  typedef typename std::make_unsigned<T>::type U; typedef typename E::result_type B;
  T a = vp::in<T>("a"), b = vp::in<T>("b"); vp_assume(a <= b);
  typedef br::uniform_smallint<T> D; T r;
  if (way == 0) { D d(a, b); r = d(e); }
  else if (way == 1) { D d(T(0), T(1)); r = d(e, typename D::param_type(a, b)); }
  else { D d(T(3)); d.param(typename D::param_type(a, b)); d.reset(); vp_assert(d.a() == a && d.b() == b && d.min() == a && d.max() == b, "bounds are the ones set"); r = d(e); }
  vp_assert(a <= r && r <= b, "a <= uniform_smallint(eng) <= b");
  vp_assert(e.n == 1, "exactly one engine output is consumed");
  uint64_t w = U(U(b) - U(a)), er = uint64_t(E::max()) - uint64_t(E::min()), v = uint64_t(e.last) - uint64_t(E::min());
  if (sizeof(B) < 8) { typedef typename std::make_unsigned<B>::type UB; er = UB(er); v = UB(v); }
  uint64_t want = w >= er ? v : v % (w + 1);
  vp_assert(U(U(r) - U(a)) == U(want), "the value is the documented reduction of the output");
}
template <class B, B Lo, B Hi> struct one { typedef B result_type; int n = 0; B last = Lo;
  static constexpr B min BOOST_PREVENT_MACRO_SUBSTITUTION() { return Lo; } static constexpr B max BOOST_PREVENT_MACRO_SUBSTITUTION() { return Hi; }
  B operator()() { ++n; return last = vp::in<B>("draw", Lo, Hi); } };
#define S(n, T, B, lo, hi) ENTRY(n) { one<B, lo, hi> e; small<T>(e, 0); }
S(q_u8_u8, uint8_t, uint8_t, 0, 255)
S(q_i8_u8, int8_t, uint8_t, 3, 250)
S(q_i8_i8, int8_t, int8_t, -128, 127)
S(q_i16_u8, int16_t, uint8_t, 0, 255)
S(q_u8_u16, uint8_t, uint16_t, 0, 65535)
S(q_i16_i16, int16_t, int16_t, -100, 32000)
S(q_i32_u32, int32_t, uint32_t, 0, 0xffffffffu)
S(q_i32_ms, int32_t, uint32_t, 1, 2147483646)
S(q_u32_i32, uint32_t, int32_t, -2147483647 - 1, 2147483647)
S(q_i64_u32, int64_t, uint32_t, 0, 0xffffffffu)
S(q_u8_u64, uint8_t, uint64_t, 0, ~0ull)
S(q_i64_u64, int64_t, uint64_t, 0, ~0ull)
ENTRY(q_param) { one<uint32_t, 1, 2147483646> e; small<int32_t>(e, 1); }
ENTRY(q_setparam) { one<uint32_t, 0, 0xffffffffu> e; small<int16_t>(e, 2); }
ENTRY(q_repeat) { one<uint32_t, 0, 0xffffffffu> e; int a = vp::in<int>("a"), b = vp::in<int>("b"); vp_assume(a <= b); br::uniform_smallint<int> d(a, b), d2(a, b); d(e); e.n = 0; uint32_t x = vp::in<uint32_t>("x");
  struct fix { typedef uint32_t result_type; uint32_t v; static constexpr uint32_t min BOOST_PREVENT_MACRO_SUBSTITUTION() { return 0; } static constexpr uint32_t max BOOST_PREVENT_MACRO_SUBSTITUTION() { return 0xffffffffu; } uint32_t operator()() { return v; } } f = {x};
  vp_assert(d(f) == d2(f), "a used object and a fresh one give the same value"); }
// floating-point engines: multiples of 2^-32 in [0,1)
struct fe { typedef double result_type; int n = 0; double last = 0; static constexpr bool has_fixed_range = false; static constexpr double min BOOST_PREVENT_MACRO_SUBSTITUTION() { return 0; } static constexpr double max BOOST_PREVENT_MACRO_SUBSTITUTION() { return 1; }
  double operator()() { if (++n > 2) vp_cut("engine draws beyond the stated number"); uint64_t k = vp_range("fdraw", 32, 0, 0xffffffffull); return last = double(k) * (1.0 / 4294967296.0); } };
struct ff { typedef float result_type; int n = 0; float last = 0; static constexpr bool has_fixed_range = false; static constexpr float min BOOST_PREVENT_MACRO_SUBSTITUTION() { return 0; } static constexpr float max BOOST_PREVENT_MACRO_SUBSTITUTION() { return 1; }
  float operator()() { if (++n > 2) vp_cut("engine draws beyond the stated number"); uint32_t k = (uint32_t)vp_range("fdraw", 24, 0, 0xffffff); return last = float(k) * (1.0f / 16777216.0f); } };
template <class T, class E> static void flt() { E e; T a = vp::in<T>("a"), b = vp::in<T>("b"); vp_assume(a <= b); br::uniform_smallint<T> d(a, b); T r = d(e); vp_assert(a <= r && r <= b, "a <= uniform_smallint(floating eng) <= b"); vp_assert(e.n == 1, "exactly one engine output is consumed"); }
ENTRY(q_f_u8) { flt<uint8_t, ff>(); }
ENTRY(q_f_i16) { flt<int16_t, ff>(); }
ENTRY(q_d_i32) { flt<int32_t, fe>(); }
ENTRY(q_d_i8) { flt<int8_t, fe>(); }
// value t comes from the t-th of equal parts of [0, 1) (the engine's outputs and the widths are chosen so that every product is exact)
template <class T> static void parts(T w) { struct { typedef double result_type; int n; uint64_t k; double min BOOST_PREVENT_MACRO_SUBSTITUTION() const { return 0; } double max BOOST_PREVENT_MACRO_SUBSTITUTION() const { return 1; } double operator()() { ++n; return double(k) * (1.0 / 4294967296.0); } } e = {0, vp_range("fdraw", 32, 0, 0xffffffffull)};
  T a = vp::in<T>("a"); vp_assume(a <= T(std::numeric_limits<T>::max() - w)); br::uniform_smallint<T> d(a, T(a + w)); T r = d(e); vp_assert(uint64_t(r) - uint64_t(a) == (e.k * (uint64_t(w) + 1)) >> 32, "value t comes from the t-th of equal parts"); }
ENTRY(q_parts) { parts<int>(5); parts<int>(0); parts<uint8_t>(255); parts<int16_t>(7); }
ENTRY(q_parts_w) { parts<int>(99); parts<uint32_t>(65536); }
