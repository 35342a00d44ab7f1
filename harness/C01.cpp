// vp-bound: one to two rejection rounds (limited by the number of engine draws, 2..9); every round starts from the same state, so later rounds repeat the first
// vp-bound: floating-point engines deliver multiples of 2^-32
// vp-bound: 8-bit targets over 8-bit engines: every [a,b], engine widths listed (thorough: every width); 16/32/64-bit targets: every [a,b] over the listed engine ranges
// vp-opt: all --nomerge --feas 400
#include "mock.h"
#include <boost/random/uniform_int_distribution.hpp>
#include <boost/random/uniform_int.hpp>
#include <boost/random/random_number_generator.hpp>
#include <boost/random/variate_generator.hpp>
#include "vp_common.h"
namespace br = boost::random;
template <class T, class E> static void range_check(E &e) {
  T a = vp::in<T>("a"), b = vp::in<T>("b"); vp_assume(a <= b);
  br::uniform_int_distribution<T> d(a, b);
  T r = d(e);
  vp_assert(a <= r && r <= b, "a <= d(eng) <= b");
}
template <class T, class E> static void range_check() { E e; range_check<T>(e); }
// an 8-bit engine whose width is W and whose offset is any, every target range of an 8-bit type
template <class T, class R> static void width(int w, bool anyoff) {
  R lo = anyoff ? vp::in<R>("elo") : std::numeric_limits<R>::min(); vp_assume(lo <= std::numeric_limits<R>::max() - w);
  vp::rteng<R, 9> e(lo, R(lo + w)); range_check<T>(e);
}
#define W(n, q, p) ENTRY(q##_u8_w##n) { width<uint8_t, uint8_t>(n, false); } ENTRY(p##_i8_w##n) { width<int8_t, uint8_t>(n, true); }
W(1, q, q) W(2, q, t) W(3, q, t) W(4, t, t) W(5, t, t) W(6, q, t) W(7, t, t) W(8, t, t) W(10, t, t) W(15, q, t) W(16, t, t) W(31, t, t) W(100, q, q) W(127, t, t) W(128, t, t) W(200, t, t) W(253, t, t) W(254, q, q) W(255, q, q)
ENTRY(q_i8_sw2) { width<int8_t, int8_t>(2, true); }
ENTRY(q_i8_sw255) { width<int8_t, int8_t>(255, false); }
ENTRY(q_u16_w15) { width<uint16_t, uint8_t>(15, false); }
ENTRY(q_i16_w255) { width<int16_t, uint8_t>(255, false); }
ENTRY(q_u16_w254) { width<uint16_t, uint8_t>(254, false); }
ENTRY(q_u32_full32) { range_check<uint32_t, vp::full<uint32_t> >(); }
ENTRY(q_i32_full32) { range_check<int32_t, vp::full<uint32_t> >(); }
ENTRY(q_u8_full32) { range_check<uint8_t, vp::full<uint32_t> >(); }
ENTRY(q_i16_full64) { range_check<int16_t, vp::full<uint64_t> >(); }
ENTRY(q_i32_minstd) { range_check<int32_t, vp::eng<uint32_t, 1, 2147483646> >(); }
ENTRY(q_i32_signedeng) { range_check<int32_t, vp::eng<int32_t, -2147483647 - 1, 2147483647> >(); }
ENTRY(q_u64_full32) { range_check<uint64_t, vp::full<uint32_t, 4> >(); }
ENTRY(q_i64_full32) { range_check<int64_t, vp::full<uint32_t, 4> >(); }
ENTRY(q_i64_full64) { range_check<int64_t, vp::full<uint64_t> >(); }
ENTRY(q_i64_rand48) { range_check<int64_t, vp::eng<uint32_t, 0, 0x7fffffff, 4> >(); }
ENTRY(t_i64_minstd) { range_check<int64_t, vp::eng<uint32_t, 1, 2147483646, 5> >(); }
ENTRY(t_i64_full16) { range_check<int64_t, vp::full<uint16_t, 6> >(); }
// engines with a floating-point result
struct feng { typedef double result_type; static constexpr bool has_fixed_range = false; int n = 0; static constexpr double min BOOST_PREVENT_MACRO_SUBSTITUTION() { return 0; } static constexpr double max BOOST_PREVENT_MACRO_SUBSTITUTION() { return 1; }
  double operator()() { if (n++ >= 1) vp_cut("engine draws beyond the stated number"); uint64_t k = vp_range("fdraw", 32, 0, 0xffffffffull); return double(k) * (1.0 / 4294967296.0); } };
ENTRY(q_i32_feng) { range_check<int32_t, feng>(); }
ENTRY(q_u64_feng) { range_check<uint64_t, feng>(); }
// the other ways to ask for a uniform integer
ENTRY(q_param_overload) { vp::full<uint32_t> e; int a = vp::in<int>("a"), b = vp::in<int>("b"); vp_assume(a <= b); typedef br::uniform_int_distribution<int> D; D d(vp::in<int>("c", 0, 5), 7); int r = d(e, D::param_type(a, b)); vp_assert(a <= r && r <= b, "param overload stays in [a,b]"); }
ENTRY(q_legacy) { vp::full<uint32_t> e; int a = vp::in<int>("a"), b = vp::in<int>("b"); vp_assume(a <= b); boost::uniform_int<int> d(a, b); int r = d(e); vp_assert(a <= r && r <= b, "uniform_int stays in [a,b]");
  int n = vp::in<int>("n", 1, 2147483647); int q = d(e, n); vp_assert(0 <= q && q < n, "uniform_int(eng, n) stays in [0,n)"); }
ENTRY(q_legacy_param) { vp::full<uint32_t> e; int a = vp::in<int>("a"), b = vp::in<int>("b"); vp_assume(a <= b); boost::uniform_int<int> d(3, 4); boost::uniform_int<int>::param_type p(a, b); int r = d(e, p); vp_assert(a <= r && r <= b, "uniform_int param overload stays in [a,b]"); }
ENTRY(q_rng) { vp::full<uint32_t, 4> e; br::random_number_generator<vp::full<uint32_t, 4> > g(e); long n = vp::in<long>("n", 1, 0x7fffffffffffffffl); long r = g(n); vp_assert(0 <= r && r < n, "random_number_generator(n) in [0,n)"); }
ENTRY(q_rng8) { vp::full<uint32_t, 4> e; br::random_number_generator<vp::full<uint32_t, 4>, int8_t> g(e); int8_t n = vp::in<int8_t>("n", 1, 127); int8_t r = g(n); vp_assert(0 <= r && r < n, "random_number_generator(n) in [0,n)"); }
// a == b consumes nothing
ENTRY(q_single) { vp::full<uint32_t, 1> e; int64_t a = vp::in<int64_t>("a"); br::uniform_int_distribution<int64_t> d(a, a); vp_assert(d(e) == a && e.n == 0, "a == b returns a without drawing"); }
ENTRY(q_variate) { vp::full<uint32_t> e; int a = vp::in<int>("a"), b = vp::in<int>("b"); vp_assume(a <= b); br::variate_generator<vp::full<uint32_t> &, br::uniform_int_distribution<int> > g(e, br::uniform_int_distribution<int>(a, b)); int r = g(); vp_assert(a <= r && r <= b && g.min() == a && g.max() == b, "variate_generator stays in [min,max]"); }
