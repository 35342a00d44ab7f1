// vp-bound: every engine output and distribution parameter; up to four interleaved draws for each ownership mode; engines on tapes of eight outputs
// vp-opt: all --feas 2000
#include "mock.h"
#include <boost/random/variate_generator.hpp>
#include <boost/random/random_number_generator.hpp>
#include <boost/random/uniform_int.hpp>
#include <boost/random/uniform_01.hpp>
#include <boost/random/uniform_real_distribution.hpp>
#include <boost/random/uniform_smallint.hpp>
#include <boost/random/bernoulli_distribution.hpp>
#include <boost/random/linear_congruential.hpp>
#include <boost/random/taus88.hpp>
#include "vp_common.h"
namespace br = boost::random;
typedef vp::tape<uint32_t, 0, 0xffffffffu> T32;
static uint32_t o[8]; static void fill() { for (int i = 0; i < 8; ++i) o[i] = vp::in<uint32_t>("base"); }
// a distribution with history of its own: every result depends on all earlier calls
struct hist { typedef uint64_t input_type; typedef uint64_t result_type; uint64_t a, acc; int calls; explicit hist(uint64_t x) : a(x), acc(0), calls(0) {} template <class E> uint64_t operator()(E &e) { ++calls; acc = acc * 3 + a + e(); return acc; } template <class E, class P> uint64_t operator()(E &e, const P &p) { ++calls; acc = (acc ^ uint64_t(p)) * 5; return acc + e(); }
  uint64_t min BOOST_PREVENT_MACRO_SUBSTITUTION() const { return a; } uint64_t max BOOST_PREVENT_MACRO_SUBSTITUTION() const { return a + acc; } };
ENTRY(q_value) { fill(); T32 e(o, 8); uint64_t a = vp::in<uint64_t>("a"); hist d(a); br::variate_generator<T32, hist> g(e, d); T32 f(o, 8); hist h(a);
  for (int i = 0; i < 3; ++i) vp_assert(g() == h(f), "the stored distribution applied to the stored engine"); vp_assert(e.n == 0 && d.calls == 0, "the caller's objects are untouched"); vp_assert(g.engine().n == 3 && g.distribution().calls == 3, "engine() and distribution() are the stored objects"); vp_assert(&e != &g.engine(), "a private copy");
  uint32_t x = g.engine()(); vp_assert(x == f(), "engine() can be drawn from directly"); vp_assert(g() == h(f), "a direct draw advances the same engine"); vp_assert((g.min)() == a && (g.max)() == (h.max)(), "min and max are the distribution's");
  const br::variate_generator<T32, hist> &c = g; vp_assert(&c.engine() == &g.engine() && &c.distribution() == &g.distribution(), "const access to the same objects"); g.distribution().acc = 7; h.acc = 7; vp_assert(g() == h(f), "distribution() is the one used"); }
ENTRY(q_value_copy) { fill(); T32 e(o, 8); hist d(vp::in<uint64_t>("a")); br::variate_generator<T32, hist> g(e, d); g(); br::variate_generator<T32, hist> k(g); uint64_t x = g(), y = k(); vp_assert(x == y, "a copy continues with the same values"); vp_assert(g.engine().n == 2 && k.engine().n == 2, "each copy has its own engine"); br::variate_generator<T32, hist> m(e, hist(5)); m = g; vp_assert(m() == k(), "assignment copies engine and distribution"); }
ENTRY(q_reference) { fill(); T32 e(o, 8); uint64_t a = vp::in<uint64_t>("a"); hist d(a); br::variate_generator<T32 &, hist> g(e, d); T32 f(o, 8); hist h(a); uint64_t v = vp::in<uint64_t>("v"), w = vp::in<uint64_t>("w");
  vp_assert(&g.engine() == &e, "engine() is the caller's engine"); vp_assert(g() == h(f), "the stored distribution applied to the engine"); vp_assert(e.n == 1, "the caller's engine is advanced"); uint32_t x = e(); vp_assert(x == f(), "direct draw"); vp_assert(g() == h(f), "the draw after a direct draw"); vp_assert(e.n == 3 && d.calls == 0, "the caller's engine is advanced"); (void)v; (void)w;
  const br::variate_generator<T32 &, hist> &c = g; vp_assert(&c.engine() == &e, "const access to the same engine"); br::variate_generator<T32 &, hist> k(g); vp_assert(&k.engine() == &e, "a copy shares the engine"); k(); vp_assert(e.n == 4, "a copy shares the engine"); vp_assert((g.min)() == a && (g.max)() == (h.max)(), "min and max are the distribution's"); }
ENTRY(q_pointer) { fill(); T32 e(o, 8); uint64_t a = vp::in<uint64_t>("a"); hist d(a); br::variate_generator<T32 *, hist> g(&e, d); T32 f(o, 8); hist h(a);
  vp_assert(&g.engine() == &e, "engine() is the caller's engine"); vp_assert(g() == h(f), "the stored distribution applied to the engine"); vp_assert(e.n == 1, "the caller's engine is advanced"); uint32_t x = e(); vp_assert(x == f(), "direct draw"); vp_assert(g() == h(f), "the draw after a direct draw"); br::variate_generator<T32 *, hist> k(g); k(); vp_assert(e.n == 4, "a copy shares the engine"); T32 e2(o + 4, 4); br::variate_generator<T32 *, hist> m(&e2, hist(a)); m = g; vp_assert(&m.engine() == &e, "assignment rebinds the pointer"); vp_assert(m() == (f(), h(f)), "and copies the distribution"); vp_assert((g.min)() == a, "min is the distribution's"); }
ENTRY(q_param) { fill(); T32 e(o, 8); hist d(vp::in<uint64_t>("a")); uint32_t v = vp::in<uint32_t>("v"); T32 f(o, 8); hist h(d); br::variate_generator<T32, hist> g(e, d); br::variate_generator<T32 &, hist> r(e, d); br::variate_generator<T32 *, hist> p(&e, d); uint64_t want = h(f, v); vp_assert(g(v) == want, "operator()(value) passes the value on"); vp_assert(r(v) == want, "operator()(value) passes the value on"); hist h2(d); T32 f2(o + 1, 7); uint64_t w2 = h2(f2, v); vp_assert(p(v) == w2, "operator()(value) passes the value on"); vp_assert(e.n == 2, "and advances the caller's engine");
  uint32_t w = vp::in<uint32_t>("w"); want = h(f, w); vp_assert(g(w) == want, "operator()(value) uses the stored distribution every time"); vp_assert(g.distribution().calls == 2 && g.engine().n == 2, "on the stored objects"); r(w); p(w); vp_assert(r.distribution().calls == 2 && p.distribution().calls == 2, "on the stored distribution"); want = h(f); vp_assert(g() == want, "and the plain call continues from there"); }
// with the library's distributions
ENTRY(q_uniform_int) { fill(); T32 e(o, 8), f(o, 8); int lo = vp::in<int>("lo"), hi = vp::in<int>("hi"); vp_assume(lo <= hi && uint32_t(hi) - uint32_t(lo) == 0xffffu); br::uniform_int_distribution<int> d(lo, hi), h(lo, hi); br::variate_generator<T32 &, br::uniform_int_distribution<int> > g(e, d); int a = g(), b = h(f); vp_assert(a == b, "uniform_int through the generator"); vp_assert(e.n == f.n, "same engine outputs used"); vp_assert((g.min)() == lo && (g.max)() == hi, "range"); }
ENTRY(q_uniform_01) { fill(); T32 e(o, 8), f(o, 8); br::uniform_01<double> h; br::variate_generator<T32, br::uniform_01<double> > g(e, br::uniform_01<double>()); for (int i = 0; i < 2; ++i) { double a = g(), b = h(f); vp_assert(a == b, "uniform_01 through the generator"); } vp_assert((g.min)() == 0 && (g.max)() == 1, "range"); }
ENTRY(q_bernoulli) { fill(); T32 e(o, 8), f(o, 8); br::bernoulli_distribution<double> h(0.25); br::variate_generator<T32 *, br::bernoulli_distribution<double> > g(&e, h); for (int i = 0; i < 3; ++i) { bool a = g(), b = h(f); vp_assert(a == b, "bernoulli through the generator"); } }
ENTRY(q_lcg) { typedef br::linear_congruential_engine<uint64_t, 6364136223846793005ull, 1442695040888963407ull, 0> L; uint64_t s = vp::in<uint64_t>("s"); L e(s), f(s); br::variate_generator<L, hist> g(e, hist(1)); br::variate_generator<L &, hist> r(e, hist(1)); hist h(1); for (int i = 0; i < 3; ++i) { uint64_t x = h(f); vp_assert(g() == x && r() == x, "a real engine by value and by reference"); } vp_assert(e == f && g.engine() == f, "both engines advanced"); }
ENTRY(q_taus) { uint32_t s = vp::in<uint32_t>("s", 0u, 0xffffffu) | 0x10000u; br::taus88 e(s), f(s); br::variate_generator<br::taus88, br::uniform_smallint<int> > g(e, br::uniform_smallint<int>(0, 255)); br::uniform_smallint<int> h(0, 255); for (int i = 0; i < 2; ++i) { int a = g(), b = h(f); vp_assert(a == b, "taus88 by value"); } vp_assert(e == br::taus88(s), "the caller's engine is untouched"); }
// uniform_int's operator()(eng, n): a value in [0, n)
ENTRY(q_uniform_int_n) { fill(); T32 e(o, 8); unsigned n = vp::in<unsigned>("n", 1u, 0xffffu); vp_assume((n & (n - 1)) == 0); br::variate_generator<T32, boost::uniform_int<unsigned> > g(e, boost::uniform_int<unsigned>(0, 9)); unsigned x = g(n); vp_assert(x < n, "uniform_int(engine, n) lies in [0, n)"); T32 f(o, 8); unsigned y = br::uniform_int_distribution<unsigned>(0, n - 1)(f); vp_assert(x == y, "and is the value a uniform_int_distribution(0, n-1) gives"); }
// random_number_generator: [0, n), from the caller's engine
template <class I> static void rng(I top) { fill(); T32 e(o, 8), f(o, 8); I n = vp::in<I>("n", 1, top); br::random_number_generator<T32, I> r(e); I x = r(n); vp_assert(x >= 0 && x < n, "random_number_generator lies in [0, n)"); vp_assert(e.n >= 1 || n == 1, "drawn from the caller's engine"); I y = br::uniform_int_distribution<I>(0, n - 1)(f); vp_assert(x == y && e.n == f.n, "the value of uniform_int_distribution(0, n-1)"); br::random_number_generator<T32, I> c(r); int k = e.n; c(n); vp_assert(n == 1 || e.n > k, "a copy shares the engine"); }
ENTRY(q_rng_int8) { rng<int8_t>(127); }
ENTRY(q_rng_long) { rng<long>(7); }
ENTRY(q_rng_uint) { rng<unsigned>(100); }
ENTRY(t_rng_wide) { rng<long>(1000); }
