// vp-bound: every parameter value in the stated ranges (finite, positive scales between 2^-100 and 2^100); up to three draws from each object, engine outputs any value unless an entry restricts them, at most six engine outputs for each object; integer parameters of poisson and binomial as listed in the entries; vectors of up to three entries
// vp-assume: libm functions are functions of their arguments (the same argument gives the same result)
// vp-opt: all --feas 0
// vp-opt: q_(uniform_.*|discrete) --feas 2000
// vp-opt: q_(uniform_.*|exponential.*|normal.*|lognormal|laplace|gamma.*|chi.*|fisher_f|student_t|beta|non_central|sphere|discrete|piecewise.*|hyperexponential|weibull.*|extreme.*|cauchy|bernoulli|geometric) --nomerge
#include "mock.h"
#include <boost/random/uniform_smallint.hpp>
#include <boost/random/uniform_int.hpp>
#include <boost/random/uniform_int_distribution.hpp>
#include <boost/random/uniform_real.hpp>
#include <boost/random/uniform_real_distribution.hpp>
#include <boost/random/uniform_01.hpp>
#include <boost/random/bernoulli_distribution.hpp>
#include <boost/random/beta_distribution.hpp>
#include <boost/random/binomial_distribution.hpp>
#include <boost/random/cauchy_distribution.hpp>
#include <boost/random/chi_squared_distribution.hpp>
#include <boost/random/discrete_distribution.hpp>
#include <boost/random/exponential_distribution.hpp>
#include <boost/random/extreme_value_distribution.hpp>
#include <boost/random/fisher_f_distribution.hpp>
#include <boost/random/gamma_distribution.hpp>
#include <boost/random/geometric_distribution.hpp>
#include <boost/random/hyperexponential_distribution.hpp>
#include <boost/random/laplace_distribution.hpp>
#include <boost/random/lognormal_distribution.hpp>
#include <boost/random/negative_binomial_distribution.hpp>
#include <boost/random/non_central_chi_squared_distribution.hpp>
#include <boost/random/normal_distribution.hpp>
#include <boost/random/piecewise_constant_distribution.hpp>
#include <boost/random/piecewise_linear_distribution.hpp>
#include <boost/random/poisson_distribution.hpp>
#include <boost/random/student_t_distribution.hpp>
#include <boost/random/triangle_distribution.hpp>
#include <boost/random/uniform_on_sphere.hpp>
#include <boost/random/weibull_distribution.hpp>
#include "vp_common.h"
namespace br = boost::random;
typedef vp::tape<uint32_t, 0, 0xffffffffu> T32; typedef vp::tape<uint64_t, 0, 0xffffffffffffffffull> T64;
static bool same(double a, double b) { uint64_t x, y; memcpy(&x, &a, 8); memcpy(&y, &b, 8); return x == y; }
static bool same(float a, float b) { uint32_t x, y; memcpy(&x, &a, 4); memcpy(&y, &b, 4); return x == y; }
template <class I> static typename std::enable_if<std::is_integral<I>::value, bool>::type same(I a, I b) { return a == b; }
template <class V> static auto same(const V &a, const V &b) -> decltype(a.size(), bool()) { if (a.size() != b.size()) return false; bool r = true; for (size_t i = 0; i < a.size(); ++i) r &= same(a[i], b[i]); return r; }
// the parts that draw nothing
template <class D, class P> static void params(const P &p, const P &p0) {
  D a(p); vp_assert(a.param() == p, "an object constructed from p reports p"); vp_assert(!(a.param() != p), "p is not different from p");
  D b(p0); b.param(p); vp_assert(b.param() == p, "param(p) sets p"); vp_assert(b == a && a == b, "param(p) makes the object equal to one constructed from p"); vp_assert(!(b != a), "and not unequal"); b.reset(); vp_assert(b.param() == p && b == a, "reset() keeps the parameters");
  D c(b); vp_assert(c == a && c.param() == p, "a copy has the same parameters"); D d(p0); d = a; vp_assert(d == a && d.param() == p, "so has an assigned object"); P q(p0); q = p; vp_assert(q == p, "parameter sets are assignable"); D e; P pe; vp_assert(D(pe) == e && e.param() == pe, "default parameters are the default object's"); }
// the parts that draw from engines giving the outputs o
template <class T, class D, class P, class R> static void agree(const P &p, const P &p0, const R *o, int len, int draws) {
  params<D>(p, p0); T e1(o, len), e2(o, len), e3(o, len), e4(o, len); D a(p), b(p0); b.param(p); D c(p0); const D k(p0);
  auto x0 = a(e1); auto y0 = b(e2); vp_assert(same(x0, y0) && e1.n == e2.n, "after param(p) it draws like one constructed from p");
  { auto z = c(e3, p); vp_assert(same(x0, z) && e1.n == e3.n, "dist(engine, p) draws like one constructed from p"); vp_assert(c.param() == p0 && c == k, "and keeps its own parameters"); }
  for (int i = 1; i < draws; ++i) { auto x = a(e1); auto y = b(e2); vp_assert(same(x, y) && e1.n == e2.n, "after param(p) it draws like one constructed from p"); } vp_assert(a == b && a.param() == p, "drawing does not change the parameters");
  a.reset(); auto w = a(e4); vp_assert(same(w, x0), "after reset() earlier draws have no influence");
}
static uint32_t o32[8]; static void any32(int n, uint32_t lo = 0, uint32_t hi = 0xffffffffu) { for (int i = 0; i < n; ++i) o32[i] = vp::in<uint32_t>("w", lo, hi); }
template <class T> static T mid(const char *n) { return vp::between(n, T(0x1p-100), T(0x1p100)); }
template <class T> static T any(const char *n) { return vp::finite<T>(n); }
template <class T> static T unit(const char *n) { return vp::between(n, T(0), T(1)); }
template <class T> static T open1(const char *n) { return vp::between(n, T(0x1p-20), T(1) - T(0x1p-20)); }
// equality of parameter sets is equality of every parameter
template <class D, class A> static void eq1(A a, A b) { typename D::param_type p(a), q(b); vp_assert((p == q) == (a == b), "parameter sets are equal iff the parameters are"); vp_assert((D(p) == D(q)) == (a == b), "objects are equal iff the parameters are"); vp_assert((p != q) != (p == q) && (D(p) != D(q)) == (p != q), "unequal is not equal"); }
template <class D, class A, class B> static void eq2(A a, B c, A b, B d) { typename D::param_type p(a, c), q(b, d); bool e = a == b && c == d; vp_assert((p == q) == e, "parameter sets are equal iff the parameters are"); vp_assert((D(p) == D(q)) == e, "objects are equal iff the parameters are"); vp_assert((p != q) != (p == q) && (D(p) != D(q)) == (p != q), "unequal is not equal"); vp_assert(D(a, c) == D(p), "parameters given directly or as a set"); }
#define ACC(d, f, v) vp_assert(same(d.f(), v) && same(d.param().f(), v), "accessor " #f)
// ---- integers and uniform reals
template <class D, class I> static void ints(I width) { I a = vp::in<I>("a"), a0 = vp::in<I>("a0"), b0 = vp::in<I>("b0"); vp_assume(a0 <= b0 && a <= std::numeric_limits<I>::max() - width); I b = I(a + width); typedef typename D::param_type P; any32(6); agree<T32, D>(P(a, b), P(a0, b0), o32, 6, 2); D d(a, b); ACC(d, a, a); ACC(d, b, b); vp_assert((d.min)() == a && (d.max)() == b, "min and max"); I c = vp::in<I>("c"), e = vp::in<I>("e"); vp_assume(c <= e); eq2<D>(a, b, c, e); }
ENTRY(q_uniform_int) { ints<br::uniform_int_distribution<int>, int>(999); ints<br::uniform_int_distribution<int64_t>, int64_t>(6); }
ENTRY(q_uniform_int8) { ints<br::uniform_int_distribution<uint8_t>, uint8_t>(200); ints<br::uniform_int_distribution<int16_t>, int16_t>(0); }
ENTRY(q_uniform_int_old) { ints<boost::uniform_int<int>, int>(7); }
ENTRY(q_uniform_smallint) { ints<br::uniform_smallint<int>, int>(99); }
template <class D, class F> static void reals() { F a = vp::between("a", F(-0.0) + F(0), F(1000)), w = mid<F>("w"), a0 = any<F>("a0"), b0 = any<F>("b0"); vp_assume(a0 < b0 && b0 < F(0x1p100) && a0 > -F(0x1p100)); F b = a + w; vp_assume(a < b); typedef typename D::param_type P; any32(2); agree<T32, D>(P(a, b), P(a0, b0), o32, 2, 1); D d(a, b); ACC(d, a, a); ACC(d, b, b); vp_assert((d.min)() == a && (d.max)() == b, "min and max"); eq2<D>(a, b, a0, b0); }
ENTRY(q_uniform_real) { reals<br::uniform_real_distribution<double>, double>(); }
ENTRY(q_uniform_realf) { reals<br::uniform_real_distribution<float>, float>(); }
ENTRY(q_uniform_real_old) { reals<boost::uniform_real<double>, double>(); }
// ---- one engine output each
ENTRY(q_bernoulli) { typedef br::bernoulli_distribution<double> D; typedef D::param_type P; double p = unit<double>("p"), q = unit<double>("q"); any32(6); agree<T32, D>(P(p), P(q), o32, 6, 3); D d(p); ACC(d, p, p); eq1<D>(p, q); }
ENTRY(q_cauchy) { typedef br::cauchy_distribution<double> D; typedef D::param_type P; double m = any<double>("m"), s = mid<double>("s"), m0 = any<double>("m0"), s0 = mid<double>("s0"); any32(6); agree<T32, D>(P(m, s), P(m0, s0), o32, 6, 3); D d(m, s); ACC(d, median, m); ACC(d, sigma, s); ACC(d, a, m); ACC(d, b, s); eq2<D>(m, s, m0, s0); }
template <class D, class F> static void ab() { typedef typename D::param_type P; F m = mid<F>("m"), s = mid<F>("s"), m0 = mid<F>("m0"), s0 = mid<F>("s0"); any32(6); agree<T32, D>(P(m, s), P(m0, s0), o32, 6, 3); D d(m, s); ACC(d, a, m); ACC(d, b, s); eq2<D>(m, s, m0, s0); vp_assert(same(P(m).a(), m) && same(D(m).a(), m) && same(D(m).b(), F(1)), "default second parameter"); }
ENTRY(q_weibull) { ab<br::weibull_distribution<double>, double>(); }
ENTRY(q_weibullf) { ab<br::weibull_distribution<float>, float>(); }
ENTRY(q_extreme_value) { ab<br::extreme_value_distribution<double>, double>(); }
ENTRY(q_geometric) { typedef br::geometric_distribution<int, double> D; typedef D::param_type P; double p = open1<double>("p"), q = open1<double>("q"); any32(6); agree<T32, D>(P(p), P(q), o32, 6, 3); D d(p); ACC(d, p, p); eq1<D>(p, q); }
ENTRY(q_triangle) { typedef br::triangle_distribution<double> D; typedef D::param_type P; double a = any<double>("a"), b = any<double>("b"), c = any<double>("c"), x = any<double>("x"), y = any<double>("y"), z = any<double>("z"); vp_assume(a <= b && b <= c && x <= y && y <= z); vp_assume(a > -1e100 && c < 1e100 && x > -1e100 && z < 1e100); any32(6); P p(a, b, c), q(x, y, z); agree<T32, D>(p, q, o32, 6, 1); D d(a, b, c); ACC(d, a, a); ACC(d, b, b); ACC(d, c, c); vp_assert((d.min)() == a && (d.max)() == c, "min and max"); vp_assert(D(a, b, c) == D(p), "parameters given directly or as a set"); bool e = a == x && b == y && c == z; vp_assert((p == q) == e && (D(p) == D(q)) == e, "equal iff the parameters are"); }
// ---- ziggurat and what is built on it
ENTRY(q_exponential) { typedef br::exponential_distribution<double> D; typedef D::param_type P; double l = mid<double>("l"), m = mid<double>("m"); any32(5); agree<T32, D>(P(l), P(m), o32, 5, 2); D d(l); ACC(d, lambda, l); eq1<D>(l, m); }
ENTRY(q_exponentialf) { typedef br::exponential_distribution<float> D; typedef D::param_type P; float l = mid<float>("l"), m = mid<float>("m"); any32(2); agree<T32, D>(P(l), P(m), o32, 2, 1); D d(l); ACC(d, lambda, l); eq1<D>(l, m); }
template <class D, class F> static void norm(int len, int draws) { typedef typename D::param_type P; F m = any<F>("m"), s = mid<F>("s"), m0 = any<F>("m0"), s0 = mid<F>("s0"); any32(len); agree<T32, D>(P(m, s), P(m0, s0), o32, len, draws); eq2<D>(m, s, m0, s0); }
ENTRY(q_normal) { typedef br::normal_distribution<double> D; norm<D, double>(4, 2); double m = any<double>("m"), s = mid<double>("s"); D d(m, s); ACC(d, mean, m); ACC(d, sigma, s); }
ENTRY(q_normalf) { norm<br::normal_distribution<float>, float>(2, 2); }
ENTRY(q_lognormal) { typedef br::lognormal_distribution<double> D; norm<D, double>(4, 2); double m = any<double>("m"), s = mid<double>("s"); D d(m, s); ACC(d, m, m); ACC(d, s, s); }
ENTRY(q_laplace) { typedef br::laplace_distribution<double> D; norm<D, double>(4, 1); double m = any<double>("m"), s = mid<double>("s"); D d(m, s); ACC(d, mean, m); ACC(d, beta, s); }
ENTRY(q_gamma) { typedef br::gamma_distribution<double> D; typedef D::param_type P; double a = mid<double>("a"), b = mid<double>("b"), c = mid<double>("c"), e = mid<double>("e"); any32(4); agree<T32, D>(P(a, b), P(c, e), o32, 4, 1); D d(a, b); ACC(d, alpha, a); ACC(d, beta, b); eq2<D>(a, b, c, e); }
ENTRY(q_gamma_hist) { typedef br::gamma_distribution<double> D; typedef D::param_type P; any32(4); agree<T32, D>(P(2.5, 3), P(0.5, 2), o32, 4, 2); any32(4); agree<T32, D>(P(0.5, 3), P(2.5, 2), o32, 4, 1); any32(4); agree<T32, D>(P(1, 3), P(0.25, 2), o32, 4, 1); }
ENTRY(q_chi_squared) { typedef br::chi_squared_distribution<double> D; typedef D::param_type P; double a = mid<double>("a"), c = mid<double>("c"); any32(4); agree<T32, D>(P(a), P(c), o32, 2, 1); D d(a); ACC(d, n, a); vp_assert((P(a) == P(c)) == (a == c), "parameter sets are equal iff the parameters are"); }
ENTRY(q_fisher_f) { typedef br::fisher_f_distribution<double> D; typedef D::param_type P; double a = mid<double>("a"), b = mid<double>("b"), c = mid<double>("c"), e = mid<double>("e"); params<D>(P(a, b), P(c, e)); eq2<D>(a, b, c, e); D d(a, b); ACC(d, m, a); ACC(d, n, b); any32(4); agree<T32, D>(P(2, 2), P(4, 3), o32, 4, 1); any32(4, 0x10000000u, 0x1fffffffu); agree<T32, D>(P(5, 3), P(2, 1), o32, 4, 1); }
ENTRY(q_student_t) { typedef br::student_t_distribution<double> D; typedef D::param_type P; double a = mid<double>("a"), c = mid<double>("c"); params<D>(P(a), P(c)); eq1<D>(a, c); D d(a); ACC(d, n, a); any32(4); T32 e1(o32, 4), e2(o32, 4), e3(o32, 4); D x(P(4)), y(P(2)), z(y); y.param(P(4)); double u = x(e1); vp_assert(same(u, y(e2)) && e1.n == e2.n, "after param(p) it draws like one constructed from p"); vp_assert(same(u, z(e3, P(4))) && e1.n == e3.n, "dist(engine, p) draws like one constructed from p"); x.reset(); vp_assert(x == y && x.param() == P(4), "reset() keeps the parameters"); }
ENTRY(q_beta) { typedef br::beta_distribution<double> D; typedef D::param_type P; double a = mid<double>("a"), b = mid<double>("b"), c = mid<double>("c"), e = mid<double>("e"); params<D>(P(a, b), P(c, e)); eq2<D>(a, b, c, e); D d(a, b); ACC(d, alpha, a); ACC(d, beta, b); any32(8, 0x01000000u, 0x1fffffffu); agree<T32, D>(P(1, 1), P(2, 3), o32, 8, 1); agree<T32, D>(P(2, 1), P(1, 3), o32, 8, 1); }
ENTRY(q_non_central) { typedef br::non_central_chi_squared_distribution<double> D; typedef D::param_type P; double a = mid<double>("a"), b = mid<double>("b"), c = mid<double>("c"), e = mid<double>("e"); params<D>(P(a, b), P(c, e)); eq2<D>(a, b, c, e); D d(a, b); ACC(d, k, a); ACC(d, lambda, b); any32(8, 0x01000000u, 0x1fffffffu); agree<T32, D>(P(3, 2), P(1, 3), o32, 8, 1); }
// ---- inversion and transformed rejection
ENTRY(q_poisson_par) { typedef br::poisson_distribution<int, double> D; typedef D::param_type P; double a = mid<double>("a"), c = mid<double>("c"); params<D>(P(a), P(c)); eq1<D>(a, c); D d(a); ACC(d, mean, a); vp_assert((d.min)() == 0, "min"); }
template <class D, class P> static void counts(P p, P p0, uint32_t hi) { any32(3, 0, hi); agree<T32, D>(p, p0, o32, 3, 2); }
typedef vp::tape<uint8_t, 0, 255> T8; static uint8_t o8[4];
template <class D, class P> static void counts8(P p, P p0, uint8_t hi) { for (int i = 0; i < 3; ++i) o8[i] = vp::in<uint8_t>("w", 0, hi); agree<T8, D>(p, p0, o8, 3, 2); }
ENTRY(q_poisson_inv) { typedef br::poisson_distribution<int, double> D; typedef D::param_type P; counts8<D>(P(1), P(4), 239); counts8<D>(P(0.125), P(20), 239); counts8<D>(P(9.75), P(0.5), 15); }
ENTRY(q_poisson_ptrd) { typedef br::poisson_distribution<int, double> D; typedef D::param_type P; counts<D>(P(10), P(4), 0x3fffffffu); counts<D>(P(1000), P(10), 0x3fffffffu); }
ENTRY(q_binomial_par) { typedef br::binomial_distribution<int, double> D; typedef D::param_type P; int t = vp::in<int>("t", 0, 1 << 20), u = vp::in<int>("u", 0, 1 << 20); double a = open1<double>("p"), c = open1<double>("q"); params<D>(P(t, a), P(u, c)); eq2<D>(t, a, u, c); D d(t, a); ACC(d, t, t); ACC(d, p, a); vp_assert((d.min)() == 0 && (d.max)() == t, "min and max"); }
ENTRY(q_binomial_inv) { typedef br::binomial_distribution<int, double> D; typedef D::param_type P; counts<D>(P(5, 0.25), P(100, 0.5), 0xefffffffu); counts<D>(P(6, 0.75), P(3, 0.25), 0xefffffffu); counts<D>(P(1, 0.5), P(0, 0.25), 0xffffffffu); }
ENTRY(q_binomial_btrd) { typedef br::binomial_distribution<int, double> D; typedef D::param_type P; counts<D>(P(100, 0.25), P(5, 0.5), 0x3fffffffu); counts<D>(P(100, 0.75), P(100, 0.25), 0x3fffffffu); }
ENTRY(q_negative_binomial) { typedef br::negative_binomial_distribution<int, double> D; typedef D::param_type P; int t = vp::in<int>("t", 1, 1 << 20), u = vp::in<int>("u", 1, 1 << 20); double a = open1<double>("p"), c = open1<double>("q"); params<D>(P(t, a), P(u, c)); eq2<D>(t, a, u, c); D d(t, a); ACC(d, k, t); ACC(d, p, a); vp_assert((d.min)() == 0, "min"); }
// ---- containers
typedef br::discrete_distribution<int, int> DI;
ENTRY(q_discrete) { int w[3], v[2]; for (int i = 0; i < 3; ++i) w[i] = (int)vp_split(vp::in<uint32_t>("w", 0u, 1u), 1) * (i + 1); vp_assume(w[0] + w[1] + w[2] > 0); v[0] = (int)vp_split(vp::in<uint32_t>("v", 1u, 2u), 2); v[1] = 1; typedef DI::param_type P; P p(w, w + 3), q(v, v + 2); params<DI>(p, q); any32(6); T32 e1(o32, 6), e2(o32, 6), e4(o32, 6); DI a(p), b(q); b.param(p); int x = a(e1), y = b(e2); vp_assert(x == y && e1.n == e2.n, "after param(p) it draws like one constructed from p"); a.reset(); vp_assert(a(e4) == x, "after reset() earlier draws have no influence"); DI d(w, w + 3); vp_assert(d == DI(p), "parameters given directly or as a set"); vp_assert((d.min)() == 0 && (d.max)() == 2, "range"); }
ENTRY(q_piecewise_constant) { typedef br::piecewise_constant_distribution<double, int> D; typedef D::param_type P; double b[4] = {1, 0, 0, 0}, c[2] = {0, 3}; b[1] = vp::between("b1", 1.5, 2.0); b[2] = vp::between("b2", 2.5, 4.0); int w[2], v[1] = {2}; for (int i = 0; i < 2; ++i) w[i] = (int)vp_split(vp::in<uint32_t>("w", 1u, 2u), 2); P p(b, b + 3, w), q(c, c + 2, v); any32(4); agree<T32, D>(p, q, o32, 4, 1); D d(b, b + 3, w); vp_assert(d == D(p), "parameters given directly or as a set"); vp_assert((d.min)() == b[0] && (d.max)() == b[2], "range"); std::vector<double> iv = d.intervals(); vp_assert(iv.size() == 3 && iv[1] == b[1], "intervals"); }
ENTRY(q_piecewise_linear) { typedef br::piecewise_linear_distribution<double> D; typedef D::param_type P; double b[3] = {1, 2, 4}, c[2] = {0, 3}; double w[3] = {1, 2, 0}, v[2] = {2, 1}; P p(b, b + 3, w), q(c, c + 2, v); any32(6); agree<T32, D>(p, q, o32, 6, 1); D d(b, b + 3, w); vp_assert(d == D(p), "parameters given directly or as a set"); vp_assert((d.min)() == b[0] && (d.max)() == b[2], "range"); }
ENTRY(q_hyperexponential) { typedef br::hyperexponential_distribution<double> D; typedef D::param_type P; double p[2] = {1, 3}, r[2], r1[3] = {1, 2, 4}; r[0] = mid<double>("r0"); r[1] = mid<double>("r1"); P a(p, p + 2, r, r + 2), b(r1, r1 + 3); params<D>(a, b); params<D>(b, a); any32(6, 0, 0x3fffffffu); agree<T32, D>(a, b, o32, 6, 1); std::vector<double> pr = b.probabilities(); vp_assert(pr.size() == 3 && pr[0] == pr[1], "equal phases without probabilities"); D d(r1, r1 + 3); vp_assert(d == D(b), "parameters given directly or as a set"); D e(p, p + 2, r, r + 2); vp_assert(e == D(a), "parameters given directly or as a set"); vp_assert(e.num_phases() == 2, "phases"); }
ENTRY(q_sphere) { typedef br::uniform_on_sphere<double> D; typedef D::param_type P; any32(8, 0x01000000u, 0x7fffffffu); for (int k = 1; k < 3; ++k) { P p(k), q(3); params<D>(p, q); D a(p), b(q), c(q); b.param(p); T32 e1(o32, 8), e2(o32, 8), e3(o32, 8), e4(o32, 8); std::vector<double> x = a(e1), y = b(e2), z = c(e3, p); vp_assert(same(x, y) && same(x, z) && e1.n == e2.n && e1.n == e3.n, "the same point"); a.reset(); std::vector<double> w = a(e4); vp_assert(same(w, x), "after reset() earlier draws have no influence"); vp_assert(a.dim() == k && c.dim() == 3, "dim"); } }
