// vp-bound: every parameter value within the stated preconditions (finite); vectors of 0 to 3 entries; values drawn after restoring: two engine draws
// vp-assume: a stream is modelled as a sequence of characters and numbers that round-trip exactly; long double parameters are not covered; discrete and piecewise distributions over real weights are compared through their parameter sets (the weights are normalised again, with rounding, by the distribution)
// vp-opt: all --feas 2000
// vp-opt: q_discrete_int2 --nomerge
// vp-opt: q_discrete_int3 --nomerge
// vp-opt: q_pwc_int --nomerge
#include "mock.h"
#include <boost/random/uniform_smallint.hpp>
#include <boost/random/uniform_int.hpp>
#include <boost/random/uniform_int_distribution.hpp>
#include <boost/random/uniform_real.hpp>
#include <boost/random/uniform_real_distribution.hpp>
#include <boost/random/uniform_01.hpp>
#include <boost/random/bernoulli_distribution.hpp>
#include <boost/random/beta_distribution.hpp>
#include <boost/random/binomial_distribution.hpp>
#include <boost/random/cauchy_distribution.hpp>
#include <boost/random/chi_squared_distribution.hpp>
#include <boost/random/discrete_distribution.hpp>
#include <boost/random/exponential_distribution.hpp>
#include <boost/random/extreme_value_distribution.hpp>
#include <boost/random/fisher_f_distribution.hpp>
#include <boost/random/gamma_distribution.hpp>
#include <boost/random/geometric_distribution.hpp>
#include <boost/random/hyperexponential_distribution.hpp>
#include <boost/random/laplace_distribution.hpp>
#include <boost/random/lognormal_distribution.hpp>
#include <boost/random/negative_binomial_distribution.hpp>
#include <boost/random/non_central_chi_squared_distribution.hpp>
#include <boost/random/normal_distribution.hpp>
#include <boost/random/piecewise_constant_distribution.hpp>
#include <boost/random/piecewise_linear_distribution.hpp>
#include <boost/random/poisson_distribution.hpp>
#include <boost/random/student_t_distribution.hpp>
#include <boost/random/triangle_distribution.hpp>
#include <boost/random/uniform_on_sphere.hpp>
#include <boost/random/weibull_distribution.hpp>
#include "vp_common.h"
#include "tok.h"
namespace br = boost::random;
// x written to a stream and read into y; with more input following and as the last thing of the stream
template <class X, class Chk> static void rt1(const X &x, X y, Chk chk) {
  for (int last = 0; last < 2; ++last) {
    X f(y); static vp::tokbuf b; b = vp::tokbuf(); vp::tos os(b); os << x; vp_assert(!os.fail(), "written"); if (!last) os << ' ' << 4711u;
    vp::tis is(b); is >> f; vp_assert(!is.fail(), "read back without failure");
    if (!last) { unsigned t = 0; is >> t; vp_assert(!is.fail() && t == 4711u, "exactly what was written was consumed"); } else vp_assert(b.rd == b.n, "everything written was consumed");
    vp_assert(x == f && f == x && !(x != f), "the restored object is equal"); chk(x, f);
  }
}
struct nochk { template <class X> void operator()(const X &, const X &) const {} };
// the same engine outputs give the same value
struct draw { template <class D> void operator()(const D &x, const D &f) const { static uint32_t w[4]; for (int i = 0; i < 4; ++i) w[i] = vp::in<uint32_t>("w"); vp::tape<uint32_t, 0, 0xffffffffu> e1(w, 4), e2(w, 4); D a(x), b(f);
  for (int k = 0; k < 2; ++k) { auto r = a(e1), s = b(e2); vp_assert(r == s || (r != r && s != s), "the restored distribution produces the same values"); } vp_assert(e1.n == e2.n, "from the same number of engine outputs"); } };
template <class D, class Chk> static void rt(const D &d, Chk chk) { typedef typename D::param_type P; rt1<D>(d, D(), chk); rt1<P>(d.param(), P(), nochk()); D e; e.param(d.param()); vp_assert(e == d, "param() round trip"); D g(d.param()); vp_assert(g == d, "constructed from param()"); }
template <class T> static T pos(const char *n) { T v = vp::finite<T>(n); vp_assume(v > 0); return v; }
template <class T> static T mid(const char *n) { return vp::between(n, T(0x1p-100), T(0x1p100)); }
template <class T> static T unit(const char *n) { return vp::between(n, T(0), T(1)); }
template <class T> static T any(const char *n) { return vp::finite<T>(n); }
// integers
template <class D, class T> static void ints() { T a = vp::in<T>("a"), b = vp::in<T>("b"); vp_assume(a <= b); rt(D(a, b), nochk()); }
ENTRY(q_uniform_int) { ints<br::uniform_int_distribution<int>, int>(); ints<br::uniform_int_distribution<uint64_t>, uint64_t>(); ints<br::uniform_int_distribution<int64_t>, int64_t>(); ints<br::uniform_int_distribution<unsigned short>, unsigned short>(); ints<boost::uniform_int<int>, int>(); }
ENTRY(q_smallint) { ints<br::uniform_smallint<int>, int>(); ints<br::uniform_smallint<uint64_t>, uint64_t>(); }
ENTRY(q_draw_int) { int a = vp::in<int>("a", -5, 100), b = vp::in<int>("b", -5, 100); vp_assume(a <= b); rt(br::uniform_smallint<int>(a, b), draw()); }
// reals
template <class D, class T> static void reals() { T a = any<T>("a"), b = any<T>("b"); vp_assume(a < b); rt(D(a, b), nochk()); }
ENTRY(q_uniform_real) { reals<br::uniform_real_distribution<double>, double>(); reals<br::uniform_real_distribution<float>, float>(); reals<boost::uniform_real<double>, double>(); }
ENTRY(q_draw_real) { double a = 0.75, b = 3.5; rt(br::uniform_real_distribution<double>(a, b), draw()); }
ENTRY(q_bernoulli) { rt(br::bernoulli_distribution<double>(unit<double>("p")), draw()); rt(br::bernoulli_distribution<float>(unit<float>("p")), nochk()); }
template <template <class> class D, class Chk> static void loc_scale(Chk c) { rt(D<double>(any<double>("a"), pos<double>("b")), c); rt(D<float>(any<float>("a"), pos<float>("b")), nochk()); }
template <template <class> class D> static void two_pos() { rt(D<double>(pos<double>("a"), pos<double>("b")), nochk()); rt(D<float>(pos<float>("a"), pos<float>("b")), nochk()); }
template <template <class> class D> static void one_pos() { rt(D<double>(pos<double>("a")), nochk()); rt(D<float>(pos<float>("a")), nochk()); }
ENTRY(q_normal) { loc_scale<br::normal_distribution>(nochk()); }
ENTRY(q_normal_draw) { br::normal_distribution<double> x(1.5, 2.25); rt1(x, br::normal_distribution<double>(), [](const br::normal_distribution<double> &x, const br::normal_distribution<double> &f) { static uint32_t w[3]; for (int i = 0; i < 3; ++i) w[i] = vp::in<uint32_t>("w"); w[0] |= 0xff00; vp::tape<uint32_t, 0, 0xffffffffu> e1(w, 2), e2(w, 2); br::normal_distribution<double> a(x), b(f); vp_assert(a(e1) == b(e2), "the restored distribution produces the same values"); }); }
ENTRY(q_cauchy) { loc_scale<br::cauchy_distribution>(draw()); }
ENTRY(q_extreme) { loc_scale<br::extreme_value_distribution>(nochk()); }
ENTRY(q_laplace) { loc_scale<br::laplace_distribution>(nochk()); }
ENTRY(q_lognormal) { loc_scale<br::lognormal_distribution>(nochk()); }
ENTRY(q_exponential) { one_pos<br::exponential_distribution>(); }
ENTRY(q_weibull) { two_pos<br::weibull_distribution>(); }
ENTRY(q_gamma) { two_pos<br::gamma_distribution>(); }
ENTRY(q_beta) { two_pos<br::beta_distribution>(); }
ENTRY(q_chi) { rt(br::chi_squared_distribution<double>(mid<double>("n")), nochk()); rt(br::chi_squared_distribution<float>(mid<float>("n")), nochk()); }
ENTRY(q_fisher) { rt(br::fisher_f_distribution<double>(mid<double>("m"), mid<double>("n")), nochk()); }
ENTRY(q_student) { rt(br::student_t_distribution<double>(mid<double>("n")), nochk()); }
ENTRY(q_noncentral) { two_pos<br::non_central_chi_squared_distribution>(); }
ENTRY(q_geometric) { double p = pos<double>("p"); vp_assume(p < 1); rt(br::geometric_distribution<int, double>(p), draw()); float q = pos<float>("q"); vp_assume(q < 1); rt(br::geometric_distribution<int, float>(q), nochk()); }
ENTRY(q_triangle) { double a = any<double>("a"), b = any<double>("b"), c = any<double>("c"); vp_assume(a <= b && b <= c && a < c); rt(br::triangle_distribution<double>(a, b, c), nochk()); float x = any<float>("x"), y = any<float>("y"), z = any<float>("z"); vp_assume(x <= y && y <= z && x < z); rt(br::triangle_distribution<float>(x, y, z), nochk()); }
ENTRY(q_sphere) { for (int n = 0; n < 5; ++n) { br::uniform_on_sphere<double> d(n); rt1(d, br::uniform_on_sphere<double>(), nochk()); rt1(d.param(), br::uniform_on_sphere<double>::param_type(), nochk()); } }
// discrete counts
ENTRY(q_binomial) { rt(br::binomial_distribution<int, double>(vp::in<int>("t", 0, 40), unit<double>("p")), nochk()); }
ENTRY(q_binomial_draw) { rt(br::binomial_distribution<int, double>(3, 0.25), draw()); }
ENTRY(q_poisson) { rt(br::poisson_distribution<int, double>(pos<double>("mean")), nochk()); }
struct draw1 { template <class D> void operator()(const D &x, const D &f) const { uint32_t w[2] = {vp::in<uint32_t>("w", 0u, 0xb0000000u), vp::in<uint32_t>("w")}; vp::tape<uint32_t, 0, 0xffffffffu> e1(w, 2), e2(w, 2); D a(x), b(f); vp_assert(a(e1) == b(e2) && e1.n == e2.n, "the restored distribution produces the same values"); } };
ENTRY(q_poisson_draw) { rt1(br::poisson_distribution<int, double>(0.5), br::poisson_distribution<int, double>(), draw1()); }
ENTRY(q_negbin) { double p = unit<double>("p"); vp_assume(p > 0); rt(br::negative_binomial_distribution<int, double>(vp::in<int>("k", 1, 1 << 20), p), nochk()); }
ENTRY(q_uniform01) { br::uniform_01<double> u, v; vp::tokbuf b; vp::tos os(b); os << u; vp_assert(b.n == 0, "nothing to save"); }
// vectors of weights
template <class D, class T> static void weights(int n, T hi) { T w[4]; uint64_t s = 0; for (int i = 0; i < n; ++i) { w[i] = vp::in<T>("w", 0, hi); s += w[i]; } vp_assume(s > 0); D d(w, w + n); rt1<D>(d, D(), nochk()); rt1<typename D::param_type>(d.param(), typename D::param_type(), nochk()); D e; e.param(d.param()); vp_assert(e == d, "param() round trip"); }
ENTRY(q_discrete_int1) { weights<br::discrete_distribution<int, int>, int>(1, 255); }
ENTRY(q_discrete_int2) { weights<br::discrete_distribution<int, int>, int>(2, 12); }
ENTRY(q_discrete_int3) { weights<br::discrete_distribution<int, unsigned>, unsigned>(3, 3); }
template <class P> static void par(const P &p) { rt1<P>(p, P(), nochk()); }
ENTRY(q_discrete_par) { double w[3]; for (int i = 0; i < 3; ++i) w[i] = unit<double>("w"); vp_assume(w[0] > 0); for (int n = 0; n <= 3; ++n) par(br::discrete_distribution<int, double>::param_type(w, w + n)); }
ENTRY(q_discrete_empty) { br::discrete_distribution<int, double> d; rt1(d, br::discrete_distribution<int, double>({1.0, 2.0}), nochk()); br::discrete_distribution<int, int> e; rt1(e, br::discrete_distribution<int, int>({1, 2}), nochk()); }
ENTRY(q_pwc_par) { double x[4], w[4]; for (int i = 0; i < 4; ++i) { x[i] = any<double>("x"); w[i] = unit<double>("w"); } for (int n = 1; n <= 4; ++n) par(br::piecewise_constant_distribution<double, double>::param_type(x, x + n, w)); }
ENTRY(q_pwl_par) { double x[4], w[4]; for (int i = 0; i < 4; ++i) { x[i] = any<double>("x"); w[i] = unit<double>("w"); } for (int n = 1; n <= 4; ++n) par(br::piecewise_linear_distribution<double>::param_type(x, x + n, w)); }
ENTRY(q_pwc_int) { double x[3] = {any<double>("x"), any<double>("x"), any<double>("x")}; int w[2] = {vp::in<int>("w", 1, 6), vp::in<int>("w", 0, 6)}; typedef br::piecewise_constant_distribution<double, int> D; D d(x, x + 3, w); rt1(d, D(), nochk()); }
ENTRY(q_pwl) { double x[2] = {2, 5}, w[2] = {1, 1}; typedef br::piecewise_linear_distribution<double> D; D d(x, x + 2, w); rt1(d, D(), nochk()); D e; rt1(e, D(), nochk()); }
ENTRY(q_hyper) { double r[3]; for (int i = 0; i < 3; ++i) r[i] = pos<double>("r"); double p1[1] = {1}, p2[2] = {0.25, 0.75}, p4[4] = {0.5, 0.25, 0.125, 0.125}; double r4[4] = {r[0], r[1], r[2], 7}; typedef br::hyperexponential_distribution<double> D; typedef D::param_type P;
  par(P(p1, p1 + 1, r, r + 1)); par(P(p2, p2 + 2, r, r + 2)); par(P(p4, p4 + 4, r4, r4 + 4)); par(P()); rt1(D(p2, p2 + 2, r, r + 2), D(), nochk()); rt1(D(p4, p4 + 4, r4, r4 + 4), D(), nochk()); }
// input that cannot be read, or whose values the extraction checks: failbit, object unchanged
template <class D> static void bad(const D &x) { typedef typename D::param_type P; for (int k = 0; k < 2; ++k) { D d(x); P p(x.param()); vp::tokbuf b, c; if (k) { b.chr('x'); c.chr('x'); } vp::tis is(b), js(c); is >> d; vp_assert(is.fail(), "unreadable input fails"); js >> p; vp_assert(js.fail(), "unreadable input fails"); } }
ENTRY(q_bad) { bad(br::uniform_int_distribution<int>(1, 5)); bad(br::uniform_smallint<int>(1, 5)); bad(br::uniform_real_distribution<double>(1, 5)); bad(br::bernoulli_distribution<double>(0.5)); bad(br::normal_distribution<double>(1, 2)); bad(br::binomial_distribution<int, double>(5, 0.5)); bad(br::poisson_distribution<int, double>(3)); bad(br::gamma_distribution<double>(2, 2)); bad(br::geometric_distribution<int, double>(0.5)); bad(br::triangle_distribution<double>(1, 2, 3)); bad(br::discrete_distribution<int, int>({1, 2})); bad(br::piecewise_constant_distribution<double, int>({1., 2., 3.}, [](double) { return 1; })); bad(br::hyperexponential_distribution<double>()); bad(br::cauchy_distribution<double>()); bad(br::beta_distribution<double>()); bad(br::student_t_distribution<double>()); }
template <class D, class T> static void range_check(T a, T b, bool ok) { for (int k = 0; k < 2; ++k) { D d(T(1), T(2)); typename D::param_type p = d.param(), q = p; vp::tokbuf s; s.flt(a); s.chr(' '); s.flt(b); vp::tis is(s); if (k) is >> d; else is >> p; if (ok) continue; vp_assert(is.fail(), "values that violate the precondition set failbit"); vp_assert(k ? d.param() == q : p == q, "and leave the object as it was"); } }
ENTRY(q_check_int) { int a = vp::in<int>("a"), b = vp::in<int>("b"); for (int k = 0; k < 2; ++k) { br::uniform_int_distribution<int> d(1, 2), o(1, 2); br::uniform_int_distribution<int>::param_type p(1, 2), q(1, 2); vp::tokbuf s; s.sig(a); s.chr(' '); s.sig(b); vp::tis is(s); if (k) is >> d; else is >> p; vp_assert(is.fail() == (a > b), "failbit exactly for an invalid range"); vp_assert(k ? (a > b ? d == o : d.a() == a && d.b() == b) : (a > b ? p == q : p.a() == a && p.b() == b), "unchanged on failure, read otherwise"); } }
ENTRY(q_check_real) { double a = any<double>("a"), b = any<double>("b"); range_check<br::uniform_real_distribution<double>, double>(a, b, a <= b); }
ENTRY(q_check_geometric) { double p = any<double>("p"); for (int k = 0; k < 2; ++k) { br::geometric_distribution<int, double> d(0.25), o(0.25); br::geometric_distribution<int, double>::param_type q(0.25); vp::tokbuf s; s.flt(p); vp::tis is(s); if (k) is >> d; else is >> q; bool ok = p > 0 && p < 1; vp_assert(is.fail() == !ok, "failbit exactly for an invalid p"); vp_assert(k ? (ok ? d.p() == p : d == o) : q.p() == (ok ? p : 0.25), "unchanged on failure, read otherwise"); } }
ENTRY(q_check_triangle) { double a = any<double>("a"), b = any<double>("b"), c = any<double>("c"); for (int k = 0; k < 2; ++k) { br::triangle_distribution<double> d(1, 2, 3), o(1, 2, 3); br::triangle_distribution<double>::param_type q(1, 2, 3); vp::tokbuf s; s.flt(a); s.chr(' '); s.flt(b); s.chr(' '); s.flt(c); vp::tis is(s); bool ok = a <= b && b <= c; if (k) is >> d; else is >> q; vp_assert(is.fail() == !ok, "failbit exactly for invalid bounds"); if (k) vp_assert(ok ? d.a() == a && d.b() == b && d.c() == c : d == o, "unchanged on failure, read otherwise"); else vp_assert(ok ? q.a() == a && q.b() == b && q.c() == c : q == o.param(), "unchanged on failure, read otherwise"); } }
ENTRY(q_check_vector) { // malformed vectors
  typedef br::discrete_distribution<int, int> D; typedef D::param_type P; for (int k = 0; k < 4; ++k) { vp::tokbuf s; s.chr(k ? '[' : '('); s.sig(3); s.chr(' '); s.sig(4); if (k == 2) s.chr(')'); if (k == 3) s.chr(' '), s.chr('x'), s.chr(']'); D d({7, 8}), o({7, 8}); { vp::tis is(s); is >> d; vp_assert(is.fail(), "a malformed vector sets failbit"); vp_assert(d == o, "and leaves the distribution as it was"); } s.rd = 0; P p(d.param()); vp::tis is(s); is >> p; vp_assert(is.fail() && p == o.param(), "and leaves the parameters as they were"); } }
