// vp-bound: bernoulli: every probability (float and double) and output; the others: the listed parameters (triangle also: every multiple of 1/8 in [-4, 4]) with every engine output, up to two attempts of the rejection loops and the stated number of draws
// vp-assume: log, exp, pow, tan, sin, cos: any functions within their contracts (sign, monotone bounds, finite range); a tail of the ziggurat beyond two levels is outside the bound
// vp-opt: all --feas 0 --nomerge --oblig 60
#include "mock.h"
#include <boost/random/bernoulli_distribution.hpp>
#include <boost/random/beta_distribution.hpp>
#include <boost/random/binomial_distribution.hpp>
#include <boost/random/cauchy_distribution.hpp>
#include <boost/random/chi_squared_distribution.hpp>
#include <boost/random/exponential_distribution.hpp>
#include <boost/random/extreme_value_distribution.hpp>
#include <boost/random/fisher_f_distribution.hpp>
#include <boost/random/gamma_distribution.hpp>
#include <boost/random/geometric_distribution.hpp>
#include <boost/random/hyperexponential_distribution.hpp>
#include <boost/random/laplace_distribution.hpp>
#include <boost/random/lognormal_distribution.hpp>
#include <boost/random/negative_binomial_distribution.hpp>
#include <boost/random/non_central_chi_squared_distribution.hpp>
#include <boost/random/normal_distribution.hpp>
#include <boost/random/poisson_distribution.hpp>
#include <boost/random/student_t_distribution.hpp>
#include <boost/random/triangle_distribution.hpp>
#include <boost/random/uniform_on_sphere.hpp>
#include <boost/random/weibull_distribution.hpp>
#include "vp_common.h"
namespace br = boost::random;
template <int L> struct e32 : vp::eng<uint32_t, 0, 0xffffffffu, L> {};
template <int L> struct e8 : vp::eng<uint8_t, 0, 255, L> {};
template <int L> struct e64 : vp::eng<uint64_t, 0, ~0ull, L> {};
template <int L> struct ems : vp::eng<uint32_t, 1, 2147483646u, L> {};
template <class D, class T> static void inside(const D &d, T r) { vp_assert(r == r, "not NaN"); vp_assert(r >= (d.min)() && r <= (d.max)(), "min() <= value <= max()"); }
// ---- bernoulli
template <class R, class E> static void bern() { R p = vp::between("p", R(0), R(1)); br::bernoulli_distribution<R> d(p); E e; bool r = d(e); vp_assert(p != 0 || !r, "p == 0 never succeeds"); vp_assert(p != 1 || r, "p == 1 always succeeds"); E g; bool q = br::bernoulli_distribution<R>()(g, typename br::bernoulli_distribution<R>::param_type(p)); vp_assert(p != 0 || !q, "p == 0 never succeeds"); vp_assert(p != 1 || q, "p == 1 always succeeds"); }
ENTRY(q_bern_d32) { bern<double, e32<1> >(); }
ENTRY(q_bern_f32) { bern<float, e32<1> >(); }
ENTRY(q_bern_d64) { bern<double, e64<1> >(); }
ENTRY(q_bern_ms) { bern<double, ems<1> >(); }
ENTRY(q_bern_i8) { bern<float, vp::eng<int8_t, -100, 100, 1> >(); }
ENTRY(q_bern_one) { bern<double, vp::eng<uint8_t, 7, 7, 1> >(); }
// ---- counts
template <class E, class R> static void geo(R p) { br::geometric_distribution<int, R> d(p); E e; int r = d(e); vp_assert(r >= 0, "a geometric count is not negative"); inside(d, r); }
ENTRY(q_geo) { geo<e32<1> >(0.5); geo<e32<1> >(0.001); geo<ems<1> >(0.25); }
ENTRY(q_geo_hi) { geo<e32<1> >(0.999999); geo<e64<1> >(0.5); }
ENTRY(q_geo_f) { geo<e32<2> >(0.5f); geo<vp::eng<uint32_t, 0, 0xffffff, 2> >(0.25f); }
template <class E, class R> static void poi(R m) { br::poisson_distribution<int, R> d(m); E e; int r = d(e); vp_assert(r >= 0, "a Poisson count is not negative"); inside(d, r); }
ENTRY(q_poi_lo) { poi<e32<1> >(0.1); poi<ems<1> >(1.0); }
ENTRY(q_poi_9) { poi<e32<1> >(9.5); }
ENTRY(q_poi_f) { poi<e32<1> >(4.0f); }
// transformed rejection: the first output from a grid of G values (case split), the second any value
template <int G> struct grid { typedef uint32_t result_type; int n = 0; static constexpr uint32_t min BOOST_PREVENT_MACRO_SUBSTITUTION() { return 0; } static constexpr uint32_t max BOOST_PREVENT_MACRO_SUBSTITUTION() { return 0xffffffffu; }
  uint32_t operator()() { if (n >= 2) vp_cut("engine draws beyond the stated number"); if (n++ == 0) { uint64_t k = vp_split(vp_range("first", 16, 0, G), G); return k == G ? 0xffffffffu : uint32_t(k * (0x100000000ull / G)); } return vp::in<uint32_t>("second"); } };
ENTRY(q_poi_10) { poi<grid<64> >(10.0); }
ENTRY(q_poi_1000) { poi<grid<16> >(1000.0); }
ENTRY(t_poi_10) { poi<grid<1024> >(10.0); }
ENTRY(t_poi_1000) { poi<grid<1024> >(1000.0); }
ENTRY(q_poi_f25) { poi<grid<64> >(25.0f); }
template <class E, class R> static void bin(int t, R p) { br::binomial_distribution<int, R> d(t, p); E e; int r = d(e); vp_assert(r >= 0 && r <= t, "a binomial count lies in [0, t]"); inside(d, r); }
ENTRY(q_bin_inv) { bin<e32<1> >(5, 0.3); bin<e32<1> >(1, 0.5); bin<ems<1> >(9, 0.75); bin<e32<1> >(0, 0.5); }
ENTRY(q_bin_edge) { bin<e32<1> >(7, 0.0); bin<e32<1> >(7, 1.0); bin<e32<1> >(3, 0.999); }
ENTRY(q_bin_invf) { bin<e32<1> >(6, 0.5f); bin<e32<1> >(11, 0.9f); }
// transformed rejection: the region accepted at once (the other regions test 0 <= k <= t themselves before anything else and are cut at their second draw)
ENTRY(q_bin_22) { bin<e32<1> >(22, 0.5); }
ENTRY(q_bin_40hi) { bin<e32<1> >(40, 0.6); }
ENTRY(q_bin_1000) { bin<e32<1> >(1000, 0.4); }
ENTRY(q_bin_edge2) { bin<e32<1> >(100000, 0.5); bin<e32<1> >(12, 0.92); bin<e32<1> >(1100, 0.01); }
ENTRY(q_negbin_edge) { br::negative_binomial_distribution<int> d(vp::in<int>("k", 1, 1000), 1.0), f(0, 0.5); e32<1> e; vp_assert(d(e) == 0, "p == 1: no failures"); vp_assert(f(e) == 0, "k == 0: nothing to wait for"); }
struct edge32 { typedef uint32_t result_type; int n; edge32() : n(0) {} static constexpr uint32_t min BOOST_PREVENT_MACRO_SUBSTITUTION() { return 0; } static constexpr uint32_t max BOOST_PREVENT_MACRO_SUBSTITUTION() { return 0xffffffffu; }
  uint32_t operator()() { if (n++ < 2) { static const uint32_t v[4] = {0, 255, 0x80000000u, 0xfffffffeu}; return v[vp_split(vp_range("edge", 8, 0, 3), 3)]; } if (n > 3) vp_cut("engine draws beyond the stated number"); return vp::in<uint32_t>("draw"); } };
ENTRY(q_negbin) { br::negative_binomial_distribution<int> d(1, 0.5); edge32 e; int r = d(e); vp_assert(r >= 0, "not negative"); }
// ---- waiting times and other non-negative values
template <class D, class E> static void nonneg(D d) { E e; auto r = d(e); vp_assert(r >= 0, "not negative (and not NaN)"); inside(d, r); }
ENTRY(q_exp) { nonneg<br::exponential_distribution<double>, e32<3> >(br::exponential_distribution<double>(2.0)); }
ENTRY(q_exp64) { nonneg<br::exponential_distribution<double>, e64<2> >(br::exponential_distribution<double>(0.5)); }
ENTRY(q_expf) { nonneg<br::exponential_distribution<float>, e32<2> >(br::exponential_distribution<float>(3.0f)); }
ENTRY(q_weibull) { nonneg<br::weibull_distribution<double>, e32<1> >(br::weibull_distribution<double>(1.5, 2.0)); nonneg<br::weibull_distribution<double>, e32<1> >(br::weibull_distribution<double>(1.0, 3.0)); nonneg<br::weibull_distribution<float>, e32<2> >(br::weibull_distribution<float>(0.5f, 2.0f)); }
ENTRY(q_lognormal) { nonneg<br::lognormal_distribution<double>, e32<2> >(br::lognormal_distribution<double>(0.0, 1.0)); }
ENTRY(q_gamma_1) { nonneg<br::gamma_distribution<double>, e32<2> >(br::gamma_distribution<double>(1.0, 2.0)); }
ENTRY(q_gamma_hi) { nonneg<br::gamma_distribution<double>, e32<2> >(br::gamma_distribution<double>(2.5, 2.0)); }
ENTRY(q_gamma_lo) { nonneg<br::gamma_distribution<double>, e32<3> >(br::gamma_distribution<double>(0.5, 2.0)); }
ENTRY(q_chi2) { nonneg<br::chi_squared_distribution<double>, e32<2> >(br::chi_squared_distribution<double>(5.0)); }
ENTRY(q_hyper) { double p[2] = {0.25, 0.75}, l[2] = {1.0, 4.0}; br::hyperexponential_distribution<double> d(p, p + 2, l, l + 2); e32<4> e; double r = d(e); vp_assert(r >= 0, "not negative (and not NaN)"); inside(d, r); }
ENTRY(q_ncchi2) { nonneg<br::non_central_chi_squared_distribution<double>, e32<4> >(br::non_central_chi_squared_distribution<double>(3.0, 2.0)); }
// ---- whole line: a number, not NaN
template <class D, class E> static void line(D d) { E e; auto r = d(e); vp_assert(r == r, "not NaN"); }
ENTRY(q_normal) { line<br::normal_distribution<double>, e32<3> >(br::normal_distribution<double>(1.0, 2.0)); }
ENTRY(q_normalf) { line<br::normal_distribution<float>, e32<2> >(br::normal_distribution<float>(1.0f, 2.0f)); }
ENTRY(q_laplace) { line<br::laplace_distribution<double>, e32<3> >(br::laplace_distribution<double>(1.0, 2.0)); }
ENTRY(q_cauchy) { line<br::cauchy_distribution<double>, e32<1> >(br::cauchy_distribution<double>(1.0, 2.0)); line<br::cauchy_distribution<float>, e32<2> >(br::cauchy_distribution<float>(1.0f, 2.0f)); }
ENTRY(q_extreme) { line<br::extreme_value_distribution<double>, e32<1> >(br::extreme_value_distribution<double>(1.0, 2.0)); }
// ---- bounded
template <class E, class R> static void tri(R a, R b, R c) { br::triangle_distribution<R> d(a, b, c); E e; R r = d(e); vp_assert(r >= a && r <= c, "a triangle value lies in [a, c]"); inside(d, r); }
ENTRY(q_tri_mid) { tri<e32<1> >(0.0, 0.5, 1.0); }
ENTRY(q_tri_left) { tri<e32<1> >(0.0, 0.0, 1.0); }
ENTRY(q_tri_right) { tri<e32<1> >(-1.0, 3.0, 3.0); }
ENTRY(t_tri_odd) { tri<e32<1> >(-1.0, 0.3, 5.7); }
ENTRY(q_tri_f) { tri<e32<2> >(-1.0f, 0.3f, 5.7f); }
// the two gamma values come from one ziggurat layer each, with a mantissa that is not zero (two zeros are the known finding)
template <int L> static double bta(double a, double b) { br::beta_distribution<double> d(a, b); static uint32_t w[4]; for (int i = 0; i < 4; ++i) w[i] = vp::in<uint32_t>("w"); for (int i = 0; i < 4; i += 2) w[i] = uint32_t(vp_range("m", 24, 1, 0xffffff)) << 8 | L; vp::tape<uint32_t, 0, 0xffffffffu> e(w, 4); return d(e); }
template <int L> static void beta_in() { double r = bta<L>(1.0, 1.0); vp_assert(r == r, "not NaN"); vp_assert(r >= 0, "a beta value is at least 0"); vp_assert(r <= 1, "a beta value is at most 1"); }
ENTRY(q_beta_1) { beta_in<1>(); }
ENTRY(q_beta_200) { beta_in<200>(); }
// ---- known: 0/0 when both variates are exactly zero (see known_findings.json)
struct zeros { typedef uint32_t result_type; static constexpr uint32_t min BOOST_PREVENT_MACRO_SUBSTITUTION() { return 0; } static constexpr uint32_t max BOOST_PREVENT_MACRO_SUBSTITUTION() { return 0xffffffffu; } uint32_t operator()() { return 0; } };
ENTRY(k_beta_zero) { zeros e; br::beta_distribution<double> d(1.0, 1.0); double r = d(e); vp_assert(r >= 0 && r <= 1, "a beta variate lies in [0, 1]"); }
ENTRY(k_fisher_zero) { zeros e; br::fisher_f_distribution<double> d(2.0, 2.0); double r = d(e); vp_assert(r >= 0, "not negative (and not NaN)"); }
ENTRY(k_student_zero) { zeros e; br::student_t_distribution<double> d(2.0); double r = d(e); vp_assert(r == r, "not NaN"); }
