// C23: discrete_distribution and the piecewise distributions select in proportion to the weights
// vp-bound: integer weights: indices for 2 weights up to 9 (thorough 40; any two 8-bit weights), 3 up to 3 (thorough 7), 4 up to 2 (thorough 4), case-split, every draw; probabilities() for any two 32- or 64-bit weights and 3 up to 15; exact proportions by counting all two-draw sequences of a 12-valued engine for 2 weights up to 5 and 3 weights up to 2; the param overload with 3 symbolic 8-bit weights
// vp-bound: piecewise draws: the bin-selecting output from 4 equidistant values, all values of the others
// vp-bound: real weights: 3 weights from {0, 1, 2, 5}, and a fixed vector of 10 with zeros; all engine outputs, no rejected draws followed (rejection is C01/C02's subject)
// vp-bound: ways of giving boundaries and weights: up to 4 intervals of equal, exactly representable width; parameter sets with any 32-bit weights, distributions with weights 1 and 2
// vp-opt: all --nomerge --feas 0 --oblig 60
// vp-opt: q_param_int --feas 1000
// vp-opt: q_param_u8 --feas 500
// vp-opt: q_prob_3 --feas 500
// vp-opt: q_pwc.* --feas 1000
// vp-opt: q_pwl --feas 1000
// vp-opt: q_real_long --feas 1000
#include "mock.h"
#include <boost/random/discrete_distribution.hpp>
#include <boost/random/piecewise_constant_distribution.hpp>
#include <boost/random/piecewise_linear_distribution.hpp>
#include "vp_common.h"
namespace br = boost::random;
typedef vp::eng<uint32_t, 0, 0xffffffffu, 2> E32; typedef vp::eng<uint64_t, 0, ~0ull, 2> E64;
template <class W, int N> static void any_weights(W *w, W hi, bool split) { bool pos = false; for (int i = 0; i < N; ++i) { w[i] = vp::in<W>("w", W(0), hi); if (split) w[i] = W(vp_split(uint64_t(w[i]), uint64_t(hi))); pos |= w[i] > 0; } if (!pos) vp_end(); }
// ---- an index whose weight is positive, for every draw
template <class W, int N> static void index_int(W hi, bool split) { W w[N]; any_weights<W, N>(w, hi, split); br::discrete_distribution<int, W> d(w, w + N); E32 e; int r = d(e);
  vp_assert(r >= 0 && r < N, "the index lies inside the table"); bool ok = false; for (int i = 0; i < N; ++i) ok |= r == i && w[i] > 0; vp_assert(ok, "an index of weight zero is never produced"); }
ENTRY(q_minmax) { int w[5] = {1, 0, 2, 0, 3}; int n = (int)vp_split(vp_range("n", 8, 1, 5), 5); br::discrete_distribution<int, int> d(w, w + n); vp_assert(d.min() == 0 && d.max() == n - 1, "min and max are the first and the last index"); }
ENTRY(q_index_2) { index_int<int, 2>(9, true); }
ENTRY(t_index_2) { index_int<int, 2>(40, true); }
ENTRY(q_index_3) { index_int<int, 3>(3, true); }
ENTRY(t_index_3) { index_int<int, 3>(7, true); }
ENTRY(q_index_u8) { index_int<uint8_t, 2>(255, false); }
ENTRY(q_index_4) { index_int<unsigned, 4>(2, true); }
ENTRY(t_index_4) { index_int<unsigned, 4>(4, true); }
// ---- probabilities() of integer weights are the weights
template <class W, int N> static void prob_int(W hi) { W w[N]; any_weights<W, N>(w, hi, false); br::discrete_distribution<int, W> d(w, w + N); std::vector<W> p = d.probabilities(); vp_assert(p.size() == N, "one probability per weight"); for (int i = 0; i < N; ++i) vp_assert(p[i] == w[i], "integral weights are returned unchanged"); }
ENTRY(q_prob_2) { prob_int<int, 2>(std::numeric_limits<int>::max()); }
ENTRY(q_prob_3) { prob_int<int, 3>(15); }
ENTRY(q_prob_u2) { prob_int<uint64_t, 2>(~0ull); }
ENTRY(t_prob_4) { prob_int<unsigned, 4>(7); }
ENTRY(q_prob_default) { int n = (int)vp_split(vp_range("n", 32, 0, 1), 1); int w[1] = {3}; br::discrete_distribution<int, int> d(w, w + n), z; vp_assert(n || d == z, "no weights: the default distribution"); E32 e; vp_assert(d(e) == 0 && d.max() == 0, "one value"); }
// ---- exact proportions: all K-draw sequences of an engine with R values
template <unsigned R> struct player { typedef uint8_t result_type; unsigned code; int n, K; bool over; player(unsigned c, int k) : code(c), n(0), K(k), over(false) {}
  static constexpr uint8_t min BOOST_PREVENT_MACRO_SUBSTITUTION() { return 0; } static constexpr uint8_t max BOOST_PREVENT_MACRO_SUBSTITUTION() { return R - 1; }
  uint8_t operator()() { if (n >= K) { over = true; return (n++ & 1) ? 0 : 1; } ++n; uint8_t d = uint8_t(code % R); code /= R; return d; } };
template <class W, int N, unsigned R> static void count(W hi, int K) { W w[N]; any_weights<W, N>(w, hi, true); br::discrete_distribution<int, W> d(w, w + N); unsigned total = 1; for (int i = 0; i < K; ++i) total *= R;
  int t = vp::in<int>("index", 0, N - 1); unsigned c[N] = {}, all = 0, S = 0; for (int i = 0; i < N; ++i) S += unsigned(w[i]);
  for (unsigned s = 0; s < total; ++s) { player<R> e(s, K); int r = d(e); vp_assert(r >= 0 && r < N, "the index lies inside the table"); if (!e.over) { ++c[r]; ++all; } }
  bool ok = all > 0; for (int i = 0; i < N; ++i) ok &= t != i || c[i] * S == unsigned(w[i]) * all; vp_assert(ok, "each index comes from its share of the engine sequences"); }
ENTRY(q_count_2) { count<int, 2, 12>(5, 2); }
ENTRY(q_count_3) { count<int, 3, 12>(2, 2); }
ENTRY(t_count_2) { count<int, 2, 24>(14, 2); }
ENTRY(t_count_3) { count<unsigned, 3, 12>(4, 2); }
// ---- operator()(urng, param): engine as wide as the sum of the weights, so its output selects the index directly
ENTRY(q_param_int) { int w[3]; any_weights<int, 3>(w, 255, false); int S = w[0] + w[1] + w[2]; if (S == 1) vp_end(); typedef br::discrete_distribution<int, int> D; D d; D::param_type p(w, w + 3); vp::rteng<int> e(0, S - 1); int x = vp::in<int>("x"); (void)x;
  struct one { typedef int result_type; int hi, x; bool used; int min BOOST_PREVENT_MACRO_SUBSTITUTION() const { return 0; } int max BOOST_PREVENT_MACRO_SUBSTITUTION() const { return hi; } int operator()() { if (used) vp_cut("engine draws beyond the stated number"); used = true; return x; } } o = {S - 1, x, false};
  vp_assume(x >= 0 && x < S); int r = d(o, p); int lo = 0; bool ok = false; for (int i = 0; i < 3; ++i) { ok |= r == i && lo <= x && x < lo + w[i]; lo += w[i]; } vp_assert(ok, "index i comes from exactly its w[i] values"); }
ENTRY(q_param_u8) { // the sum of these weights may overflow the weight type
  uint8_t w[2]; any_weights<uint8_t, 2>(w, 255, false); typedef br::discrete_distribution<int, uint8_t> D; D d; D::param_type p(w, w + 2); E32 e; int r = d(e, p); vp_assert((r == 0 && w[0] > 0) || (r == 1 && w[1] > 0), "an index of weight zero is never produced"); }
// ---- real weights
static double grid(int k) { return k == 3 ? 5 : k; }
template <int N> static bool real_weights(double *w) { bool pos = false; for (int i = 0; i < N; ++i) { w[i] = grid((int)vp_split(vp_range("w", 8, 0, 3), 3)); pos |= w[i] > 0; } if (!pos) vp_end(); return pos; }
template <int N> static void index_real(bool par) { double w[N]; real_weights<N>(w); typedef br::discrete_distribution<int, double> D; D d(w, w + N), z; E64 e; int r = par ? z(e, D::param_type(w, w + N)) : d(e); vp_assert(r >= 0 && r < N, "the index lies inside the table"); bool ok = false; for (int i = 0; i < N; ++i) ok |= r == i && w[i] > 0; vp_assert(ok, "an index of weight zero is never produced"); }
ENTRY(q_real_2) { index_real<2>(false); }
ENTRY(q_real_3) { index_real<3>(false); }
ENTRY(q_real_par2) { index_real<2>(true); }
ENTRY(q_real_par3) { index_real<3>(true); }
ENTRY(q_real_tail) { double w[10]; for (int i = 0; i < 10; ++i) w[i] = 0.1 * (i + 1); int z = (int)vp_split(vp_range("zeros", 8, 0, 2), 2); for (int i = 0; i < z; ++i) w[9 - i] = 0; w[3] = 0; typedef br::discrete_distribution<int, double> D; D d; E64 e; int r = d(e, D::param_type(w, w + 10)); bool ok = false; for (int i = 0; i < 10; ++i) ok |= r == i && w[i] > 0; vp_assert(ok, "an index of weight zero is never produced"); }
ENTRY(q_real_long) { double w[10]; for (int i = 0; i < 10; ++i) w[i] = 0.1 * (i + 1); int z = (int)vp_split(vp_range("zeros", 8, 0, 2), 2); for (int i = 0; i < z; ++i) w[9 - i] = 0; w[3] = 0; typedef br::discrete_distribution<int, double> D; D d(w, w + 10); E64 e; int r = d(e); bool ok = false; for (int i = 0; i < 10; ++i) ok |= r == i && w[i] > 0; vp_assert(ok, "an index of weight zero is never produced"); }
ENTRY(q_real_prob) { double w[3]; real_weights<3>(w); br::discrete_distribution<int, double> d(w, w + 3); std::vector<double> p = d.probabilities(); double S = w[0] + w[1] + w[2]; vp_assert(p.size() == 3, "one probability per weight"); for (int i = 0; i < 3; ++i) { double x = p[i] * S - w[i]; vp_assert(x < 1e-12 && x > -1e-12, "probabilities() are the normalised weights"); } }
// ---- the first output (which selects the bin) from a grid, the others anything
template <int G, int L> struct grid1 { typedef uint32_t result_type; int n; grid1() : n(0) {}
  static constexpr uint32_t min BOOST_PREVENT_MACRO_SUBSTITUTION() { return 0; } static constexpr uint32_t max BOOST_PREVENT_MACRO_SUBSTITUTION() { return 0xffffffffu; }
  uint32_t operator()() { if (n++ == 0) { uint64_t k = vp_split(vp_range("first", 16, 0, G - 1), G - 1); return uint32_t(k * (0x100000000ull / G)); } if (n > L) vp_cut("engine draws beyond the stated number"); return vp::in<uint32_t>("draw"); } };
// ---- piecewise: inside a sub-interval of positive weight
ENTRY(q_pwc) { double x[4] = {-1, 0.5, 2, 7}; int w[3]; any_weights<int, 3>(w, 3, true); if (w[0] + w[1] + w[2] < 3) vp_end(); typedef br::piecewise_constant_distribution<double, int> D; D d(x, x + 4, w); grid1<4, 3> e; double v = d(e); bool ok = false; for (int i = 0; i < 3; ++i) ok |= w[i] > 0 && v >= x[i] && v < x[i + 1]; vp_assert(ok, "the value lies in a sub-interval of positive weight"); vp_assert(d.min() == -1 && d.max() == 7, "min and max are the outer boundaries"); }
ENTRY(q_pwc_real) { double x[3] = {-1, 0.5, 2}; double w[2]; real_weights<2>(w); typedef br::piecewise_constant_distribution<double, double> D; D d(x, x + 3, w); grid1<4, 4> e; double v = d(e); bool ok = false; for (int i = 0; i < 2; ++i) ok |= w[i] > 0 && v >= x[i] && v < x[i + 1]; vp_assert(ok, "the value lies in a sub-interval of positive weight"); std::vector<double> p = d.densities(); double S = w[0] + w[1]; for (int i = 0; i < 2; ++i) { double y = p[i] * S * (x[i + 1] - x[i]) - w[i]; vp_assert(y < 1e-12 && y > -1e-12, "densities() are the normalised weights over the widths"); } }
ENTRY(q_pwl) { double x[3] = {-1, 0.5, 2}; double w[3]; real_weights<3>(w); typedef br::piecewise_linear_distribution<double> D; D d(x, x + 3, w); grid1<4, 4> e; double v = d(e); bool ok = false; for (int i = 0; i < 2; ++i) ok |= (w[i] > 0 || w[i + 1] > 0) && v >= x[i] && v < x[i + 1]; vp_assert(ok, "the value lies in a sub-interval of positive weight"); vp_assert(d.min() == -1 && d.max() == 2, "min and max are the outer boundaries"); }
ENTRY(q_pwl_dens) { double x[3] = {-1, 0.5, 2}; double w[3]; real_weights<3>(w); typedef br::piecewise_linear_distribution<double> D; D d(x, x + 3, w); std::vector<double> p = d.densities(); double A = (w[0] + 2 * w[1] + w[2]) * 0.75; vp_assert(p.size() == 3, "one density per boundary"); for (int i = 0; i < 3; ++i) { double y = p[i] * A - w[i]; vp_assert(y < 1e-12 && y > -1e-12, "densities() are the weights over the total area"); } }
// every way of giving the boundaries and weights describes the same distribution; boundaries and points of evaluation are exactly representable here
struct fn { const double *x; const int *w; int n, *calls; int operator()(double v) const { ++*calls; for (int i = 0; i < n; ++i) if (v == x[i]) return w[i]; vp_fail("the function is evaluated at the documented points only"); return 0; } };
static const double LO[3] = {0, -2, 1.5}, WD[3] = {1, 0.5, 3};
template <class P> static void same_par(const P &p, const P &q) { vp_assert(p == q && !(p != q), "the parameter sets are the same"); }
template <int n> static void ways_pwc() { int c = (int)vp_split(vp_range("case", 8, 0, 2), 2); double b[5], m[4]; for (int i = 0; i <= n; ++i) b[i] = LO[c] + i * WD[c]; for (int i = 0; i < n; ++i) m[i] = b[i] + WD[c] / 2;
  int w[4]; for (int i = 0; i < n; ++i) w[i] = (int)vp_split(vp_range("w", 32, 1, 2), 2); int k = 0; fn f{m, w, n, &k}; typedef br::piecewise_constant_distribution<double, int> D; typedef D::param_type P; typedef br::discrete_distribution<int, int> Q; typedef Q::param_type R;
  std::vector<double> vb(b, b + n + 1); std::vector<int> vw(w, w + n); D d(b, b + n + 1, w); P p(b, b + n + 1, w); std::vector<double> iv = d.intervals(), ip = p.intervals(); vp_assert(iv == vb && ip == vb && d.min() == b[0] && d.max() == b[n], "the boundaries are those given");
  vp_assert(d == D(vb, vw) && d == D(p) && d == D(n, b[0], b[n], f), "the same distribution"); vp_assert(k == n, "one evaluation for each weight"); same_par(p, P(vb, vw)); same_par(p, P(n, b[0], b[n], f)); same_par(p, D(p).param());
  if constexpr (n == 1) { vp_assert(d == D(0, b[0], b[n], f), "the same distribution"); same_par(p, P(0, b[0], b[n], f)); vp_assert(d == D({b[0], b[1]}, f), "the same distribution"); same_par(p, P({b[0], b[1]}, f)); vp_assert(D({b[0]}, f) == D() && P({b[0]}, f) == P(), "one boundary is no interval"); }
  if constexpr (n == 2) { vp_assert(d == D({b[0], b[1], b[2]}, f), "the same distribution"); same_par(p, P({b[0], b[1], b[2]}, f)); }
  D e; e.param(p); vp_assert(e == d, "the same distribution"); k = 0; Q q(w, w + n); R r(w, w + n); vp_assert(q == Q(vw) && q == Q(r) && q == Q(n, b[0], b[n], f), "the same distribution"); vp_assert(k == n, "one evaluation for each weight"); same_par(r, R(vw)); same_par(r, R(n, b[0], b[n], f)); if constexpr (n == 1) same_par(r, R(0, b[0], b[n], f)); if constexpr (n == 2) { same_par(r, R({w[0], w[1]})); vp_assert(q == Q({w[0], w[1]}), "the same distribution"); } }
ENTRY(q_ways_pwc1) { ways_pwc<1>(); }
ENTRY(q_ways_pwc2) { ways_pwc<2>(); }
ENTRY(q_ways_pwc3) { ways_pwc<3>(); }
ENTRY(t_ways_pwc4) { ways_pwc<4>(); }
template <int n> static void ways_pwl() { int c = (int)vp_split(vp_range("case", 8, 0, 2), 2); double b[5], u[5]; for (int i = 0; i <= n; ++i) b[i] = LO[c] + i * WD[c];
  int w[5]; for (int i = 0; i <= n; ++i) u[i] = w[i] = (int)vp_split(vp_range("w", 32, 1, 2), 2); int k = 0; fn f{b, w, n + 1, &k}; typedef br::piecewise_linear_distribution<double> D; typedef D::param_type P;
  std::vector<double> vb(b, b + n + 1), vw(u, u + n + 1); D d(b, b + n + 1, u); P p(b, b + n + 1, u); std::vector<double> iv = d.intervals(), ip = p.intervals(); vp_assert(iv == vb && ip == vb && d.min() == b[0] && d.max() == b[n], "the boundaries are those given");
  vp_assert(d == D(vb, vw) && d == D(p) && d == D(n, b[0], b[n], f), "the same distribution"); vp_assert(k == n + 1, "one evaluation for each weight"); same_par(p, P(vb, vw)); same_par(p, P(n, b[0], b[n], f)); same_par(p, d.param());
  if constexpr (n == 1) { vp_assert(d == D(0, b[0], b[n], f), "the same distribution"); same_par(p, P(0, b[0], b[n], f)); vp_assert(d == D({b[0], b[1]}, f), "the same distribution"); same_par(p, P({b[0], b[1]}, f)); vp_assert(D({b[0]}, f) == D() && P({b[0]}, f) == P(), "one boundary is no interval"); }
  if constexpr (n == 2) { vp_assert(d == D({b[0], b[1], b[2]}, f), "the same distribution"); same_par(p, P({b[0], b[1], b[2]}, f)); }
  D e; e.param(p); vp_assert(e == d, "the same distribution"); std::vector<double> y = d.densities(), z = p.densities(); vp_assert(y == z, "the densities are the same"); }
ENTRY(q_ways_pwl1) { ways_pwl<1>(); }
ENTRY(q_ways_pwl2) { ways_pwl<2>(); }
ENTRY(t_ways_pwl3) { ways_pwl<3>(); }
// the same for parameter sets alone, where the weights are any numbers
template <int n> static void ways_par() { int c = (int)vp_split(vp_range("case", 8, 0, 2), 2); double b[n + 1], m[n]; for (int i = 0; i <= n; ++i) b[i] = LO[c] + i * WD[c]; for (int i = 0; i < n; ++i) m[i] = b[i] + WD[c] / 2;
  int w[n + 1], k = 0; double u[n + 1]; for (int i = 0; i <= n; ++i) { w[i] = vp::in<int>("w"); u[i] = w[i]; } std::vector<double> vb(b, b + n + 1), vu(u, u + n + 1), vq(u, u + n); std::vector<int> vw(w, w + n); fn f{m, w, n, &k}, g{b, w, n + 1, &k};
  typedef br::piecewise_constant_distribution<double, int>::param_type P; typedef br::piecewise_constant_distribution<double, double>::param_type PD; typedef br::piecewise_linear_distribution<double>::param_type L; typedef br::discrete_distribution<int, int>::param_type R; typedef br::discrete_distribution<int, double>::param_type RD;
  P p(vb, vw); same_par(p, P(b, b + n + 1, w)); same_par(p, P(n, b[0], b[n], f)); PD d(vb, vq); same_par(d, PD(b, b + n + 1, u)); same_par(d, PD(n, b[0], b[n], f)); vp_assert(k == 2 * n, "one evaluation for each weight");
  L l(vb, vu); same_par(l, L(b, b + n + 1, u)); same_par(l, L(n, b[0], b[n], g)); vp_assert(k == 3 * n + 1, "one evaluation for each weight"); vp_assert(p.intervals() == vb && d.intervals() == vb && l.intervals() == vb, "the boundaries are those given");
  R r(vw); same_par(r, R(w, w + n)); same_par(r, R(n, b[0], b[n], f)); if constexpr (n == 2) { same_par(r, R({w[0], w[1]})); same_par(p, P({b[0], b[1], b[2]}, f)); same_par(d, PD({b[0], b[1], b[2]}, f)); same_par(l, L({b[0], b[1], b[2]}, g)); }
  int v[n]; for (int i = 0; i < n; ++i) v[i] = vp::in<int>("v"); bool eq = true; for (int i = 0; i < n; ++i) eq &= v[i] == w[i]; R o(v, v + n); vp_assert((o == r) == eq && (o != r) == !eq, "equal exactly when the weights are"); P po(b, b + n + 1, v); vp_assert((po == p) == eq && (po != p) == !eq, "equal exactly when the weights are"); }
ENTRY(q_ways_par1) { ways_par<1>(); }
ENTRY(q_ways_par2) { ways_par<2>(); }
ENTRY(q_ways_par4) { ways_par<4>(); }
