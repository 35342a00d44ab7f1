// vp-opt: all --feas 0
// vp-opt: q_faure.* --feas 2000
#include "mock.h"
// an exact number type for the Faure engine: the value is n / 3^16, 5^10 or 2^30, so that every quotient the engine forms is an integer
template <uint64_t Q> struct frac { uint64_t n; frac() : n(0) {} template <class T> explicit frac(T x) : n(uint64_t(x) * Q) {} 
  frac &operator+=(frac o) { n += o.n; return *this; } frac &operator*=(frac o) { n = n * (o.n / Q); return *this; } frac &operator/=(frac o) { n = n / (o.n / Q); return *this; } frac operator/(frac o) const { frac r(*this); r /= o; return r; } };
template <uint64_t Q> inline frac<Q> operator*(frac<Q> a, unsigned short k) { a.n *= k; return a; }
namespace std { template <uint64_t Q> inline frac<Q> fmod(frac<Q> a, frac<Q> b) { a.n %= b.n; return a; } }
#include <boost/random/sobol.hpp>
#include <boost/random/niederreiter_base2.hpp>
#include <boost/random/faure.hpp>
#include "vp_common.h"
namespace br = boost::random;
// point number n (1-based: the all-zero point 0 is skipped by these engines) is what seed(n - 1) selects
template <class E, class U> static void point(const E &pristine, U n, U *out) { E e(pristine); e.seed(U(n - 1)); for (std::size_t d = 0; d < e.dimension(); ++d) out[d] = e(); }

// Every pair of points of an aligned block of 2^k: the top bits of the two point numbers are fixed to t and t2 <= t (so that the seeding loop runs a fixed number of
// times), the other bits are symbolic.  The pair shares the block exactly when the numbers agree above bit k.
template <class U, int W, class E> static void pairs(E &a, int t, int t2, int D, const int *deg, int D0 = 0) {
  const char *what = "two points of an aligned block of 2^k share a dyadic interval of length 2^-k"; U m = U(~U(0)) >> (sizeof(U) * 8 - W); static U x[4800], y[4800];
  auto use = [&](int d, int k) { return k <= W && (!deg || k % deg[d] == 0); };
  U i = U(1) << t; if (t) i |= U(vp::in<U>("i", 0, U((U(1) << t) - 1)));
  if (t2 == t) {
    point(a, i, x); for (int d = D0; d < D; ++d) { vp_assert(x[d] <= m, "outputs stay within [min, max]"); for (int k = t + 1; k <= W; ++k) if (use(d, k)) vp_assert((x[d] >> (W - k)) != 0, "a point shares the dyadic interval of the (skipped) zero point"); }
    for (int k = 1; k <= t; ++k) { U dl = vp::in<U>("delta", 1, U((U(1) << k) - 1)); U j = U(i ^ dl); point(a, j, y); for (int d = D0; d < D; ++d) for (int q = k; q <= (k == t ? W : k); ++q) if (use(d, q)) vp_assert((U(x[d] ^ y[d]) >> (W - q)) != 0, what); }
  } else {
    U j = U(1) << t2; if (t2) j |= U(vp::in<U>("j", 0, U((U(1) << t2) - 1)));
    point(a, i, x); point(a, j, y); for (int d = D0; d < D; ++d) for (int k = t + 1; k <= W; ++k) if (use(d, k)) vp_assert((U(x[d] ^ y[d]) >> (W - k)) != 0, what);
  }
}
template <class U, int W, class E> static void all_pairs(int D, const int *deg) { E e(D); for (int t = 0; t < W; ++t) for (int t2 = 0; t2 <= t; ++t2) pairs<U, W>(e, t, t2, D, deg); }
// the upper half of the sequence only: every k below W, every dimension
template <class U, int W, class E> static void top_pairs(int D, const int *deg, int D0 = 0) { E e(D); pairs<U, W>(e, W - 1, W - 1, D, deg, D0); }
template <class T> static const int *nb2_deg(int n) { static int d[4800]; for (int i = 0; i < n; ++i) { unsigned p = T::polynomial(i); int k = 0; while (p >> (k + 1)) ++k; d[i] = k; } return d; }
static const int *nbd(int n) { return nb2_deg<br::default_niederreiter_base2_table>(n); }
ENTRY(q_sobol8) { all_pairs<uint32_t, 8, br::sobol_engine<uint32_t, 8> >(20, 0); }
ENTRY(q_sobol16) { all_pairs<uint32_t, 16, br::sobol_engine<uint32_t, 16> >(6, 0); }
ENTRY(q_sobol32) { all_pairs<uint32_t, 32, br::sobol_engine<uint32_t, 32> >(4, 0); }
ENTRY(q_sobol64) { top_pairs<uint64_t, 64, br::sobol>(12, 0); }
ENTRY(q_sobol16s) { all_pairs<uint16_t, 16, br::sobol_engine<uint16_t, 16> >(3, 0); }
ENTRY(q_sobol13_many) { top_pairs<uint32_t, 13, br::sobol_engine<uint32_t, 13> >(100, 0); }
ENTRY(t_sobol64_many) { top_pairs<uint64_t, 64, br::sobol>(60, 0); }
ENTRY(t_nb64_many) { top_pairs<uint64_t, 64, br::niederreiter_base2>(100, nbd(100)); }
ENTRY(t_sobol18_all) { top_pairs<uint32_t, 18, br::sobol_engine<uint32_t, 18> >(1000, 0); }
// every dimension of the tables: dimension d of the engine over the shifted table is dimension d + Off of the original one
template <unsigned Off, unsigned N> struct part { typedef br::default_sobol_table T; typedef T::value_type value_type; static const unsigned max_dimension = N + 1, num_polynomials = N, max_degree = T::max_degree;
  static value_type polynomial(std::size_t n) { return T::polynomial(n + Off); } static value_type minit(std::size_t d, std::size_t k) { return T::minit(d + Off, k); } };
template <unsigned Off, unsigned N> static void sobol_part() { top_pairs<uint32_t, 18, br::sobol_engine<uint32_t, 18, part<Off, N> > >(N + 1, 0); }
#define SP(n) ENTRY(q_sobol18_table##n) { sobol_part<n * 500, n == 7 ? br::default_sobol_table::num_polynomials - 3500 : 500>(); }
SP(0) SP(1) SP(2) SP(3) SP(4) SP(5) SP(6) SP(7)
ENTRY(q_nb16_table) { top_pairs<uint32_t, 16, br::niederreiter_base2_engine<uint32_t, 16> >(br::default_niederreiter_base2_table::max_dimension, nbd(br::default_niederreiter_base2_table::max_dimension)); }
ENTRY(q_nb8) { all_pairs<uint32_t, 8, br::niederreiter_base2_engine<uint32_t, 8> >(12, nbd(12)); }
ENTRY(q_nb16) { all_pairs<uint32_t, 16, br::niederreiter_base2_engine<uint32_t, 16> >(6, nbd(6)); }
ENTRY(q_nb32) { all_pairs<uint32_t, 32, br::niederreiter_base2_engine<uint32_t, 32> >(3, nbd(3)); }
ENTRY(q_nb64) { top_pairs<uint64_t, 64, br::niederreiter_base2>(12, nbd(12)); }
ENTRY(q_nb14_many) { top_pairs<uint32_t, 14, br::niederreiter_base2_engine<uint32_t, 14> >(100, nbd(100)); }
// Faure over exact numbers: the point is a vector of fractions a / q^n; every prefix of k base-q digits is taken exactly once in an aligned block of q^k points
template <int q, int N, int D> struct faure_q { static constexpr uint64_t pw(int k) { return k ? q * pw(k - 1) : 1; } enum : uint64_t { Q = pw(N + 1) }; typedef frac<Q> F; typedef br::faure_engine<F, uint32_t> E;
  static void digits(uint32_t s, uint64_t *out) { E e(D); e.seed(s); for (int d = 0; d < D; ++d) out[d] = e().n; }
  // the number of base-q digits of the two indices is fixed, the digits are symbolic
  static void run() { for (int a = 0; a < N; ++a) for (int b = 0; b <= a; ++b) { uint64_t x[D], y[D]; uint32_t i = vp::in<uint32_t>("i", uint32_t(a ? pw(a) : 0), uint32_t(pw(a + 1) - 1)), j = vp::in<uint32_t>("j", uint32_t(b ? pw(b) : 0), uint32_t(pw(b + 1) - 1)); digits(i, x); digits(j, y);
    for (int d = 0; d < D; ++d) { vp_assert(x[d] < Q, "outputs stay within [0, 1)"); for (int k = 1; k <= N; ++k) vp_assert(!(i != j && i / pw(k) == j / pw(k) && x[d] / (Q / pw(k)) == y[d] / (Q / pw(k))), "two points of an aligned block of q^k share an interval of length q^-k"); } } } };
ENTRY(q_faure2) { faure_q<2, 6, 2>::run(); }
ENTRY(q_faure3) { faure_q<3, 3, 3>::run(); }
ENTRY(q_faure5) { faure_q<5, 2, 4>::run(); }
ENTRY(q_faure7) { faure_q<7, 2, 7>::run(); }
ENTRY(q_faure3b) { faure_q<3, 4, 3>::run(); }
ENTRY(t_faure5) { faure_q<5, 3, 5>::run(); }
