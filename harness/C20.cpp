// vp-bound: Sobol and Niederreiter engines of 1 to 3 dimensions with 6- to 64-bit sequences: every sequence index, every position inside a point, skips up to the stated size; Faure engines over an exact number type with up to three base-q digits
// vp-opt: all --feas 2000
#include "mock.h"
#include "tok.h"
template <uint64_t Q> struct frac { uint64_t n; frac() : n(0) {} template <class T> explicit frac(T x) : n(uint64_t(x) * Q) {} 
  frac &operator+=(frac o) { n += o.n; return *this; } frac &operator*=(frac o) { n = n * (o.n / Q); return *this; } frac &operator/=(frac o) { n = n / (o.n / Q); return *this; } frac operator/(frac o) const { frac r(*this); r /= o; return r; } bool operator==(frac o) const { return n == o.n; } };
template <uint64_t Q> inline frac<Q> operator*(frac<Q> a, unsigned short k) { a.n *= k; return a; }
namespace std { template <uint64_t Q> inline frac<Q> fmod(frac<Q> a, frac<Q> b) { a.n %= b.n; return a; } }
#include <boost/random/sobol.hpp>
#include <boost/random/niederreiter_base2.hpp>
#include <boost/random/faure.hpp>
#include "vp_common.h"
namespace br = boost::random;
template <class E> static E at(const E &z, uint64_t s, int p) { E e(z); typedef typename E::size_type S; if (s) e.seed(S(s)); for (int i = 0; i < p; ++i) e(); return e; }
template <class E> static void same(E &a, E &b, int n) { vp_assert(a == b && !(a != b), "the engines compare equal"); for (int i = 0; i < n; ++i) vp_assert(a() == b(), "the sequences agree"); vp_assert(a == b, "and stay equal"); }
// stepping over one whole point reaches the point that seed() selects
template <class E> static void step(int D, uint64_t lo, uint64_t hi) { E z(D); uint64_t s = vp::in<uint64_t>("s", lo, hi); E a = at(z, s, D); a(); E b = at(z, s + 1, 1); vp_assert(a == b && !(a != b), "the engines compare equal"); for (int i = 1; i < D; ++i) vp_assert(a() == b(), "the sequences agree"); E c(D); c.seed(typename E::size_type(s)); E d = at(z, s, 0); same(c, d, D); }
// discard(D * v + r) from element p of point s; past the end it throws
template <class E> static void skip(int D, uint64_t last, uint64_t lo, uint64_t hi, uint64_t vmax) { E z(D); uint64_t s = vp::in<uint64_t>("s", lo, hi), v = vp::in<uint64_t>("v", 0, vmax); vp_assume(s + v + 1 < last); for (int p = 0; p <= D; ++p) for (int r = 0; r < D; ++r) {
    E a = at(z, s, p); a.discard(v * D + r); uint64_t t = s + v + (p + r) / D; int q = (p + r) % D; E b = at(z, t, q); vp_assert(a == b && !(a != b), "the engines compare equal"); for (int i = q; i < D; ++i) vp_assert(a() == b(), "the sequences agree"); if (!q) continue; vp_assert(a() == b(), "the sequences agree"); vp_assert(a == b, "the engines compare equal"); } }
// the last point is complete, and everything after it throws std::range_error
template <class E> static void fin(int D, uint64_t last) { E z(D); E a(D); a.seed(typename E::size_type(last)); for (int i = 0; i < D; ++i) a(); E b(a); if (!vp::in<uint8_t>("go", 0, 1)) return; vp::may_throw("range_error"); a(); vp_fail("stepping past the end returned a value"); }
template <class E> static void fin_discard(int D, uint64_t last) { E z(D); uint64_t s = vp::in<uint64_t>("s", 1, last), n = vp::in<uint64_t>("v"); vp_assume(n > last - s && n < ~uint64_t(0) / D - 8); E a = at(z, s, 1); if (!vp::in<uint8_t>("go", 0, 1)) return; vp::may_throw("range_error"); a.discard(n * D); vp_fail("discarding past the end succeeded"); }
template <class E> static void fin_seed(int D, uint64_t last) { E a(D); uint64_t s = vp::in<uint64_t>("s", last + 1, typename E::size_type(~typename E::size_type(0))); if (!vp::in<uint8_t>("go", 0, 1)) return; vp::may_throw("range_error"); a.seed(typename E::size_type(s)); vp_fail("seeding past the end succeeded"); }
template <class E> static void fin_ok(int D, uint64_t last) { E a(D), b(D); a.seed(typename E::size_type(last)); b.seed(typename E::size_type(last - 1)); for (int i = 0; i < D; ++i) b(); for (int i = 0; i < D; ++i) vp_assert(a() == b(), "the last point can be stepped to"); E c(D); c.discard(last / 2 * D); c.discard(last / 2 * D); E d(D); d.seed(typename E::size_type(last)); vp_assert(c == d && c() == d(), "the last point can be skipped to"); E e(d); e.discard(D - 1); a = d; for (int i = 1; i < D; ++i) a(); vp_assert(a == e, "the end can be skipped to"); }
ENTRY(q_sobol6_end) { fin<br::sobol_engine<uint32_t, 6> >(2, 62ull); }
ENTRY(q_sobol6_end_discard) { fin_discard<br::sobol_engine<uint32_t, 6> >(2, 62ull); }
ENTRY(q_sobol6_end_seed) { fin_seed<br::sobol_engine<uint32_t, 6> >(2, 62ull); }
ENTRY(q_sobol6_end_ok) { fin_ok<br::sobol_engine<uint32_t, 6> >(2, 62ull); }
ENTRY(q_sobol16s_end) { fin<br::sobol_engine<uint16_t, 16> >(2, 65534ull); }
ENTRY(q_sobol16s_end_discard) { fin_discard<br::sobol_engine<uint16_t, 16> >(2, 65534ull); }
ENTRY(q_sobol16s_end_seed) { fin_seed<br::sobol_engine<uint16_t, 16> >(3, 65534ull); }
ENTRY(q_sobol16s_end_ok) { fin_ok<br::sobol_engine<uint16_t, 16> >(2, 65534ull); }
ENTRY(q_sobol64_end) { fin<br::sobol >(2, 18446744073709551614ull); }
ENTRY(q_sobol64_end_discard) { fin_discard<br::sobol >(2, 18446744073709551614ull); }
ENTRY(q_sobol64_end_seed) { fin_seed<br::sobol >(3, 18446744073709551614ull); }
ENTRY(q_sobol64_end_ok) { fin_ok<br::sobol >(2, 18446744073709551614ull); }
ENTRY(q_nb6_end) { fin<br::niederreiter_base2_engine<uint32_t, 6> >(2, 62ull); }
ENTRY(q_nb6_end_discard) { fin_discard<br::niederreiter_base2_engine<uint32_t, 6> >(2, 62ull); }
ENTRY(q_nb6_end_seed) { fin_seed<br::niederreiter_base2_engine<uint32_t, 6> >(2, 62ull); }
ENTRY(q_nb6_end_ok) { fin_ok<br::niederreiter_base2_engine<uint32_t, 6> >(2, 62ull); }
ENTRY(q_nb32_end) { fin<br::niederreiter_base2_engine<uint32_t, 32> >(2, 4294967294ull); }
ENTRY(q_nb32_end_discard) { fin_discard<br::niederreiter_base2_engine<uint32_t, 32> >(2, 4294967294ull); }
ENTRY(q_nb32_end_seed) { fin_seed<br::niederreiter_base2_engine<uint32_t, 32> >(2, 4294967294ull); }
ENTRY(q_nb32_end_ok) { fin_ok<br::niederreiter_base2_engine<uint32_t, 32> >(2, 4294967294ull); }
ENTRY(q_sobol_step1) { step<br::sobol_engine<uint32_t, 10> >(1, 0, 1021); }
ENTRY(q_sobol_step3) { step<br::sobol_engine<uint32_t, 10> >(3, 0, 1021); }
ENTRY(q_nb_step3) { step<br::niederreiter_base2_engine<uint32_t, 10> >(3, 0, 1021); }
ENTRY(q_sobol_skip) { skip<br::sobol_engine<uint32_t, 10> >(1, 1022, 512, 767, 255); }
ENTRY(q_sobol_skip3) { skip<br::sobol_engine<uint32_t, 10> >(3, 1022, 512, 767, 255); }
ENTRY(q_nb_skip) { skip<br::niederreiter_base2_engine<uint32_t, 10> >(2, 1022, 512, 767, 255); }
// saved at any position, restored into an engine of any other dimension at any position
template <class E> static void saved(int D, int D2, uint64_t lo, uint64_t hi) { E z(D), z2(D2); uint64_t s = vp::in<uint64_t>("s", lo, hi), s2 = vp::in<uint64_t>("s2", lo, hi); for (int p = 0; p <= D; ++p) { E a = at(z, s, p), b = at(z2, s2, D2 > 1 ? 1 : 0); vp::tokbuf t; vp::tos os(t); os << a; vp::tis is(t); is >> b; vp_assert(!is.fail(), "extraction succeeds"); same(a, b, D - p + 1); vp_assert(b.dimension() == std::size_t(D), "the dimension is restored"); } }
ENTRY(q_sobol_saved) { saved<br::sobol_engine<uint32_t, 10> >(3, 3, 0, 1000); }
ENTRY(q_sobol_saved23) { saved<br::sobol_engine<uint32_t, 10> >(3, 2, 0, 1000); }
ENTRY(q_sobol_saved31) { saved<br::sobol_engine<uint32_t, 10> >(1, 3, 1, 1000); }
ENTRY(q_nb_saved) { saved<br::niederreiter_base2_engine<uint32_t, 10> >(2, 2, 0, 1000); }
ENTRY(q_nb_saved32) { saved<br::niederreiter_base2_engine<uint32_t, 10> >(2, 3, 0, 1000); }
// equal exactly when at the same place of the same sequence
template <class E> static void eq(int D, uint64_t lo, uint64_t hi) { E z(D); uint64_t s = vp::in<uint64_t>("s", lo, hi), t = vp::in<uint64_t>("t", lo, hi); for (int p = 0; p <= D; ++p) for (int q = 0; q <= D; ++q) { E a = at(z, s, p), b = at(z, t, q); bool want = s * D + p == t * D + q; vp_assert((a == b) == want && (a != b) == !want && (b == a) == want, "equality means the same place"); } E y(D + 1); vp_assert(!(y == z) && y != z, "different dimensions differ"); }
ENTRY(q_sobol_eq) { eq<br::sobol_engine<uint32_t, 10> >(2, 1, 1021); }
ENTRY(q_sobol_eq_end) { eq<br::sobol_engine<uint16_t, 16> >(3, 65500, 65534); }
ENTRY(q_nb_eq) { eq<br::niederreiter_base2_engine<uint32_t, 10> >(3, 1, 1021); }
// dimensions outside the supported range
#define BAD(n, E, d) ENTRY(n) { if (!vp::in<uint8_t>("go", 0, 1)) return; vp::may_throw("invalid_argument"); E e(d); vp_fail("an unsupported dimension was accepted"); }
BAD(q_sobol_dim0, br::sobol, 0)
BAD(q_sobol_dimmax, br::sobol, 3668)
BAD(q_nb_dim0, br::niederreiter_base2, 0)
BAD(q_nb_dimmax, br::niederreiter_base2, 4721)
BAD(q_faure_dim0, br::faure, 0)
BAD(q_faure_dimmax, br::faure, 1118)
// Faure
template <int q, int N> struct fq { static constexpr uint64_t pw(int k) { return k ? q * pw(k - 1) : 1; } typedef frac<pw(N + 1)> F; };
template <class E> static void fstep(int D, uint64_t lo, uint64_t hi) { E z(D); uint64_t s = vp::in<uint64_t>("s", lo, hi); E a = at(z, s, 0); for (int i = 0; i < D; ++i) a(); E b(D); b.seed(typename E::size_type(s + 1)); vp_assert(a == b && !(a != b), "the engines compare equal"); for (int i = 0; i < D; ++i) vp_assert(a() == b(), "the sequences agree"); }
typedef br::faure_engine<fq<3, 4>::F, uint32_t> F3;
typedef br::faure_engine<fq<5, 3>::F, uint32_t> F5;
ENTRY(q_f3_step) { fstep<F3>(3, 0, 0); fstep<F3>(3, 1, 1); fstep<F3>(3, 2, 2); fstep<F3>(3, 3, 7); fstep<F3>(3, 8, 8); fstep<F3>(3, 9, 25); fstep<F3>(3, 26, 26); fstep<F3>(3, 27, 79); fstep<F3>(3, 80, 80); }
ENTRY(q_f5_step) { fstep<F5>(4, 4, 4); fstep<F5>(4, 5, 23); fstep<F5>(4, 24, 24); fstep<F5>(4, 25, 123); }
ENTRY(q_f3_skip) { skip<F3>(3, ~0u, 27, 40, 30); }
ENTRY(q_f3_saved) { saved<F3>(3, 3, 9, 25); }
ENTRY(q_f35_saved) { saved<F3>(3, 4, 9, 23); }
ENTRY(q_f3_eq) { eq<F3>(3, 9, 26); }
ENTRY(q_f_end) { typedef br::faure_engine<fq<2, 9>::F, uint8_t> F; F a(2); a.seed(255); F b(a); a(); a(); if (!vp::in<uint8_t>("go", 0, 1)) return; vp::may_throw("range_error"); a(); vp_fail("stepping past the end returned a value"); }
// a seed type with a sign: every negative seed is refused, every other accepted, whichever way it arrives
template <class S> static void negative(int way) { typedef br::faure_engine<fq<2, 9>::F, S> F; F a(2); S n = vp::in<S>("n", std::numeric_limits<S>::min(), -1); if (!vp::in<uint8_t>("go", 0, 1)) return;
  vp::tokbuf t; t.uns(2); t.chr(' '); t.sig(n); t.chr(' '); t.uns(0); vp::tis is(t); vp::may_throw("range_error"); if (way == 1) is >> a; else a.seed(n); vp_fail("a negative seed was accepted"); }
ENTRY(q_f_negative16) { negative<int16_t>(0); }
ENTRY(q_f_negative32) { negative<int32_t>(0); }
ENTRY(q_f_negative_read) { negative<int32_t>(1); }
template <class S, class V> static void signs(int lo, int hi) { typedef br::faure_engine<fq<2, 9>::F, S> A; typedef br::faure_engine<fq<2, 9>::F, V> B; A a(2); B b(2); int k = vp::in<int>("n", lo, hi); a.seed(S(k)); b.seed(V(k)); for (int i = 0; i < 4; ++i) vp_assert(a() == b(), "signed and unsigned seeds select the same points"); }
ENTRY(q_f_signed) { signs<int16_t, uint16_t>(0, 0); signs<int16_t, uint16_t>(1, 1); signs<int16_t, uint16_t>(8, 14); signs<int32_t, uint32_t>(16, 30); }
// every dimension above the largest, at construction and when a state is read
#define BADS(n, E, m) ENTRY(n##_any) { std::size_t d = vp::in<std::size_t>("d", m, ~std::size_t(0)); if (!vp::in<uint8_t>("go", 0, 1)) return; vp::may_throw("invalid_argument"); E e(d); vp_fail("an unsupported dimension was accepted"); } \
  ENTRY(n##_read) { std::size_t d = vp::in<std::size_t>("d", m, ~std::size_t(0)); E e(2); if (!vp::in<uint8_t>("go", 0, 1)) return; vp::tokbuf t; t.uns(d); t.chr(' '); t.uns(5); t.chr(' '); t.uns(1); vp::tis is(t); vp::may_throw("invalid_argument"); is >> e; vp_fail("an unsupported dimension was restored"); }
BADS(q_sobol_dimbig, br::sobol, 3668)
BADS(q_nb_dimbig, br::niederreiter_base2, 4721)
typedef br::faure_engine<fq<2, 9>::F, uint32_t> F2;
BADS(q_faure_dimbig, F2, 1118)
