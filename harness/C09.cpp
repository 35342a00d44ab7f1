// vp-bound: the three shipped instances with every word of their state a solver variable (outputs through one whole block and into the next); every 32-bit / 64-bit integer seed for the first words; narrow instances of the same template (n from 2 to 16, several m, r, word types) over two or three blocks
// vp-opt: all --feas 300
#include "mock.h"
#include <boost/random/mersenne_twister.hpp>
#include "vp_common.h"
namespace br = boost::random;
// the recurrence and tempering of the published algorithm / [rand.eng.mers]
template <class U, int w, int n, int m, int r, U a, int u, U d, int s, U b, int t, U c, int l, U f, int MORE> struct ref {
  typedef br::mersenne_twister_engine<U, w, n, m, r, a, u, d, s, b, t, c, l, f> E;
  static constexpr U M = w == int(sizeof(U) * 8) ? U(~U(0)) : U((U(1) << (w % int(sizeof(U) * 8))) - 1);
  U X[n + MORE]; int k;                                   // X[0..n-1] is the seeded state, k outputs so far
  ref() : k(0) {}
  void zero() { U low = r ? U(M & U((U(1) << r) - 1)) : U(0), hi = U(M & ~low); U any = X[0] & hi; for (int i = 1; i < n; ++i) any |= X[i]; if (any == 0) X[0] = U(1) << (w - 1); }
  void seed(U v) { X[0] = v & M; for (int i = 1; i < n; ++i) X[i] = U(U(f * U(X[i - 1] ^ (X[i - 1] >> (w - 2)))) + U(i)) & M; }
  void words(const uint32_t *p) { const int K = (w + 31) / 32; for (int i = 0; i < n; ++i) { U v = 0; for (int j = 0; j < K; ++j) v |= U(U(p[K * i + j]) << (32 * j % int(sizeof(U) * 8))); X[i] = v & M; } zero(); }
  U operator()() {
    U low = U((U(1) << r) - 1) & M, hi = U(M & ~low); int i = k++;
    U y = U(X[i] & hi) | U(X[i + 1] & low); U z = U(X[i + m] ^ (y >> 1)) ^ U(U(0 - U(y & 1)) & a); X[i + n] = z;
    z ^= U((z >> u) & d); z ^= U(U(z << s) & b) & M; z ^= U(U(z << t) & c) & M; z ^= U(z >> l); return z;
  }
};
// all words symbolic, N outputs
// PIN >= 0: that seed word has its lowest bit set (so the state is not all zero)
template <class R, int n, int w, int N, int PIN = -1> static void words() {
  typedef typename R::E E; const int K = (w + 31) / 32; static uint32_t p[n * K + 1]; for (int i = 0; i < n * K; ++i) p[i] = vp::in<uint32_t>("w"); p[n * K] = 7; if (PIN >= 0) p[PIN] |= 1;
  static R q; q.k = 0; q.words(p);
  { uint32_t *f = p; static E e(f, p + n * K); vp_assert(f == p + n * K, "one group of words per state word");
    for (int i = 0; i < N; ++i) vp_assert(e() == q(), "output"); }
}
template <class R, class U, int N> static void integer() {
  typedef typename R::E E; U v = vp::in<U>("seed"); static R q; q.seed(v); static E e(v); for (int i = 0; i < N; ++i) vp_assert(e() == q(), "output after integer seeding");
  static E g; g(); g.seed(v); for (int i = 0; i < N; ++i) g(); vp_assert(g() == e(), "seed(value) equals construction");
}
// seeding from a seed sequence: words in order
struct seqw { const uint32_t *p; int len; typedef uint32_t result_type; template <class It> void generate(It f, It l) { int i = 0; for (; f != l; ++f, ++i) { if (i >= len) vp_fail("more words requested than the standard says"); *f = p[i]; } if (i != len) vp_fail("fewer words requested than the standard says"); } };
template <class R, int n, int w, int N, int PIN = -1> static void seq() {
  typedef typename R::E E; const int K = (w + 31) / 32; static uint32_t p[n * K]; for (int i = 0; i < n * K; ++i) p[i] = vp::in<uint32_t>("w"); if (PIN >= 0) p[PIN] |= 1;
  static R q; q.k = 0; q.words(p); seqw sq = {p, n * K}; static E e(sq); for (int i = 0; i < N; ++i) vp_assert(e() == q(), "output after seeding from a sequence");
  static E g; g(); g.seed(sq); for (int i = 0; i < N; ++i) g(); vp_assert(g() == e(), "seed(seq) equals construction");
}
typedef ref<uint32_t, 32, 624, 397, 31, 0x9908b0dfu, 11, 0xffffffffu, 7, 0x9d2c5680u, 15, 0xefc60000u, 18, 1812433253u, 1300> MT;
typedef ref<uint64_t, 64, 312, 156, 31, 0xb5026f5aa96619e9ull, 29, 0x5555555555555555ull, 17, 0x71d67fffeda60000ull, 37, 0xfff7eee000000000ull, 43, 6364136223846793005ull, 700> MT64;
typedef ref<uint32_t, 32, 351, 175, 19, 0xccab8ee7u, 11, 0xffffffffu, 7, 0x31b6ab00u, 15, 0xffe50000u, 17, 1812433253u, 800> MT11;
template <class R, class T> struct named : R { typedef T E; };
typedef named<MT, br::mt19937> N1; typedef named<MT64, br::mt19937_64> N2; typedef named<MT11, br::mt11213b> N3;
ENTRY(q_mt19937) { words<N1, 624, 32, 1260, 623>(); }
ENTRY(q_mt19937_64) { words<N2, 312, 64, 640, 622>(); }
ENTRY(q_mt11213b) { words<N3, 351, 32, 720, 350>(); }
ENTRY(t_mt19937) { words<N1, 624, 32, 1260>(); }
ENTRY(t_mt19937_64) { words<N2, 312, 64, 640>(); }
ENTRY(t_mt11213b) { words<N3, 351, 32, 720>(); }
ENTRY(q_mt19937_int) { integer<N1, uint32_t, 20>(); }
ENTRY(q_mt19937_64_int) { integer<N2, uint64_t, 12>(); }
ENTRY(q_mt11213b_int) { integer<N3, uint32_t, 20>(); }
ENTRY(q_mt19937_seq) { seq<N1, 624, 32, 8, 623>(); }
ENTRY(q_mt19937_64_seq) { seq<N2, 312, 64, 8, 622>(); }
// the default seed and the 10000th output the standard requires are single executions; the seed value itself:
ENTRY(q_default) { static br::mt19937 a, b(5489u); vp_assert(a == b && b == a, "default seed"); static br::mt19937_64 c, d(5489u); vp_assert(c == d, "default seed"); a.seed(vp::in<uint32_t>("v")); a.seed(); vp_assert(a == b, "seed() is the default seed"); }
#define NARROW(nm, U, w, n, m, r, a, u, d, s, b, t, c, l, f, N) typedef ref<U, w, n, m, r, a, u, d, s, b, t, c, l, f, N + 2> T_##nm; \
  ENTRY(t_##nm) { words<T_##nm, n, w, N>(); } ENTRY(q_##nm) { words<T_##nm, n, w, N, n * ((w + 31) / 32) - 1>(); } ENTRY(q_##nm##_p) { words<T_##nm, n, w, n + 2, (n / 2) * ((w + 31) / 32)>(); } ENTRY(q_##nm##_int) { integer<T_##nm, U, n + 2>(); } ENTRY(q_##nm##_seq) { seq<T_##nm, n, w, n + 2, 1>(); } ENTRY(t_##nm##_seq) { seq<T_##nm, n, w, n + 2>(); }
NARROW(n2, uint32_t, 32, 2, 1, 7, 0x9908b0dfu, 11, 0xffffffffu, 7, 0x9d2c5680u, 15, 0xefc60000u, 18, 1812433253u, 6)
NARROW(n3, uint32_t, 32, 3, 1, 6, 0x9908b0dfu, 11, 0xffffffffu, 7, 0x9d2c5680u, 15, 0xefc60000u, 18, 1812433253u, 9)
NARROW(n4, uint32_t, 32, 4, 3, 0, 0xccab8ee7u, 12, 0xf0ffffffu, 8, 0x31b6ab00u, 14, 0xffe50000u, 17, 69069u, 9)
NARROW(n5, uint32_t, 24, 5, 2, 13, 0xc8b0dfu, 11, 0xffffffu, 7, 0x2c5680u, 9, 0xc60000u, 13, 1812433u, 11)
NARROW(n7, uint64_t, 40, 7, 4, 17, 0xb5026f5aa9ull, 20, 0x55555555ffull, 17, 0x71d67fe000ull, 13, 0xfff7e00000ull, 21, 6364136223846793005ull, 15)
NARROW(n8, uint16_t, 16, 8, 7, 5, 0xa9e5, 5, 0xffff, 4, 0x9d20, 7, 0xef80, 9, 25173, 17)
NARROW(n9, uint32_t, 32, 9, 1, 12, 0x9908b0dfu, 11, 0xffffffffu, 7, 0x9d2c5680u, 15, 0xefc60000u, 18, 1812433253u, 20)
NARROW(n14, uint32_t, 32, 14, 8, 31, 0x9908b0dfu, 11, 0xffffffffu, 7, 0x9d2c5680u, 15, 0xefc60000u, 18, 1812433253u, 30)
NARROW(n16, uint64_t, 64, 16, 3, 31, 0xb5026f5aa96619e9ull, 29, 0x5555555555555555ull, 17, 0x71d67fffeda60000ull, 37, 0xfff7eee000000000ull, 43, 6364136223846793005ull, 34)
NARROW(n13, uint32_t, 32, 13, 12, 3, 0x9908b0dfu, 11, 0xffffffffu, 7, 0x9d2c5680u, 15, 0xefc60000u, 18, 1812433253u, 28)
ENTRY(q_any_n5) { words<T_n5, 5, 24, 11>(); }
ENTRY(q_any_n14) { words<T_n14, 14, 32, 30>(); }
ENTRY(q_any_n9_seq) { seq<T_n9, 9, 32, 11>(); }
// a degenerate seed (all significant bits zero) must not stay at zero
ENTRY(q_zero) { typedef T_n3 R; uint32_t p[3] = {vp::in<uint32_t>("w") & 0x3fu, 0, 0}, *f = p; R::E e(f, p + 3); uint32_t acc = 0; for (int i = 0; i < 3; ++i) acc |= e(); vp_assert(acc != 0, "the all-zero state is replaced"); }
