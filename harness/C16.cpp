// vp-bound: every seed word; input lengths 0..6 with output lengths 0..12 (quick), input lengths up to 12 and output lengths through 41 and at 68, 69, 623 with selected input lengths; input elements and output elements of 32 and 64 bits
// vp-opt: all --feas 2000
#include "mock.h"
#include <boost/random/seed_seq.hpp>
#include <vector>
#include "vp_common.h"
namespace br = boost::random;
// [rand.util.seedseq] literally, modulo 2^32
static uint32_t T(uint32_t x) { return x ^ (x >> 27); }
static void ref(const uint32_t *v, size_t s, uint32_t *b, size_t n) {
  if (n == 0) return;
  for (size_t i = 0; i < n; ++i) b[i] = 0x8b8b8b8bu;
  size_t t = n >= 623 ? 11 : n >= 68 ? 7 : n >= 39 ? 5 : n >= 7 ? 3 : (n - 1) / 2, p = (n - t) / 2, q = p + t, m = s + 1 > n ? s + 1 : n;
  for (size_t k = 0; k < m; ++k) { uint32_t r1 = 1664525u * T(b[k % n] ^ b[(k + p) % n] ^ b[(k + n - 1) % n]), r2 = r1 + uint32_t(k == 0 ? s : k <= s ? k % n + v[k - 1] : k % n); b[(k + p) % n] += r1; b[(k + q) % n] += r2; b[k % n] = r2; }
  for (size_t k = m; k < m + n; ++k) { uint32_t r3 = 1566083941u * T(b[k % n] + b[(k + p) % n] + b[(k + n - 1) % n]), r4 = r3 - uint32_t(k % n); b[(k + p) % n] ^= r3; b[(k + q) % n] ^= r4; b[k % n] = r4; }
}
template <class In, class Out> static void run(int s, int n) {
  static In in[16]; static uint32_t v[16], want[640]; static Out got[642]; for (int i = 0; i < s; ++i) { in[i] = vp::in<In>("v"); v[i] = uint32_t(in[i]); }
  got[0] = 0x5a5a5a5au; got[n + 1] = 0xa5a5a5a5u; br::seed_seq q(in, in + s); ref(v, s, want, n); q.generate(got + 1, got + 1 + n);
  vp_assert(got[0] == 0x5a5a5a5au && got[n + 1] == 0xa5a5a5a5u, "nothing outside the range was written");
  for (int i = 0; i < n; ++i) vp_assert(got[i + 1] == want[i], "the standard's value");
  vp_assert(q.size() == (size_t)s, "size()"); uint32_t w[17]; w[s] = 77; q.param(w); for (int i = 0; i < s; ++i) vp_assert(w[i] == v[i], "param() returns the stored words"); vp_assert(w[s] == 77, "and no more");
}
template <class In, class Out> static void grid(int s0, int s1, int n0, int n1) { for (int s = s0; s <= s1; ++s) for (int n = n0; n <= n1; ++n) run<In, Out>(s, n); }
ENTRY(q_small) { grid<uint32_t, uint32_t>(0, 3, 0, 6); }
ENTRY(q_small2) { grid<uint32_t, uint32_t>(4, 6, 0, 6); }
ENTRY(q_mid) { grid<uint32_t, uint32_t>(0, 3, 7, 12); }
ENTRY(q_mid2) { grid<uint32_t, uint32_t>(4, 6, 7, 12); }
ENTRY(q_out64) { grid<uint32_t, uint64_t>(0, 4, 0, 9); }
ENTRY(q_in64) { grid<uint64_t, uint32_t>(0, 3, 0, 4); }
ENTRY(q_in64_out64) { run<uint64_t, uint64_t>(3, 8); }
ENTRY(q_n38) { run<uint32_t, uint32_t>(2, 38); run<uint32_t, uint32_t>(8, 39); run<uint32_t, uint32_t>(1, 40); }
ENTRY(q_n67) { run<uint32_t, uint32_t>(2, 67); run<uint32_t, uint32_t>(3, 68); }
ENTRY(q_n622) { run<uint32_t, uint32_t>(0, 622); run<uint32_t, uint32_t>(1, 623); }
ENTRY(q_n624) { run<uint32_t, uint32_t>(1, 624); }
ENTRY(q_other_iters) { // other ways to hand over the words
  uint32_t a[3]; for (int i = 0; i < 3; ++i) a[i] = vp::in<uint32_t>("v"); const uint32_t *l = a; std::vector<uint32_t> r(a, a + 3); br::seed_seq q1(l, l + 3), q2(r), q3{a[0], a[1], a[2]}; uint32_t w[5], x[5]; ref(a, 3, w, 5); 
  q1.generate(x, x + 5); for (int i = 0; i < 5; ++i) vp_assert(x[i] == w[i], "from iterators"); q2.generate(x, x + 5); for (int i = 0; i < 5; ++i) vp_assert(x[i] == w[i], "from a range"); q3.generate(x, x + 5); for (int i = 0; i < 5; ++i) vp_assert(x[i] == w[i], "from an initializer list");
  br::seed_seq d; d.generate(x, x + 5); ref(a, 0, w, 5); for (int i = 0; i < 5; ++i) vp_assert(x[i] == w[i], "default constructed");
  std::vector<uint64_t> o(5); q1.generate(o.begin(), o.end()); ref(a, 3, w, 5); for (int i = 0; i < 5; ++i) vp_assert(o[i] == w[i], "to vector iterators"); }
ENTRY(t_grid) { grid<uint32_t, uint32_t>(0, 4, 13, 30); }
ENTRY(t_grid2) { grid<uint32_t, uint32_t>(7, 12, 0, 14); }
ENTRY(t_grid3) { grid<uint32_t, uint64_t>(0, 3, 34, 41); }
ENTRY(t_big) { run<uint32_t, uint32_t>(12, 700 - 76); run<uint32_t, uint64_t>(2, 69); run<uint32_t, uint32_t>(5, 100); }
