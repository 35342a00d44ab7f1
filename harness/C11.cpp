// vp-bound: splitmix64: every 64-bit state and seed, seed-sequence words symbolic; mixmax: every state vector with words up to 2^61-1, one step of all 17 words and the running sum; skip seeding: every single-bit identifier and the sums of its words (see DESIGN.md)
// vp-opt: q_mix_seed_mixed --nomerge
// vp-opt: q_mix_seed64 --nomerge
// vp-opt: q_mix_step --nomerge
// vp-opt: q_mix_step_alt --nomerge
#include "mock.h"
#include <boost/random/splitmix64.hpp>
#include <boost/random/mixmax.hpp>
#include "vp_common.h"
#include "tok.h"
namespace br = boost::random;
static uint64_t ref(uint64_t &s) { s += 0x9E3779B97F4A7C15ull; uint64_t z = s; z ^= z >> 30; z *= 0xBF58476D1CE4E5B9ull; z ^= z >> 27; z *= 0x94D049BB133111EBull; return z ^ (z >> 31); }
ENTRY(q_split_state) { uint64_t s = vp::in<uint64_t>("state"), q = s; br::splitmix64 e; vp::load(e, &s, 1); for (int i = 0; i < 4; ++i) { vp_assert(e() == ref(q), "splitmix64 output"); vp_assert(vp::state_word(e, 0) == q, "splitmix64 state"); } vp_assert(e.next() == ref(q), "next() is operator()"); }
ENTRY(q_split_seed) { uint64_t s = vp::in<uint64_t>("seed"), q = s ? s : 0xA164B43C8F634A13ull; br::splitmix64 e(s), f; f.seed(s); vp_assert(e == f, "constructor and seed agree"); vp_assert(vp::state_word(e, 0) == q, "the seed is the state"); vp_assert(e() == ref(q), "splitmix64 output after seeding"); uint32_t t = vp::in<uint32_t>("seed32"); f.seed(t); br::splitmix64 g((uint64_t)t); vp_assert(f == g, "narrow seeds"); }
struct seq2 { typedef uint32_t result_type; uint32_t a, b; template <class It> void generate(It f, It l) { int i = 0; for (; f != l; ++f) *f = i++ ? b : a; vp_assert(i == 2, "two words"); } };
ENTRY(q_split_seq) { seq2 s; s.a = vp::in<uint32_t>("a"); s.b = vp::in<uint32_t>("b"); br::splitmix64 e(s); uint64_t q = (uint64_t(s.a) << 32) | s.b; vp_assert(vp::state_word(e, 0) == q, "both words"); vp_assert(e() == ref(q), "splitmix64 output"); }
ENTRY(q_split_bounds) { vp_assert((br::splitmix64::min)() == 0 && (br::splitmix64::max)() == ~uint64_t(0), "bounds"); }
// ---- mixmax
static const uint64_t M61 = (uint64_t(1) << 61) - 1;
static uint64_t canon(uint64_t x) { return x == M61 ? 0 : x; }
static uint64_t add(uint64_t a, uint64_t b) { uint64_t r = a + b; return r >= M61 ? r - M61 : r; }
static uint64_t rot(uint64_t k, int s) { return ((k << s) & M61) | (k >> (61 - s)); }
struct mm { uint64_t v[17], sum; };
template <class A> static bool load_mm(br::mixmax &e, int counter, uint64_t sum, const A &v) { static vp::tokbuf b; b.uns(17); b.chr(' '); b.uns(counter); b.chr(' '); b.uns(sum); for (int i = 0; i < 17; ++i) { b.chr(' '); b.uns(v[i]); } b.chr(' '); vp::tis is(b); is >> e; return !is.fail(); }
// one step of the matrix from every state vector; the sum is stored as its residue, or as 2^61-1 when that is 0
static void step(int from, int to, bool alt) {
  static uint64_t v[17]; uint64_t t = 0; for (int i = 0; i < 17; ++i) { v[i] = i >= from && i <= to ? vp::in<uint64_t>("v", 0, M61) : 0; t = add(t, canon(v[i])); }
  static br::mixmax e; vp_assume(load_mm(e, 17, alt && t == 0 ? M61 : t, v));
  uint64_t y = t, p = 0, s = y;
  for (int i = 1; i < 17; ++i) { uint64_t po = rot(p, 36); p = add(p, canon(v[i])); y = add(add(y, po), p); uint64_t z = e(); vp_assert(z <= M61, "in range"); vp_assert(canon(z) == y, "mixmax output"); s = add(s, y); }
  vp_assert(vp::state_word(e, 2) <= M61, "running sum in range"); vp_assert(canon(vp::state_word(e, 2)) == s, "running sum"); vp_assert(vp::state_word(e, 3) <= M61, "first word in range"); vp_assert(canon(vp::state_word(e, 3)) == t, "first word is the old sum");
}
ENTRY(q_mix_step) { step(0, 16, false); }
ENTRY(q_mix_step_alt) { step(0, 16, true); }
// ---- skip seeding: the tables are consistent powers, and a seed applies the rows of its bits
static const uint64_t skipTab[128][17] =
#include <boost/random/detail/mixmax_skip_N17.ipp>
;
static uint64_t mulmod(uint64_t a, uint64_t b) { unsigned __int128 p = (unsigned __int128)a * b; uint64_t l = uint64_t(p) & M61, h = uint64_t(p >> 61); return add(l >= M61 ? l - M61 : l, h >= M61 ? h - M61 : h); }
VP_NOINLINE static void matvec(uint64_t *v) { uint64_t t = 0; for (int i = 0; i < 17; ++i) t = add(t, v[i]); uint64_t y = t, p = 0; v[0] = y; for (int i = 1; i < 17; ++i) { uint64_t po = rot(p, 36); p = add(p, v[i]); y = add(add(y, po == M61 ? 0 : po), p); v[i] = y; } }
VP_NOINLINE static void skip(int row, uint64_t *v) { uint64_t c[17] = {0}; for (int j = 0; j < 17; ++j) { for (int i = 0; i < 17; ++i) c[i] = add(c[i], mulmod(skipTab[row][j], v[i])); matvec(v); } for (int i = 0; i < 17; ++i) v[i] = c[i]; }
static void unit(uint64_t *v) { v[0] = 1; for (int i = 1; i < 17; ++i) v[i] = 0; }
ENTRY(q_mix_table) { for (int r = 0; r < 127; ++r) { uint64_t a[17], b[17]; unit(a); unit(b); skip(r, a); skip(r, a); skip(r + 1, b); bool ok = true; for (int i = 0; i < 17; ++i) ok = ok && a[i] == b[i]; vp_assert(ok, "each row of the skip table is the square of the one before"); } }
static void seeded(uint32_t c, uint32_t m, uint32_t r, uint32_t s) {
  br::mixmax e(c, m, r, s); uint64_t v[17]; unit(v); uint32_t id[4] = {s, r, m, c}; for (int w = 0; w < 4; ++w) for (int b = 0; b < 32; ++b) if (id[w] >> b & 1) skip(32 * w + b, v);
  bool ok = true, nz = false; uint64_t t = 0; for (int i = 0; i < 17; ++i) { uint64_t x = vp::state_word(e, 3 + i); ok = ok && x <= M61 && canon(x) == v[i]; nz = nz || v[i] != 0; t = add(t, v[i]); }
  vp_assert(ok, "seeded state vector"); vp_assert(nz, "non-zero state"); vp_assert(canon(vp::state_word(e, 2)) == t, "seeded running sum"); for (int i = 1; i < 3; ++i) vp_assert(canon(e()) == v[i], "first outputs after seeding");
}
template <int W> static void bits() { for (int b = 0; b < 32; ++b) { uint32_t id = uint32_t(1) << b; seeded(W == 3 ? id : 0, W == 2 ? id : 0, W == 1 ? id : 0, W == 0 ? id : 0); } }
ENTRY(q_mix_seed_stream) { bits<0>(); }
ENTRY(q_mix_seed_run) { bits<1>(); }
ENTRY(q_mix_seed_machine) { bits<2>(); }
ENTRY(q_mix_seed_cluster) { bits<3>(); }
ENTRY(q_mix_seed_mixed) { seeded(vp::flag("c") ? 0x80000001u : 0, vp::flag("m") ? 0x00010000u : 0, vp::flag("r") ? 0x40000000u : 0, vp::flag("s") ? 5u : 0); }
ENTRY(q_mix_seed64) { uint64_t s = vp::flag("a") ? uint64_t(6) << 32 : 0; s |= vp::flag("b") ? 9 : 0; br::mixmax e(s), f(0, 0, uint32_t(s >> 32), uint32_t(s)), g; g.seed(s); vp_assert(e == f && g == f, "a 64-bit seed is (0, 0, high, low)"); br::mixmax d, o(uint64_t(1)); vp_assert(d == o, "default seed"); }
struct seq4 { typedef uint32_t result_type; template <class It> void generate(It f, It l) { uint32_t v[4] = {1, 0, 2, 4}; int i = 0; for (; f != l; ++f) *f = v[i++ & 3]; vp_assert(i == 4, "four words"); } };
ENTRY(q_mix_seed_it) { uint32_t v[5] = {1, 0, 2, 4, 7}; uint32_t *p = v; br::mixmax e(p, v + 5), f(1, 0, 2, 4); vp_assert(p == v + 4, "four words"); vp_assert(e == f, "seeding from a range"); seq4 q; br::mixmax g(q); vp_assert(g == f, "seeding from a sequence"); }
