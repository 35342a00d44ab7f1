#include <chrono>
#include "expr.h"
#include <cmath>
#include <initializer_list>
#include <cstring>
#include <algorithm>
using namespace llvm;

namespace {
struct Key {
  Op op; Kind k; uint16_t w; uint32_t p0; const std::vector<E> *kids; const std::string *name; const APInt *big;
};
inline size_t hc(size_t h, uint64_t v) { return (h ^ (v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2))) * 0xff51afd7ed558ccdull; }
size_t hashKey(const Key &k) {
  size_t h = hc(hc(k.op, k.w), ((uint64_t)k.k << 32) | k.p0);
  for (auto &e : *k.kids) { h = hc(h, (uint64_t)(uintptr_t)e.n); h = hc(h, e.c); h = hc(h, e.w); }
  if (k.name) h = hc(h, std::hash<std::string>()(*k.name));
  if (k.big) for (unsigned i = 0; i < k.big->getNumWords(); i++) h = hc(h, k.big->getRawData()[i]);
  return h;
}
std::unordered_multimap<size_t, Node *> &table() { static auto *t = new std::unordered_multimap<size_t, Node *>(); return *t; }
uint32_t gNext = 0;
// r = the low bits of another node, lost when a truncation is pushed through an addition
static std::unordered_map<const Node *, const Node *> lowOf; static std::unordered_map<const Node *, std::pair<const Node *, unsigned>> sliceOf;
static inline E asE(const Node *n) { E e; e.n = n; e.w = n->w; e.k = n->k; return e; }
static bool fits(uint64_t m, unsigned w) { return w >= 64 || m <= ((1ull << w) - 1); }
static E stripE(E e) { for (;;) { if (e.isConst()) return e; const Node *n = e.n; if (n->op == O_ZEXT) { e = n->kids[0]; continue; } if (n->op == O_EXTRACT && n->p0 == 0 && n->kids[0].w <= 64 && fits(eUMax(n->kids[0]), n->w)) { e = n->kids[0]; continue; } auto it = lowOf.find(n); if (it != lowOf.end() && fits(it->second->umax, n->w)) { e = asE(it->second); continue; } return e; } }
// range of y implied by a condition holding (or not)
static bool condRange(E c, bool pol, const E &y, uint64_t &lo, uint64_t &hi) {
  lo = eUMin(y); hi = eUMax(y); if (c.isConst()) return false;
  while (c.n->op == O_XOR && c.n->kids[1].isC() && c.n->kids[1].c == 1) { c = c.n->kids[0]; pol = !pol; if (c.isConst()) return false; }
  Op o = c.n->op; if (o != O_ULT && o != O_ULE && o != O_EQ) return false; E a = c.n->kids[0], b = c.n->kids[1]; if (a.w > 64 || a.k != K_BV) return false; E ys = stripE(y);
  if (o == O_EQ) { if (a.isC()) std::swap(a, b); if (!b.isC() || stripE(a) != ys) return false; if (pol) lo = hi = b.c; else { if (b.c == hi && hi) hi--; if (b.c == lo) lo++; } return true; }
  if (b.isC() && stripE(a) == ys) { uint64_t k = b.c; if (o == O_ULE) { if (k == ~0ull) return false; k++; } if (pol) hi = std::min(hi, k ? k - 1 : 0); else lo = std::max(lo, k); return true; }
  if (a.isC() && stripE(b) == ys) { uint64_t k = a.c; if (o == O_ULT) { if (k == ~0ull) return false; k++; } if (pol) lo = std::max(lo, k); else hi = std::min(hi, k ? k - 1 : 0); return true; }
  return false;
}
static bool branchRange(const E &x, const E &c, bool pol, uint64_t &lo, uint64_t &hi) {
  if (condRange(c, pol, x, lo, hi)) return lo <= hi;
  E s = stripE(x); if (s.isConst() || s.n->op != O_ADD || !s.n->kids[1].isC() || s.w > 64) return false;
  uint64_t neg = (0 - s.n->kids[1].c) & maskw(s.w); uint64_t l, h; if (neg == 0 || neg > maskw(s.w) / 2 || !condRange(c, pol, s.n->kids[0], l, h) || l < neg || l > h) return false;
  lo = l - neg; hi = h - neg; return true;
}
// p + q == (x mod 2^k) + (x >> k) ?
static bool foldPair(const E &p, const E &q, E &x, unsigned &k) {
  E a = p, b = q; if (a.isConst() || b.isConst()) return false; if (a.n->op == O_ZEXT) a = a.n->kids[0]; if (a.isConst()) return false; while (!b.isConst() && b.n->op == O_ZEXT) b = b.n->kids[0]; if (b.isConst()) return false;
  k = a.w; const Node *src = nullptr; if (a.n->op == O_EXTRACT && a.n->p0 == 0) src = a.n->kids[0].n; else { auto it = lowOf.find(a.n); if (it != lowOf.end()) src = it->second; } if (!src || src->w > 64) return false;
  if (b.n->op == O_EXTRACT && b.n->p0 == k && b.n->kids[0].n == src && fits(src->umax, k + b.w)) { x = asE(src); return true; }
  if (b.n->op == O_LSHR && b.n->kids[0].n == src && b.n->kids[1].isC() && b.n->kids[1].c == k) { x = asE(src); return true; }
  return false;
}
void computeInfo(Node *n);
void computeF(Node *n);

E intern(Op op, Kind k, unsigned w, uint32_t p0, std::vector<E> kids, const std::string &name = "", const APInt *big = nullptr,
         uint64_t lo = 0, uint64_t hi = ~0ull) {
  Key key{op, k, (uint16_t)w, p0, &kids, &name, big};
  size_t h = hashKey(key);
  auto r = table().equal_range(h);
  for (auto it = r.first; it != r.second; ++it) {
    Node *n = it->second;
    if (n->op == op && n->k == k && n->w == w && n->p0 == p0 && n->kids == kids && n->name == name &&
        ((big == nullptr) == (n->big == nullptr)) && (!big || *big == *n->big))
      { E e; e.n = n; e.w = w; e.k = k; return e; }
  }
  Node *n = new Node();
  n->op = op; n->k = k; n->w = w; n->p0 = p0; n->kids = std::move(kids); n->name = name; n->id = gNext++;
  if (big) n->big = std::make_unique<APInt>(*big);
  n->umin = 0; n->umax = maskw(std::min<unsigned>(w, 64)); n->kz = 0;
  if (op == O_VAR) { n->umin = lo; n->umax = std::min(hi, n->umax); }
  n->flo = -INFINITY; n->fhi = INFINITY;
  if (k == K_BV && w <= 64) computeInfo(n);
  if (k == K_FP && w <= 64) computeF(n);
  table().emplace(h, n);
  E e; e.n = n; e.w = w; e.k = k; return e;
}
inline uint64_t sat_add(uint64_t a, uint64_t b, bool &ov) { uint64_t r = a + b; ov = r < a; return r; }
inline unsigned lz(uint64_t v) { return v ? __builtin_clzll(v) : 64; }
inline uint64_t fillDown(uint64_t v) { return v ? (~0ull >> lz(v)) : 0; }

void computeInfo(Node *n) {
  uint64_t M = maskw(n->w), lo = 0, hi = M, kz = 0;
  auto A = [&](int i) { return n->kids[i]; };
  switch (n->op) {
  case O_VAR: lo = n->umin; hi = n->umax; break;
  case O_ADD: {
    if (n->w > 64) break;
    bool o1, o2; uint64_t l = sat_add(eUMin(A(0)), eUMin(A(1)), o1), h = sat_add(eUMax(A(0)), eUMax(A(1)), o2);
    if (!o2 && h <= M) { lo = l; hi = h; }
    { E x; unsigned k; if (foldPair(A(0), A(1), x, k) || foldPair(A(1), A(0), x, k)) { uint64_t H = eUMax(x), q = H >> k, m = maskw(k); uint64_t r = q ? std::max(q - 1 + m, (H & m) + q) : H; if (r < hi) hi = r; } }
    uint64_t tz = ~eKZ(A(0)) | ~eKZ(A(1)); // possible ones
    unsigned t = tz ? __builtin_ctzll(tz) : 64; kz |= t >= 64 ? ~0ull : ((1ull << t) - 1);
    break; }
  case O_SUB: if (eUMin(A(0)) >= eUMax(A(1))) { lo = eUMin(A(0)) - eUMax(A(1)); hi = eUMax(A(0)) - eUMin(A(1)); } break;
  case O_MUL: {
    __uint128_t h = (__uint128_t)eUMax(A(0)) * eUMax(A(1));
    if (h <= M) { hi = (uint64_t)h; lo = eUMin(A(0)) * eUMin(A(1)); }
    uint64_t a1 = ~eKZ(A(0)), b1 = ~eKZ(A(1));
    unsigned t = (a1 ? __builtin_ctzll(a1) : 64) + (b1 ? __builtin_ctzll(b1) : 64);
    kz |= t >= 64 ? ~0ull : ((1ull << t) - 1);
    break; }
  case O_UDIV: if (eUMin(A(1)) > 0) { hi = eUMax(A(0)) / eUMin(A(1)); lo = eUMin(A(0)) / eUMax(A(1)); } break;
  case O_UREM: if (eUMin(A(1)) > 0) { hi = std::min(eUMax(A(0)), eUMax(A(1)) - 1); if (eUMax(A(0)) < eUMin(A(1))) lo = eUMin(A(0)); } break;
  case O_AND: hi = std::min(eUMax(A(0)), eUMax(A(1))); kz = eKZ(A(0)) | eKZ(A(1)); break;
  case O_OR: kz = eKZ(A(0)) & eKZ(A(1)); lo = std::max(eUMin(A(0)), eUMin(A(1))); hi = fillDown(eUMax(A(0)) | eUMax(A(1))); break;
  case O_XOR: kz = eKZ(A(0)) & eKZ(A(1)); hi = fillDown(eUMax(A(0)) | eUMax(A(1))); break;
  case O_SHL: if (A(1).isC() && A(1).c < 64) {
      kz = (eKZ(A(0)) << A(1).c) | ((1ull << A(1).c) - 1);
      __uint128_t h = (__uint128_t)eUMax(A(0)) << A(1).c; if (h <= M) { hi = (uint64_t)h; lo = eUMin(A(0)) << A(1).c; }
    } break;
  case O_LSHR: if (A(1).isC() && A(1).c < 64) { lo = eUMin(A(0)) >> A(1).c; hi = eUMax(A(0)) >> A(1).c;
      kz = (eKZ(A(0)) >> A(1).c) | ~(M >> A(1).c); } else hi = eUMax(A(0)); break;
  case O_EXTRACT: if (A(0).w <= 64) { kz = eKZ(A(0)) >> n->p0; if (n->p0 == 0 && eUMax(A(0)) <= M) { lo = eUMin(A(0)); hi = eUMax(A(0)); } 
      else if (n->p0) { uint64_t h = eUMax(A(0)) >> n->p0; if (h <= M) { hi = h; lo = eUMin(A(0)) >> n->p0; } } } break;
  case O_CONCAT: if (n->w <= 64) { unsigned lw = A(1).w; lo = (eUMin(A(0)) << lw) + eUMin(A(1)); hi = (eUMax(A(0)) << lw) + eUMax(A(1));
      kz = (eKZ(A(0)) << lw) | (eKZ(A(1)) & maskw(lw)); } break;
  case O_ZEXT: lo = eUMin(A(0)); hi = eUMax(A(0)); kz = (eKZ(A(0)) & maskw(A(0).w)) | (M & ~maskw(A(0).w)); break;
  case O_SEXT: if (eUMax(A(0)) < (1ull << (A(0).w - 1))) { lo = eUMin(A(0)); hi = eUMax(A(0)); } break;
  case O_F2UI: case O_F2SI: { FInfo f = eF(A(0)); double a = std::trunc(f.lo), b = std::trunc(f.hi); double top = std::ldexp(1.0, n->op == O_F2UI ? n->w : n->w - 1);
      if (!f.nan && a >= 0 && b < top) { lo = (uint64_t)a; hi = (uint64_t)b; } break; }
  case O_FP2BV: { FInfo f = eF(A(0)); if (!f.nan && f.lo > 0 && n->w == 64) { memcpy(&lo, &f.lo, 8); memcpy(&hi, &f.hi, 8); }
      if (!f.nan && f.lo > 0 && n->w == 32) { float x = (float)f.lo, y = (float)f.hi; uint32_t u; memcpy(&u, &x, 4); lo = u; memcpy(&u, &y, 4); hi = u; } break; }
  case O_ITE: { uint64_t l1 = eUMin(A(1)), h1 = eUMax(A(1)), l2 = eUMin(A(2)), h2 = eUMax(A(2)), l, h; if (n->w <= 64) { if (!A(1).isConst() && branchRange(A(1), A(0), true, l, h)) { l1 = std::max(l, l1); h1 = std::min(h, h1); } if (!A(2).isConst() && branchRange(A(2), A(0), false, l, h)) { l2 = std::max(l, l2); h2 = std::min(h, h2); } if (l1 > h1) { l1 = l2; h1 = h2; } if (l2 > h2) { l2 = l1; h2 = h1; } }
      lo = std::min(l1, l2); hi = std::max(h1, h2); } kz = eKZ(A(1)) & eKZ(A(2)); break;
  default: break;
  }
  kz &= M;
  uint64_t possible = M & ~kz; // max possible value by bits
  if (possible < hi) hi = possible;
  kz |= M & ~fillDown(hi);
  if (lo > hi) lo = hi; // contradictory info: unreachable value
  n->umin = lo; n->umax = hi; n->kz = kz;
}
double rndw(double v, unsigned w) {
  if (w == 64) return v; if (w == 32) return (double)(float)v;
  APFloat f(v); bool li; f.convert(APFloat::IEEEhalf(), APFloat::rmNearestTiesToEven, &li); return f.convertToFloat();
}
double u2d(uint64_t v, unsigned w) { APFloat f(w == 64 ? APFloat::IEEEdouble() : w == 32 ? APFloat::IEEEsingle() : APFloat::IEEEhalf(), APInt(w, v)); bool li; if (w != 64) f.convert(APFloat::IEEEdouble(), APFloat::rmNearestTiesToEven, &li); return f.convertToDouble(); }
double i2d(uint64_t v, bool sg, unsigned w) { APFloat f(w == 64 ? APFloat::IEEEdouble() : w == 32 ? APFloat::IEEEsingle() : APFloat::IEEEhalf()); f.convertFromAPInt(APInt(64, v), sg, APFloat::rmNearestTiesToEven); bool li; if (w != 64) f.convert(APFloat::IEEEdouble(), APFloat::rmNearestTiesToEven, &li); return f.convertToDouble(); }
const std::string &ufNameI(uint32_t id);
// interval of a floating-point node: every operation below is monotone in each argument on a box,
// so rounding the exact corner values bounds the rounded results (double arithmetic rounded once
// more to float or half is the correctly rounded result for + - * / sqrt)
void computeF(Node *n) {
  unsigned w = n->w; double lo = -INFINITY, hi = INFINITY; bool nan = true;
  auto A = [&](int i) { return eF(n->kids[i]); };
  auto corners = [&](std::initializer_list<double> l) { double a = INFINITY, b = -INFINITY; for (double v : l) { if (std::isnan(v)) return false; v = rndw(v, w); a = std::min(a, v); b = std::max(b, v); } lo = a; hi = b; return true; };
  switch (n->op) {
  case O_UI2F: if (n->kids[0].w <= 64) { lo = i2d(eUMin(n->kids[0]), false, w); hi = i2d(eUMax(n->kids[0]), false, w); nan = false; } break;
  case O_SI2F: if (n->kids[0].w <= 64) { E k = n->kids[0]; uint64_t sb = 1ull << (k.w - 1); nan = false;
      if (eUMax(k) < sb) { lo = i2d(eUMin(k), false, w); hi = i2d(eUMax(k), false, w); }
      else { lo = -std::ldexp(1.0, k.w - 1); hi = i2d(sb - 1, false, w); } } break;
  case O_FADD: { FInfo a = A(0), b = A(1); if (corners({a.lo + b.lo, a.hi + b.hi})) nan = a.nan || b.nan || (std::isinf(a.hi) && b.lo == -INFINITY) || (std::isinf(b.hi) && a.lo == -INFINITY); else { lo = -INFINITY; hi = INFINITY; } break; }
  case O_FSUB: { FInfo a = A(0), b = A(1); if (corners({a.lo - b.hi, a.hi - b.lo})) nan = a.nan || b.nan || (a.hi == INFINITY && b.hi == INFINITY) || (b.lo == -INFINITY && a.lo == -INFINITY); else { lo = -INFINITY; hi = INFINITY; } break; }
  case O_FMUL: { FInfo a = A(0), b = A(1); bool inf = std::isinf(a.lo) || std::isinf(a.hi) || std::isinf(b.lo) || std::isinf(b.hi);
      if (n->kids[0] == n->kids[1] && !inf) { double m = std::max(a.lo * a.lo, a.hi * a.hi), l = a.lo > 0 ? a.lo * a.lo : a.hi < 0 ? a.hi * a.hi : 0; lo = rndw(l, w); hi = rndw(m, w); nan = a.nan; break; }
      if (!inf) { corners({a.lo * b.lo, a.lo * b.hi, a.hi * b.lo, a.hi * b.hi}); nan = a.nan || b.nan; }
      else if (a.lo > 0 && b.lo > 0 && !a.nan && !b.nan) { corners({a.lo * b.lo, a.hi * b.hi}); nan = false; }
      else if (a.lo >= 0 && b.lo >= 0 && !a.nan && !b.nan) { lo = 0; nan = (a.lo == 0 && std::isinf(b.hi)) || (b.lo == 0 && std::isinf(a.hi)); } break; }
  case O_FDIV: { FInfo a = A(0), b = A(1);
      { E q = n->kids[1]; // x / (x + y) with x, y >= 0: rounding is monotone, so x <= fl(x + y)
        if (!q.isC() && q.n->op == O_FADD && (q.n->kids[0] == n->kids[0] || q.n->kids[1] == n->kids[0])) { E y = q.n->kids[q.n->kids[0] == n->kids[0] ? 1 : 0]; FInfo f = eF(y);
          if (!a.nan && !f.nan && a.lo >= 0 && f.lo >= 0 && b.lo > 0 && !std::isinf(b.hi)) { lo = 0; hi = 1; nan = false; break; } } }
      bool inf = std::isinf(a.lo) || std::isinf(a.hi) || std::isinf(b.lo) || std::isinf(b.hi);
      if (!inf && (b.lo > 0 || b.hi < 0)) { corners({a.lo / b.lo, a.lo / b.hi, a.hi / b.lo, a.hi / b.hi}); nan = a.nan || b.nan; }
      else if (!inf && a.lo > 0 && b.lo >= 0) { nan = a.nan || b.nan; lo = rndw(a.lo / b.hi, w); if (std::signbit(b.lo)) lo = -INFINITY; else { bool cst = n->kids[1].isConst(); if (!cst && b.lo == 0) lo = -INFINITY; } } break; }
  case O_FSQRT: { FInfo a = A(0); if (a.lo >= 0) { lo = rndw(std::sqrt(a.lo), w); hi = rndw(std::sqrt(a.hi), w); nan = a.nan; } else { lo = -0.0; } break; }
  case O_FNEG: { FInfo a = A(0); lo = -a.hi; hi = -a.lo; nan = a.nan; break; }
  case O_FABS: { FInfo a = A(0); nan = a.nan; hi = std::max(std::fabs(a.lo), std::fabs(a.hi)); lo = a.lo > 0 ? a.lo : a.hi < 0 ? -a.hi : 0; break; }
  case O_FRINT: { FInfo a = A(0); nan = a.nan; lo = std::floor(a.lo); hi = std::ceil(a.hi); break; }
  case O_FP2FP: { FInfo a = A(0); nan = a.nan; lo = rndw(a.lo, w); hi = rndw(a.hi, w); break; }
  case O_ITE: { FInfo a = A(1), b = A(2); nan = a.nan || b.nan; lo = std::min(a.lo, b.lo); hi = std::max(a.hi, b.hi); break; }
  case O_BV2FP: { uint64_t inf = w == 64 ? 0x7ff0000000000000ull : w == 32 ? 0x7f800000u : 0x7c00, l = eUMin(n->kids[0]), h = eUMax(n->kids[0]);
      if (h <= inf) { lo = u2d(l, w); hi = u2d(h, w); nan = false; } break; }
  case O_UF: { const std::string &f = ufNameI(n->p0); FInfo a = A(0);
      if (f == "exp") { nan = a.nan; lo = a.lo >= 0 ? 1 : 0; if (a.hi <= 0) hi = 1; }
      else if (f == "log" && a.lo >= 0) { nan = a.nan; double mn = w == 64 ? -746 : w == 32 ? -104 : -17, mx = w == 64 ? 710 : w == 32 ? 89 : 12; if (a.hi < INFINITY) hi = mx; if (a.lo > 0) lo = mn; if (a.hi <= 1) hi = 0; if (a.lo >= 1) lo = 0; }
      else if (f == "pow" && a.lo >= 0 && !a.nan && !A(1).nan) { nan = false; lo = 0; if (a.hi <= 1 && A(1).lo >= 0) hi = 1; }
      else if ((f == "sin" || f == "cos") && !a.nan && !std::isinf(a.lo) && !std::isinf(a.hi)) { nan = false; lo = -1; hi = 1; }
      break; }
  default: break;
  }
  if (std::isnan(lo) || std::isnan(hi)) { lo = -INFINITY; hi = INFINITY; nan = true; }
  n->flo = lo; n->fhi = hi; n->fnan = nan;
}
std::vector<std::string> &ufs() { static auto *v = new std::vector<std::string>(); return *v; }
const std::string &ufNameI(uint32_t id) { return ufs()[id]; }
} // namespace
FInfo eF(const E &e) {
  if (e.isC()) { if (e.w > 64) return {-INFINITY, INFINITY, true}; double d = u2d(e.c, e.w); if (std::isnan(d)) return {INFINITY, -INFINITY, true}; return {d, d, false}; }
  return {e.n->flo, e.n->fhi, e.n->fnan};
}

size_t nodeCount() { return gNext; }
uint64_t eUMin(const E &e) { if (e.isC()) return e.c; return e.w <= 64 ? e.n->umin : 0; }
uint64_t eUMax(const E &e) { if (e.isC()) return e.c; return e.w <= 64 ? e.n->umax : ~0ull; }
uint64_t eKZ(const E &e) { if (e.isC()) return ~e.c; return e.w <= 64 ? (e.n->kz | ~maskw(e.w)) : 0; }

const fltSemantics &semOf(unsigned w) {
  switch (w) { case 16: return APFloat::IEEEhalf(); case 32: return APFloat::IEEEsingle(); case 64: return APFloat::IEEEdouble();
  case 80: return APFloat::x87DoubleExtended(); }
  fprintf(stderr, "unsupported float width %u\n", w); exit(3);
}
E mkC(uint64_t v, unsigned w) { E e; if (w > 64) return mkBig(APInt(w, v)); e.c = v & maskw(w); e.w = w; return e; }
E mkFPC(uint64_t b, unsigned w) { E e; e.c = b & maskw(w); e.w = w; e.k = K_FP; return e; }
E mkBig(const APInt &v) {
  if (v.getBitWidth() <= 64) return mkC(v.getZExtValue(), v.getBitWidth());
  return intern(O_CONST, K_BV, v.getBitWidth(), 0, {}, "", &v);
}
E mkVar(const std::string &name, unsigned w, Kind k, uint64_t lo, uint64_t hi) { return intern(O_VAR, k, w, 0, {}, name, nullptr, lo, hi); }
APInt constVal(const E &e) { if (e.isC()) return APInt(e.w, e.c); return *e.n->big; }
E mkTuple(const std::vector<E> &v) { E e = intern(O_TUPLE, K_TUP, 1, (uint32_t)v.size(), v); return e; }
const std::string &ufName(uint32_t id) { return ufs()[id]; }
E mkUF(const std::string &fn, const std::vector<E> &args, unsigned w) {
  bool allc = true; for (auto &a : args) allc &= a.isConst();
  E out; if (allc && hostUF(fn, args, w, out)) return out;
  auto &v = ufs(); size_t i = std::find(v.begin(), v.end(), fn) - v.begin(); if (i == v.size()) v.push_back(fn);
  return intern(O_UF, K_FP, w, (uint32_t)i, args);
}

template<class T> static bool hostF(const std::string &f, const T *a, T &r) {
  if (f == "log") r = std::log(a[0]); else if (f == "exp") r = std::exp(a[0]); else if (f == "pow") r = std::pow(a[0], a[1]);
  else if (f == "tan") r = std::tan(a[0]); else if (f == "sin") r = std::sin(a[0]); else if (f == "cos") r = std::cos(a[0]);
  else if (f == "log2") r = std::log2(a[0]); else if (f == "log10") r = std::log10(a[0]); else if (f == "log1p") r = std::log1p(a[0]);
  else if (f == "exp2") r = std::exp2(a[0]); else if (f == "atan") r = std::atan(a[0]); else if (f == "tanh") r = std::tanh(a[0]);
  else if (f == "expm1") r = std::expm1(a[0]); else if (f == "lgamma") r = std::lgamma(a[0]);
  else return false;
  return true;
}
bool hostUF(const std::string &fn, const std::vector<E> &args, unsigned w, E &out) {
  if (w == 32) { float a[3] = {0}, r; for (size_t i = 0; i < args.size(); i++) { uint32_t b = (uint32_t)args[i].c; memcpy(&a[i], &b, 4); }
    if (!hostF(fn, a, r)) return false; uint32_t b; memcpy(&b, &r, 4); out = mkFPC(b, 32); return true; }
  if (w == 64) { double a[3] = {0}, r; for (size_t i = 0; i < args.size(); i++) memcpy(&a[i], &args[i].c, 8);
    if (!hostF(fn, a, r)) return false; uint64_t b; memcpy(&b, &r, 8); out = mkFPC(b, 64); return true; }
  if (w == 16) { float a[3] = {0}, r; for (size_t i = 0; i < args.size(); i++) { APFloat f(APFloat::IEEEhalf(), APInt(16, args[i].c)); a[i] = f.convertToFloat(); }
    if (!hostF(fn, a, r)) return false; APFloat f(r); bool li; f.convert(APFloat::IEEEhalf(), APFloat::rmNearestTiesToEven, &li);
    out = mkFPC(f.bitcastToAPInt().getZExtValue(), 16); return true; }
  return false;
}

// ---- constant folding -------------------------------------------------------------------------
static E fromAPF(const APFloat &f, unsigned w) {
  if (f.isNaN()) { APFloat q = APFloat::getQNaN(semOf(w)); return mkFPC(q.bitcastToAPInt().getZExtValue(), w); }
  return mkFPC(f.bitcastToAPInt().getZExtValue(), w);
}
bool foldOp(Op op, const std::vector<E> &kids, unsigned w, Kind k, uint32_t p0, E &out) {
  for (auto &e : kids) if (!e.isConst()) return false;
  auto B = [&](int i) { return constVal(kids[i]); };
  auto FF = [&](int i) { return APFloat(semOf(kids[i].w), APInt(kids[i].w, kids[i].c)); };
  auto RM = APFloat::rmNearestTiesToEven;
  switch (op) {
  case O_ADD: out = mkBig(B(0) + B(1)); return true;
  case O_SUB: out = mkBig(B(0) - B(1)); return true;
  case O_MUL: out = mkBig(B(0) * B(1)); return true;
  case O_UDIV: out = B(1).isZero() ? mkBig(APInt::getAllOnes(w)) : mkBig(B(0).udiv(B(1))); return true;
  case O_UREM: out = B(1).isZero() ? mkBig(B(0)) : mkBig(B(0).urem(B(1))); return true;
  case O_SDIV: out = B(1).isZero() ? mkBig(B(0).isNegative() ? APInt(w, 1) : APInt::getAllOnes(w)) : mkBig(B(0).sdiv(B(1))); return true;
  case O_SREM: out = B(1).isZero() ? mkBig(B(0)) : mkBig(B(0).srem(B(1))); return true;
  case O_AND: out = mkBig(B(0) & B(1)); return true;
  case O_OR: out = mkBig(B(0) | B(1)); return true;
  case O_XOR: out = mkBig(B(0) ^ B(1)); return true;
  case O_SHL: out = mkBig(B(1).uge(w) ? APInt(w, 0) : B(0).shl(B(1))); return true;
  case O_LSHR: out = mkBig(B(1).uge(w) ? APInt(w, 0) : B(0).lshr(B(1))); return true;
  case O_ASHR: out = mkBig(B(1).uge(w) ? (B(0).isNegative() ? APInt::getAllOnes(w) : APInt(w, 0)) : B(0).ashr(B(1))); return true;
  case O_EXTRACT: out = mkBig(B(0).extractBits(w, p0)); return true;
  case O_CONCAT: out = mkBig(B(0).zext(w).shl(kids[1].w) | B(1).zext(w)); return true;
  case O_ZEXT: out = mkBig(B(0).zext(w)); return true;
  case O_SEXT: out = mkBig(B(0).sext(w)); return true;
  case O_ITE: out = kids[0].c ? kids[1] : kids[2]; return true;
  case O_EQ: if (kids[0].k == K_FP) { out = mkC(kids[0].c == kids[1].c || (FF(0).isNaN() && FF(1).isNaN()), 1); return true; }
    out = mkC(B(0) == B(1), 1); return true;
  case O_ULT: out = mkC(B(0).ult(B(1)), 1); return true;
  case O_ULE: out = mkC(B(0).ule(B(1)), 1); return true;
  case O_SLT: out = mkC(B(0).slt(B(1)), 1); return true;
  case O_SLE: out = mkC(B(0).sle(B(1)), 1); return true;
  case O_FADD: { auto a = FF(0); a.add(FF(1), RM); out = fromAPF(a, w); return true; }
  case O_FSUB: { auto a = FF(0); a.subtract(FF(1), RM); out = fromAPF(a, w); return true; }
  case O_FMUL: { auto a = FF(0); a.multiply(FF(1), RM); out = fromAPF(a, w); return true; }
  case O_FDIV: { auto a = FF(0); a.divide(FF(1), RM); out = fromAPF(a, w); return true; }
  case O_FREM: { auto a = FF(0); a.mod(FF(1)); out = fromAPF(a, w); return true; }
  case O_FMA: { auto a = FF(0); a.fusedMultiplyAdd(FF(1), FF(2), RM); out = fromAPF(a, w); return true; }
  case O_FSQRT: {
    if (w == 64) { double d; memcpy(&d, &kids[0].c, 8); d = std::sqrt(d); out = fromAPF(APFloat(d), 64); return true; }
    if (w == 32) { out = fromAPF(APFloat(std::sqrt(FF(0).convertToFloat())), 32); return true; }
    if (w == 16) { APFloat f(std::sqrt(FF(0).convertToFloat())); bool li; f.convert(semOf(16), RM, &li); out = fromAPF(f, 16); return true; }
    return false; }
  case O_FNEG: { auto a = FF(0); if (a.isNaN()) { out = kids[0]; return true; } a.changeSign(); out = fromAPF(a, w); return true; }
  case O_FABS: { auto a = FF(0); if (a.isNaN()) { out = kids[0]; return true; } a.clearSign(); out = fromAPF(a, w); return true; }
  case O_FLT: out = mkC(FF(0).compare(FF(1)) == APFloat::cmpLessThan, 1); return true;
  case O_FLE: { auto c = FF(0).compare(FF(1)); out = mkC(c == APFloat::cmpLessThan || c == APFloat::cmpEqual, 1); return true; }
  case O_FEQ: out = mkC(FF(0).compare(FF(1)) == APFloat::cmpEqual, 1); return true;
  case O_FISNAN: out = mkC(FF(0).isNaN(), 1); return true;
  case O_FISINF: out = mkC(FF(0).isInfinity(), 1); return true;
  case O_FRINT: { auto a = FF(0); a.roundToIntegral((RoundingMode)(int8_t)p0); out = fromAPF(a, w); return true; }
  case O_FP2FP: { auto a = FF(0); bool li; a.convert(semOf(w), RM, &li); out = fromAPF(a, w); return true; }
  case O_SI2F: case O_UI2F: { APFloat a(semOf(w)); a.convertFromAPInt(B(0), op == O_SI2F, RM); out = fromAPF(a, w); return true; }
  case O_F2SI: case O_F2UI: { APSInt r(w, op == O_F2UI); bool ex; auto a = FF(0); auto st = a.convertToInteger(r, APFloat::rmTowardZero, &ex);
    if (st == APFloat::opInvalidOp) { // what x86-64 code generation gives; only reached on executions with undefined behaviour
      if (op == O_F2SI) { APSInt r64(64, false); auto s2 = FF(0).convertToInteger(r64, APFloat::rmTowardZero, &ex);
        if (w > 64) return false;
        APInt v = (w <= 32 && false) ? APInt(64, 0) : (s2 == APFloat::opInvalidOp ? APInt::getSignedMinValue(64) : (APInt)r64);
        out = mkBig(w == 32 && s2 != APFloat::opInvalidOp ? APInt::getSignedMinValue(32) : v.trunc(w)); return true; }
      out = mkC(0, w); return true; }
    out = mkBig((APInt)r); return true; }
  case O_BV2FP: out = mkFPC(kids[0].c, w); return true;
  case O_FP2BV: out = mkC(kids[0].c, w); return true;
  default: return false;
  }
}

static bool commut(Op o) { switch (o) { case O_ADD: case O_MUL: case O_AND: case O_OR: case O_XOR: case O_EQ: case O_FADD: case O_FMUL: case O_FEQ: return true; default: return false; } }
static bool lessE(const E &a, const E &b) { // constants last
  if (a.isConst() != b.isConst()) return !a.isConst();
  if (a.isConst()) return false;
  return a.n->id < b.n->id;
}
static bool isOp(const E &e, Op o) { return e.n && e.n->op == o; }
static bool isNotOf(const E &a, const E &b) { return a.w == 1 && isOp(a, O_XOR) && a.n->kids[1].isC() && a.n->kids[1].c == 1 && a.n->kids[0] == b; }
static E raw(Op op, const std::vector<E> &k, unsigned w, Kind kd = K_BV, uint32_t p0 = 0) { return intern(op, kd, w, p0, k); }

E mkNot(E a) { return mk(O_XOR, a, T()); }
E mkAnd(E a, E b) { return mk(O_AND, a, b); }
E mkOr(E a, E b) { return mk(O_OR, a, b); }
E mkEq(E a, E b) { return mk(O_EQ, a, b); }

// an upper bound of the number of significant bits
static unsigned abits(const E &e, int depth = 0) {
  if (e.isConst()) return e.isC() ? (e.c ? 64 - __builtin_clzll(e.c) : 0) : constVal(e).getActiveBits();
  if (e.w <= 64) { uint64_t m = eUMax(e); return m ? std::min<unsigned>(e.w, 64 - __builtin_clzll(m)) : 0; }
  if (depth > 6) return e.w;
  const Node *n = e.n; unsigned r = e.w;
  switch (n->op) {
  case O_ZEXT: r = abits(n->kids[0], depth + 1); break;
  case O_MUL: r = abits(n->kids[0], depth + 1) + abits(n->kids[1], depth + 1); break;
  case O_ADD: r = std::max(abits(n->kids[0], depth + 1), abits(n->kids[1], depth + 1)) + 1; break;
  case O_ITE: r = std::max(abits(n->kids[1], depth + 1), abits(n->kids[2], depth + 1)); break;
  case O_UREM: r = std::min(abits(n->kids[0], depth + 1), abits(n->kids[1], depth + 1)); break;
  case O_UDIV: r = abits(n->kids[0], depth + 1); break;
  case O_LSHR: if (n->kids[1].isC()) { unsigned b = abits(n->kids[0], depth + 1); r = b > n->kids[1].c ? b - n->kids[1].c : 0; } break;
  case O_SHL: if (n->kids[1].isC()) r = abits(n->kids[0], depth + 1) + n->kids[1].c; break;
  case O_AND: r = std::min(abits(n->kids[0], depth + 1), abits(n->kids[1], depth + 1)); break;
  case O_OR: case O_XOR: r = std::max(abits(n->kids[0], depth + 1), abits(n->kids[1], depth + 1)); break;
  default: break;
  }
  return std::min<unsigned>(r, e.w);
}
static E mkExtract0(E a, unsigned lo, unsigned w);
E mkExtract(E a, unsigned lo, unsigned w) { // memoised: a slice pushed through shared operands would otherwise be rebuilt once per path
  if (lo == 0 && w == a.w) return a;
  if (a.isConst() || a.w > 4095) return mkExtract0(a, lo, w);
  static std::unordered_map<uint64_t, E> memo[64]; uint64_t k = (uint64_t)a.n->id << 24 | (uint64_t)lo << 12 | w; auto &m = memo[a.n->id & 63]; auto it = m.find(k); if (it != m.end()) return it->second;
  E r = mkExtract0(a, lo, w); m.emplace(k, r); return r;
}
static E mkExtract0(E a, unsigned lo, unsigned w) {
  if (a.isC()) return mkC(a.c >> lo, w);
  if (a.isConst()) return mkBig(constVal(a).extractBits(w, lo));
  const Node *n = a.n;
  switch (n->op) {
  case O_EXTRACT: return mkExtract(n->kids[0], lo + n->p0, w);
  case O_CONCAT: { unsigned lw = n->kids[1].w;
    if (lo >= lw) return mkExtract(n->kids[0], lo - lw, w);
    if (lo + w <= lw) return mkExtract(n->kids[1], lo, w);
    return mkConcat(mkExtract(n->kids[0], 0, lo + w - lw), mkExtract(n->kids[1], lo, lw - lo)); }
  case O_ZEXT: { unsigned iw = n->kids[0].w;
    if (lo >= iw) return mkC(0, w);
    if (lo + w <= iw) return mkExtract(n->kids[0], lo, w);
    return mkZExt(mkExtract(n->kids[0], lo, iw - lo), w); }
  case O_SEXT: { unsigned iw = n->kids[0].w; if (lo + w <= iw) return mkExtract(n->kids[0], lo, w);
    if (lo < iw) return mkSExt(mkExtract(n->kids[0], lo, iw - lo), w); break; }
  case O_AND: case O_OR: case O_XOR:
    if (n->kids[1].isConst()) return mk(n->op, mkExtract(n->kids[0], lo, w), mkExtract(n->kids[1], lo, w));
    if (w == 1 || lo == 0) return mk(n->op, mkExtract(n->kids[0], lo, w), mkExtract(n->kids[1], lo, w));
    break;
  case O_ADD: case O_SUB: case O_MUL:
    if (lo == 0) { E r = mk(n->op, mkExtract(n->kids[0], 0, w), mkExtract(n->kids[1], 0, w)); if (!r.isConst() && r.n != n && a.w <= 64) { if (w == 61 || w == 31) lowOf[r.n] = n; else sliceOf[r.n] = {n, 0}; } return r; }
    if (lo + w < a.w && (lo + w) % 8 == 0) return mkExtract(mkExtract(a, 0, lo + w), lo, w); // carries only move up
    break;
  case O_SHL: if (n->kids[1].isC()) { uint64_t s = n->kids[1].c;
      if (lo >= s) return mkExtract(n->kids[0], lo - s, w);
      if (lo + w <= s) return mkC(0, w); 
      if (lo == 0 && s < w) return mk(O_SHL, mkExtract(n->kids[0], 0, w), mkC(s, w)); } break;
  case O_LSHR: if (n->kids[1].isC()) { uint64_t s = n->kids[1].c;
      if (lo + s + w <= a.w) return mkExtract(n->kids[0], lo + s, w);
      if (lo + s >= a.w) return mkC(0, w); 
      return mkZExt(mkExtract(n->kids[0], lo + s, a.w - lo - s), w); } break;
  case O_ITE: if (n->kids[1].isConst() || n->kids[2].isConst() || lo == 0)
      { E r = mkIte(n->kids[0], mkExtract(n->kids[1], lo, w), mkExtract(n->kids[2], lo, w)); if (!r.isConst() && r.n->op == O_ITE && a.w <= 64) sliceOf[r.n] = {n, lo}; return r; } break;
  default: break;
  }
  if (a.w <= 64 && w <= 64 && ((~eKZ(a) >> lo) & maskw(w)) == 0) return mkC(0, w);
  return raw(O_EXTRACT, {a}, w, K_BV, lo);
}
E mkConcat(E hi, E lo) {
  unsigned w = hi.w + lo.w;
  if (hi.isConst() && lo.isConst()) { E o; foldOp(O_CONCAT, {hi, lo}, w, K_BV, 0, o); return o; }
  if (hi.isC() && hi.c == 0) return mkZExt(lo, w);
  if (isOp(hi, O_EXTRACT) && isOp(lo, O_EXTRACT) && hi.n->kids[0] == lo.n->kids[0] && hi.n->p0 == lo.n->p0 + lo.w)
    return mkExtract(hi.n->kids[0], lo.n->p0, w);
  if (isOp(hi, O_ZEXT)) { return mkZExt(mkConcat(hi.n->kids[0], lo), w); }
  // extract ++ (extract ++ rest)
  if (isOp(lo, O_CONCAT) && isOp(hi, O_EXTRACT)) { E m = lo.n->kids[0]; if (isOp(m, O_EXTRACT) && hi.n->kids[0] == m.n->kids[0] && hi.n->p0 == m.n->p0 + m.w)
      return mkConcat(mkExtract(m.n->kids[0], m.n->p0, hi.w + m.w), lo.n->kids[1]); }
  return raw(O_CONCAT, {hi, lo}, w);
}
E mkZExt(E a, unsigned w) {
  if (w == a.w) return a; if (w < a.w) return mkExtract(a, 0, w);
  if (a.isC() && w <= 64) return mkC(a.c, w);
  if (a.isConst()) return mkBig(constVal(a).zext(w));
  if (isOp(a, O_ZEXT)) return mkZExt(a.n->kids[0], w);
  if (isOp(a, O_ITE) && a.n->kids[1].isConst() && a.n->kids[2].isConst()) return mkIte(a.n->kids[0], mkZExt(a.n->kids[1], w), mkZExt(a.n->kids[2], w));
  return raw(O_ZEXT, {a}, w);
}
E mkSExt(E a, unsigned w) {
  if (w == a.w) return a; if (w < a.w) return mkExtract(a, 0, w);
  if (a.isConst()) return mkBig(constVal(a).sext(w));
  if (isOp(a, O_SEXT)) return mkSExt(a.n->kids[0], w);
  if (isOp(a, O_ZEXT)) return mkZExt(a.n->kids[0], w);
  if (a.w <= 64 && !((~eKZ(a) >> (a.w - 1)) & 1)) return mkZExt(a, w);
  if (isOp(a, O_ITE) && a.n->kids[1].isConst() && a.n->kids[2].isConst()) return mkIte(a.n->kids[0], mkSExt(a.n->kids[1], w), mkSExt(a.n->kids[2], w));
  if (a.w == 1 && w <= 64) return mkIte(a, mkC(maskw(w), w), mkC(0, w));
  return raw(O_SEXT, {a}, w);
}
E mkIte(E c, E a, E b) {
  if (c.isC()) return c.c ? a : b;
  if (a == b) return a;
  if (a.k == K_TUP) { std::vector<E> r; for (size_t i = 0; i < a.n->kids.size(); i++) r.push_back(mkIte(c, a.n->kids[i], b.n->kids[i])); return mkTuple(r); }
  if (isOp(c, O_XOR) && c.n->kids[1].isC()) { return mkIte(c.n->kids[0], b, a); } // c is not(x)
  if (a.w == 1 && a.k == K_BV) {
    if (a.isC() && b.isC()) return a.c ? c : mkNot(c);
    if (a.isC()) return a.c ? mkOr(c, b) : mkAnd(mkNot(c), b);
    if (b.isC()) return b.c ? mkOr(mkNot(c), a) : mkAnd(c, a);
    if (b == c) return mkAnd(c, a); if (a == c) return mkOr(c, b);
  }
  if (isOp(a, O_ITE) && a.n->kids[0] == c) a = a.n->kids[1];
  if (isOp(b, O_ITE) && b.n->kids[0] == c) b = b.n->kids[2];
  if (a == b) return a;
  // ite(c, x, ite(d, x, y)) -> ite(c|d, x, y)
  if (isOp(b, O_ITE) && b.n->kids[1] == a) return mkIte(mkOr(c, b.n->kids[0]), a, b.n->kids[2]);
  return raw(O_ITE, {c, a, b}, a.w, a.k);
}
static bool exCmp(Op op, const E &a, const E &b, E &out);
static bool exToInt(Op op, const E &a, unsigned w, E &out);
E mk(Op op, E a) {
  E out;
  Kind k = K_BV; unsigned w = a.w;
  switch (op) {
  case O_FNEG: case O_FABS: case O_FSQRT: k = K_FP; break;
  case O_FISNAN: w = 1; if (a.w <= 64 && !eF(a).nan) return F(); break;
  case O_FISINF: w = 1; if (a.w <= 64 && eF(a).lo > -INFINITY && eF(a).hi < INFINITY) return F(); break;
  case O_BV2FP: k = K_FP; if (isOp(a, O_FP2BV)) return a.n->kids[0];
    if (isOp(a, O_ITE)) return mkIte(a.n->kids[0], mk(O_BV2FP, a.n->kids[1]), mk(O_BV2FP, a.n->kids[2])); break;
  case O_FP2BV: if (isOp(a, O_BV2FP)) return a.n->kids[0];
    if (isOp(a, O_ITE)) return mkIte(a.n->kids[0], mk(O_FP2BV, a.n->kids[1]), mk(O_FP2BV, a.n->kids[2])); break;
  default: fprintf(stderr, "mk1 op %d\n", op); exit(3);
  }
  if (foldOp(op, {a}, w, k, 0, out)) return out;
  return raw(op, {a}, w, k);
}
E mkF(Op op, const std::vector<E> &kids, unsigned w, Kind k, uint32_t p0) {
  E out; if (foldOp(op, kids, w, k, p0, out)) return out;
  if ((op == O_F2UI || op == O_F2SI) && exToInt(op, kids[0], w, out)) return out;
  if (op == O_FP2FP && isOp(kids[0], O_FP2FP) && kids[0].w >= w && kids[0].n->kids[0].w == w) return kids[0].n->kids[0]; // widened and narrowed again
  return raw(op, kids, w, k, p0);
}
E mk(Op op, E a, E b, E c) {
  if (op == O_ITE) return mkIte(a, b, c);
  return mkF(op, {a, b, c}, a.w, a.k);
}
static bool cz(const E &e) { return e.isC() ? e.c == 0 : (e.isConst() && constVal(e).isZero()); }
static bool cones(const E &e) { return e.isC() ? e.c == maskw(e.w) : (e.isConst() && constVal(e).isAllOnes()); }
static bool fastFold(Op op, const E &a, const E &b, E &out) {
  // both inline constants, BV
  uint64_t x = a.c, y = b.c; unsigned w = a.w; int64_t sx = (int64_t)(x << (64 - w)) >> (64 - w), sy = (int64_t)(y << (64 - w)) >> (64 - w);
  switch (op) {
  case O_ADD: out = mkC(x + y, w); return true; case O_SUB: out = mkC(x - y, w); return true; case O_MUL: out = mkC(x * y, w); return true;
  case O_AND: out = mkC(x & y, w); return true; case O_OR: out = mkC(x | y, w); return true; case O_XOR: out = mkC(x ^ y, w); return true;
  case O_SHL: out = mkC(y >= w ? 0 : x << y, w); return true; case O_LSHR: out = mkC(y >= w ? 0 : x >> y, w); return true;
  case O_EQ: out = mkC(x == y, 1); return true; case O_ULT: out = mkC(x < y, 1); return true; case O_ULE: out = mkC(x <= y, 1); return true;
  case O_SLT: out = mkC(sx < sy, 1); return true; case O_SLE: out = mkC(sx <= sy, 1); return true;
  case O_UDIV: if (!y) return false; out = mkC(x / y, w); return true; case O_UREM: if (!y) return false; out = mkC(x % y, w); return true;
  default: return false; }
}
// ---- bits as sums over GF(2): decides equality of XOR networks that differ in shape ----------------
void dumpE(const E &e, int d);
struct Lin { std::vector<std::vector<uint64_t>> b; std::vector<char> c; size_t total = 0; bool triv = false; };
typedef std::shared_ptr<Lin> LinP;
static std::unordered_map<const Node *, LinP> linMemo;
static size_t linCells = 0;
static LinP linAtom(const Node *n, unsigned w) { auto r = std::make_shared<Lin>(); r->b.resize(w); r->c.assign(w, 0); E self; self.n = n; self.w = w; self.k = n->k; uint64_t kz = w <= 64 && n->k == K_BV ? eKZ(self) : 0; for (unsigned i = 0; i < w; ++i) if (i >= 64 || !(kz >> i & 1)) r->b[i].push_back((uint64_t(n->id) << 8) | i); r->total = w; r->triv = true; return r; }
static LinP linOf(const E &e, int depth = 0);
static void linSum(const std::vector<uint64_t> &x, const std::vector<uint64_t> &y, std::vector<uint64_t> &o) { std::set_symmetric_difference(x.begin(), x.end(), y.begin(), y.end(), std::back_inserter(o)); }
static LinP linNode(const Node *n, int depth) {
  unsigned w = n->w; auto r = std::make_shared<Lin>(); r->b.resize(w); r->c.assign(w, 0);
  auto cp = [&](unsigned i, const LinP &x, unsigned j) { r->b[i] = x->b[j]; r->c[i] = x->c[j]; };
  switch (n->op) {
  case O_XOR: { LinP x = linOf(n->kids[0], depth + 1), y = linOf(n->kids[1], depth + 1); for (unsigned i = 0; i < w; ++i) { linSum(x->b[i], y->b[i], r->b[i]); r->c[i] = x->c[i] ^ y->c[i]; } break; }
  case O_EXTRACT: { if (n->kids[0].w > 128) return nullptr; LinP x = linOf(n->kids[0], depth + 1); for (unsigned i = 0; i < w; ++i) cp(i, x, i + n->p0); break; }
  case O_CONCAT: { LinP x = linOf(n->kids[0], depth + 1), y = linOf(n->kids[1], depth + 1); unsigned l = n->kids[1].w; for (unsigned i = 0; i < w; ++i) if (i < l) cp(i, y, i); else cp(i, x, i - l); break; }
  case O_ZEXT: { LinP x = linOf(n->kids[0], depth + 1); for (unsigned i = 0; i < n->kids[0].w; ++i) cp(i, x, i); break; }
  case O_SEXT: { LinP x = linOf(n->kids[0], depth + 1); unsigned l = n->kids[0].w; for (unsigned i = 0; i < w; ++i) cp(i, x, i < l ? i : l - 1); break; }
  case O_AND: case O_OR: { if (!n->kids[1].isConst()) return nullptr; APInt m = constVal(n->kids[1]); LinP x = linOf(n->kids[0], depth + 1);
    for (unsigned i = 0; i < w; ++i) if (m[i] == (n->op == O_AND)) cp(i, x, i); else r->c[i] = n->op == O_OR; break; }
  case O_ITE: { LinP x = linOf(n->kids[1], depth + 1), y = linOf(n->kids[2], depth + 1); for (unsigned i = 0; i < w; ++i) if (x->b[i] != y->b[i]) return nullptr;
    LinP c = linOf(n->kids[0], depth + 1); for (unsigned i = 0; i < w; ++i) { if (x->c[i] == y->c[i]) cp(i, x, i); else { linSum(y->b[i], c->b[0], r->b[i]); r->c[i] = y->c[i] ^ c->c[0]; } } break; }
  case O_EQ: { // with a constant, and at most one bit that is not constant
    if (n->kids[0].k != K_BV || n->kids[0].w > 128 || !n->kids[1].isConst()) return nullptr; APInt m = constVal(n->kids[1]); LinP x = linOf(n->kids[0], depth + 1); int at = -1; bool no = false;
    for (unsigned i = 0; i < n->kids[0].w; ++i) { if (x->b[i].empty()) { if ((bool)x->c[i] != m[i]) no = true; } else if (at < 0) at = int(i); else at = 1000; }
    if (no) break; if (at == 1000) return nullptr; if (at < 0) { r->c[0] = 1; break; } r->b[0] = x->b[at]; r->c[0] = x->c[at] ^ !m[at]; break; }
  case O_SLT: { // the sign bit
    bool neg = n->kids[1].isConst() && constVal(n->kids[1]).isZero(), pos = n->kids[0].isConst() && constVal(n->kids[0]).isAllOnes(); if ((!neg && !pos) || n->kids[0].w > 128) return nullptr;
    LinP x = linOf(n->kids[neg ? 0 : 1], depth + 1); unsigned t = n->kids[0].w - 1; r->b[0] = x->b[t]; r->c[0] = x->c[t] ^ (pos ? 1 : 0); break; }
  case O_SLE: { // !(x < 0), and x <= -1
    bool pos = n->kids[0].isConst() && constVal(n->kids[0]).isZero(), neg = n->kids[1].isConst() && constVal(n->kids[1]).isAllOnes(); if ((!neg && !pos) || n->kids[0].w > 128) return nullptr;
    LinP x = linOf(n->kids[neg ? 0 : 1], depth + 1); unsigned t = n->kids[0].w - 1; r->b[0] = x->b[t]; r->c[0] = x->c[t] ^ (pos ? 1 : 0); break; }
  default: return nullptr;
  }
  for (auto &v : r->b) r->total += v.size();
  if (r->total > 12000) return nullptr;
  return r;
}
static LinP linOf(const E &e, int depth) {
  if (e.isConst()) { auto r = std::make_shared<Lin>(); APInt v = constVal(e); r->b.resize(e.w); r->c.resize(e.w); for (unsigned i = 0; i < e.w; ++i) r->c[i] = v[i]; return r; }
  auto it = linMemo.find(e.n); if (it != linMemo.end()) return it->second;
  LinP r; if (depth < 3000 && e.w <= 128 && linCells < 150000000) r = linNode(e.n, depth);
  if (!r) { r = linAtom(e.n, e.w); static bool dbg = getenv("DBGLIN") != nullptr; if (dbg && e.n->op != O_VAR) { fprintf(stderr, "ATOM "); dumpE(e, 3); fprintf(stderr, "\n"); } }
  linCells += r->total + e.w; linMemo[e.n] = r; return r;
}
static bool hasXor(const E &e, int d = 0) { if (e.isConst()) return false; if (e.n->op == O_XOR) return true; if (d > 6 || (e.n->op != O_CONCAT && e.n->op != O_OR && e.n->op != O_EQ && e.n->op != O_EXTRACT && e.n->op != O_ZEXT && e.n->op != O_ITE && e.n->op != O_AND)) return false; for (auto &k : e.n->kids) if (k.k == K_BV && hasXor(k, d + 1)) return true; return false; }
static bool linEqual(const E &a, const E &b) {
  if (a.w > 128 || (!hasXor(a) && !hasXor(b))) return false;
  LinP x = linOf(a), y = linOf(b); bool ok = x->b == y->b && x->c == y->c;
  static bool dbg = getenv("DBGLIN") != nullptr; if (dbg && !ok) { fprintf(stderr, "LIN w%d", a.w); for (unsigned i = 0; i < a.w; ++i) if (x->b[i] != y->b[i] || x->c[i] != y->c[i]) { std::vector<uint64_t> d; linSum(x->b[i], y->b[i], d); fprintf(stderr, " bit%u:%zu/%zu^%d:", i, x->b[i].size(), y->b[i].size(), x->c[i] ^ y->c[i]); for (auto t : d) fprintf(stderr, " %llu.%u", (unsigned long long)(t >> 8), unsigned(t & 255)); } fprintf(stderr, " cells %zu\n", linCells); dumpE(a, 4); fprintf(stderr, "\n"); dumpE(b, 4); fprintf(stderr, "\n"); }
  return ok;
}
// ---- exact dyadic values: a floating-point node that provably equals (signed integer) * 2^e.  Its
// arithmetic is then integer arithmetic, which the comparisons below are decided on.
typedef __int128 i128;
struct Ex { E v; int e = 0; i128 lo = 0, hi = 0; bool ok = false; };
static unsigned sbits(i128 lo, i128 hi) { unsigned n = 2; while (n < 120 && (lo < -((i128)1 << (n - 1)) || hi >= ((i128)1 << (n - 1)))) n++; return n; }
static E mkI(i128 v, unsigned w) { unsigned __int128 u = (unsigned __int128)v; uint64_t p[2] = {(uint64_t)u, (uint64_t)(u >> 64)}; return mkBig(APInt(128, llvm::ArrayRef<uint64_t>(p, 2)).trunc(w)); }
static Ex mkEx(E v, int e, i128 lo, i128 hi) { Ex x; unsigned w = sbits(lo, hi); if (w > 100) return x; x.v = mkSExt(v, w); x.e = e; x.lo = lo; x.hi = hi; x.ok = true; return x; }
static unsigned precOf(unsigned w) { return w == 64 ? 53 : w == 32 ? 24 : w == 16 ? 11 : 0; }
static int expLim(unsigned w) { return w == 64 ? 900 : w == 32 ? 110 : w == 16 ? 8 : 0; }
static E exTo(const Ex &x, int e, unsigned w) { E v = mkSExt(x.v, w); return x.e > e ? mk(O_SHL, v, mkBig(APInt(w, x.e - e))) : v; }
static bool alignEx(const Ex &a, const Ex &b, int &e, unsigned &w, i128 &al, i128 &ah, i128 &bl, i128 &bh) {
  if (!a.ok || !b.ok) return false; bool za = a.lo == 0 && a.hi == 0, zb = b.lo == 0 && b.hi == 0; e = za ? b.e : zb ? a.e : std::min(a.e, b.e);
  int da = za ? 0 : a.e - e, db = zb ? 0 : b.e - e; if (da > 70 || db > 70 || sbits(a.lo, a.hi) + da > 98 || sbits(b.lo, b.hi) + db > 98) return false;
  al = a.lo * ((i128)1 << da); ah = a.hi * ((i128)1 << da); bl = b.lo * ((i128)1 << db); bh = b.hi * ((i128)1 << db);
  w = sbits(std::min(al, bl), std::max(ah, bh)); return true;
}
static E exAt(const Ex &x, int e, unsigned w) { return x.lo == 0 && x.hi == 0 ? mkI(0, w) : exTo(x, e, w); }
static std::unordered_map<const Node *, Ex> exMemo;
static Ex exOf(const E &x);
static Ex exRnd(E v, int e, i128 lo, i128 hi, unsigned fw) { // integer result of an addition, rounded to the precision
  i128 P = (i128)1 << precOf(fw); if (lo >= -P && hi <= P) return mkEx(v, e, lo, hi);
  if (lo < -2 * P || hi > 2 * P) return Ex();
  unsigned w = sbits(lo - 2, hi + 2); v = mkSExt(v, w); E one = mkI(1, w), big = mkOr(mk(O_SLT, mkI(P, w), v), mk(O_SLT, v, mkI(-P, w))), odd = mkAnd(mkEq(mkExtract(v, 0, 1), mkC(1, 1)), big);
  E up = mkEq(mkExtract(v, 1, 1), mkC(1, 1)); E r = mkIte(odd, mkIte(up, mk(O_ADD, v, one), mk(O_SUB, v, one)), v); return mkEx(r, e, lo - 1, hi + 1);
}
static Ex exNode(const Node *n) {
  Ex r; unsigned p = precOf(n->w); if (!p) return r; i128 P = (i128)1 << p; int L = expLim(n->w); auto K = [&](int i) { return exOf(n->kids[i]); };
  switch (n->op) {
  case O_UI2F: { E k = n->kids[0]; if (k.w > 64 || (i128)eUMax(k) > P) return r; return mkEx(mkZExt(k, k.w + 1), 0, (i128)eUMin(k), (i128)eUMax(k)); }
  case O_SI2F: { E k = n->kids[0]; if (k.w > 64) return r; i128 lo = -((i128)1 << (k.w - 1)), hi = ((i128)1 << (k.w - 1)) - 1; if (eUMax(k) < (1ull << (k.w - 1))) { lo = eUMin(k); hi = eUMax(k); } else if (isOp(k, O_SEXT)) { unsigned q = k.n->kids[0].w; lo = -((i128)1 << (q - 1)); hi = ((i128)1 << (q - 1)) - 1; } if (lo < -P || hi > P) return r; return mkEx(k, 0, lo, hi); }
  case O_FADD: case O_FSUB: { Ex a = K(0); if (!a.ok) return r; Ex b = K(1); int e; unsigned w; i128 al, ah, bl, bh; if (!alignEx(a, b, e, w, al, ah, bl, bh)) return r; bool sub = n->op == O_FSUB; i128 lo = sub ? al - bh : al + bl, hi = sub ? ah - bl : ah + bh; w = sbits(std::min({lo, al, bl}), std::max({hi, ah, bh})); if (w > 98 || e > L || e < -L) return r;
      Ex x = exRnd(mk(sub ? O_SUB : O_ADD, exAt(a, e, w), exAt(b, e, w)), e, lo, hi, n->w); return x; }
  case O_FMUL: { Ex a = K(0); if (!a.ok) return r; Ex b = K(1); if (!b.ok) return r; int e = a.e + b.e; if (e > L || e < -L) return r; if (a.lo == a.hi) std::swap(a, b);
      i128 lo, hi; double m = std::max(std::fabs((double)a.lo), std::fabs((double)a.hi)) * std::max(std::fabs((double)b.lo), std::fabs((double)b.hi)); if (m > 1e30) return r;
      i128 c[4] = {a.lo * b.lo, a.lo * b.hi, a.hi * b.lo, a.hi * b.hi}; lo = *std::min_element(c, c + 4); hi = *std::max_element(c, c + 4); if (b.lo == 1 && b.hi == 1) { a.e = e; return a; }
      if (lo < -P || hi > P) return r; unsigned w = std::max({sbits(lo, hi), a.v.w + 0u, b.v.w + 0u}); return mkEx(mk(O_MUL, mkSExt(a.v, w), mkSExt(b.v, w)), e, lo, hi); }
  case O_FDIV: { Ex b = K(1); if (!b.ok || b.lo != 1 || b.hi != 1) return r; Ex a = K(0); if (!a.ok) return r; int e = a.e - b.e; if (e > L || e < -L) return r; a.e = e; return a; }
  case O_FNEG: { Ex a = K(0); if (!a.ok) return r; unsigned w = sbits(std::min(a.lo, -a.hi), std::max(a.hi, -a.lo)); return mkEx(mk(O_SUB, mkI(0, w), mkSExt(a.v, w)), a.e, -a.hi, -a.lo); }
  case O_FABS: { Ex a = K(0); if (!a.ok || a.lo >= 0) return a; i128 h = std::max(a.hi, -a.lo); unsigned w = sbits(a.lo, h); E v = mkSExt(a.v, w); return mkEx(mkIte(mk(O_SLT, v, mkI(0, w)), mk(O_SUB, mkI(0, w), v), v), a.e, 0, h); }
  case O_FP2FP: { Ex a = K(0); if (!a.ok || a.lo < -P || a.hi > P || a.e > L || a.e < -L) return r; return a; }
  case O_FRINT: { Ex a = K(0); if (!a.ok || a.e >= 0) return a; int sh = -a.e; if (sh > 110) return r; auto md = (llvm::RoundingMode)n->p0; unsigned w = a.v.w + 1; E v = mkSExt(a.v, w), z = mkI(0, w), k = mkBig(APInt(w, std::min<unsigned>(sh, w - 1)));
      E fl = mk(O_ASHR, v, k), ce = mk(O_SUB, z, mk(O_ASHR, mk(O_SUB, z, v), k)); i128 fl1 = a.lo >> sh, fh1 = a.hi >> sh, cl = -((-a.lo) >> sh), ch = -((-a.hi) >> sh);
      if (md == llvm::RoundingMode::TowardNegative) return mkEx(fl, 0, fl1, fh1); if (md == llvm::RoundingMode::TowardPositive) return mkEx(ce, 0, cl, ch); if (md == llvm::RoundingMode::TowardZero) return mkEx(mkIte(mk(O_SLT, v, z), ce, fl), 0, std::min(fl1, (i128)0), std::max(ch, (i128)0)); return r; }
  case O_ITE: { Ex a = K(1); if (!a.ok) return r; Ex b = K(2); int e; unsigned w; i128 al, ah, bl, bh; if (!alignEx(a, b, e, w, al, ah, bl, bh)) return r; return mkEx(mkIte(n->kids[0], exAt(a, e, w), exAt(b, e, w)), e, std::min(al, bl), std::max(ah, bh)); }
  default: return r;
  }
}
static Ex exOf(const E &x) {
  if (x.w > 64) return Ex();
  if (x.isC()) { double d = u2d(x.c, x.w); if (!std::isfinite(d)) return Ex(); if (d == 0) return mkEx(mkI(0, 2), 0, 0, 0); int e; double m = std::frexp(d, &e); int64_t k = (int64_t)std::ldexp(m, 53); e -= 53; while (!(k & 1)) { k /= 2; e++; } return mkEx(mkI(k, 64), e, k, k); }
  auto it = exMemo.find(x.n); if (it != exMemo.end()) return it->second;
  Ex r = exNode(x.n);
  if (r.ok && r.lo != r.hi) { double a = std::floor(std::ldexp(x.n->flo, -r.e)), b = std::ceil(std::ldexp(x.n->fhi, -r.e)); if (a > (double)r.lo && std::fabs(a) < 1e30) r.lo = (i128)a; if (b < (double)r.hi && std::fabs(b) < 1e30) r.hi = (i128)b; if (r.lo > r.hi) r.ok = false; }
  exMemo[x.n] = r; return r;
}
static bool exCmp(Op op, const E &a, const E &b, E &out) {
  if (a.isConst() && b.isConst()) return false;
  if (a.isConst() || b.isConst()) { // against a constant: compare with its floor / ceiling
    bool cr = b.isConst(); Ex x = exOf(cr ? a : b); if (!x.ok) return false; double c = u2d(cr ? b.c : a.c, a.w); if (!std::isfinite(c)) return false; double q = std::ldexp(c, -x.e); if (std::fabs(q) < 1e-300 && c != 0) return false; double f = std::floor(q), g = std::ceil(q);
    auto cl = [&](double d) { return d > 1e29 ? x.hi + 1 : d < -1e29 ? x.lo - 1 : (i128)d; }; i128 F0 = cl(f), G0 = cl(g); 
    auto le = [&](i128 k) { if (k >= x.hi) return T(); if (k < x.lo) return F(); return mk(O_SLE, x.v, mkI(k, x.v.w)); }; // v <= k
    if (op == O_FEQ) { if (f != g || F0 < x.lo || F0 > x.hi) out = F(); else out = mkEq(x.v, mkI(F0, x.v.w)); }
    else if (cr) out = op == O_FLT ? le(G0 - 1) : le(F0); else out = op == O_FLT ? mkNot(le(F0)) : mkNot(le(G0 - 1));
    return true;
  }
  Ex x = exOf(a); if (!x.ok) return false; Ex y = exOf(b); int e; unsigned w; i128 al, ah, bl, bh; if (!alignEx(x, y, e, w, al, ah, bl, bh)) return false;
  E p = exAt(x, e, w), q = exAt(y, e, w); out = op == O_FEQ ? mkEq(p, q) : mk(op == O_FLT ? O_SLT : O_SLE, p, q); return true;
}
static bool exToInt(Op op, const E &a, unsigned w, E &out) {
  if (w > 64) return false; Ex x = exOf(a); if (!x.ok) return false; if (x.e > 60 || x.e < -110) return false;
  E v = x.v; i128 lo = x.lo, hi = x.hi; unsigned vw = v.w + 1; v = mkSExt(v, vw);
  if (x.e < 0) { unsigned sh = -x.e; E z = mkI(0, vw), k = mkBig(APInt(vw, std::min<unsigned>(sh, vw - 1))); E fl = mk(O_ASHR, v, k); if (lo < 0) fl = mkIte(mk(O_SLT, v, z), mk(O_SUB, z, mk(O_ASHR, mk(O_SUB, z, v), k)), fl); v = fl; lo = lo < 0 ? -((-lo) >> sh) : lo >> sh; hi = hi < 0 ? -((-hi) >> sh) : hi >> sh; }
  else if (x.e > 0) { if (sbits(lo, hi) + x.e > 98) return false; vw += x.e; v = mk(O_SHL, mkSExt(v, vw), mkBig(APInt(vw, x.e))); lo = lo * ((i128)1 << x.e); hi = hi * ((i128)1 << x.e); }
  i128 dl = op == O_F2SI ? -((i128)1 << (w - 1)) : 0, dh = op == O_F2SI ? ((i128)1 << (w - 1)) - 1 : ((i128)1 << w) - 1; if (lo < dl || hi > dh) return false;
  out = mkSExt(v, w); return true;
}
// ---- congruence modulo 2^k - 1: linear forms over bit slices, used to decide equalities of residues
struct LF { std::map<std::tuple<uint32_t, unsigned, unsigned>, std::pair<E, uint64_t>> t; uint64_t c = 0; };
struct Cong {
  unsigned k; uint64_t M; std::unordered_map<const Node *, LF> memo; int depth = 0;
  uint64_t mm(uint64_t a, uint64_t b) { return (unsigned __int128)a * b % M; }
  uint64_t p2(unsigned s) { return (uint64_t)1 << (s % k); }
  void addTerm(LF &o, const E &x, unsigned lo, unsigned n, uint64_t c) { if (!c) return; auto key = std::make_tuple(x.n->id, lo, n); auto it = o.t.find(key); if (it == o.t.end()) o.t[key] = {x, c}; else { uint64_t v = (uint64_t)(((unsigned __int128)it->second.second + c) % M); if (v) it->second.second = v; else o.t.erase(it); } }
  void add(LF &o, const LF &a, uint64_t c) { o.c = (uint64_t)(((unsigned __int128)o.c + mm(a.c, c)) % M); for (auto &p : a.t) addTerm(o, p.second.first, std::get<1>(p.first), std::get<2>(p.first), mm(p.second.second, c)); }
  void addC(LF &o, uint64_t v) { o.c = (uint64_t)(((unsigned __int128)o.c + v) % M); }
  void slice(LF &o, E x, unsigned lo, unsigned n, uint64_t c) {
    for (;;) {
      if (!n || !c) return;
      if (x.isConst()) { if (x.w > 64) { APInt v = constVal(x).lshr(lo); v = n < v.getBitWidth() ? v.trunc(n).zext(std::max(128u, n)) : v; addC(o, mm((v.urem(APInt(v.getBitWidth(), M))).getZExtValue(), c)); return; } uint64_t v = lo >= 64 ? 0 : x.c >> lo; if (n < 64) v &= maskw(n); addC(o, mm(v % M, c)); return; }
      const Node *d = x.n;
      if (d->op == O_ZEXT) { unsigned iw = d->kids[0].w; if (lo >= iw) return; n = std::min(n, iw - lo); x = d->kids[0]; continue; }
      if (d->op == O_EXTRACT) { lo += d->p0; x = d->kids[0]; continue; }
      if (d->op == O_CONCAT) { unsigned lw = d->kids[1].w; if (lo >= lw) { lo -= lw; x = d->kids[0]; continue; } if (lo + n <= lw) { x = d->kids[1]; continue; } slice(o, d->kids[1], lo, lw - lo, c); slice(o, d->kids[0], 0, n - (lw - lo), mm(c, p2(lw - lo))); return; }
      if (d->op == O_LSHR && d->kids[1].isC()) { unsigned s = d->kids[1].c; if (lo + s >= d->w) return; n = std::min(n, d->w - lo - s); lo += s; x = d->kids[0]; continue; }
      auto it = lowOf.find(d); if (it != lowOf.end()) { x = asE(it->second); continue; }
      auto jt = sliceOf.find(d); if (jt != sliceOf.end()) { x = asE(jt->second.first); lo += jt->second.second; continue; }
      break;
    }
    unsigned b = abits(x); if (lo >= b) return; n = std::min(n, b - lo);
    if (lo == 0 && n == b) { add(o, lin(x), c); return; }
    addTerm(o, x, lo, n, c);
  }
  void merge(LF &o) {
    for (bool again = true; again;) { again = false;
      std::map<uint32_t, std::vector<std::tuple<unsigned, unsigned, uint64_t, E>>> g; for (auto &p : o.t) if (std::get<1>(p.first) < 200) g[std::get<0>(p.first)].push_back({std::get<1>(p.first), std::get<2>(p.first), p.second.second, p.second.first});
      for (auto &q : g) { auto &v = q.second; if (v.size() < 2) continue; unsigned at = 0; uint64_t c0 = std::get<2>(v[0]); bool ok = true; for (auto &t : v) { if (std::get<0>(t) != at || std::get<2>(t) != mm(c0, p2(at))) { ok = false; break; } at += std::get<1>(t); }
        E x = std::get<3>(v[0]); if (!ok || at != abits(x)) continue; for (auto &t : v) o.t.erase(std::make_tuple(q.first, std::get<0>(t), std::get<1>(t))); add(o, lin(x), c0); again = true; break; } }
  }
  void bit(LF &o, E c, uint64_t k0) { // k0 * [c]
    if (c.isConst()) { if (c.c) addC(o, k0); return; }
    if (c.n->op == O_XOR && c.n->kids[1].isC()) { addC(o, k0); bit(o, c.n->kids[0], k0 ? M - k0 : 0); return; }
    if (c.n->op == O_ULT && !c.n->kids[0].isConst()) { E r = stripE(c.n->kids[0]), a = stripE(c.n->kids[1]); if (!r.isConst() && r.n->op == O_ADD && r.w == c.n->kids[0].w && (stripE(r.n->kids[0]) == a || stripE(r.n->kids[1]) == a)) { addTerm(o, r, 255, 1, k0); return; } }
    addTerm(o, c, 0, 1, k0);
  }
  const LF &lin(const E &e) {
    static LF cst; if (e.isConst()) { cst = LF(); slice(cst, e, 0, e.w, 1); return cst; }
    auto it = memo.find(e.n); if (it != memo.end()) return it->second;
    LF o; if (++depth > 3000) { addTerm(o, e, 0, abits(e), 1); } else comp(e, o); --depth; 
    return memo[e.n] = o;
  }
  static bool same(const LF &a, const LF &b) { if (a.c != b.c || a.t.size() != b.t.size()) return false; for (auto i = a.t.begin(), j = b.t.begin(); i != a.t.end(); ++i, ++j) if (i->first != j->first || i->second.second != j->second.second) return false; return true; }
  LF under(const E &x, const E &c, bool pol) {
    if (!x.isConst() && x.n->op == O_ADD && x.n->kids[1].isC() && x.w <= 64) { uint64_t neg = (0 - x.n->kids[1].c) & maskw(x.w), l, h; if (neg && condRange(c, pol, x.n->kids[0], l, h) && l >= neg) { LF o = lin(x.n->kids[0]); addC(o, M - neg % M); return o; } }
    if (!x.isConst()) { E s = stripE(x); if (s != x) return under(s, c, pol); }
    return lin(x);
  }
  void comp(const E &e, LF &o) {
    const Node *n = e.n; auto atom = [&]() { unsigned b = abits(e); if (b) addTerm(o, e, 0, b, 1); };
    if (e.w == 1) { bit(o, e, 1); return; }
    if (e.w > 128 || e.k != K_BV) { atom(); return; }
    if (lowOf.count(n)) { slice(o, asE(lowOf[n]), 0, e.w, 1); return; }
    if (sliceOf.count(n)) { slice(o, asE(sliceOf[n].first), sliceOf[n].second, e.w, 1); return; }
    auto K = [&](int i) { return n->kids[i]; };
    switch (n->op) {
    case O_ZEXT: add(o, LF(lin(K(0))), 1); return;
    case O_EXTRACT: { E x = K(0); unsigned b = abits(x); if (n->p0 == 0 && b <= n->w) { add(o, LF(lin(x)), 1); return; } slice(o, x, n->p0, n->w, 1); return; }
    case O_CONCAT: slice(o, K(1), 0, K(1).w, 1); slice(o, K(0), 0, K(0).w, p2(K(1).w)); merge(o); return;
    case O_ADD: { add(o, LF(lin(K(0))), 1); add(o, LF(lin(K(1))), 1); bool no = e.w <= 64 && (unsigned __int128)eUMax(K(0)) + eUMax(K(1)) <= maskw(e.w); if (e.w > 64) no = std::max(abits(K(0)), abits(K(1))) < e.w; if (!no) { uint64_t c = p2(e.w); addTerm(o, e, 255, 1, c ? M - c : 0); } merge(o); return; }
    case O_SUB: if (e.w <= 64 && eUMin(K(0)) >= eUMax(K(1))) { add(o, LF(lin(K(0))), 1); add(o, LF(lin(K(1))), M - 1); merge(o); return; } atom(); return;
    case O_MUL: { bool c1 = K(1).isC(); if (c1 && abits(K(0)) + abits(K(1)) <= e.w) { add(o, LF(lin(K(0))), K(1).c % M); return; } atom(); return; }
    case O_SHL: if (K(1).isC() && K(1).c < e.w) { unsigned s = K(1).c; slice(o, K(0), 0, e.w - s, p2(s)); merge(o); return; } atom(); return;
    case O_LSHR: if (K(1).isC()) { if (K(1).c >= e.w) return; slice(o, K(0), K(1).c, e.w - K(1).c, 1); return; } atom(); return;
    case O_AND: if (K(1).isC() && K(1).c) { uint64_t m = K(1).c; unsigned lo = __builtin_ctzll(m), hi = 64 - __builtin_clzll(m); if (m >> lo == maskw(hi - lo)) { slice(o, K(0), lo, hi - lo, p2(lo)); return; } } atom(); return;
    case O_OR: case O_XOR: if (e.w <= 64 && (~eKZ(K(0)) & ~eKZ(K(1)) & maskw(e.w)) == 0) { add(o, LF(lin(K(0))), 1); add(o, LF(lin(K(1))), 1); merge(o); return; } atom(); return;
    case O_ITE: { E c = K(0); LF a = under(K(1), c, true), b = under(K(2), c, false);
        if (same(a, b)) { o = a; return; }
        E q = c; bool neg = false; while (!q.isConst() && q.n->op == O_XOR && q.n->kids[1].isC()) { q = q.n->kids[0]; neg = !neg; }
        if (!q.isConst() && q.n->op == O_EQ) { E x = q.n->kids[0], y = q.n->kids[1]; if (x.isC()) std::swap(x, y); if (y.isC() && !x.isConst() && x.w <= 64) { const LF &t = neg ? b : a, &f = neg ? a : b; if (t.t.empty() && t.c == y.c % M && same(f, LF(lin(x)))) { o = f; return; } } }
        LF d = a; add(d, b, M - 1); if (d.t.empty()) { o = b; bit(o, c, d.c); return; }
        atom(); return; }
    default: atom(); return;
    }
  }
};
void dbgEq(const E &a, const E &b); void dumpE(const E &e, int d);
static bool congEqual(const E &a, const E &b) {
  if (a.w > 30) dbgEq(a, b);
  static Cong c61{61, (1ull << 61) - 1}, c31{31, (1ull << 31) - 1};
  uint64_t x = eUMax(a), y = eUMax(b), m = std::max(x, y); Cong *c = m == c61.M - 1 ? &c61 : m == c31.M - 1 ? &c31 : nullptr; if (!c) return false;
  LF p = c->lin(a), q = c->lin(b); if (getenv("DBGEQ")) { for (auto *l : {&p, &q}) { fprintf(stderr, " LF c=%llx", (unsigned long long)l->c); for (auto &t : l->t) { fprintf(stderr, " [%u,%u,%u]*%llx", std::get<0>(t.first), std::get<1>(t.first), std::get<2>(t.first), (unsigned long long)t.second.second); } fprintf(stderr, "\n"); for (auto &t : l->t) { dumpE(t.second.first, 4); fprintf(stderr, "\n"); } } } return Cong::same(p, q);
}
// a == x * m + r without wrapping
static bool mulPlus(const E &a, uint64_t m, E &x, uint64_t &r) {
  E p = a; r = 0; if (isOp(a, O_ADD) && a.n->kids[1].isC()) { p = a.n->kids[0]; r = a.n->kids[1].c; }
  if (!isOp(p, O_MUL) || !p.n->kids[1].isC() || p.n->kids[1].c != m) return false; x = p.n->kids[0];
  return (unsigned __int128)eUMax(x) * m + r <= maskw(a.w);
}
// signed interval of a bit-vector of at most 64 bits
static bool sRange(const E &e, int64_t &lo, int64_t &hi) {
  unsigned w = e.w; auto sx = [&](uint64_t v) { return w == 64 ? (int64_t)v : (int64_t)(v << (64 - w)) >> (64 - w); };
  if (e.isC()) { lo = hi = sx(e.c); return true; }
  uint64_t l = eUMin(e), h = eUMax(e), sb = 1ull << (w - 1); if (h < sb || l >= sb) { lo = sx(l); hi = sx(h); return true; }
  if (isOp(e, O_F2SI)) { FInfo f = eF(e.n->kids[0]); double a = std::trunc(f.lo), b = std::trunc(f.hi), top = std::ldexp(1.0, w - 1); if (!f.nan && a >= -top && b < top) { lo = (int64_t)a; hi = (int64_t)b; return true; } }
  return false;
}
E mk(Op op, E a, E b) {
  bool cmp = op == O_EQ || op == O_ULT || op == O_ULE || op == O_SLT || op == O_SLE || op == O_FLT || op == O_FLE || op == O_FEQ;
  bool fp = op >= O_FADD && op <= O_FREM;
  if (a.w != b.w || a.k != b.k) { fprintf(stderr, "rsym: width mismatch op %d: %d vs %d\n", op, a.w, b.w); abort(); }
  E out;
  unsigned w = cmp ? 1 : a.w; Kind k = fp ? K_FP : K_BV;
  if (a.isC() && b.isC() && a.k == K_BV && fastFold(op, a, b, out)) return out;
  if (foldOp(op, {a, b}, w, k, 0, out)) return out;
  if (op == O_FDIV && b.isC()) { llvm::APFloat inv(0.0), d(semOf(w), llvm::APInt(w, b.c)); if (d.getExactInverse(&inv)) return mk(O_FMUL, a, mkFPC(inv.bitcastToAPInt().getZExtValue(), w)); } // the same real number, rounded once
  if (commut(op) && lessE(b, a)) std::swap(a, b);
  if ((op == O_XOR || op == O_OR || op == O_AND) && w > 1 && isOp(a, O_ZEXT)) {
    if (isOp(b, O_ZEXT) && a.n->kids[0].w == b.n->kids[0].w) return mkZExt(mk(op, a.n->kids[0], b.n->kids[0]), w);
    if (op == O_XOR && b.isC() && (b.c >> a.n->kids[0].w) == 0) return mkZExt(mk(op, a.n->kids[0], mkC(b.c, a.n->kids[0].w)), w); }
  if (a.k == K_BV) switch (op) {
  case O_ADD:
    if (cz(b)) return a;
    if (w > 1 && w <= 64 && (~eKZ(a) & ~eKZ(b) & maskw(w)) == 0) return mk(O_OR, a, b); // no carries
    if (b.isConst() && isOp(a, O_ADD) && a.n->kids[1].isConst()) return mk(O_ADD, a.n->kids[0], mk(O_ADD, a.n->kids[1], b));
    if (isOp(a, O_ADD) && a.n->kids[1].isConst()) return mk(O_ADD, mk(O_ADD, a.n->kids[0], b), a.n->kids[1]);
    if (isOp(b, O_ADD) && b.n->kids[1].isConst()) return mk(O_ADD, mk(O_ADD, a, b.n->kids[0]), b.n->kids[1]);
    if (isOp(b, O_SUB) && b.n->kids[1] == a) return b.n->kids[0];
    if (isOp(a, O_SUB) && a.n->kids[1] == b) return a.n->kids[0];
    if (b.isConst() && isOp(a, O_ITE) && a.n->kids[1].isConst() && a.n->kids[2].isConst())
      return mkIte(a.n->kids[0], mk(O_ADD, a.n->kids[1], b), mk(O_ADD, a.n->kids[2], b));
    break;
  case O_SUB:
    if (cz(b)) return a; if (a == b) return mkC(0, w);
    if (b.isConst()) return mk(O_ADD, a, mkBig(-constVal(b)));
    if (isOp(a, O_ADD)) { if (a.n->kids[0] == b) return a.n->kids[1]; if (a.n->kids[1] == b) return a.n->kids[0]; }
    if (isOp(a, O_ADD) && a.n->kids[1].isConst()) return mk(O_ADD, mk(O_SUB, a.n->kids[0], b), a.n->kids[1]);
    if (isOp(b, O_ADD) && b.n->kids[1].isConst()) return mk(O_ADD, mk(O_SUB, a, b.n->kids[0]), mkBig(-constVal(b.n->kids[1])));
    if (cz(a) && w > 1 && w <= 64 && eUMax(b) == 1) return mkIte(mkExtract(b, 0, 1), mkC(maskw(w), w), a);
    break;
  case O_MUL:
    if (cz(b)) return b;
    if (b.isConst()) { APInt v = constVal(b); if (v.isOne()) return a; if (v.isPowerOf2()) return mk(O_SHL, a, mkC(v.logBase2(), w));
      if (isOp(a, O_MUL) && a.n->kids[1].isConst()) return mk(O_MUL, a.n->kids[0], mk(O_MUL, a.n->kids[1], b));
      if (w > 1 && w <= 64 && eUMax(a) == 1) return mkIte(mkExtract(a, 0, 1), b, mkC(0, w)); }
    break;
  case O_UDIV:
    if (b.isC() && b.c > 1 && w <= 64) { E x; uint64_t r; if (mulPlus(a, b.c, x, r)) return r < b.c ? x : mk(O_ADD, x, mkC(r / b.c, w)); }
    { unsigned k = std::max(abits(a), abits(b)); if (k < 2) k = 2; if (k < w) return mkZExt(mk(op, mkExtract(a, 0, k), mkExtract(b, 0, k)), w); }
    if (b.isConst()) { APInt v = constVal(b); if (v.isOne()) return a; if (v.isPowerOf2()) return mk(O_LSHR, a, mkC(v.logBase2(), w)); }
    if (w <= 64 && eUMax(a) < eUMin(b)) return mkC(0, w);
    break;
  case O_UREM:
    if (b.isC() && b.c > 1 && w <= 64) { E x; uint64_t r; if (mulPlus(a, b.c, x, r)) return mkC(r % b.c, w); }
    { unsigned k = std::max(abits(a), abits(b)); if (k < 2) k = 2; if (k < w && !cz(b)) return mkZExt(mk(op, mkExtract(a, 0, k), mkExtract(b, 0, k)), w); }
    if (b.isConst()) { APInt v = constVal(b); if (v.isPowerOf2()) return mk(O_AND, a, mkBig(v - 1)); }
    if (w <= 64 && eUMax(a) < eUMin(b)) return a;
    // (x*y + z) mod m with z < m: reduce the product first
    if (w < 64 && b.isC() && isOp(a, O_ADD)) for (int i = 0; i < 2; ++i) { E p = a.n->kids[i], z = a.n->kids[1 - i];
      if (isOp(p, O_ZEXT) ? !isOp(p.n->kids[0], O_MUL) : !isOp(p, O_MUL)) continue;
      uint64_t pm = eUMax(p), zm = eUMax(z); if (zm >= b.c || pm > maskw(w) - zm || eUMax(a) < pm) continue;
      E t = mk(O_UREM, p, b), d = mk(O_SUB, b, z);
      return mkIte(mk(O_ULT, t, d), mk(O_ADD, t, z), mk(O_SUB, t, d)); }
    break;
  case O_AND:
    if (cz(b)) return b; if (cones(b)) return a; if (a == b) return a;
    if (isNotOf(a, b) || isNotOf(b, a)) return mkC(0, w);
    if (b.isConst() && isOp(a, O_AND) && a.n->kids[1].isConst()) return mk(O_AND, a.n->kids[0], mk(O_AND, a.n->kids[1], b));
    if (b.isC() && (~eKZ(a) & ~b.c & maskw(w)) == 0) return a; // mask keeps every possibly-set bit
    if (w <= 64 && b.isC()) { // drop mask bits known zero
      uint64_t nb = b.c & ~eKZ(a); if (nb == 0) return mkC(0, w);
      if (((b.c + 1) & b.c) == 0) { unsigned bits = 64 - __builtin_clzll(b.c); if (bits < w) return mkZExt(mkExtract(a, 0, bits), w); } 
    }
    if (b.isConst() && isOp(a, O_ITE) && (a.n->kids[1].isConst() || a.n->kids[2].isConst())) return mkIte(a.n->kids[0], mk(O_AND, a.n->kids[1], b), mk(O_AND, a.n->kids[2], b));
    if (w == 1) { // absorb  x & (x & y), x & (x | y)
      if (isOp(b, O_AND) && (b.n->kids[0] == a || b.n->kids[1] == a)) return b;
      if (isOp(a, O_AND) && (a.n->kids[0] == b || a.n->kids[1] == b)) return a;
      if (isOp(b, O_OR) && (b.n->kids[0] == a || b.n->kids[1] == a)) return a;
      if (isOp(a, O_OR) && (a.n->kids[0] == b || a.n->kids[1] == b)) return b; }
    if (w <= 64 && (~eKZ(a) & ~eKZ(b) & maskw(w)) == 0) return mkC(0, w);
    break;
  case O_OR:
    if (cz(b)) return a; if (cones(b)) return b; if (a == b) return a;
    if (isNotOf(a, b) || isNotOf(b, a)) return mkC(maskw(w), w);
    if (w == 1) {
      if (isOp(b, O_OR) && (b.n->kids[0] == a || b.n->kids[1] == a)) return b;
      if (isOp(a, O_OR) && (a.n->kids[0] == b || a.n->kids[1] == b)) return a;
      if (isOp(b, O_AND) && (b.n->kids[0] == a || b.n->kids[1] == a)) return a;
      if (isOp(a, O_AND) && (a.n->kids[0] == b || a.n->kids[1] == b)) return b;
      // (x & c) | (x & !c) -> x
      if (isOp(a, O_AND) && isOp(b, O_AND)) for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++)
        if (a.n->kids[i] == b.n->kids[j] && (isNotOf(a.n->kids[1-i], b.n->kids[1-j]) || isNotOf(b.n->kids[1-j], a.n->kids[1-i]))) return a.n->kids[i];
      for (int s = 0; s < 2; s++) { E x = s ? b : a, y = s ? a : b; if (isOp(x, O_AND)) for (int i = 0; i < 2; i++)
        if (isNotOf(x.n->kids[i], y) || isNotOf(y, x.n->kids[i])) return mkOr(x.n->kids[1-i], y); } }
    // disjoint halves -> concat
    if (w <= 64 && w > 1) for (int s = 0; s < 2; s++) { E hi = s ? b : a, lo = s ? a : b;
      uint64_t lp = ~eKZ(lo) & maskw(w); unsigned bits = lp ? 64 - __builtin_clzll(lp) : 0;
      if (bits && bits < w && ((~eKZ(hi)) & maskw(bits)) == 0) return mkConcat(mkExtract(hi, bits, w - bits), mkExtract(lo, 0, bits)); }
    break;
  case O_XOR:
    if (cz(b)) return a; if (a == b) return mkC(0, w);
    if (b.isConst() && isOp(a, O_XOR) && a.n->kids[1].isConst()) return mk(O_XOR, a.n->kids[0], mk(O_XOR, a.n->kids[1], b));
    if (isOp(a, O_XOR)) { if (a.n->kids[0] == b) return a.n->kids[1]; if (a.n->kids[1] == b) return a.n->kids[0]; }
    if (isOp(b, O_XOR)) { if (b.n->kids[0] == a) return b.n->kids[1]; if (b.n->kids[1] == a) return b.n->kids[0]; }
    if (w > 1 && (isOp(a, O_XOR) || isOp(b, O_XOR))) { // flatten, sort, cancel
      std::vector<E> lv; bool ok = true;
      std::vector<E> st{a, b};
      while (!st.empty()) { E e = st.back(); st.pop_back();
        if (isOp(e, O_XOR)) { st.push_back(e.n->kids[0]); st.push_back(e.n->kids[1]); } else lv.push_back(e);
        if (lv.size() + st.size() > 24) { ok = false; break; } }
      if (ok) {
        APInt cst(w, 0); std::vector<E> sy; for (auto &e : lv) if (e.isConst()) cst ^= constVal(e); else sy.push_back(e);
        std::sort(sy.begin(), sy.end(), [](const E &x, const E &y) { return x.n->id < y.n->id; });
        std::vector<E> out2; for (auto &e : sy) if (!out2.empty() && out2.back() == e) out2.pop_back(); else out2.push_back(e);
        if (out2.empty()) return mkBig(cst);
        E r = out2[0]; for (size_t i = 1; i < out2.size(); i++) r = raw(O_XOR, {r, out2[i]}, w);
        if (!cst.isZero()) r = raw(O_XOR, {r, mkBig(cst)}, w);
        return r; } }
    if (w == 1 && b.isC() && b.c == 1) { // not
      if (isOp(a, O_ULT)) return mk(O_ULE, a.n->kids[1], a.n->kids[0]); if (isOp(a, O_ULE)) return mk(O_ULT, a.n->kids[1], a.n->kids[0]);
      if (isOp(a, O_SLT)) return mk(O_SLE, a.n->kids[1], a.n->kids[0]); if (isOp(a, O_SLE)) return mk(O_SLT, a.n->kids[1], a.n->kids[0]); }
    break;
  case O_SHL: if (cz(b)) return a; if (cz(a)) return a; if (b.isC() && b.c >= w) return mkC(0, w);
    if (b.isC() && isOp(a, O_SHL) && a.n->kids[1].isC()) { uint64_t s = b.c + a.n->kids[1].c; return s >= w ? mkC(0, w) : mk(O_SHL, a.n->kids[0], mkC(s, w)); }
    if (b.isC()) return mkConcat(mkExtract(a, 0, w - b.c), mkC(0, b.c));
    break;
  case O_LSHR: if (cz(b)) return a; if (cz(a)) return a; if (b.isC() && b.c >= w) return mkC(0, w);
    if (b.isC()) return mkZExt(mkExtract(a, b.c, w - b.c), w);
    break;
  case O_ASHR: if (cz(b)) return a; if (cz(a)) return a;
    if (b.isC() && b.c < w) return mkSExt(mkExtract(a, b.c, w - b.c), w);
    break;
  case O_EQ:
    if (a == b) return T();
    if (w == 1 && a.w == 1) { if (b.isC()) return b.c ? a : mkNot(a); }
    if (a.w <= 64 && a.w > 1) { if (eUMax(a) < eUMin(b) || eUMax(b) < eUMin(a)) return F(); if (b.isC() && (b.c & eKZ(a) & maskw(a.w))) return F(); }
    if (b.isConst()) {
      if (isOp(a, O_ITE)) { E x = a.n->kids[1], y = a.n->kids[2]; if (x.isConst() || y.isConst()) return mkIte(a.n->kids[0], mkEq(x, b), mkEq(y, b)); }
      if (isOp(a, O_ADD) && a.n->kids[1].isConst()) return mkEq(a.n->kids[0], mk(O_SUB, b, a.n->kids[1]));
      if (isOp(a, O_XOR) && a.n->kids[1].isConst()) return mkEq(a.n->kids[0], mk(O_XOR, b, a.n->kids[1]));
      if (isOp(a, O_ZEXT)) { unsigned iw = a.n->kids[0].w; APInt v = constVal(b); if (v.getActiveBits() > iw) return F(); return mkEq(a.n->kids[0], mkBig(v.trunc(iw))); }
      if (isOp(a, O_SEXT)) { unsigned iw = a.n->kids[0].w; APInt v = constVal(b); if (!v.isSignedIntN(iw)) return F(); return mkEq(a.n->kids[0], mkBig(v.trunc(iw))); }
      if (a.w <= 128 && hasXor(a)) { LinP x = linOf(a); APInt m = constVal(b); for (unsigned i = 0; i < a.w; ++i) if (x->b[i].empty() && (bool)x->c[i] != m[i]) return F(); }
      if (isOp(a, O_CONCAT)) return mkAnd(mkEq(a.n->kids[0], mkExtract(b, a.n->kids[1].w, a.n->kids[0].w)), mkEq(a.n->kids[1], mkExtract(b, 0, a.n->kids[1].w)));
    } else {
      if (isOp(a, O_ZEXT) && isOp(b, O_ZEXT) && a.n->kids[0].w == b.n->kids[0].w) return mkEq(a.n->kids[0], b.n->kids[0]);
      if (isOp(a, O_CONCAT) && isOp(b, O_CONCAT) && a.n->kids[1].w == b.n->kids[1].w)
        return mkAnd(mkEq(a.n->kids[0], b.n->kids[0]), mkEq(a.n->kids[1], b.n->kids[1]));
      if (isOp(a, O_ITE) && isOp(b, O_ITE) && a.n->kids[0] == b.n->kids[0]) return mkIte(a.n->kids[0], mkEq(a.n->kids[1], b.n->kids[1]), mkEq(a.n->kids[2], b.n->kids[2]));
      if (isOp(a, O_XOR) && isOp(b, O_XOR)) for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) if (a.n->kids[i] == b.n->kids[j]) return mkEq(a.n->kids[1-i], b.n->kids[1-j]);
      if (isOp(a, O_ADD) && isOp(b, O_ADD)) for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) if (a.n->kids[i] == b.n->kids[j]) return mkEq(a.n->kids[1-i], b.n->kids[1-j]);
      if (linEqual(a, b)) return T();
      if (congEqual(a, b)) return T();
    }
    break;
  case O_ULT:
    if (w == 1 && isOp(a, O_ADD) && a.w <= 64 && (a.n->kids[0] == b || a.n->kids[1] == b) && (unsigned __int128)eUMax(a.n->kids[0]) + eUMax(a.n->kids[1]) <= maskw(a.w)) return F();
   
    if (a == b) return F(); if (cz(b)) return F();
    if (a.w <= 64) { if (eUMax(a) < eUMin(b)) return T(); if (eUMin(a) >= eUMax(b)) return F(); }
    if (isOp(a, O_ZEXT) && isOp(b, O_ZEXT) && a.n->kids[0].w == b.n->kids[0].w) return mk(O_ULT, a.n->kids[0], b.n->kids[0]);
    if (w == 1 && a.w <= 64 && a.isC() != b.isC()) { bool cr = b.isC(); const E &x = cr ? a : b; uint64_t c = cr ? b.c : a.c; // bits of an XOR network that are known to be one
      if (hasXor(x)) { LinP l = linOf(x); uint64_t one = 0; for (unsigned i = 0; i < x.w; ++i) if (l->b[i].empty() && l->c[i]) one |= 1ull << i; if (cr ? one >= c : one > c) return cr ? F() : T(); } }
    if (isOp(a, O_ZEXT) && b.isC()) return mk(O_ULT, a.n->kids[0], mkC(b.c, a.n->kids[0].w)); // in range by interval check above
    if (isOp(b, O_ZEXT) && a.isC()) return mk(O_ULT, mkC(a.c, b.n->kids[0].w), b.n->kids[0]);
    if (b.isC() && isOp(a, O_ITE) && a.n->kids[1].isConst() && a.n->kids[2].isConst()) return mkIte(a.n->kids[0], mk(O_ULT, a.n->kids[1], b), mk(O_ULT, a.n->kids[2], b));
    break;
  case O_ULE:
    if (a == b) return T(); if (cz(a)) return T();
    if (a.w <= 64) { if (eUMax(a) <= eUMin(b)) return T(); if (eUMin(a) > eUMax(b)) return F(); }
    if (isOp(a, O_ZEXT) && isOp(b, O_ZEXT) && a.n->kids[0].w == b.n->kids[0].w) return mk(O_ULE, a.n->kids[0], b.n->kids[0]);
    if (b.isC() && b.c != maskw(a.w)) return mk(O_ULT, a, mkC(b.c + 1, a.w));
    break;
  case O_SLT: if (a == b) return F();
    if (a.w <= 64) { uint64_t sb = 1ull << (a.w - 1); if (eUMax(a) < sb && eUMax(b) < sb) return mk(O_ULT, a, b); int64_t al, ah, bl, bh; if (sRange(a, al, ah) && sRange(b, bl, bh)) { if (ah < bl) return T(); if (al >= bh) return F(); } } break;
  case O_SLE: if (a == b) return T();
    if (a.w <= 64) { uint64_t sb = 1ull << (a.w - 1); if (eUMax(a) < sb && eUMax(b) < sb) return mk(O_ULE, a, b); int64_t al, ah, bl, bh; if (sRange(a, al, ah) && sRange(b, bl, bh)) { if (ah <= bl) return T(); if (al > bh) return F(); } } break;
  case O_SDIV: if (a.w <= 64) { uint64_t sb = 1ull << (a.w - 1); if (eUMax(a) < sb && eUMax(b) < sb && eUMin(b) > 0) return mk(O_UDIV, a, b); } break;
  case O_SREM: if (a.w <= 64) { uint64_t sb = 1ull << (a.w - 1); if (eUMax(a) < sb && eUMax(b) < sb && eUMin(b) > 0) return mk(O_UREM, a, b); } break;
  default: break;
  }
  if (a.k == K_FP && a.w <= 64 && (op == O_FLT || op == O_FLE || op == O_FEQ)) {
    FInfo x = eF(a), y = eF(b); bool nn = !x.nan && !y.nan;
    if (isOp(a, O_FP2FP) && isOp(b, O_FP2FP) && a.n->kids[0].w == b.n->kids[0].w && a.n->kids[0].w < a.w) return mk(op, a.n->kids[0], b.n->kids[0]);
    if (op == O_FLT) { if (a == b || x.lo >= y.hi) return F(); if (nn && x.hi < y.lo) return T(); }
    if (op == O_FLE) { if (x.lo > y.hi) return F(); if (nn && (a == b || x.hi <= y.lo)) return T(); }
    if (op == O_FEQ) { if (x.lo > y.hi || y.lo > x.hi) return F(); if (nn && a == b) return T(); }
    if (exCmp(op, a, b, out)) return out;
    // comparison of a choice between constants
    if (b.isConst() && isOp(a, O_ITE) && (a.n->kids[1].isConst() || a.n->kids[2].isConst())) return mkIte(a.n->kids[0], mk(op, a.n->kids[1], b), mk(op, a.n->kids[2], b));
    if (a.isConst() && isOp(b, O_ITE) && (b.n->kids[1].isConst() || b.n->kids[2].isConst())) return mkIte(b.n->kids[0], mk(op, a, b.n->kids[1]), mk(op, a, b.n->kids[2]));
  }
  if (op == O_EQ && a == b) return T();
  // remainder by a power of two >= 1 of a non-negative finite value: every step below is exact (the sign of a zero result aside)
  if (op == O_FREM && b.isC() && a.w <= 64) { Ex d = exOf(a), q = exOf(b); int e; unsigned w; i128 al, ah, bl, bh; // exact dyadic operands: an integer remainder
    if (d.ok && d.lo >= 0 && q.ok && q.lo > 0 && q.lo == q.hi && alignEx(d, q, e, w, al, ah, bl, bh) && ah < ((i128)1 << 62) && bl <= ((i128)1 << precOf(a.w)) && std::abs(e) <= expLim(a.w) && !((bl & (bl - 1)) == 0)) {
      E v = mkExtract(mkSExt(exAt(d, e, 64), 64), 0, 64), r = mk(O_UREM, v, mkC((uint64_t)bl, 64)); APFloat sc(std::ldexp(1.0, e)); bool li; sc.convert(semOf(a.w), APFloat::rmNearestTiesToEven, &li); return mk(O_FMUL, mkF(O_UI2F, {r}, a.w, K_FP), fromAPF(sc, a.w)); } }
  if (op == O_FREM && b.isC() && a.w <= 64) { double c = u2d(b.c, b.w); int ce; FInfo x = eF(a);
    if (c >= 1 && std::isfinite(c) && std::frexp(c, &ce) == 0.5 && !x.nan && x.lo >= 0 && x.hi < INFINITY) { if (x.hi < c) return a; ce--;
      Ex d = exOf(a); if (d.ok && d.lo >= 0 && ce >= d.e && ce - d.e < 63 && d.hi <= ((i128)1 << precOf(a.w)) && std::abs(d.e) <= expLim(a.w)) { unsigned nb = ce - d.e; E r = d.v.w > nb ? mkExtract(d.v, 0, std::max(nb, 1u)) : d.v; if (!nb) return mkFPC(0, a.w); r = mkZExt(r, 64);
        APFloat sc(std::ldexp(1.0, d.e)); bool li; sc.convert(semOf(a.w), APFloat::rmNearestTiesToEven, &li); return mk(O_FMUL, mkF(O_UI2F, {r}, a.w, K_FP), fromAPF(sc, a.w)); }
      APFloat iv(1 / c); bool li; iv.convert(semOf(b.w), APFloat::rmNearestTiesToEven, &li); E inv = fromAPF(iv, b.w); E t = mkF(O_FRINT, {mk(O_FMUL, a, inv)}, a.w, K_FP, (uint32_t)(int)llvm::RoundingMode::TowardZero); return mk(O_FSUB, a, mk(O_FMUL, t, b)); } }
  if (op == O_FSUB && b.isC() && b.c == 0) return a; // x - (+0)
  if (op == O_FSUB && a == b && a.w <= 64) { FInfo x = eF(a); if (!x.nan && x.lo > -INFINITY && x.hi < INFINITY) return mkFPC(0, a.w); }
  // push op with constant into ite with constant leaves
  if (a.k == K_BV && b.isConst() && isOp(a, O_ITE) && a.n->kids[1].isConst() && a.n->kids[2].isConst() && op != O_UDIV && op != O_SDIV && op != O_UREM && op != O_SREM)
    return mkIte(a.n->kids[0], mk(op, a.n->kids[1], b), mk(op, a.n->kids[2], b));
  return raw(op, {a, b}, w, k);
}

// ---- evaluation ---------------------------------------------------------------------------------
E Evaluator::eval(const E &root) {
  if (root.isConst()) return root;
  std::vector<std::pair<E, bool>> st; st.push_back({root, false});
  auto val = [&](const E &e) -> E { if (e.isConst()) return e; return memo[e.n]; };
  while (!st.empty()) {
    auto [e, done] = st.back(); st.pop_back();
    if (e.isConst() || memo.count(e.n)) continue;
    const Node *n = e.n;
    if (!done) {
      if (n->op == O_VAR) {
        auto it = m.v.find(n->name);
        APInt v = it == m.v.end() ? APInt(n->w, n->k == K_BV && n->w <= 64 ? n->umin : 0) : it->second;
        memo[n] = n->k == K_FP ? mkFPC(v.getZExtValue(), n->w) : mkBig(v);
        continue;
      }
      st.push_back({e, true});
      for (auto &k : n->kids) if (!k.isConst() && !memo.count(k.n)) st.push_back({k, false});
      continue;
    }
    std::vector<E> ks; for (auto &k : n->kids) ks.push_back(val(k));
    E out;
    if (n->op == O_UF) { if (!hostUF(ufName(n->p0), ks, n->w, out)) { incomplete = true; out = mkFPC(0, n->w); } }
    else if (n->op == O_TUPLE) out = mkTuple(ks);
    else if (!foldOp(n->op, ks, n->w, n->k, n->p0, out)) { incomplete = true; out = n->k == K_FP ? mkFPC(0, n->w) : mkC(0, n->w); }
    memo[n] = out;
  }
  return val(root);
}
void dumpE(const E &e, int d) { if (d > 7) { fprintf(stderr, "..."); return; } if (e.isConst()) { if (e.isC()) fprintf(stderr, "%llx:%d", (unsigned long long)e.c, e.w); else fprintf(stderr, "big"); return; } static const char *nm[] = {"const","var","tuple","add","sub","mul","udiv","sdiv","urem","srem","and","or","xor","shl","lshr","ashr","ext","cat","zext","sext","ite","eq","ult","ule","slt","sle"}; if (e.n->op == O_VAR) { fprintf(stderr, "%s", e.n->name.c_str()); return; } fprintf(stderr, "%s:%d#%d", e.n->op < 26 ? nm[e.n->op] : "f", e.w, e.n->id); if (e.n->op == O_EXTRACT) fprintf(stderr, "@%d", e.n->p0); fprintf(stderr, "("); for (auto &k : e.n->kids) { dumpE(k, d + 1); fprintf(stderr, ","); } fprintf(stderr, ")"); }
void dbgEq(const E &a, const E &b) { if (!getenv("DBGEQ")) return; fprintf(stderr, "EQ max %llx %llx\n A=", (unsigned long long)eUMax(a), (unsigned long long)eUMax(b)); dumpE(a, 0); fprintf(stderr, "\n B="); dumpE(b, 0); fprintf(stderr, "\n"); }
// ---- substitution of equalities, and GF(2) elimination over a conjunction --------------------------
static E rebuildNode(const Node *n, std::unordered_map<const Node *, E> &map) {
  std::vector<E> k; bool ch = false; for (auto &x : n->kids) { E y = x; if (x.n && x.n->op != O_CONST) { y = map.at(x.n); if (y != x) ch = true; } k.push_back(y); }
  E self; self.n = n; self.w = n->w; self.k = n->k; if (!ch) return self;
  switch (n->op) {
  case O_EXTRACT: return mkExtract(k[0], n->p0, n->w);
  case O_CONCAT: return mkConcat(k[0], k[1]);
  case O_ZEXT: return mkZExt(k[0], n->w);
  case O_SEXT: return mkSExt(k[0], n->w);
  case O_ITE: return mkIte(k[0], k[1], k[2]);
  case O_EQ: return mkEq(k[0], k[1]);
  case O_ADD: case O_SUB: case O_MUL: case O_UDIV: case O_SDIV: case O_UREM: case O_SREM: case O_AND: case O_OR: case O_XOR: case O_SHL: case O_LSHR: case O_ASHR:
  case O_ULT: case O_ULE: case O_SLT: case O_SLE: return mk(n->op, k[0], k[1]);
  case O_UF: { E r; return mkUF(ufName(n->p0), k, n->w); }
  case O_FNEG: case O_FABS: case O_FSQRT: case O_FISNAN: case O_FISINF: case O_BV2FP: case O_FP2BV: return mk(n->op, k[0]);
  case O_FADD: case O_FSUB: case O_FMUL: case O_FDIV: case O_FREM: case O_FLT: case O_FLE: case O_FEQ: return mk(n->op, k[0], k[1]);
  default: return mkF(n->op, k, n->w, n->k, n->p0);
  }
}
static void rebuild(const E &e, std::unordered_map<const Node *, E> &map) {
  if (e.isConst()) return; std::vector<std::pair<const Node *, bool>> st{{e.n, false}};
  while (!st.empty()) { auto [n, dn] = st.back(); st.pop_back(); if (map.count(n)) continue;
    if (!dn) { st.push_back({n, true}); for (auto &k : n->kids) if (k.n && k.n->op != O_CONST && !map.count(k.n)) st.push_back({k.n, false}); continue; }
    if (n->kids.empty()) { E s; s.n = n; s.w = n->w; s.k = n->k; map[n] = s; } else map[n] = rebuildNode(n, map); }
}
static bool occurs(const Node *v, const E &e) { if (e.isConst()) return false; std::set<const Node *> seen; std::vector<const Node *> st{e.n}; while (!st.empty()) { auto *n = st.back(); st.pop_back(); if (n == v) return true; if (!seen.insert(n).second) continue; for (auto &k : n->kids) if (k.n) st.push_back(k.n); } return false; }
static void flat(const E &e, std::vector<E> &o) { if (isOp(e, O_AND) && e.w == 1) { flat(e.n->kids[0], o); flat(e.n->kids[1], o); } else if (!(e.isC() && e.c)) o.push_back(e); }
std::vector<E> substEqs(const std::vector<E> &conj, std::vector<std::pair<E, E>> &defs) {
  std::vector<E> cur, kept; for (auto &e : conj) flat(e, cur);
  for (int round = 0; round < 400; round++) {
    E from, to; size_t at = 0; int how = 0;
    for (size_t i = 0; i < cur.size() && !how; i++) { E e = cur[i]; if (!isOp(e, O_EQ) || e.n->kids[0].k != K_BV) continue;
      for (int s = 0; s < 2 && !how; s++) { E a = e.n->kids[s], b = e.n->kids[1 - s]; if (isOp(a, O_VAR) && !occurs(a.n, b)) { from = a; to = b; at = i; how = 1; } } }
    for (size_t i = 0; i < cur.size() && !how; i++) { E e = cur[i]; if (!isOp(e, O_EQ) || e.n->kids[0].k != K_BV) continue;
      for (int s = 0; s < 2 && !how; s++) { E a = e.n->kids[s], b = e.n->kids[1 - s]; if (a.n && !a.isConst() && !occurs(a.n, b)) { from = a; to = b; at = i; how = 2; } } }
    if (!how) break;
    E self = cur[at]; cur.erase(cur.begin() + at);
    std::unordered_map<const Node *, E> map; map[from.n] = to; auto apply = [&](std::vector<E> &v) { std::vector<E> nx; for (auto &e : v) { rebuild(e, map); flat(e.isConst() ? e : map.at(e.n), nx); } v = nx; };
    apply(cur);
    if (how == 1) { apply(kept); defs.push_back({from, to});
      if (from.w <= 64) { if (from.n->umin) cur.push_back(mk(O_ULE, mkC(from.n->umin, from.w), to)); if (from.n->umax < maskw(from.w)) cur.push_back(mk(O_ULE, to, mkC(from.n->umax, from.w))); } }
    else kept.push_back(self);
    for (auto &e : cur) if (e.isC() && !e.c) return cur; for (auto &e : kept) if (e.isC() && !e.c) return kept;
    cur.erase(std::remove_if(cur.begin(), cur.end(), [](const E &e) { return e.isC(); }), cur.end()); kept.erase(std::remove_if(kept.begin(), kept.end(), [](const E &e) { return e.isC(); }), kept.end());
  }
  cur.insert(cur.end(), kept.begin(), kept.end());
  return cur;
}
struct Gauss { std::map<uint64_t, std::pair<std::vector<uint64_t>, char>> rows; bool bad = false; size_t work = 0;
  void reduce(std::vector<uint64_t> &v, char &c) { // leading entries from the largest down
    std::vector<uint64_t> t; size_t i = v.size();
    while (i > 0) { auto it = rows.find(v[i - 1]); if (it == rows.end()) { i--; continue; } uint64_t p = v[i - 1]; t.clear(); linSum(v, it->second.first, t); work += t.size() + 1; c ^= it->second.second; v.swap(t); i = std::lower_bound(v.begin(), v.end(), p) - v.begin(); } }
  void add(std::vector<uint64_t> v, char c) { if (work > 200000000) return; reduce(v, c); if (v.empty()) { if (c) bad = true; return; } rows[v.back()] = {v, c}; } };
static bool gTrue(Gauss &g, const E &e); static bool gFalse(Gauss &g, const E &e);
static bool gBits(Gauss &g, const E &a, const E &b, bool eq) { LinP x = linOf(a), y = linOf(b); bool any = false; for (unsigned i = 0; i < a.w; i++) { std::vector<uint64_t> d; linSum(x->b[i], y->b[i], d); char c = x->c[i] ^ y->c[i]; g.reduce(d, c); if (eq ? !(d.empty() && !c) : false) return false; if (!eq && d.empty() && c) any = true; } return eq || any; }
static E notArg(const E &e) { return isOp(e, O_XOR) && e.w == 1 && e.n->kids[1].isC() ? e.n->kids[0] : E(); }
static bool gTrue(Gauss &g, const E &e) { if (e.isC()) return e.c; E x = notArg(e); if (x.valid()) return gFalse(g, x); if (isOp(e, O_AND)) return gTrue(g, e.n->kids[0]) && gTrue(g, e.n->kids[1]); if (isOp(e, O_OR)) return gTrue(g, e.n->kids[0]) || gTrue(g, e.n->kids[1]);
  if (isOp(e, O_EQ) && e.n->kids[0].k == K_BV && e.n->kids[0].w <= 128) return gBits(g, e.n->kids[0], e.n->kids[1], true); LinP l = linOf(e); std::vector<uint64_t> d = l->b[0]; char c = l->c[0]; g.reduce(d, c); return d.empty() && c; }
static bool gFalse(Gauss &g, const E &e) { if (e.isC()) return !e.c; E x = notArg(e); if (x.valid()) return gTrue(g, x); if (isOp(e, O_AND)) return gFalse(g, e.n->kids[0]) || gFalse(g, e.n->kids[1]); if (isOp(e, O_OR)) return gFalse(g, e.n->kids[0]) && gFalse(g, e.n->kids[1]);
  if (isOp(e, O_EQ) && e.n->kids[0].k == K_BV && e.n->kids[0].w <= 128) return gBits(g, e.n->kids[0], e.n->kids[1], false); LinP l = linOf(e); std::vector<uint64_t> d = l->b[0]; char c = l->c[0]; g.reduce(d, c); return d.empty() && !c; }
static int smallBound(const E &e, E &x) { E q = notArg(e); const E &u = q.valid() ? q : e; if (!isOp(u, O_ULT) || u.n->kids[0].w > 64) return -1; const E &a = u.n->kids[0], &b = u.n->kids[1]; uint64_t m; // the number of low bits x may use
  if (q.valid()) { if (!a.isC()) return -1; x = b; m = a.c; } else { if (!b.isC() || !b.c) return -1; x = a; m = b.c - 1; } if (m & (m + 1)) return -1; return m == ~0ull ? 64 : __builtin_popcountll(m); }
bool gaussRefutes(const std::vector<E> &conj) {
  if (conj.size() > 600) return false;
  Gauss g; bool any = false;
  for (auto &e : conj) { if (e.isC()) { if (!e.c) return true; continue; }
    if (isOp(e, O_EQ) && e.n->kids[0].k == K_BV && e.n->kids[0].w <= 128) { LinP x = linOf(e.n->kids[0]), y = linOf(e.n->kids[1]); for (unsigned i = 0; i < e.n->kids[0].w; i++) { std::vector<uint64_t> d; linSum(x->b[i], y->b[i], d); g.add(d, x->c[i] ^ y->c[i]); } any = true; }
    else if (E lb; smallBound(e, lb) >= 0) { unsigned j = smallBound(e, lb); LinP x = linOf(lb); for (unsigned i = j; i < lb.w; i++) g.add(x->b[i], x->c[i]); any = true; } // x < 2^j
    else { LinP l = linOf(e); if (!l->triv) { g.add(l->b[0], l->c[0] ^ 1); any = true; } } }
  if (g.bad) return true; if (!any) return false;
  for (auto &e : conj) if (!e.isC() && gFalse(g, e)) return true;
  { // an input whose bits are all determined, outside its declared range
    std::set<const Node *> seen; std::vector<const Node *> st; for (auto &e : conj) if (e.n && !e.isConst()) st.push_back(e.n);
    while (!st.empty()) { auto *n = st.back(); st.pop_back(); if (!seen.insert(n).second) continue; if (n->op == O_VAR && n->k == K_BV && n->w <= 64 && n->umin > 0) { E x; x.n = n; x.w = n->w; x.k = K_BV; LinP l = linOf(x); uint64_t v = 0; bool all = true;
        for (unsigned i = 0; i < n->w && all; i++) { auto d = l->b[i]; char c = l->c[i]; g.reduce(d, c); if (!d.empty()) all = false; else if (c) v |= 1ull << i; } if (all && (v < n->umin || v > n->umax)) return true; }
      for (auto &k : n->kids) if (k.n && !k.isConst()) st.push_back(k.n); } }
  return false;
}

// ---- branch and prune: the inputs' ranges are split until interval evaluation refutes a conjunct on every box
bool boxRefutes(const std::vector<E> &conj0, unsigned maxBoxes, double seconds) {
  std::vector<E> conj; for (auto &e : conj0) flat(e, conj);
  std::set<const Node *> seen; std::vector<const Node *> st; std::vector<const Node *> vars; bool fp = false;
  for (auto &e : conj) { if (e.isC() && !e.c) return true; if (e.n && !e.isConst()) st.push_back(e.n); }
  while (!st.empty()) { auto *n = st.back(); st.pop_back(); if (!seen.insert(n).second) continue; if (n->k == K_FP) fp = true; if (n->op == O_VAR) { if (n->k != K_BV || n->w > 64) return false; vars.push_back(n); } for (auto &k : n->kids) if (k.n && !k.isConst()) st.push_back(k.n); }
  if (!fp || vars.empty() || vars.size() > 4 || seen.size() > 3000) return false;
  std::sort(vars.begin(), vars.end(), [](const Node *a, const Node *b) { return a->id < b->id; });
  typedef std::vector<std::pair<uint64_t, uint64_t>> Box; Box root; for (auto *v : vars) root.push_back({v->umin, v->umax});
  std::vector<Box> q{root}; unsigned done = 0, pruned = 0; auto t0 = std::chrono::steady_clock::now();
  while (!q.empty()) {
    Box b = q.back(); q.pop_back(); ++done;
    if (done > maxBoxes || (done >= 96 && pruned == 0) || std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() > seconds) return false;
    std::unordered_map<const Node *, E> map; for (size_t i = 0; i < vars.size(); i++) if (b[i] != root[i]) map[vars[i]] = b[i].first == b[i].second ? mkC(b[i].first, vars[i]->w) : mkVar(vars[i]->name + "@" + std::to_string(b[i].first) + "-" + std::to_string(b[i].second), vars[i]->w, K_BV, b[i].first, b[i].second);
    bool dead = false; for (auto &e : conj) { if (e.isConst()) continue; rebuild(e, map); E r = map.at(e.n); if (r.isC() && !r.c) { dead = true; break; } }
    if (dead) { ++pruned; continue; }
    size_t w = vars.size(); double best = 0; for (size_t i = 0; i < vars.size(); i++) { double len = double(b[i].second - b[i].first) / (double(root[i].second - root[i].first) + 1); if (b[i].second > b[i].first && len > best) best = len, w = i; }
    if (w == vars.size()) return false; // a single point that no conjunct refutes
    uint64_t m = b[w].first + (b[w].second - b[w].first) / 2; Box l = b, h = b; l[w].second = m; h[w].first = m + 1; q.push_back(h); q.push_back(l);
  }
  return true;
}
