// rsym: symbolic executor for LLVM IR with path merging, for the harnesses in /verif/harness.
#include "solver.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DataLayout.h"
#include "llvm/IR/Operator.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"
#include "llvm/IR/CFG.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Analysis/PostDominators.h"
#include "llvm/Demangle/Demangle.h"
#include <iostream>
#include <fstream>
#include <algorithm>
#include <cstring>
#include <thread>
#include <pthread.h>
#include <unistd.h>
#include <sys/wait.h>
using namespace llvm;
typedef uint64_t u64;

// ------------------------------------------------------------------ configuration
static struct Cfg {
  std::string bc, entry, outFile, scratch = "/tmp", keepDir;
  int feasMs = 2000, quickMs = 1500, totalMs = 120000, obligMs = 60000, jobs = 1;
  u64 maxSteps = 400000000ull; int maxStates = 4000;
  std::map<std::string, u64> fixed; bool concrete = false; bool verbose = false; bool mergeOff = false; bool nogen = false; bool boxFeas = false;
} CF;
static double tStart;
[[noreturn]] static void fatal(const std::string &m);

// ------------------------------------------------------------------ memory
struct Cell { const Node *n = nullptr; uint8_t idx = 0; };
struct ObjData { std::vector<uint8_t> b; std::vector<Cell> c; bool sym = false; };
typedef std::shared_ptr<ObjData> ObjP;
struct ObjInfo { u64 base, size; std::string name; bool ro = false; ObjP init; };
static std::vector<ObjInfo> objs;       // by id
static std::map<u64, uint32_t> byBase;
static u64 nextAddr = 0x100000;
static uint32_t newObj(u64 size, u64 align, const std::string &name) {
  if (align < 16) align = 16;
  u64 pad = std::max<u64>(4096, std::min<u64>(size, 1 << 24));
  nextAddr = (nextAddr + pad + align - 1) / align * align;
  ObjInfo o; o.base = nextAddr; o.size = size; o.name = name; uint32_t id = objs.size(); objs.push_back(o); byBase[o.base] = id;
  nextAddr += size + pad; return id;
}
static std::map<u64, Function *> funcAt; static std::map<const Function *, u64> funcAddr;

struct FnInfo {
  Function *F; DenseMap<const Value *, unsigned> num; unsigned n = 0;
  std::map<const BasicBlock *, const BasicBlock *> ipdom; std::map<const BasicBlock *, bool> trap;
};
static std::map<Function *, std::unique_ptr<FnInfo>> fninfo;
static bool isFailName(StringRef n);
static FnInfo &info(Function *F) {
  auto &p = fninfo[F]; if (p) return *p;
  p = std::make_unique<FnInfo>(); p->F = F;
  for (auto &a : F->args()) p->num[&a] = p->n++;
  for (auto &bb : *F) for (auto &i : bb) if (!i.getType()->isVoidTy()) p->num[&i] = p->n++;
  // join points: immediate post-dominators among the paths that return (a path into a failing or throwing end never reaches a join)
  std::map<const BasicBlock *, int> ord; std::vector<const BasicBlock *> rpo; std::map<const BasicBlock *, std::vector<const BasicBlock *>> pr;
  for (auto &bb : *F) for (auto *q : llvm::successors(&bb)) pr[q].push_back(&bb);
  { std::vector<std::pair<const BasicBlock *, size_t>> st; std::set<const BasicBlock *> seen; std::vector<const BasicBlock *> post;
    for (auto &bb : *F) if (isa<ReturnInst>(bb.getTerminator()) && seen.insert(&bb).second) { st.push_back({&bb, 0});
      while (!st.empty()) { auto &[x, i] = st.back(); auto &v = pr[x]; if (i < v.size()) { auto *y = v[i++]; if (seen.insert(y).second) st.push_back({y, 0}); } else { post.push_back(x); st.pop_back(); } } }
    rpo.assign(post.rbegin(), post.rend()); int k = 1; for (auto *x : rpo) ord[x] = k++; }
  std::vector<int> idm(rpo.size() + 1, -1); idm[0] = 0; // 0: the virtual exit
  for (bool ch = true; ch;) { ch = false; for (auto *x : rpo) { int o = ord[x], nd = -1; auto meet = [&](int y) { if (idm[y] < 0) return; if (nd < 0) { nd = y; return; } int a = nd, b = y; while (a != b) { while (a > b) a = idm[a]; while (b > a) b = idm[b]; } nd = a; };
      if (isa<ReturnInst>(x->getTerminator())) meet(0); for (auto *q : llvm::successors(x)) if (ord.count(q)) meet(ord[q]); if (nd >= 0 && idm[o] != nd) { idm[o] = nd; ch = true; } } }
  for (auto &bb : *F) {
    const BasicBlock *d = nullptr; if (ord.count(&bb)) { int i = idm[ord[&bb]]; if (i > 0) d = rpo[i - 1]; }
    p->ipdom[&bb] = d;
    // a trap block: first real instruction is a failing call
    bool tr = false;
    for (auto &i : bb) { if (isa<PHINode>(i) || isa<DbgInfoIntrinsic>(i)) { if (isa<PHINode>(i)) break; continue; }
      if (auto *c = dyn_cast<CallInst>(&i)) if (auto *f = c->getCalledFunction()) tr = isFailName(f->getName()); break; }
    p->trap[&bb] = tr;
  }
  return *p;
}

struct Frame {
  FnInfo *fi; BasicBlock *bb, *prev = nullptr; BasicBlock::iterator it; std::vector<E> regs; std::vector<uint32_t> allocas; CallBase *call = nullptr;
};
struct State {
  std::vector<Frame> st; std::map<uint32_t, ObjP> mem; std::vector<E> pc; std::map<std::string, uint32_t> occ; std::set<uint16_t> passed; // labels of the assertions met on the way
  E ret; bool returned = false;
};
typedef std::unique_ptr<State> SP;

struct Oblig { std::string label; std::vector<E> conj; bool soft; std::string where; std::string verdict, solver; double time = 0; Model model; int group = -1; };
static std::vector<Oblig> obligs;
struct Pending { std::vector<E> pc; std::set<uint16_t> passed; };
static std::map<std::string, std::vector<Pending>> pendingReach; static std::vector<std::string> labelNames; static std::map<std::string, uint16_t> labelIds; static double reachSpentAll = 0;
static std::map<std::string, int> reach, cuts; // reach: 0 not reached, 1 reached feasible, -1 unknown
static std::map<std::string, uint64_t> assertHits; static std::map<std::string, Model> witness;
static std::set<std::string> expectedLabels, encoded, assumptions;
static u64 steps = 0; static Solver slv; static Module *M; static const DataLayout *DL;
static bool generalised = false; static u64 nFolded = 0, nForks = 0, nMerges = 0, nPathsEnd = 0, unkFeas = 0; static std::string incomplete;
static std::map<std::string, std::pair<unsigned, std::pair<u64,u64>>> inputs;
static std::vector<std::pair<std::string, E>> traces;

[[noreturn]] static void finish(const std::string &err);
static void fatal(const std::string &m) { finish(m); }
static bool isFailName(StringRef n) { return n == "vp_fail" || n == "llvm.ubsantrap" || n == "llvm.trap" || n == "abort" || n == "__assert_fail"; }

// ------------------------------------------------------------------ memory access
static uint32_t objAt(u64 a, bool &inside) {
  inside = false; if (byBase.empty()) return ~0u;
  auto it = byBase.upper_bound(a); uint32_t best = ~0u; u64 bd = ~0ull;
  if (it != byBase.begin()) { auto p = std::prev(it); auto &o = objs[p->second]; u64 end = o.base + o.size; u64 d = a <= end ? 0 : a - end; best = p->second; bd = d; inside = d == 0; }
  if (it != byBase.end()) { u64 d = it->first - a; if (d < bd) { best = it->second; bd = d; } }
  if (bd > (1u << 24)) return ~0u;
  return best;
}
static ObjP getObj(State &s, uint32_t id) {
  auto it = s.mem.find(id); if (it != s.mem.end()) return it->second;
  return objs[id].init;
}
static ObjP wrObj(State &s, uint32_t id) {
  auto it = s.mem.find(id);
  if (it == s.mem.end()) { if (!objs[id].init) return nullptr; auto p = std::make_shared<ObjData>(*objs[id].init); s.mem[id] = p; return p; }
  if (!it->second) return nullptr;
  if (it->second.use_count() > 1) it->second = std::make_shared<ObjData>(*it->second);
  return it->second;
}
static E nodeE(const Node *n) { E e; e.n = n; e.w = n->w; e.k = n->k; return e; }
static E loadRaw(const ObjData &o, u64 off, unsigned nb) { // BV of 8*nb bits, or FP when it matches whole
  if (!o.sym) { if (nb <= 8) { u64 v = 0; memcpy(&v, &o.b[off], nb); return mkC(v, nb * 8); } }
  else {
    auto &c0 = o.c[off]; if (c0.n && c0.idx == 0 && c0.n->w == nb * 8) { bool all = true; for (unsigned i = 1; i < nb && all; i++) all = o.c[off + i].n == c0.n && o.c[off + i].idx == i; if (all) return nodeE(c0.n); }
  }
  // general: gather maximal runs
  E r; unsigned i = 0;
  while (i < nb) {
    E part; unsigned j = i + 1;
    if (!o.sym || !o.c[off + i].n) { while (j < nb && j - i < 8 && (!o.sym || !o.c[off + j].n)) j++; u64 v = 0; memcpy(&v, &o.b[off + i], j - i); part = mkC(v, (j - i) * 8); }
    else { auto &c = o.c[off + i]; while (j < nb && o.c[off + j].n == c.n && o.c[off + j].idx == c.idx + (j - i)) j++;
      E e = nodeE(c.n); if (e.k == K_FP) e = mk(O_FP2BV, e); part = mkExtract(e, c.idx * 8, (j - i) * 8); }
    r = i == 0 ? part : mkConcat(part, r); i = j;
  }
  return r;
}
static void storeRaw(ObjData &o, u64 off, E v) {
  unsigned nb = (v.w + 7) / 8; if (v.w % 8) v = mkZExt(v, nb * 8);
  if (v.isConst()) {
    if (v.isC()) { u64 x = v.c; memcpy(&o.b[off], &x, nb); } else { APInt a = constVal(v); for (unsigned i = 0; i < nb; i++) o.b[off + i] = (uint8_t)a.extractBitsAsZExtValue(8, i * 8); }
    if (o.sym) for (unsigned i = 0; i < nb; i++) o.c[off + i].n = nullptr; return;
  }
  if (!o.sym) { o.sym = true; o.c.resize(o.b.size()); }
  for (unsigned i = 0; i < nb; i++) { o.c[off + i].n = v.n; o.c[off + i].idx = i; }
}
static void addOblig(State &s, const std::string &label, E bad, bool soft, const Instruction *I) {
  if (bad.isC() && !bad.c) { nFolded++; return; }
  Oblig o; o.label = label; o.conj = s.pc; o.conj.push_back(bad); o.soft = soft;
  if (I) { o.where = demangle(I->getFunction()->getName().str()); if (o.where.size() > 160) o.where = o.where.substr(0, 160); }
  obligs.push_back(std::move(o));
  if (obligs.size() > 40000) fatal("too many obligations");
}
static bool addPc(State &s, E c) { if (c.isC()) return c.c; for (auto &e : s.pc) if (e == c) return true; s.pc.push_back(c); return true; }

struct Target { E guard; uint32_t obj; E off; };
// split an address into (guard, object, offset)
static void resolve(State &s, E addr, E guard, std::vector<Target> &out, int depth = 0) {
  if (depth > 64 || out.size() > 4096) fatal("pointer resolution too deep");
  if (addr.isC()) { bool in; uint32_t id = objAt(addr.c, in); if (id == ~0u) { out.push_back({guard, ~0u, addr}); return; } out.push_back({guard, id, mk(O_SUB, addr, mkC(objs[id].base, 64))}); return; }
  // gather addends
  std::vector<E> st{addr}, terms; u64 cst = 0; bool split = false;
  while (!st.empty()) { E e = st.back(); st.pop_back(); if (e.isC()) { cst += e.c; continue; } if (e.n->op == O_CONCAT && e.w == 64 && e.n->kids[1].isC() && !e.n->kids[0].isConst() && e.n->kids[0].n->op == O_EXTRACT && e.n->kids[0].n->p0 == e.n->kids[1].w && e.n->kids[0].n->kids[0].w == 64 && (~eKZ(e.n->kids[0].n->kids[0]) & ((1ull << e.n->kids[1].w) - 1)) == 0) { cst += e.n->kids[1].c; st.push_back(e.n->kids[0].n->kids[0]); split = true; continue; } if (e.n->op == O_CONCAT && e.w == 64 && e.n->kids[1].isC() && !e.n->kids[0].isConst() && e.n->kids[0].n->op == O_CONCAT && e.n->kids[0].n->kids[0].isC()) { E x = e.n->kids[0].n->kids[1]; unsigned kw = e.n->kids[1].w; cst += (e.n->kids[0].n->kids[0].c << (x.w + kw)) + e.n->kids[1].c; st.push_back(mkZExt(mkConcat(x, mkC(0, kw)), 64)); split = true; continue; } if (e.n->op == O_CONCAT && e.w == 64 && e.n->kids[1].isC() && !e.n->kids[0].isConst() && e.n->kids[0].n->op == O_OR && e.n->kids[0].n->kids[1].isC() && (~eKZ(e.n->kids[0].n->kids[0]) & e.n->kids[0].n->kids[1].c & ((1ull << e.n->kids[0].w) - 1)) == 0) { unsigned kw = e.n->kids[1].w; cst += (e.n->kids[0].n->kids[1].c << kw) + e.n->kids[1].c; st.push_back(mkConcat(e.n->kids[0].n->kids[0], mkC(0, kw))); split = true; continue; } if (e.n->op == O_OR && (~eKZ(e.n->kids[0]) & ~eKZ(e.n->kids[1])) == 0) { st.push_back(e.n->kids[0]); st.push_back(e.n->kids[1]); split = true; continue; } if (e.n->op == O_ADD) { st.push_back(e.n->kids[0]); st.push_back(e.n->kids[1]); } else if (e.n->op == O_CONCAT && e.w == 64 && e.n->kids[0].isC() && e.n->kids[1].w < 64) { cst += e.n->kids[0].c << e.n->kids[1].w; st.push_back(mkZExt(e.n->kids[1], 64)); split = true; } else terms.push_back(e); }
  // a constant part inside (or near) an object is the base, unless an ite term carries the pointer
  int iteT = -1; for (size_t i = 0; i < terms.size(); i++) if (terms[i].n->op == O_ITE) {
    // does any leaf look like a pointer?
    std::vector<E> q{terms[i]}; bool ptr = false; int lim = 0; while (!q.empty() && lim++ < 200) { E e = q.back(); q.pop_back(); if (!e.isC() && e.n->op == O_ITE) { q.push_back(e.n->kids[1]); q.push_back(e.n->kids[2]); }
      else { E b = e; while (!b.isC() && b.n->op == O_ADD) { E k1 = b.n->kids[1]; b = k1.isC() ? k1 : b.n->kids[0]; } if (b.isC()) { bool in; u64 v = b.c; if (v >= 0x100000 && objAt(v, in) != ~0u) ptr = true; if (v == 0) ; } } }
    if (ptr) { iteT = i; break; } }
  if (iteT >= 0) {
    E t = terms[iteT]; E rest = mkC(cst, 64); for (size_t i = 0; i < terms.size(); i++) if ((int)i != iteT) rest = mk(O_ADD, rest, terms[i]);
    E c = t.n->kids[0];
    E g1 = mkAnd(guard, c), g2 = mkAnd(guard, mkNot(c));
    bool f1 = true, f2 = true;
    { auto pc = s.pc; pc.push_back(g1); f1 = slv.check(pc, CF.feasMs, nullptr) != V_UNSAT; pc.back() = g2; f2 = slv.check(pc, CF.feasMs, nullptr) != V_UNSAT; }
    if (f1) resolve(s, mk(O_ADD, t.n->kids[1], rest), g1, out, depth + 1); if (f2) resolve(s, mk(O_ADD, t.n->kids[2], rest), g2, out, depth + 1); return;
  }
  bool in; uint32_t id = cst >= 0x80000 ? objAt(cst, in) : ~0u;
  if (id == ~0u) { // pull any pointer hidden in a term: concretise through the solver
    Model m; auto pc = s.pc; pc.push_back(guard); if (slv.check(pc, CF.feasMs, &m) == V_UNSAT) return;
    if (getenv("DBGPTR")) dumpE(addr, 0);
    fatal("cannot resolve symbolic pointer");
  }
  if (split) { E off = mkC(cst - objs[id].base, 64); for (auto &t : terms) off = mk(O_ADD, off, t); out.push_back({guard, id, off}); return; }
  out.push_back({guard, id, mk(O_SUB, addr, mkC(objs[id].base, 64))});
}
static unsigned strideOf(E off) { u64 kz = eKZ(off); unsigned t = 0; while (t < 12 && (kz >> t) & 1) t++; return 1u << t; }
static E loadAs(const ObjData &o, u64 off, unsigned nb, bool fp) { E r = loadRaw(o, off, nb); if (fp && r.k != K_FP) { if (r.isC()) { r.k = K_FP; } else r = mk(O_BV2FP, r); } if (!fp && r.k == K_FP) { if (r.isC()) r.k = K_BV; else r = mk(O_FP2BV, r); } return r; }
// symbolic offsets that can occur; checks bounds
static void candidates(State &s, const Target &t, unsigned nb, std::vector<u64> &cand, const Instruction *I) {
  auto &oi = objs[t.obj]; unsigned stride = strideOf(t.off);
  u64 lo = eUMin(t.off), hi = eUMax(t.off);
  if (oi.size < nb) { addOblig(s, "out-of-bounds access", t.guard, true, I); return; }
  u64 last = oi.size - nb;
  if (hi > last) {
    E bad = mkAnd(t.guard, mk(O_ULT, mkC(last, 64), t.off)); addOblig(s, "out-of-bounds access to " + oi.name, bad, true, I);
    hi = last; }
  lo = (lo + stride - 1) / stride * stride;
  // narrow with the solver when large
  if ((hi - lo) / stride > (CF.feasMs ? 16 : 1024)) {
    auto pc = s.pc; pc.push_back(t.guard); size_t k = pc.size();
    auto can = [&](E c) { pc.resize(k); pc.push_back(c); return slv.check(pc, CF.feasMs, nullptr) != V_UNSAT; };
    u64 a = lo / stride, b = hi / stride;
    while (a < b) { u64 m = (a + b) / 2; if (can(mk(O_ULE, t.off, mkC(m * stride, 64)))) b = m; else a = m + 1; if (b - a < 4) break; }
    u64 a2 = a, b2 = hi / stride; 
    while (a2 < b2) { u64 m = (a2 + b2 + 1) / 2; if (can(mk(O_ULE, mkC(m * stride, 64), t.off))) a2 = m; else b2 = m - 1; if (b2 - a2 < 4) break; }
    lo = a * stride; hi = std::max(b2 * stride, lo);
    if (hi > last) hi = last;
  }
  if ((hi - lo) / stride > 8192) fatal("symbolic index into " + oi.name + " has too many candidates");
  for (u64 o = lo; o <= hi; o += stride) cand.push_back(o);
}
static E muxLoad(const ObjData &o, E off, const std::vector<u64> &c, size_t a, size_t b, unsigned nb, bool fp) {
  if (b - a == 1) return loadAs(o, c[a], nb, fp);
  size_t m = (a + b) / 2; E l = muxLoad(o, off, c, a, m, nb, fp), r = muxLoad(o, off, c, m, b, nb, fp); if (l == r) return l;
  return mkIte(mk(O_ULT, off, mkC(c[m], off.w)), l, r);
}
static E loadMem(State &s, E addr, unsigned nb, bool fp, const Instruction *I) {
  std::vector<Target> ts; resolve(s, addr, T(), ts);
  E res; bool have = false;
  for (auto &t : ts) {
    if (t.obj == ~0u) { addOblig(s, "invalid pointer read", t.guard, true, I); continue; }
    ObjP o = getObj(s, t.obj); if (!o) { addOblig(s, "use of freed memory", t.guard, true, I); continue; }
    E v;
    if (t.off.isC()) { if (t.off.c > objs[t.obj].size || objs[t.obj].size - t.off.c < nb) { addOblig(s, "out-of-bounds read of " + objs[t.obj].name, t.guard, true, I); continue; } v = loadAs(*o, t.off.c, nb, fp); }
    else { std::vector<u64> cand; candidates(s, t, nb, cand, I); if (cand.empty()) continue; v = muxLoad(*o, t.off, cand, 0, cand.size(), nb, fp); }
    if (!have) { res = v; have = true; } else res = mkIte(t.guard, v, res);
  }
  if (!have) return E();
  return res;
}
static bool storeMem(State &s, E addr, E v, const Instruction *I) {
  std::vector<Target> ts; resolve(s, addr, T(), ts); unsigned nb = (v.w + 7) / 8; bool any = false;
  if (v.w % 8) v = mkZExt(v, nb * 8);
  for (auto &t : ts) {
    if (t.obj == ~0u) { addOblig(s, "invalid pointer write", t.guard, true, I); continue; }
    ObjP o = wrObj(s, t.obj); if (!o) { addOblig(s, "write to freed memory", t.guard, true, I); continue; }
    if (objs[t.obj].ro) { addOblig(s, "write to constant memory", t.guard, true, I); continue; }
    if (t.off.isC()) { if (t.off.c > objs[t.obj].size || objs[t.obj].size - t.off.c < nb) { addOblig(s, "out-of-bounds write to " + objs[t.obj].name, t.guard, true, I); continue; }
      any = true; if (t.guard.isC()) storeRaw(*o, t.off.c, v); else storeRaw(*o, t.off.c, mkIte(t.guard, v, loadAs(*o, t.off.c, nb, v.k == K_FP))); }
    else { std::vector<u64> cand; candidates(s, t, nb, cand, I);
      for (u64 c : cand) { any = true; storeRaw(*o, c, mkIte(mkAnd(t.guard, mkEq(t.off, mkC(c, 64))), v, loadAs(*o, c, nb, v.k == K_FP))); } }
  }
  return any;
}

// ------------------------------------------------------------------ constants
static unsigned tw(Type *t) { if (t->isPointerTy()) return 64; if (t->isIntegerTy()) return t->getIntegerBitWidth(); if (t->isHalfTy()) return 16; if (t->isFloatTy()) return 32; if (t->isDoubleTy()) return 64; if (t->isX86_FP80Ty()) fatal("long double is not supported"); std::string q; raw_string_ostream os(q); t->print(os); fatal("type " + os.str()); }
static bool isFP(Type *t) { return t->isHalfTy() || t->isFloatTy() || t->isDoubleTy(); }
static E zeroOf(Type *t) {
  if (auto *s = dyn_cast<StructType>(t)) { std::vector<E> v; for (auto *e : s->elements()) v.push_back(zeroOf(e)); return mkTuple(v); }
  if (auto *a = dyn_cast<ArrayType>(t)) { std::vector<E> v(a->getNumElements(), zeroOf(a->getElementType())); return mkTuple(v); }
  if (auto *a = dyn_cast<FixedVectorType>(t)) { std::vector<E> v(a->getNumElements(), zeroOf(a->getElementType())); return mkTuple(v); }
  return isFP(t) ? mkFPC(0, tw(t)) : mkC(0, tw(t));
}
static std::map<const GlobalVariable *, uint32_t> gobj;
static uint32_t globalObj(const GlobalVariable *g);
static E cst(const Constant *c) {
  if (auto *ci = dyn_cast<ConstantInt>(c)) return mkBig(ci->getValue());
  if (auto *cf = dyn_cast<ConstantFP>(c)) { if (!isFP(cf->getType())) fatal("long double constant"); return mkFPC(cf->getValueAPF().bitcastToAPInt().getZExtValue(), tw(cf->getType())); }
  if (isa<ConstantPointerNull>(c)) return mkC(0, 64);
  if (isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) return zeroOf(c->getType());
  if (auto *g = dyn_cast<GlobalVariable>(c)) return mkC(objs[globalObj(g)].base, 64);
  if (auto *ga = dyn_cast<GlobalAlias>(c)) return cst(ga->getAliasee());
  if (auto *f = dyn_cast<Function>(c)) { auto it = funcAddr.find(f); if (it != funcAddr.end()) return mkC(it->second, 64); u64 a = 0x1000 + funcAddr.size() * 16; funcAddr[f] = a; funcAt[a] = const_cast<Function *>(f); return mkC(a, 64); }
  if (isa<ConstantStruct>(c) || isa<ConstantArray>(c) || isa<ConstantVector>(c)) { std::vector<E> v; for (auto &o : c->operands()) v.push_back(cst(cast<Constant>(o))); return mkTuple(v); }
  if (auto *ds = dyn_cast<ConstantDataSequential>(c)) { std::vector<E> v; for (unsigned i = 0; i < ds->getNumElements(); i++) v.push_back(cst(ds->getElementAsConstant(i))); return mkTuple(v); }
  if (auto *ce = dyn_cast<ConstantExpr>(c)) {
    switch (ce->getOpcode()) {
    case Instruction::GetElementPtr: { auto *gep = cast<GEPOperator>(ce); APInt off(64, 0); if (!gep->accumulateConstantOffset(*DL, off)) fatal("constexpr gep"); return mk(O_ADD, cst(cast<Constant>(gep->getPointerOperand())), mkBig(off)); }
    case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::AddrSpaceCast: { E e = cst(ce->getOperand(0)); return mkZExt(e, tw(ce->getType())); }
    case Instruction::Trunc: return mkExtract(cst(ce->getOperand(0)), 0, tw(ce->getType()));
    case Instruction::Sub: return mk(O_SUB, cst(ce->getOperand(0)), cst(ce->getOperand(1)));
    case Instruction::Add: return mk(O_ADD, cst(ce->getOperand(0)), cst(ce->getOperand(1)));
    default: fatal(std::string("constexpr ") + ce->getOpcodeName());
    }
  }
  fatal("constant");
}
static void initMem(ObjData &o, u64 off, const Constant *c) {
  Type *t = c->getType();
  if (isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) return;
  if (auto *ds = dyn_cast<ConstantDataSequential>(c)) { StringRef r = ds->getRawDataValues(); memcpy(&o.b[off], r.data(), r.size()); return; }
  if (auto *st = dyn_cast<StructType>(t)) { auto *sl = DL->getStructLayout(st); for (unsigned i = 0; i < st->getNumElements(); i++) initMem(o, off + sl->getElementOffset(i), cast<Constant>(c->getOperand(i))); return; }
  if (auto *at = dyn_cast<ArrayType>(t)) { u64 es = DL->getTypeAllocSize(at->getElementType()); for (unsigned i = 0; i < at->getNumElements(); i++) initMem(o, off + i * es, cast<Constant>(c->getOperand(i))); return; }
  if (t->isX86_FP80Ty()) { APInt v = cast<ConstantFP>(c)->getValueAPF().bitcastToAPInt(); for (int i = 0; i < 10; i++) o.b[off + i] = v.extractBitsAsZExtValue(8, i * 8); return; }
  E e = cst(c); if (e.k == K_TUP) fatal("vector initialiser"); storeRaw(o, off, e);
}
static uint32_t globalObj(const GlobalVariable *g) {
  auto it = gobj.find(g); if (it != gobj.end()) return it->second;
  u64 sz = DL->getTypeAllocSize(g->getValueType());
  uint32_t id = newObj(sz, g->getAlign().valueOrOne().value(), g->getName().str()); gobj[g] = id;
  auto p = std::make_shared<ObjData>(); p->b.assign(sz, 0); objs[id].init = p;
  if (g->hasInitializer()) { initMem(*p, 0, g->getInitializer()); objs[id].ro = g->isConstant(); }
  return id;
}

// ------------------------------------------------------------------ execution
static E val(Frame &f, const Value *v) {
  if (auto *c = dyn_cast<Constant>(v)) return cst(c);
  auto it = f.fi->num.find(v); if (it == f.fi->num.end()) { if (isa<MetadataAsValue>(v)) return mkC(0, 64); fatal("unnumbered value"); }
  E e = f.regs[it->second]; if (!e.valid()) fatal("use of an undefined register"); return e;
}
static void setv(Frame &f, const Instruction *i, E e) { f.regs[f.fi->num.find(i)->second] = e; }

static E vecMap2(E a, E b, std::function<E(E, E)> fn) { if (a.k == K_TUP) { std::vector<E> r; for (size_t i = 0; i < a.n->kids.size(); i++) r.push_back(fn(a.n->kids[i], b.n->kids[i])); return mkTuple(r); } return fn(a, b); }
static E vecMap1(E a, std::function<E(E)> fn) { if (a.k == K_TUP) { std::vector<E> r; for (auto &k : a.n->kids) r.push_back(fn(k)); return mkTuple(r); } return fn(a); }
static E shiftAmt(E b, unsigned w) { return b; }
static E binop(unsigned opc, E a, E b) {
  switch (opc) {
  case Instruction::Add: return mk(O_ADD, a, b); case Instruction::Sub: return mk(O_SUB, a, b); case Instruction::Mul: return mk(O_MUL, a, b);
  case Instruction::UDiv: return mk(O_UDIV, a, b); case Instruction::SDiv: return mk(O_SDIV, a, b); case Instruction::URem: return mk(O_UREM, a, b); case Instruction::SRem: return mk(O_SREM, a, b);
  case Instruction::And: return mk(O_AND, a, b); case Instruction::Or: return mk(O_OR, a, b); case Instruction::Xor: return mk(O_XOR, a, b);
  case Instruction::Shl: return mk(O_SHL, a, b); case Instruction::LShr: return mk(O_LSHR, a, b); case Instruction::AShr: return mk(O_ASHR, a, b);
  case Instruction::FAdd: return mk(O_FADD, a, b); case Instruction::FSub: return mk(O_FSUB, a, b); case Instruction::FMul: return mk(O_FMUL, a, b); case Instruction::FDiv: return mk(O_FDIV, a, b); case Instruction::FRem: return mk(O_FREM, a, b);
  }
  fatal("binop");
}
static E icmp(CmpInst::Predicate p, E a, E b) {
  switch (p) {
  case CmpInst::ICMP_EQ: return mkEq(a, b); case CmpInst::ICMP_NE: return mkNot(mkEq(a, b));
  case CmpInst::ICMP_ULT: return mk(O_ULT, a, b); case CmpInst::ICMP_ULE: return mk(O_ULE, a, b); case CmpInst::ICMP_UGT: return mk(O_ULT, b, a); case CmpInst::ICMP_UGE: return mk(O_ULE, b, a);
  case CmpInst::ICMP_SLT: return mk(O_SLT, a, b); case CmpInst::ICMP_SLE: return mk(O_SLE, a, b); case CmpInst::ICMP_SGT: return mk(O_SLT, b, a); case CmpInst::ICMP_SGE: return mk(O_SLE, b, a);
  default: break; }
  E un = mkOr(mk(O_FISNAN, a), mk(O_FISNAN, b));
  switch (p) {
  case CmpInst::FCMP_FALSE: return F(); case CmpInst::FCMP_TRUE: return T();
  case CmpInst::FCMP_OEQ: return mk(O_FEQ, a, b); case CmpInst::FCMP_UNE: return mkNot(mk(O_FEQ, a, b));
  case CmpInst::FCMP_OLT: return mk(O_FLT, a, b); case CmpInst::FCMP_OLE: return mk(O_FLE, a, b); case CmpInst::FCMP_OGT: return mk(O_FLT, b, a); case CmpInst::FCMP_OGE: return mk(O_FLE, b, a);
  case CmpInst::FCMP_UGE: return mkNot(mk(O_FLT, a, b)); case CmpInst::FCMP_UGT: return mkNot(mk(O_FLE, a, b)); case CmpInst::FCMP_ULE: return mkNot(mk(O_FLT, b, a)); case CmpInst::FCMP_ULT: return mkNot(mk(O_FLE, b, a));
  case CmpInst::FCMP_UNO: return un; case CmpInst::FCMP_ORD: return mkNot(un);
  case CmpInst::FCMP_ONE: return mkAnd(mkNot(un), mkNot(mk(O_FEQ, a, b))); case CmpInst::FCMP_UEQ: return mkOr(un, mk(O_FEQ, a, b));
  default: fatal("fcmp"); }
}
static std::string cstr(State &s, E p) { if (!p.isC()) fatal("symbolic string"); std::string r; bool in; uint32_t id = objAt(p.c, in); if (!in) return "?"; ObjP o = getObj(s, id); for (u64 i = p.c - objs[id].base; i < o->b.size() && o->b[i]; i++) r += (char)o->b[i]; return r; }
static void popFrame(State &s) { for (auto a : s.st.back().allocas) s.mem.erase(a); s.st.pop_back(); }
static E allocObj(State &s, u64 size, u64 align, const std::string &name) {
  uint32_t id = newObj(size, align, name); auto p = std::make_shared<ObjData>(); p->b.assign(size, 0xA5); s.mem[id] = p; return mkC(objs[id].base, 64);
}
static void checkTime() { if ((nowS() - tStart) * 1000 > CF.totalMs) fatal("time limit during symbolic execution"); }
static bool feasible(State &s, E c) {
  checkTime();
  if (c.isC()) return c.c;
  { E nc = mkNot(c); for (auto &q : s.pc) { if (q == c) return true; if (q == nc) return false; } } // decided before on this path
  if (CF.boxFeas) { auto pc = s.pc; pc.push_back(c); if (boxRefutes(pc, 400, 0.5)) return false; }
  if (!CF.feasMs) return true;
  auto pc = s.pc; pc.push_back(c); Verdict v = slv.check(pc, CF.feasMs, nullptr); if (v == V_UNKNOWN) unkFeas++; return v != V_UNSAT;
}

// Enter block `to` from the current block: evaluate phis.
static void enter(Frame &f, BasicBlock *to) {
  BasicBlock *from = f.bb; std::vector<std::pair<const Instruction *, E>> ph;
  for (auto &i : *to) { auto *p = dyn_cast<PHINode>(&i); if (!p) break; const Value *iv = p->getIncomingValueForBlock(from);
    E e; if (auto *ci = dyn_cast<Constant>(iv)) e = cst(ci); else e = f.regs[f.fi->num.find(iv)->second];
    ph.push_back({p, e}); }
  for (auto &p : ph) setv(f, p.first, p.second);
  f.prev = from; f.bb = to; f.it = to->getFirstNonPHIIt();
}
static std::vector<SP> execUntil(SP s, size_t depth, const BasicBlock *stop, int nest);

static bool sameObj(const ObjP &a, const ObjP &b) { return a == b; }
// merge b into a under guard c (true: a's value). Returns false when the shapes differ.
static bool mergeInto(State &a, State &b, E c, size_t prefix) {
  if (CF.mergeOff) return false;
  if (a.st.size() != b.st.size() || a.returned != b.returned || a.occ != b.occ) return false;
  if (!a.returned) { auto &fa = a.st.back(), &fb = b.st.back(); if (fa.fi != fb.fi || fa.bb != fb.bb || fa.it != fb.it) return false; }
  for (auto &kv : a.mem) { auto it = b.mem.find(kv.first); if (it != b.mem.end() && (!kv.second) != (!it->second)) return false; }
  // memory
  std::vector<uint32_t> ids; for (auto &kv : a.mem) ids.push_back(kv.first); for (auto &kv : b.mem) if (!a.mem.count(kv.first)) ids.push_back(kv.first);
  for (auto id : ids) {
    bool ia = a.mem.count(id), ib = b.mem.count(id);
    if (!(ia || objs[id].init)) { a.mem[id] = b.mem[id]; continue; }
    if (!(ib || objs[id].init)) continue;
    ObjP oa = getObj(a, id), ob = getObj(b, id); if (oa == ob) continue; if (!oa || !ob) continue;
    ObjP r = std::make_shared<ObjData>(*oa); u64 n = r->b.size(); bool ch = false;
    auto same = [&](u64 i) { const Node *na = oa->sym ? oa->c[i].n : nullptr, *nb = ob->sym ? ob->c[i].n : nullptr; if (na != nb) return false; return na ? oa->c[i].idx == ob->c[i].idx : oa->b[i] == ob->b[i]; };
    for (u64 i = 0; i < n;) {
      if (same(i)) { i++; continue; }
      // unit: the widest symbolic value starting here on either side, else an aligned word
      unsigned u = 0; u64 start = i;
      auto span = [&](ObjData &o) { if (!o.sym || !o.c[i].n) return; unsigned w = o.c[i].n->w / 8; u64 st = i - o.c[i].idx; if (i < o.c[i].idx || st + w > n) return; bool whole = true; for (unsigned k = 0; k < w && whole; k++) whole = o.c[st + k].n == o.c[i].n && o.c[st + k].idx == k; if (whole && w > u) { u = w; start = st; } };
      span(*oa); span(*ob);
      if (!u) { for (u = 8; u > 1 && (i / u * u + u > n || (i / u * u) < start - (start % u) ); u /= 2); start = i / u * u; 
        // do not cut through a symbolic value of either side
        auto cuts = [&](ObjData &o) { if (!o.sym) return false; for (unsigned k = 0; k < u; k++) if (o.c[start + k].n) return true; return false; };
        while (u > 1 && (cuts(*oa) || cuts(*ob))) { u /= 2; start = i / u * u; } }
      E va = loadRaw(*oa, start, u), vb = loadRaw(*ob, start, u);
      if (va.k != vb.k) { if (va.k == K_FP) { if (vb.isC()) vb.k = K_FP; else vb = mk(O_BV2FP, vb); } else { if (va.isC()) va.k = K_FP; else va = mk(O_BV2FP, va); } }
      storeRaw(*r, start, mkIte(c, va, vb)); ch = true; i = start + u;
    }
    if (ch) a.mem[id] = r;
  }
  if (a.returned) { if (a.ret.valid() && b.ret.valid()) a.ret = mkIte(c, a.ret, b.ret); }
  else { auto &fa = a.st.back(), &fb = b.st.back(); for (size_t i = 0; i < fa.regs.size(); i++) { E &x = fa.regs[i], y = fb.regs[i]; if (!x.valid() || !y.valid()) { if (!x.valid()) x = y; continue; } if (x != y) x = mkIte(c, x, y); }
    for (auto al : fb.allocas) if (std::find(fa.allocas.begin(), fa.allocas.end(), al) == fa.allocas.end()) fa.allocas.push_back(al); }
  // path condition
  E ra = T(), rb = T(); for (size_t i = prefix; i < a.pc.size(); i++) ra = mkAnd(ra, a.pc[i]); for (size_t i = prefix; i < b.pc.size(); i++) rb = mkAnd(rb, b.pc[i]);
  a.pc.resize(prefix); E o = mkOr(ra, rb); if (!(o.isC() && o.c)) a.pc.push_back(o);
  { std::set<uint16_t> k; std::set_intersection(a.passed.begin(), a.passed.end(), b.passed.begin(), b.passed.end(), std::inserter(k, k.begin())); a.passed = std::move(k); }
  nMerges++; return true;
}

static void trace(const char *m) { if (CF.verbose) fprintf(stderr, "[%.1f] %s\n", nowS() - tStart, m); }
struct CallRes { enum { Next, Pushed, Dead } r; };
#include "calls.inc"

// run a single state until it reaches `stop` in frame `depth` or returns out of it
static std::vector<SP> execUntil(SP s, size_t depth, const BasicBlock *stop, int nest) {
  std::vector<SP> done;
  if (nest > 20000) fatal("too many nested symbolic branches");
  std::vector<SP> work; work.push_back(std::move(s));
  while (!work.empty()) {
    SP cur = std::move(work.back()); work.pop_back();
    bool alive = true;
    while (alive) {
      Frame &f = cur->st.back(); Instruction *I = &*f.it;
      if ((++steps & 0xfff) == 0) { checkTime(); if (steps > CF.maxSteps) fatal("step limit"); }
      auto fork = [&](std::vector<std::pair<E, BasicBlock *>> tg) {
        // tg: mutually exclusive, feasible, at least two
        nForks++;
        const BasicBlock *J = f.fi->ipdom[f.bb]; size_t d = cur->st.size(); size_t prefix = cur->pc.size();
        std::vector<SP> merged; std::vector<std::set<size_t>> from;
        for (size_t i = 0; i < tg.size(); i++) {
          SP n = std::make_unique<State>(*cur); addPc(*n, tg[i].first); BasicBlock *to = tg[i].second; std::vector<SP> r;
          enter(n->st.back(), to);
          if (J && to == J) r.push_back(std::move(n)); else r = execUntil(std::move(n), d, J, nest + 1);
          for (auto &x : r) {
            bool ok = false; // only states of different branch targets are told apart by the branch condition
            for (size_t q = 0; q < merged.size(); q++) if (!from[q].count(i) && mergeInto(*x, *merged[q], tg[i].first, prefix)) { merged[q] = std::move(x); from[q].insert(i); ok = true; break; }
            if (!ok) { merged.push_back(std::move(x)); from.push_back({i}); }
          }
          if ((int)merged.size() > CF.maxStates) fatal("too many states");
        }
        // states are at J (phis done) or returned from frame d
        for (auto &m : merged) {
          if (m->returned) {
            if (d == depth) { done.push_back(std::move(m)); continue; }
            // deliver the return value to the caller frame
            m->returned = false; Frame &cf = m->st.back(); Instruction *ci = &*cf.it; if (!ci->getType()->isVoidTy()) setv(cf, ci, m->ret); 
            if (auto *inv = dyn_cast<InvokeInst>(ci)) { enter(cf, inv->getNormalDest()); if (m->st.size() == depth && cf.bb == stop) { done.push_back(std::move(m)); continue; } } else ++cf.it;
            work.push_back(std::move(m)); continue;
          }
          if (m->st.size() == depth && m->st.back().bb == stop) { done.push_back(std::move(m)); continue; }
          work.push_back(std::move(m));
        }
      };
      auto jump = [&](BasicBlock *to) -> bool { enter(f, to); if (cur->st.size() == depth && to == stop) { done.push_back(std::move(cur)); return false; } return true; };
      switch (I->getOpcode()) {
      case Instruction::Ret: {
        E r; if (auto *rv = cast<ReturnInst>(I)->getReturnValue()) r = val(f, rv);
        size_t d = cur->st.size(); popFrame(*cur);
        if (d == depth) { cur->ret = r; cur->returned = true; done.push_back(std::move(cur)); alive = false; break; }
        Frame &cf = cur->st.back(); Instruction *ci = &*cf.it; if (!ci->getType()->isVoidTy()) setv(cf, ci, r);
        if (auto *inv = dyn_cast<InvokeInst>(ci)) { enter(cf, inv->getNormalDest()); if (cur->st.size() == depth && cf.bb == stop) { done.push_back(std::move(cur)); alive = false; } } else ++cf.it;
        break; }
      case Instruction::Br: {
        auto *b = cast<BranchInst>(I);
        if (b->isUnconditional()) { alive = jump(b->getSuccessor(0)); break; }
        E c = val(f, b->getCondition()); BasicBlock *t = b->getSuccessor(0), *e = b->getSuccessor(1);
        if (c.isC()) { alive = jump(c.c ? t : e); break; }
        if (t == e) { alive = jump(t); break; }
        if (f.fi->trap[t] || f.fi->trap[e]) {
          bool tt = f.fi->trap[t]; BasicBlock *tb = tt ? t : e; E bad = tt ? c : mkNot(c);
          std::string lab = "trap"; for (auto &i : *tb) if (auto *ci = dyn_cast<CallInst>(&i)) if (auto *fn = ci->getCalledFunction()) {
            lab = fn->getName().str(); if (lab == "llvm.ubsantrap") lab = std::string("undefined behaviour: ") + ubName(cast<ConstantInt>(ci->getArgOperand(0))->getZExtValue()); else if (lab == "vp_fail") lab = failLabel(*cur, ci); break; }
          bool hard = lab.rfind("assert:", 0) == 0;
          if (!(f.fi->trap[t] && f.fi->trap[e])) {
            addOblig(*cur, lab, bad, !hard, I); if (hard) noteAssert(*cur, lab);
            E good = mkNot(bad); if (good.isC() && !good.c) { alive = false; nPathsEnd++; break; }
            // the good side must still be possible
            if (!feasible(*cur, good)) { nPathsEnd++; alive = false; break; }
            addPc(*cur, good); alive = jump(tt ? e : t); break; }
        }
        bool ft = feasible(*cur, c), fe = feasible(*cur, mkNot(c));
        if (!ft && !fe) { alive = false; nPathsEnd++; break; }
        if (ft != fe) { addPc(*cur, ft ? c : mkNot(c)); alive = jump(ft ? t : e); break; }
        fork({{c, t}, {mkNot(c), e}}); alive = false; break; }
      case Instruction::Switch: {
        auto *sw = cast<SwitchInst>(I); E c = val(f, sw->getCondition());
        if (c.isC()) { auto *ci = ConstantInt::get(cast<IntegerType>(sw->getCondition()->getType()), c.c); alive = jump(sw->findCaseValue(ci)->getCaseSuccessor()); break; }
        std::map<BasicBlock *, E> cond; std::vector<BasicBlock *> order; E none = T();
        for (auto &cs : sw->cases()) { E q = mkEq(c, cst(cs.getCaseValue())); auto *bb = cs.getCaseSuccessor(); if (!cond.count(bb)) { order.push_back(bb); cond[bb] = q; } else cond[bb] = mkOr(cond[bb], q); none = mkAnd(none, mkNot(q)); }
        { auto *bb = sw->getDefaultDest(); if (!cond.count(bb)) { order.push_back(bb); cond[bb] = none; } else cond[bb] = mkOr(cond[bb], none); }
        std::vector<std::pair<E, BasicBlock *>> tg; for (auto *bb : order) if (feasible(*cur, cond[bb])) tg.push_back({cond[bb], bb});
        if (tg.empty()) { alive = false; break; }
        if (tg.size() == 1) { addPc(*cur, tg[0].first); alive = jump(tg[0].second); break; }
        fork(tg); alive = false; break; }
      case Instruction::Unreachable: addOblig(*cur, "unreachable code reached", T(), true, I); nPathsEnd++; alive = false; break;
      case Instruction::Call: case Instruction::Invoke: {
        CallRes r = doCall(*cur, cast<CallBase>(I));
        if (r.r == CallRes::Dead) { alive = false; nPathsEnd++; break; }
        if (r.r == CallRes::Next) { if (auto *inv = dyn_cast<InvokeInst>(I)) alive = jump(inv->getNormalDest()); else ++cur->st.back().it; }
        break; }
      default: if (!step(*cur, f, I)) { alive = false; nPathsEnd++; break; } ++f.it; break;
      }
      if (splitPending.size()) { // vp_split: enumerate values of an expression
        E x = splitPending[0]; u64 mx = splitPending[1].c; splitPending.clear(); alive = false;
        // note: cur already moved past the call with its result set to x
        u64 cnt = 0; 
        for (u64 v = eUMin(x); v <= std::min(mx, eUMax(x)); v++) { E q = mkEq(x, mkC(v, 64)); if (!feasible(*cur, q)) continue; cnt++;
          SP n = std::make_unique<State>(*cur); addPc(*n, q); Frame &nf = n->st.back(); auto pit = std::prev(nf.it); setv(nf, &*pit, mkC(v, 64)); work.push_back(std::move(n)); }
        E over = mk(O_ULT, mkC(mx, 64), x); if (feasible(*cur, over)) { if (CF.feasMs) fatal("vp_split: value above its bound"); addOblig(*cur, "vp_split: value above its bound", over, true, nullptr); }
      }
    }
  }
  return done;
}

// ------------------------------------------------------------------ reporting
static std::string js(const std::string &s) { std::string r = "\""; for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c < 32) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; } else r += c; } return r + "\""; }
static std::string modelJson(const Model &m) {
  std::map<std::string, u64> vals; for (auto &kv : inputs) { auto it = m.v.find(kv.first); std::string b = kv.first.substr(0, kv.first.find('|')); if (it != m.v.end()) vals[b] = it->second.getZExtValue(); else vals.emplace(b, kv.second.second.first); }
  std::string r = "{"; bool first = true; for (auto &kv : vals) { if (!first) r += ","; first = false; r += js(kv.first) + ":" + js(std::to_string(kv.second)); } return r + "}"; }
// labels no path has been shown to reach yet: the full portfolio on the paths met
static void settleReach() {
  double until = nowS() + 60;
  // the paths that passed most assertions first: what reaches the last one has reached the others
  std::vector<std::pair<std::string, Pending *>> all; for (auto &kv : pendingReach) for (auto &p : kv.second) all.push_back({kv.first, &p});
  std::stable_sort(all.begin(), all.end(), [](auto &x, auto &y) { return x.second->passed.size() > y.second->passed.size(); });
  for (int round = 0; round < 2; round++) for (auto &x : all) { if (reach[x.first] == 1 || nowS() > until) continue; Model m; std::string who;
    if (decide(slv, x.second->pc, CF.feasMs * 2, round ? 8000 : 1500, &m, who, CF.scratch) == V_SAT) { reach[x.first] = 1; witness[x.first] = m; for (auto id : x.second->passed) { auto &l = labelNames[id]; if (reach[l] != 1) { reach[l] = 1; witness[l] = m; } } } }
  for (auto &kv : pendingReach) if (reach[kv.first] != 1) reach[kv.first] = -1;
}
static void finish(const std::string &err) {
  if (err.empty()) settleReach();
  int nu = 0, ns = 0, nk = 0; double tOb = nowS();
  if (err.empty()) {
    // group the soft obligations: one disjunction first
    std::vector<size_t> soft, hard; for (size_t i = 0; i < obligs.size(); i++) (obligs[i].soft ? soft : hard).push_back(i);
    // obligations with identical constraints are solved once
    auto solveOne = [&](Oblig &o, int limit) {
      double t0 = nowS(); int left = std::min<int>(limit, (int)(CF.totalMs - (nowS() - tStart) * 1000)); std::string keep; if (!CF.keepDir.empty()) { keep = CF.keepDir + "/" + CF.entry + "_" + std::to_string(&o - &obligs[0]) + ".smt2"; }
      Verdict v = left <= 100 ? V_UNKNOWN : decide(slv, o.conj, std::min(CF.quickMs, left), left, &o.model, o.solver, CF.scratch, keep);
      o.verdict = v == V_UNSAT ? "unsat" : v == V_SAT ? "sat" : "unknown"; o.time = nowS() - t0; };
    bool softDone = false;
    if (soft.size() > 3) {
      E any = F(); for (auto i : soft) { E c = T(); for (auto &e : obligs[i].conj) c = mkAnd(c, e); any = mkOr(any, c); }
      std::string who; Model m; double t0 = nowS(); Verdict v = decide(slv, {any}, 4000, std::min(CF.obligMs, CF.totalMs / 3), &m, who, CF.scratch);
      if (v == V_UNSAT) { softDone = true; for (auto i : soft) { obligs[i].verdict = "unsat"; obligs[i].solver = who + "(batch)"; } obligs[soft[0]].time = nowS() - t0; }
    }
    if (!softDone) for (auto i : soft) { solveOne(obligs[i], CF.obligMs); if (obligs[i].verdict == "sat") { // one is enough
        break; } }
    // hard obligations, in parallel when asked
    if (CF.jobs > 1 && hard.size() > 1) {
      int J = std::min<int>(CF.jobs, hard.size()); std::vector<pid_t> ps; std::vector<std::string> fs;
      slv.stop();
      for (int j = 0; j < J; j++) { std::string fn = CF.scratch + "/ob" + std::to_string(getpid()) + "_" + std::to_string(j); fs.push_back(fn); pid_t p = fork();
        if (p == 0) { slv.pid = -1; std::ofstream o(fn); gStats = Stats(); for (size_t k = j; k < hard.size(); k += J) { auto &ob = obligs[hard[k]]; solveOne(ob, CF.obligMs);
            o << hard[k] << " " << ob.verdict << " " << (ob.solver.empty() ? "none" : ob.solver) << " " << ob.time << " " << ob.model.v.size(); for (auto &kv : ob.model.v) o << " " << kv.first << " " << kv.second.getBitWidth() << " " << kv.second.getZExtValue(); o << "\n" << std::flush; if (ob.verdict == "sat") break; }
          o << "stats " << gStats.queries << " " << gStats.time << "\n"; o.close(); slv.stop(); _exit(0); }
        ps.push_back(p); }
      for (auto p : ps) { int st; waitpid(p, &st, 0); }
      for (auto &fn : fs) { std::ifstream in(fn); std::string a; while (in >> a) { if (a == "stats") { u64 q; double t; in >> q >> t; gStats.queries += q; gStats.time += t; continue; }
          auto &ob = obligs[std::stoul(a)]; size_t n; in >> ob.verdict >> ob.solver >> ob.time >> n; gStats.bySolver[ob.solver]++; for (size_t k = 0; k < n; k++) { std::string nm; unsigned w; u64 v; in >> nm >> w >> v; ob.model.v.emplace(nm, APInt(w, v)); } } unlink(fn.c_str()); }
    } else for (auto i : hard) { solveOne(obligs[i], CF.obligMs); if (obligs[i].verdict == "sat") break; }
  }
  else { // exploration was not completed: a violation met on the way still counts
    double t1 = nowS(); int tried = 0;
    std::stable_sort(obligs.begin(), obligs.end(), [](const Oblig &a, const Oblig &b) { return !a.soft && b.soft; });
    for (auto &o : obligs) { if (nowS() - t1 > 60 || tried++ > 400) break; Verdict v = decide(slv, o.conj, 1000, 5000, &o.model, o.solver, CF.scratch); o.verdict = v == V_UNSAT ? "unsat" : v == V_SAT ? "sat" : "unknown"; if (v == V_SAT) break; }
  }
  for (auto &o : obligs) { if (o.verdict == "unsat") nu++; else if (o.verdict == "sat") ns++; else { nk++; } }
  std::string st = !err.empty() ? (ns ? "violated" : "error") : ns ? "violated" : nk ? "unknown" : "ok";
  std::string vac; for (auto &l : expectedLabels) if (!reach.count(l) || reach[l] != 1) vac += (vac.empty() ? "" : ", ") + l;
  if (st == "ok" && !vac.empty()) st = "vacuous";
  std::ostringstream o; o << "{\"entry\":" << js(CF.entry) << ",\"status\":" << js(st) << ",\"error\":" << js(err) << ",\"vacuous\":" << js(vac);
  o << ",\"generalised\":" << (generalised ? "true" : "false") << ",\"steps\":" << steps << ",\"forks\":" << nForks << ",\"merges\":" << nMerges << ",\"nodes\":" << nodeCount() << ",\"unknown_feasibility\":" << unkFeas
    << ",\"queries\":" << gStats.queries << ",\"feasibility_checks\":" << gStats.feas << ",\"solver_s\":" << gStats.time << ",\"wall_s\":" << nowS() - tStart;
  if (nFolded) gStats.bySolver["simplifier"] += nFolded;
  o << ",\"n_obligations\":" << obligs.size() + nFolded << ",\"unsat\":" << nu + nFolded << ",\"sat\":" << ns << ",\"undecided\":" << nk;
  o << ",\"by_solver\":{"; { bool f = true; for (auto &kv : gStats.bySolver) { o << (f ? "" : ",") << js(kv.first) << ":" << kv.second; f = false; } } o << "}";
  o << ",\"inputs\":{"; { bool f = true; for (auto &kv : inputs) { o << (f ? "" : ",") << js(kv.first) << ":" << kv.second.first; f = false; } } o << "}";
  o << ",\"cuts\":{"; { bool f = true; for (auto &kv : cuts) { o << (f ? "" : ",") << js(kv.first) << ":" << kv.second; f = false; } } o << "}";
  o << ",\"functions\":["; { bool f = true; for (auto &n : encoded) { o << (f ? "" : ",") << js(n); f = false; } } o << "]";
  o << ",\"reached\":["; { bool f = true; for (auto &kv : reach) if (kv.second == 1) { o << (f ? "" : ",") << js(kv.first); f = false; } } o << "]";
  o << ",\"witness\":{"; { bool f = true; for (auto &kv : witness) { o << (f ? "" : ",") << js(kv.first) << ":" << modelJson(kv.second); f = false; } } o << "}";
  o << ",\"assumptions\":["; { bool f = true; for (auto &n : assumptions) { o << (f ? "" : ",") << js(n); f = false; } } o << "]";
  o << ",\"violations\":["; { bool f = true; for (auto &b : obligs) if (b.verdict == "sat") { o << (f ? "" : ",") << "{\"label\":" << js(b.label) << ",\"where\":" << js(b.where) << ",\"inputs\":" << modelJson(b.model) << "}"; f = false; } } o << "]";
  o << ",\"unknowns\":["; { bool f = true; int c = 0; for (auto &b : obligs) if (b.verdict != "sat" && b.verdict != "unsat" && c++ < 10) { o << (f ? "" : ",") << "{\"label\":" << js(b.label) << ",\"where\":" << js(b.where) << ",\"time\":" << b.time << "}"; f = false; } } o << "]";
  o << ",\"traces\":{"; { bool f = true; for (auto &t : traces) if (t.second.isConst()) { SmallString<64> x; constVal(t.second).toString(x, 10, false); o << (f ? "" : ",") << js(t.first) << ":" << js(std::string(x.str())); f = false; } } o << "}";
  double mx = 0; std::string ml; for (auto &b : obligs) if (b.time > mx) { mx = b.time; ml = b.label; } o << ",\"slowest\":" << mx << ",\"slowest_label\":" << js(ml);
  o << "}\n";
  if (CF.outFile.empty()) std::cout << o.str(); else { std::ofstream f(CF.outFile); f << o.str(); }
  std::cout.flush(); slv.stop(); fflush(stdout);
  _exit(st == "ok" ? 0 : st == "violated" ? 1 : 2);
}
// labels of vp_assert / vp_reach calls reachable from the entry
static void collectLabels(Function *F, std::set<Function *> &seen) {
  if (!seen.insert(F).second) return;
  for (auto &bb : *F) for (auto &i : bb) if (auto *c = dyn_cast<CallBase>(&i)) { auto *f = c->getCalledFunction(); if (!f) continue; StringRef n = f->getName();
    if (n == "vp_reach" || n == "vp_assert") { Value *p = c->getArgOperand(n == "vp_reach" ? 0 : 1)->stripPointerCasts(); if (auto *g = dyn_cast<GlobalVariable>(p)) if (g->hasInitializer()) if (auto *ds = dyn_cast<ConstantDataSequential>(g->getInitializer())) { std::string l = ds->isCString() ? ds->getAsCString().str() : ""; if (!l.empty() && l.rfind("opt:", 0) != 0) expectedLabels.insert((n == "vp_assert" ? "assert:" : "reach:") + l); } }
    if (!f->isDeclaration()) collectLabels(f, seen); }
}
static void runMain() {
  LLVMContext ctx; SMDiagnostic d; auto m = parseIRFile(CF.bc, d, ctx); if (!m) { fprintf(stderr, "cannot read %s\n", CF.bc.c_str()); _exit(3); }
  M = m.get(); DL = &M->getDataLayout();
  Function *f = M->getFunction(CF.entry); if (!f || f->isDeclaration()) { fprintf(stderr, "no entry %s\n", CF.entry.c_str()); _exit(3); }
  for (auto &g : M->globals()) (void)g;
  std::set<Function *> seen; collectLabels(f, seen);
  SP s = std::make_unique<State>();
  auto run = [&](Function *fn, SP st) { Frame fr; fr.fi = &info(fn); fr.bb = &fn->getEntryBlock(); fr.it = fr.bb->begin(); fr.regs.resize(fr.fi->n); st->st.push_back(fr); return execUntil(std::move(st), 1, nullptr, 0); };
  // global constructors
  if (auto *gc = M->getGlobalVariable("llvm.global_ctors")) if (auto *ca = dyn_cast<ConstantArray>(gc->getInitializer())) {
    for (auto &op : ca->operands()) { auto *fn = dyn_cast<Function>(cast<Constant>(op)->getOperand(1)->stripPointerCasts()); if (!fn || fn->isDeclaration()) continue; auto r = run(fn, std::move(s)); if (r.size() != 1) fatal("global constructor forked"); s = std::move(r[0]); s->returned = false; } }
  encoded.clear();
  auto r = run(f, std::move(s));
  nPathsEnd += r.size();
  if (r.empty() && obligs.empty() && reach.empty()) finish("no path reaches the end of the harness");
  finish(incomplete);
}
int main(int argc, char **argv) {
  tStart = nowS();
  for (int i = 1; i < argc; i++) { std::string a = argv[i]; auto nx = [&]() { return std::string(argv[++i]); };
    if (a == "--entry") CF.entry = nx(); else if (a == "--out") CF.outFile = nx(); else if (a == "--scratch") CF.scratch = nx(); else if (a == "--total") CF.totalMs = atoi(nx().c_str()) * 1000; else if (a == "--oblig") CF.obligMs = atoi(nx().c_str()) * 1000;
    else if (a == "--feas") CF.feasMs = atoi(nx().c_str()); else if (a == "--jobs") CF.jobs = atoi(nx().c_str()); else if (a == "--keep") CF.keepDir = nx(); else if (a == "-v") CF.verbose = true; else if (a == "--nomerge") CF.mergeOff = true; else if (a == "--nogen") CF.nogen = true; else if (a == "--boxfeas") CF.boxFeas = true; else if (a == "--quick") CF.quickMs = atoi(nx().c_str());
    else if (a == "--concrete") { CF.concrete = true; std::ifstream in(nx()); std::string n; u64 v; while (in >> n >> v) CF.fixed[n] = v; }
    else CF.bc = a; }
  pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at, 2ull << 30); pthread_t th;
  if (pthread_create(&th, &at, [](void *) -> void * { runMain(); return nullptr; }, nullptr)) { perror("pthread"); return 3; }
  pthread_join(th, nullptr); return 3;
}
