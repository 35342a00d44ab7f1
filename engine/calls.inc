// calls, intrinsics and plain instructions
static std::vector<E> splitPending;
static const char *ubName(u64 k) {
  static const char *n[] = {"signed addition overflow", "builtin unreachable", "cfi", "division by zero or overflow", "vptr", "float to integer conversion out of range", "function type", "implicit conversion", "invalid builtin argument", "objc cast", "invalid bool/enum load", "missing return", "signed multiplication overflow", "negation overflow", "null argument", "null return", "nonnull argument", "nonnull return", "array index out of bounds", "pointer overflow", "shift out of range", "signed subtraction overflow", "null or misaligned access", "alignment assumption", "vla bound"};
  return k < sizeof n / sizeof *n ? n[k] : "undefined behaviour";
}
static std::string litStr(const Value *v) { v = v->stripPointerCasts(); if (auto *g = dyn_cast<GlobalVariable>(v)) if (g->hasInitializer()) if (auto *ds = dyn_cast<ConstantDataSequential>(g->getInitializer())) if (ds->isCString()) return ds->getAsCString().str(); return ""; }
static std::string failLabel(State &s, CallInst *c) { std::string l = litStr(c->getArgOperand(0)); return l.empty() ? "vp_fail" : "fail: " + l; }
static std::map<std::string, double> reachSpent;
static void noteReach(State &s, const std::string &l) {
  auto li = labelIds.find(l); if (li == labelIds.end()) { li = labelIds.emplace(l, (uint16_t)labelNames.size()).first; labelNames.push_back(l); } s.passed.insert(li->second);
  assertHits[l]++; auto it = reach.find(l); if (it != reach.end() && it->second == 1) return;
  u64 h = assertHits[l]; if (h > 64 && (h & (h - 1))) return;
  auto &p = pendingReach[l]; if (!reach.count(l)) reach[l] = 0;
  double &spent = reachSpent[l]; if (spent > 3 || reachSpentAll > 15 || !CF.feasMs) { Model m; if (slv.cheap(s.pc, &m)) { for (auto id : s.passed) { auto &q = labelNames[id]; if (reach[q] != 1) { reach[q] = 1; witness[q] = m; } } return; }
     if (p.size() < 8) p.push_back({s.pc, s.passed}); else p[h % 8] = {s.pc, s.passed}; return; }
  double t0 = nowS(); Model m; Verdict v = slv.check(s.pc, 400, &m); spent += nowS() - t0; reachSpentAll += nowS() - t0; // other paths may be easier: the rest is left to settleReach
  if (v == V_SAT) { for (auto id : s.passed) { auto &q = labelNames[id]; if (reach[q] != 1) { reach[q] = 1; witness[q] = m; } } return; }
  if (v == V_UNKNOWN) { if (p.size() < 8) p.push_back({s.pc, s.passed}); else p[h % 8] = {s.pc, s.passed}; }
}
static void noteAssert(State &s, const std::string &l) { noteReach(s, l); }
static E loadBytes(State &s, u64 a, u64 i) { return loadMem(s, mkC(a + i, 64), 1, false, nullptr); }
static void memCopy(State &s, E dst, E src, u64 n, const Instruction *I) {
  if (!n) return;
  if (dst.isC() && src.isC()) {
    bool i1, i2; uint32_t a = objAt(dst.c, i1), b = objAt(src.c, i2);
    if (a == ~0u || b == ~0u) { addOblig(s, "memcpy on an invalid pointer", T(), true, I); return; }
    u64 od = dst.c - objs[a].base, os = src.c - objs[b].base; ObjP so = getObj(s, b); ObjP d = wrObj(s, a);
    if (!so || !d || od > objs[a].size || objs[a].size - od < n || os > objs[b].size || objs[b].size - os < n) { addOblig(s, "memcpy out of bounds", T(), true, I); return; }
    so = getObj(s, b);
    std::vector<uint8_t> tb(so->b.begin() + os, so->b.begin() + os + n); std::vector<Cell> tc; if (so->sym) tc.assign(so->c.begin() + os, so->c.begin() + os + n);
    if (!tc.empty() && !d->sym) { d->sym = true; d->c.resize(d->b.size()); }
    std::copy(tb.begin(), tb.end(), d->b.begin() + od); if (d->sym) { if (tc.empty()) std::fill(d->c.begin() + od, d->c.begin() + od + n, Cell()); else std::copy(tc.begin(), tc.end(), d->c.begin() + od); }
    return;
  }
  std::vector<E> v; u64 i = 0; std::vector<unsigned> us; while (i < n) { unsigned u = n - i >= 8 ? 8 : n - i >= 4 ? 4 : 1; v.push_back(loadMem(s, mk(O_ADD, src, mkC(i, 64)), u, false, I)); us.push_back(u); i += u; }
  i = 0; for (size_t k = 0; k < v.size(); k++) { if (v[k].valid()) storeMem(s, mk(O_ADD, dst, mkC(i, 64)), v[k], I); i += us[k]; }
}
static E mathCall(State &s, const std::string &f, std::vector<E> a, unsigned w) {
  assumptions.insert("libm " + f + " is any function satisfying its contract (refined at solver-chosen points with the host libm)");
  return mkUF(f, a, w);
}
static bool plainCall(State &s, Frame &f, CallBase *c, StringRef nm, E &res, bool &dead);

static CallRes doCall(State &s, CallBase *c) {
  Frame &f = s.st.back(); Function *fn = c->getCalledFunction();
  if (!fn) {
    if (auto *al = dyn_cast<GlobalAlias>(c->getCalledOperand()->stripPointerCasts())) fn = dyn_cast<Function>(al->getAliasee());
    if (!fn) { if (isa<InlineAsm>(c->getCalledOperand())) fatal("inline asm"); E p = val(f, c->getCalledOperand()); if (!p.isC()) { // symbolic target: try the leaves
          fatal("symbolic call target"); }
      auto it = funcAt.find(p.c); if (it == funcAt.end()) { addOblig(s, "call through an invalid pointer", T(), true, c); return {CallRes::Dead}; } fn = it->second; }
  }
  StringRef nm = fn->getName();
  E res; bool dead = false;
  if (nm.starts_with("llvm.") || nm.starts_with("vp_") || fn->isDeclaration() || nm == "_Znwm" || nm == "_ZN5boost6system6detail8snprintfEPcmPKcz") {
    if (plainCall(s, f, c, nm, res, dead)) { if (dead) return {CallRes::Dead}; if (!c->getType()->isVoidTy()) { if (!res.valid()) { return {CallRes::Dead}; } setv(s.st.back(), c, res); } return {CallRes::Next}; }
    if (fn->isDeclaration()) fatal("call of an unmodelled external function " + demangle(nm.str()));
  }
  encoded.insert(demangle(nm.str()));
  if (s.st.size() > 400) fatal("call stack too deep");
  Frame nf; nf.fi = &info(fn); nf.bb = &fn->getEntryBlock(); nf.it = nf.bb->begin(); nf.regs.resize(nf.fi->n); nf.call = c;
  for (unsigned i = 0; i < fn->arg_size(); i++) { E a = val(f, c->getArgOperand(i));
    if (fn->getArg(i)->hasByValAttr()) { u64 sz = DL->getTypeAllocSize(fn->getParamByValType(i)); E p = allocObj(s, sz, 16, "byval"); bool in; nf.allocas.push_back(objAt(p.c, in)); memCopy(s, p, a, sz, c); a = p; }
    nf.regs[nf.fi->num.find(fn->getArg(i))->second] = a; }
  s.st.push_back(std::move(nf)); return {CallRes::Pushed};
}
static E satOp(bool add, bool sg, E a, E b) {
  unsigned w = a.w; if (!sg) { if (add) { E r = mk(O_ADD, a, b); return mkIte(mk(O_ULT, r, a), mkBig(APInt::getAllOnes(w)), r); } return mkIte(mk(O_ULT, a, b), mkC(0, w), mk(O_SUB, a, b)); }
  E x = mkSExt(a, w + 1), y = mkSExt(b, w + 1), r = add ? mk(O_ADD, x, y) : mk(O_SUB, x, y); E mx = mkBig(APInt::getSignedMaxValue(w).sext(w + 1)), mn = mkBig(APInt::getSignedMinValue(w).sext(w + 1));
  return mkExtract(mkIte(mk(O_SLT, mx, r), mx, mkIte(mk(O_SLT, r, mn), mn, r)), 0, w);
}
static E ctz(E a) { E r = mkC(a.w, a.w); for (unsigned i = a.w; i-- > 0;) r = mkIte(mkExtract(a, i, 1), mkC(i, a.w), r); return r; }
static E clz(E a) { E r = mkC(a.w, a.w); for (unsigned i = 0; i < a.w; i++) r = mkIte(mkExtract(a, i, 1), mkC(a.w - 1 - i, a.w), r); return r; }
static E popc(E a) { E r = mkC(0, a.w); for (unsigned i = 0; i < a.w; i++) r = mk(O_ADD, r, mkZExt(mkExtract(a, i, 1), a.w)); return r; }
static E i1(E e) { return e; }

// ---- generalisation: replace proved-equal values by one fresh value throughout the state
static E substE(const E &e, std::unordered_map<const Node *, E> &memo) {
  if (e.isConst() || e.n->op == O_VAR) { if (e.n) { auto it = memo.find(e.n); if (it != memo.end()) return it->second; } return e; }
  auto it = memo.find(e.n); if (it != memo.end()) return it->second;
  std::vector<E> k; bool ch = false; for (auto &x : e.n->kids) { E y = substE(x, memo); if (y != x) ch = true; k.push_back(y); }
  E r = e; const Node *n = e.n;
  if (ch) switch (n->op) {
    case O_TUPLE: r = mkTuple(k); break; case O_EXTRACT: r = mkExtract(k[0], n->p0, n->w); break; case O_CONCAT: r = mkConcat(k[0], k[1]); break;
    case O_ZEXT: r = mkZExt(k[0], n->w); break; case O_SEXT: r = mkSExt(k[0], n->w); break; case O_ITE: r = mkIte(k[0], k[1], k[2]); break; case O_EQ: r = mkEq(k[0], k[1]); break;
    case O_UF: r = mkUF(ufName(n->p0), k, n->w); break;
    case O_FNEG: case O_FABS: case O_FSQRT: case O_FISNAN: case O_FISINF: case O_BV2FP: case O_FP2BV: r = mk(n->op, k[0]); break;
    case O_FMA: case O_FRINT: case O_FP2FP: case O_SI2F: case O_UI2F: case O_F2SI: case O_F2UI: case O_FREM: r = mkF(n->op, k, n->w, n->k, n->p0); break;
    default: if (k.size() != 2) fatal("substitution"); r = mk(n->op, k[0], k[1]);
  }
  memo.emplace(n, r); return r;
}
static void substState(State &s, const std::vector<std::pair<E, E>> &what) {
  std::unordered_map<const Node *, E> memo; for (auto &p : what) if (p.first.n) memo[p.first.n] = p.second;
  for (auto &fr : s.st) for (auto &r : fr.regs) if (r.valid()) r = substE(r, memo);
  std::vector<uint32_t> ids; for (auto &m : s.mem) if (m.second && m.second->sym) ids.push_back(m.first);
  for (uint32_t id : ids) { ObjP o = wrObj(s, id); size_t n = o->c.size(), i = 0;
    while (i < n) { const Node *nd = o->c[i].n; if (!nd) { i++; continue; }
      E r = substE(nodeE(nd), memo); uint8_t ix = o->c[i].idx; if (r.n != nd) { if (r.isConst()) { APInt v = constVal(r); o->b[i] = (uint8_t)v.extractBitsAsZExtValue(8, ix * 8); o->c[i].n = nullptr; } else o->c[i].n = r.n; } i++; } }
}
static E coreOf(E e) { while (e.n && e.n->op == O_ZEXT) e = e.n->kids[0]; if (e.n && e.n->op == O_ITE && e.n->kids[1].isC() && e.n->kids[2].isC() && e.n->kids[1].c == 1 && e.n->kids[2].c == 0) e = e.n->kids[0]; return e; }
static unsigned nFresh = 0;
static bool plainCall(State &s, Frame &f, CallBase *c, StringRef nm, E &res, bool &dead) {
  auto A = [&](unsigned i) { return val(f, c->getArgOperand(i)); };
  auto rw = [&]() { return tw(c->getType()); };
  if (auto *ii = dyn_cast<IntrinsicInst>(c)) {
    switch (ii->getIntrinsicID()) {
    case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::invariant_end: case Intrinsic::prefetch: return true;
    case Intrinsic::invariant_start: res = mkC(0, 64); return true;
    case Intrinsic::assume: return true;
    case Intrinsic::stacksave: res = mkC(0, 64); return true; case Intrinsic::stackrestore: return true;
    case Intrinsic::expect: res = A(0); return true;
    case Intrinsic::is_constant: res = F(); return true;
    case Intrinsic::objectsize: res = mkBig(APInt::getAllOnes(rw())); return true;
    case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: res = A(0); return true;
    case Intrinsic::threadlocal_address: res = A(0); return true;
    case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: { E n = A(2); if (!n.isC()) { fatal("memcpy of symbolic length"); } memCopy(s, A(0), A(1), n.c, c); return true; }
    case Intrinsic::memset: { E n = A(2), v = A(1), d = A(0); if (!n.isC()) fatal("memset of symbolic length"); for (u64 i = 0; i < n.c; i++) if (!storeMem(s, mk(O_ADD, d, mkC(i, 64)), v, c)) { dead = true; return true; } return true; }
    case Intrinsic::umin: { E a = A(0), b = A(1); res = mkIte(mk(O_ULT, a, b), a, b); return true; }
    case Intrinsic::umax: { E a = A(0), b = A(1); res = mkIte(mk(O_ULT, a, b), b, a); return true; }
    case Intrinsic::smin: { E a = A(0), b = A(1); res = mkIte(mk(O_SLT, a, b), a, b); return true; }
    case Intrinsic::smax: { E a = A(0), b = A(1); res = mkIte(mk(O_SLT, a, b), b, a); return true; }
    case Intrinsic::abs: { E a = A(0); res = mkIte(mk(O_SLT, a, mkC(0, a.w)), mk(O_SUB, mkC(0, a.w), a), a); return true; }
    case Intrinsic::ctlz: res = clz(A(0)); return true; case Intrinsic::cttz: res = ctz(A(0)); return true; case Intrinsic::ctpop: res = popc(A(0)); return true;
    case Intrinsic::bswap: { E a = A(0); E r = mkExtract(a, 0, 8); for (unsigned i = 8; i < a.w; i += 8) r = mkConcat(r, mkExtract(a, i, 8)); res = r; return true; }
    case Intrinsic::bitreverse: { E a = A(0); E r = mkExtract(a, 0, 1); for (unsigned i = 1; i < a.w; i++) r = mkConcat(r, mkExtract(a, i, 1)); res = r; return true; }
    case Intrinsic::fshl: case Intrinsic::fshr: { bool left = ii->getIntrinsicID() == Intrinsic::fshl; E a = A(0), b = A(1), sh = A(2); unsigned w = a.w; E cc = mkConcat(a, b); E k = mk(O_UREM, sh, mkC(w, w));
        if (k.isC()) { unsigned n = k.c; res = left ? mkExtract(cc, w - n, w) : mkExtract(cc, n, w); }
        else { E kk = mkZExt(k, 2 * w); res = left ? mkExtract(mk(O_SHL, cc, kk), w, w) : mkExtract(mk(O_LSHR, cc, kk), 0, w); } return true; }
    case Intrinsic::uadd_sat: res = satOp(true, false, A(0), A(1)); return true; case Intrinsic::usub_sat: res = satOp(false, false, A(0), A(1)); return true;
    case Intrinsic::sadd_sat: res = satOp(true, true, A(0), A(1)); return true; case Intrinsic::ssub_sat: res = satOp(false, true, A(0), A(1)); return true;
    case Intrinsic::uadd_with_overflow: { E a = A(0), b = A(1), r = mk(O_ADD, a, b); res = mkTuple({r, mk(O_ULT, r, a)}); return true; }
    case Intrinsic::usub_with_overflow: { E a = A(0), b = A(1); res = mkTuple({mk(O_SUB, a, b), mk(O_ULT, a, b)}); return true; }
    case Intrinsic::umul_with_overflow: { E a = A(0), b = A(1); unsigned w = a.w; E r = mk(O_MUL, a, b); E p = mk(O_MUL, mkZExt(a, 2 * w), mkZExt(b, 2 * w)); E ov;
        if (w <= 64 && (__uint128_t)eUMax(a) * eUMax(b) <= maskw(w)) ov = F(); else if (a.isC() || b.isC()) { E k = a.isC() ? a : b, x = a.isC() ? b : a; ov = k.c == 0 ? F() : mk(O_ULT, mkC(maskw(w) / k.c, w), x); } else ov = mkNot(mkEq(mkExtract(p, w, w), mkC(0, w))); res = mkTuple({r, ov}); return true; }
    case Intrinsic::sadd_with_overflow: { E a = A(0), b = A(1); unsigned w = a.w; E r = mk(O_ADD, mkSExt(a, w + 1), mkSExt(b, w + 1)); res = mkTuple({mk(O_ADD, a, b), mk(O_XOR, mkExtract(r, w, 1), mkExtract(r, w - 1, 1))}); return true; }
    case Intrinsic::ssub_with_overflow: { E a = A(0), b = A(1); unsigned w = a.w; E r = mk(O_SUB, mkSExt(a, w + 1), mkSExt(b, w + 1)); res = mkTuple({mk(O_SUB, a, b), mk(O_XOR, mkExtract(r, w, 1), mkExtract(r, w - 1, 1))}); return true; }
    case Intrinsic::smul_with_overflow: { E a = A(0), b = A(1); unsigned w = a.w; E p = mk(O_MUL, mkSExt(a, 2 * w), mkSExt(b, 2 * w)); E r = mk(O_MUL, a, b); res = mkTuple({r, mkNot(mkEq(p, mkSExt(r, 2 * w)))}); return true; }
    case Intrinsic::fabs: res = mk(O_FABS, A(0)); return true;
    case Intrinsic::sqrt: res = mk(O_FSQRT, A(0)); return true;
    case Intrinsic::floor: res = mkF(O_FRINT, {A(0)}, rw(), K_FP, (uint8_t)RoundingMode::TowardNegative); return true;
    case Intrinsic::ceil: res = mkF(O_FRINT, {A(0)}, rw(), K_FP, (uint8_t)RoundingMode::TowardPositive); return true;
    case Intrinsic::trunc: res = mkF(O_FRINT, {A(0)}, rw(), K_FP, (uint8_t)RoundingMode::TowardZero); return true;
    case Intrinsic::round: res = mkF(O_FRINT, {A(0)}, rw(), K_FP, (uint8_t)RoundingMode::NearestTiesToAway); return true;
    case Intrinsic::rint: case Intrinsic::nearbyint: res = mkF(O_FRINT, {A(0)}, rw(), K_FP, (uint8_t)RoundingMode::NearestTiesToEven); return true;
    case Intrinsic::fma: res = mk(O_FMA, A(0), A(1), A(2)); return true;
    case Intrinsic::fmuladd: res = mk(O_FADD, mk(O_FMUL, A(0), A(1)), A(2)); return true;
    case Intrinsic::copysign: { E a = A(0), b = A(1); unsigned w = a.w; E x = mk(O_FP2BV, a), y = mk(O_FP2BV, b); res = mk(O_BV2FP, mkConcat(mkExtract(y, w - 1, 1), mkExtract(x, 0, w - 1))); return true; }
    case Intrinsic::minnum: case Intrinsic::maxnum: { E a = A(0), b = A(1); bool mn = ii->getIntrinsicID() == Intrinsic::minnum; E r = mkIte(mn ? mk(O_FLT, b, a) : mk(O_FLT, a, b), b, a); res = mkIte(mk(O_FISNAN, a), b, mkIte(mk(O_FISNAN, b), a, r)); return true; }
    case Intrinsic::log: res = mathCall(s, "log", {A(0)}, rw()); return true; case Intrinsic::exp: res = mathCall(s, "exp", {A(0)}, rw()); return true;
    case Intrinsic::exp2: res = mathCall(s, "exp2", {A(0)}, rw()); return true; case Intrinsic::log2: res = mathCall(s, "log2", {A(0)}, rw()); return true; case Intrinsic::log10: res = mathCall(s, "log10", {A(0)}, rw()); return true;
    case Intrinsic::pow: res = mathCall(s, "pow", {A(0), A(1)}, rw()); return true; case Intrinsic::sin: res = mathCall(s, "sin", {A(0)}, rw()); return true; case Intrinsic::cos: res = mathCall(s, "cos", {A(0)}, rw()); return true;
    case Intrinsic::powi: { E a = A(0), n = A(1); if (!n.isC()) fatal("powi"); int k = (int)(int32_t)n.c; bool neg = k < 0; if (neg) k = -k; E r; bool h = false; for (int i = 0; i < k; i++) { r = h ? mk(O_FMUL, r, a) : a; h = true; } APFloat one(1.0); bool li; one.convert(semOf(rw()), APFloat::rmNearestTiesToEven, &li); E e1 = mkFPC(one.bitcastToAPInt().getZExtValue(), rw()); if (!h) r = e1; if (neg) r = mk(O_FDIV, e1, r); res = r; return true; }
    case Intrinsic::is_fpclass: { E a = A(0); u64 m = A(1).c; unsigned w = a.w; E r = F(); E nan = mk(O_FISNAN, a), inf = mk(O_FISINF, a); E neg = mkExtract(mk(O_FP2BV, a), w - 1, 1);
        if ((m & 3) == 3) r = mkOr(r, nan); else if (m & 3) fatal("is.fpclass snan"); if (m & 4) r = mkOr(r, mkAnd(inf, neg)); if (m & 0x200) r = mkOr(r, mkAnd(inf, mkNot(neg)));
        u64 fin = m & 0x1f8; if (fin == 0x1f8) r = mkOr(r, mkNot(mkOr(nan, inf))); else if (fin) { 
          unsigned ex = w == 16 ? 5 : w == 32 ? 8 : 11, sg = w - ex - 1; E b = mk(O_FP2BV, a); E e0 = mkEq(mkExtract(b, sg, ex), mkC(0, ex)), e1 = mkEq(mkExtract(b, sg, ex), mkC(maskw(ex), ex)), f0 = mkEq(mkExtract(b, 0, sg), mkC(0, sg)); E nrm = mkAnd(mkNot(e0), mkNot(e1)), sub = mkAnd(e0, mkNot(f0)), zer = mkAnd(e0, f0);
          if (m & 8) r = mkOr(r, mkAnd(neg, nrm)); if (m & 16) r = mkOr(r, mkAnd(neg, sub)); if (m & 32) r = mkOr(r, mkAnd(neg, zer)); if (m & 64) r = mkOr(r, mkAnd(mkNot(neg), zer)); if (m & 128) r = mkOr(r, mkAnd(mkNot(neg), sub)); if (m & 256) r = mkOr(r, mkAnd(mkNot(neg), nrm)); }
        res = r; return true; }
    case Intrinsic::ubsantrap: addOblig(s, std::string("undefined behaviour: ") + ubName(A(0).c), T(), true, c); dead = true; return true;
    case Intrinsic::trap: addOblig(s, "trap", T(), true, c); dead = true; return true;
    case Intrinsic::vector_reduce_add: case Intrinsic::vector_reduce_xor: case Intrinsic::vector_reduce_or: case Intrinsic::vector_reduce_and: { E v = A(0), r = v.n->kids[0]; for (size_t i = 1; i < v.n->kids.size(); i++) r = mk(ii->getIntrinsicID() == Intrinsic::vector_reduce_add ? O_ADD : ii->getIntrinsicID() == Intrinsic::vector_reduce_xor ? O_XOR : ii->getIntrinsicID() == Intrinsic::vector_reduce_or ? O_OR : O_AND, r, v.n->kids[i]); res = r; return true; }
    default: fatal("intrinsic " + nm.str());
    }
  }
  std::string n = nm.str();
  // ---- harness interface
  if (n.rfind("vp_", 0) == 0) {
    if (n == "vp_in" || n == "vp_range") {
      std::string base = cstr(s, A(0)); E wv = A(1); if (!wv.isC()) fatal("vp_in width"); unsigned w = wv.c; u64 lo = 0, hi = maskw(w);
      if (n == "vp_range") { E l = A(2), h = A(3); if (!l.isC() || !h.isC()) fatal("vp_range bounds"); lo = l.c; hi = h.c; }
      std::string name = base + "#" + std::to_string(s.occ[base]++);
      { auto it = inputs.find(name); if (it == inputs.end()) inputs[name] = {w, {lo, hi}}; else if (it->second != std::make_pair(w, std::make_pair(lo, hi)) && !CF.concrete) { name += "|" + std::to_string(w) + "|" + std::to_string(lo) + "|" + std::to_string(hi); inputs[name] = {w, {lo, hi}}; } } // another range on another path: another variable
      if (CF.concrete) { auto it = CF.fixed.find(name); u64 v = it == CF.fixed.end() ? lo : it->second; res = mkC(v & maskw(w), 64); return true; }
      res = lo == hi ? mkC(lo, 64) : mkZExt(mkVar(name, w, K_BV, lo, hi), 64); return true;
    }
    if (n == "vp_gen") { // a == b was asserted before; 0 <= a <= hi is checked here
      E a = A(0), b = A(1), h = A(2); if (!h.isC()) fatal("vp_gen bound"); addOblig(s, "generalised value out of range", mk(O_ULT, h, a), false, c);
      if (CF.concrete || CF.nogen || (a.isConst() && b.isConst())) { res = a; return true; }
      unsigned w = 1; while (w < 64 && (h.c >> w)) w++; E v = mkVar("gen#" + std::to_string(nFresh++), w < 2 ? 1 : w, K_BV, 0, h.c);
      std::vector<std::pair<E, E>> sub; for (E e : {a, b}) { E k = coreOf(e); if (!k.n) continue; sub.push_back({k, k.w >= v.w ? mkZExt(v, k.w) : mkExtract(v, 0, k.w)}); }
      generalised = true; substState(s, sub); res = mkZExt(v, 64); return true; }
    if (n == "vp_genf") { // x * 2^w == v was asserted before; 0 <= v < 2^w is checked here
      E x = A(0), v = A(1), wv = A(2); if (!wv.isC()) fatal("vp_genf"); unsigned w = wv.c; addOblig(s, "generalised value out of range", mk(O_ULT, mkC(maskw(w), 64), v), false, c);
      if (CF.concrete || CF.nogen || x.isConst()) { res = x; return true; }
      E fr = mkVar("gen#" + std::to_string(nFresh++), w, K_BV, 0, maskw(w)); E kx = x; while (kx.n && kx.n->op == O_FP2FP && kx.n->kids[0].w < kx.w) kx = kx.n->kids[0];
      unsigned fw = kx.w; APFloat sc = scalbn(APFloat(semOf(fw), "1.0"), -(int)w, APFloat::rmNearestTiesToEven); E nv = mk(O_FMUL, mkF(O_UI2F, {mkZExt(fr, 64)}, fw, K_FP), mkFPC(sc.bitcastToAPInt().getZExtValue(), fw));
      std::vector<std::pair<E, E>> sub; sub.push_back({kx, nv}); E kv = coreOf(v); if (kv.n) sub.push_back({kv, kv.w >= w ? mkZExt(fr, kv.w) : mkExtract(fr, 0, kv.w)});
      generalised = true; substState(s, sub); res = fw == x.w ? nv : mkF(O_FP2FP, {nv}, x.w, K_FP); return true; }
    if (n == "vp_assume") { E a = A(0); if (a.w > 1) a = mkNot(mkEq(a, mkC(0, a.w))); if (!feasible(s, a)) { dead = true; return true; } addPc(s, a); return true; }
    if (n == "vp_assert") { E a = A(0); if (a.w > 1) a = mkNot(mkEq(a, mkC(0, a.w))); E lp = A(1); std::string l = lp.isC() ? cstr(s, lp) : "(several)"; noteAssert(s, "assert:" + l); addOblig(s, "assert:" + l, mkNot(a), false, c); if (a.isC() && !a.c) { dead = true; return true; }
      return true; }
    if (n == "vp_reach") { noteReach(s, "reach:" + cstr(s, A(0))); return true; }
    if (n == "vp_cut") { cuts[cstr(s, A(0))]++; dead = true; return true; }
    if (n == "vp_end") { dead = true; return true; }
    if (n == "vp_fail") { addOblig(s, "fail: " + cstr(s, A(0)), T(), true, c); dead = true; return true; }
    if (n == "vp_native") { res = mkC(0, 32); return true; }
    if (n == "vp_trace") { static int k = 0; traces.push_back({std::to_string(k++) + ":" + cstr(s, A(0)), A(1)}); return true; }
    if (n == "vp_split") { E x = A(0), mx = A(1); if (x.isC()) { res = x; return true; } splitPending = {x, mx}; res = x; return true; }
    if (n == "vp_sym") { E x = A(0); res = mkC(x.isConst() ? 0 : 1, 32); return true; }
    if (n == "vp_exc_is") { // class of a thrown standard exception object (constructor model below)
      E p = A(0); std::string want = cstr(s, A(1)); if (!p.isC()) fatal("exception object"); E t = loadMem(s, p, 8, false, c); std::string got = "?"; if (t.isC()) { bool in; uint32_t id = objAt(t.c, in); if (id != ~0u && objs[id].name.rfind("vt:", 0) == 0) got = objs[id].name.substr(3); else if (id != ~0u && objs[id].name.find("_ZTV") != std::string::npos) { got = demangle(objs[id].name.substr(objs[id].name.find("_ZTV"))); size_t q = got.rfind(':'); if (q == std::string::npos) q = got.rfind(' '); got = got.substr(q + 1); } }
      if (got == "?") { got = "unknown"; }
      res = mkC(got == want, 1); if (c->getType()->getIntegerBitWidth() != 1) res = mkZExt(res, c->getType()->getIntegerBitWidth()); return true; }
    if (n == "vp_obj_size") { E p = A(0); if (!p.isC()) fatal("vp_obj_size"); bool in; uint32_t id = objAt(p.c, in); res = mkC(objs[id].size, 64); return true; }
    return false;
  }
  // ---- C and C++ runtime
  if (n == "_Znwm" || n == "_Znam" || n == "malloc" || n == "_ZnwmRKSt9nothrow_t" || n == "_ZnamRKSt9nothrow_t") { E sz = A(0); if (!sz.isC()) fatal("allocation of symbolic size"); if (sz.c > (1u << 26)) { addOblig(s, "huge allocation", T(), true, c); dead = true; return true; } res = allocObj(s, sz.c, 16, "heap"); return true; }
  if (n == "calloc") { E a = A(0), b = A(1); if (!a.isC() || !b.isC()) fatal("calloc"); res = allocObj(s, a.c * b.c, 16, "heap"); bool in; auto o = wrObj(s, objAt(res.c, in)); std::fill(o->b.begin(), o->b.end(), 0); return true; }
  if (n == "_ZdlPv" || n == "_ZdaPv" || n == "free" || n == "_ZdlPvm" || n == "_ZdaPvm" || n == "_ZdlPvSt11align_val_t" || n == "_ZdlPvmSt11align_val_t") {
    E p = A(0); std::vector<Target> ts; if (p.isC() && p.c == 0) return true;
    if (!p.isC()) { // conditional pointers: leave the objects allocated
      return true; }
    bool in; uint32_t id = objAt(p.c, in); if (id == ~0u || objs[id].base != p.c) { addOblig(s, "free of an invalid pointer", T(), true, c); return true; } if (!getObj(s, id)) { addOblig(s, "double free", T(), true, c); return true; } s.mem[id] = nullptr; return true; }
  if (n == "memcpy" || n == "memmove") { E k = A(2); if (!k.isC()) fatal("memcpy of symbolic length"); memCopy(s, A(0), A(1), k.c, c); res = A(0); return true; }
  if (n == "memset") { E k = A(2); if (!k.isC()) fatal("memset"); E v = mkExtract(A(1), 0, 8), d = A(0); for (u64 i = 0; i < k.c; i++) storeMem(s, mk(O_ADD, d, mkC(i, 64)), v, c); res = d; return true; }
  if (n == "memcmp" || n == "bcmp") { E k = A(2), a = A(0), b = A(1); if (!k.isC()) fatal("memcmp of symbolic length"); 
    if (n == "bcmp") { E eq = T(); u64 i = 0; while (i < k.c) { unsigned u = k.c - i >= 8 ? 8 : k.c - i >= 4 ? 4 : 1; E x = loadMem(s, mk(O_ADD, a, mkC(i, 64)), u, false, c), y = loadMem(s, mk(O_ADD, b, mkC(i, 64)), u, false, c); if (!x.valid() || !y.valid()) { dead = true; return true; } eq = mkAnd(eq, mkEq(x, y)); i += u; } res = mkIte(eq, mkC(0, 32), mkC(1, 32)); return true; }
    E r = mkC(0, 32); for (u64 i = k.c; i-- > 0;) { E x = loadMem(s, mk(O_ADD, a, mkC(i, 64)), 1, false, c), y = loadMem(s, mk(O_ADD, b, mkC(i, 64)), 1, false, c); if (!x.valid() || !y.valid()) { dead = true; return true; } r = mkIte(mkEq(x, y), r, mkIte(mk(O_ULT, x, y), mkC(~0u, 32), mkC(1, 32))); } res = r; return true; }
  if (n == "strlen") { res = mkC(cstr(s, A(0)).size(), 64); return true; }
  if (n == "strcmp") { std::string a = cstr(s, A(0)), b = cstr(s, A(1)); int r = strcmp(a.c_str(), b.c_str()); res = mkC((uint32_t)(r < 0 ? -1 : r > 0), 32); return true; }
  if (n == "__cxa_guard_acquire") { E p = A(0); E b = loadMem(s, p, 1, false, c); res = mkIte(mkEq(b, mkC(0, 8)), mkC(1, 32), mkC(0, 32)); return true; }
  if (n == "__cxa_guard_release") { storeMem(s, A(0), mkC(1, 8), c); return true; }
  if (n == "__cxa_atexit" || n == "atexit") { res = mkC(0, 32); return true; }
  if (n == "abort" || n == "_ZSt9terminatev" || n == "__cxa_pure_virtual") { addOblig(s, n == "abort" ? "abort() called" : "terminate", T(), true, c); dead = true; return true; }
  if (n.rfind("_ZSt", 0) == 0 && n.find("__throw_") != std::string::npos) { std::string d = demangle(n); addOblig(s, "standard library exception " + d, T(), true, c); dead = true; return true; }
  if (n == "snprintf" || n == "vsnprintf" || n == "_ZN5boost6system6detail8snprintfEPcmPKcz") { E k = A(1); if (!k.isC() || k.c) storeMem(s, A(0), mkC(0, 8), c); if (!c->getType()->isVoidTy()) res = mkC(0, 32); return true; } // message text only
  // messages of exceptions are built with string streams; their text is not modelled
  { std::string d = demangle(n); static const char *pre[] = {"std::__cxx11::basic_ostringstream<", "std::basic_ostream<char, std::char_traits<char>>& std::operator<<<", "std::basic_ostream<char, std::char_traits<char>>& std::__ostream_insert<", "std::ostream::_M_insert", "std::basic_ostream<char, std::char_traits<char>>& std::ostream::_M_insert<", "std::ostream& std::ostream::_M_insert<", "std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>>::~basic_string", "std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>>::_M_dispose", "std::ostream::operator<<"};
    for (auto *k : pre) if (d.rfind(k, 0) == 0) { if (!c->getType()->isVoidTy()) res = A(0); return true; } }
  // std exception classes: constructors tag the object, destructors do nothing
  { std::string d = demangle(n); static const char *cls[] = {"range_error", "invalid_argument", "runtime_error", "overflow_error", "out_of_range", "domain_error", "length_error", "logic_error", "exception"};
    for (auto *k : cls) { std::string pre = std::string("std::") + k + "::" + k + "("; if (d.rfind(pre, 0) == 0) { static std::map<std::string, uint32_t> vt; if (!vt.count(k)) { vt[k] = newObj(64, 16, std::string("vt:") + k); auto p = std::make_shared<ObjData>(); p->b.assign(64, 0); objs[vt[k]].init = p; } storeMem(s, A(0), mkC(objs[vt[k]].base, 64), c); return true; }
      if (d.rfind(std::string("std::") + k + "::~" + k, 0) == 0) return true; } }
  // ---- math
  static const char *m1[] = {"log", "exp", "tan", "sin", "cos", "log2", "log10", "log1p", "exp2", "atan", "tanh", "expm1", "lgamma"};
  for (auto *k : m1) { if (n == k || n == std::string("__") + k + "_finite") { res = mathCall(s, k, {A(0)}, 64); return true; } if (n == std::string(k) + "f") { res = mathCall(s, k, {A(0)}, 32); return true; } }
  if (n == "pow" || n == "powf") { res = mathCall(s, "pow", {A(0), A(1)}, rw()); return true; }
  if (n == "sqrt" || n == "sqrtf") { res = mk(O_FSQRT, A(0)); return true; }
  if (n == "fabs" || n == "fabsf") { res = mk(O_FABS, A(0)); return true; }
  if (n == "fmod" || n == "fmodf") { res = mk(O_FREM, A(0), A(1)); return true; }
  if (n == "floor" || n == "floorf") { res = mkF(O_FRINT, {A(0)}, rw(), K_FP, (uint8_t)RoundingMode::TowardNegative); return true; }
  if (n == "ceil" || n == "ceilf") { res = mkF(O_FRINT, {A(0)}, rw(), K_FP, (uint8_t)RoundingMode::TowardPositive); return true; }
  if (n == "trunc" || n == "truncf") { res = mkF(O_FRINT, {A(0)}, rw(), K_FP, (uint8_t)RoundingMode::TowardZero); return true; }
  if (n == "ldexp" || n == "ldexpf" || n == "scalbn") { E k = A(1); unsigned w = rw(); int ex = (int)(int32_t)k.c; if (!k.isC() || ex < -1000 || ex > 1000) fatal("ldexp"); APFloat p = scalbn(APFloat(semOf(w), "1.0"), ex, APFloat::rmNearestTiesToEven); res = mk(O_FMUL, A(0), mkFPC(p.bitcastToAPInt().getZExtValue(), w)); return true; }
  if (n == "puts" || n == "printf" || n == "fprintf") { res = mkC(0, 32); return true; }
  return false;
}

static E gepAddr(Frame &f, GetElementPtrInst *g) {
  E a = val(f, g->getPointerOperand()); APInt coff(64, 0); MapVector<Value *, APInt> vo;
  if (!g->collectOffset(*DL, 64, vo, coff)) fatal("gep");
  E off = mkBig(coff);
  for (auto &kv : vo) { E ix = val(f, kv.first); if (ix.w < 64) ix = mkSExt(ix, 64); else if (ix.w > 64) ix = mkExtract(ix, 0, 64); off = mk(O_ADD, off, mk(O_MUL, ix, mkBig(kv.second))); }
  return mk(O_ADD, a, off);
}
static E loadTyped(State &s, E p, Type *t, const Instruction *I) {
  if (auto *vt = dyn_cast<FixedVectorType>(t)) { std::vector<E> v; u64 es = DL->getTypeStoreSize(vt->getElementType()); for (unsigned i = 0; i < vt->getNumElements(); i++) { E e = loadTyped(s, mk(O_ADD, p, mkC(i * es, 64)), vt->getElementType(), I); if (!e.valid()) return e; v.push_back(e); } return mkTuple(v); }
  if (auto *st = dyn_cast<StructType>(t)) { std::vector<E> v; auto *sl = DL->getStructLayout(st); for (unsigned i = 0; i < st->getNumElements(); i++) { E e = loadTyped(s, mk(O_ADD, p, mkC(sl->getElementOffset(i), 64)), st->getElementType(i), I); if (!e.valid()) return e; v.push_back(e); } return mkTuple(v); }
  unsigned w = tw(t), nb = (w + 7) / 8; E e = loadMem(s, p, nb, isFP(t), I); if (!e.valid()) return e; if (e.w > w) e = mkExtract(e, 0, w); return e;
}
static bool storeTyped(State &s, E p, E v, Type *t, const Instruction *I) {
  if (auto *vt = dyn_cast<FixedVectorType>(t)) { u64 es = DL->getTypeStoreSize(vt->getElementType()); for (unsigned i = 0; i < vt->getNumElements(); i++) if (!storeTyped(s, mk(O_ADD, p, mkC(i * es, 64)), v.n->kids[i], vt->getElementType(), I)) return false; return true; }
  if (auto *st = dyn_cast<StructType>(t)) { auto *sl = DL->getStructLayout(st); for (unsigned i = 0; i < st->getNumElements(); i++) if (!storeTyped(s, mk(O_ADD, p, mkC(sl->getElementOffset(i), 64)), v.n->kids[i], st->getElementType(i), I)) return false; return true; }
  return storeMem(s, p, v, I);
}
static bool step(State &s, Frame &f, Instruction *I) {
  if (auto *b = dyn_cast<BinaryOperator>(I)) {
    E x = val(f, b->getOperand(0)), y = val(f, b->getOperand(1)); unsigned op = b->getOpcode();
    if (op == Instruction::UDiv || op == Instruction::SDiv || op == Instruction::URem || op == Instruction::SRem)
      vecMap2(x, y, [&](E p, E q) { // division by zero is undefined whatever the build
        if (!eUMin(q)) addOblig(s, "undefined behaviour: division by zero", mkEq(q, mkC(0, q.w)), true, I);
        return p; });
    setv(f, I, vecMap2(x, y, [&](E p, E q) { return binop(op, p, q); })); return true; }
  switch (I->getOpcode()) {
  case Instruction::FNeg: setv(f, I, vecMap1(val(f, I->getOperand(0)), [](E a) { return mk(O_FNEG, a); })); return true;
  case Instruction::ICmp: case Instruction::FCmp: { auto *c = cast<CmpInst>(I); E a = val(f, c->getOperand(0)), b = val(f, c->getOperand(1)); auto p = c->getPredicate(); setv(f, I, vecMap2(a, b, [&](E x, E y) { return icmp(p, x, y); })); return true; }
  case Instruction::Select: { E c = val(f, I->getOperand(0)), a = val(f, I->getOperand(1)), b = val(f, I->getOperand(2));
    if (c.k == K_TUP) { std::vector<E> r; for (size_t i = 0; i < c.n->kids.size(); i++) r.push_back(mkIte(c.n->kids[i], a.n->kids[i], b.n->kids[i])); setv(f, I, mkTuple(r)); } else setv(f, I, mkIte(c, a, b)); return true; }
  case Instruction::ZExt: case Instruction::SExt: case Instruction::Trunc: { E a = val(f, I->getOperand(0)); Type *t = I->getType()->getScalarType(); unsigned w = tw(t), op = I->getOpcode();
    setv(f, I, vecMap1(a, [&](E x) { return op == Instruction::ZExt ? mkZExt(x, w) : op == Instruction::SExt ? mkSExt(x, w) : mkExtract(x, 0, w); })); return true; }
  case Instruction::PtrToInt: case Instruction::IntToPtr: { E a = val(f, I->getOperand(0)); setv(f, I, mkZExt(a, tw(I->getType()))); return true; }
  case Instruction::BitCast: { E a = val(f, I->getOperand(0)); Type *t = I->getType(); if (a.k == K_TUP || t->isVectorTy()) {
        // through memory layout
        E p = allocObj(s, 64, 16, "bitcast"); storeTyped(s, p, a, I->getOperand(0)->getType(), I); E r = loadTyped(s, p, t, I); bool in; s.mem.erase(objAt(p.c, in)); setv(f, I, r); return true; }
    if (isFP(t) && a.k == K_BV) { if (a.isC()) a.k = K_FP; else a = mk(O_BV2FP, a); } else if (!isFP(t) && a.k == K_FP) { if (a.isC()) a.k = K_BV; else a = mk(O_FP2BV, a); } setv(f, I, a); return true; }
  case Instruction::FPExt: case Instruction::FPTrunc: { if (!isFP(I->getType()->getScalarType())) fatal("long double"); unsigned w = tw(I->getType()->getScalarType()); setv(f, I, vecMap1(val(f, I->getOperand(0)), [&](E a) { return mkF(O_FP2FP, {a}, w, K_FP); })); return true; }
  case Instruction::SIToFP: case Instruction::UIToFP: { unsigned w = tw(I->getType()->getScalarType()); Op o = I->getOpcode() == Instruction::SIToFP ? O_SI2F : O_UI2F; setv(f, I, vecMap1(val(f, I->getOperand(0)), [&](E a) { if (o == O_SI2F && a.w <= 64 && eUMax(a) < (1ull << (a.w - 1))) return mkF(O_UI2F, {a}, w, K_FP); return mkF(o, {a}, w, K_FP); })); return true; }
  case Instruction::FPToSI: case Instruction::FPToUI: { unsigned w = tw(I->getType()->getScalarType()); Op o = I->getOpcode() == Instruction::FPToSI ? O_F2SI : O_F2UI; setv(f, I, vecMap1(val(f, I->getOperand(0)), [&](E a) { return mkF(o, {a}, w, K_BV); })); return true; }
  case Instruction::Freeze: setv(f, I, val(f, I->getOperand(0))); return true;
  case Instruction::GetElementPtr: setv(f, I, gepAddr(f, cast<GetElementPtrInst>(I))); return true;
  case Instruction::Alloca: { auto *a = cast<AllocaInst>(I); E n = val(f, a->getArraySize()); if (!n.isC()) fatal("alloca of symbolic size"); u64 sz = DL->getTypeAllocSize(a->getAllocatedType()) * n.c; E p = allocObj(s, sz, a->getAlign().value(), a->getName().empty() ? "local" : a->getName().str()); bool in; s.st.back().allocas.push_back(objAt(p.c, in)); setv(f, I, p); return true; }
  case Instruction::Load: { E e = loadTyped(s, val(f, I->getOperand(0)), I->getType(), I); if (!e.valid()) return false; setv(f, I, e); return true; }
  case Instruction::Store: { auto *st = cast<StoreInst>(I); return storeTyped(s, val(f, st->getPointerOperand()), val(f, st->getValueOperand()), st->getValueOperand()->getType(), I); }
  case Instruction::AtomicRMW: { auto *a = cast<AtomicRMWInst>(I); E p = val(f, a->getPointerOperand()), v = val(f, a->getValOperand()); E o = loadTyped(s, p, a->getType(), I); if (!o.valid()) return false; E r; switch (a->getOperation()) { case AtomicRMWInst::Add: r = mk(O_ADD, o, v); break; case AtomicRMWInst::Sub: r = mk(O_SUB, o, v); break; case AtomicRMWInst::Xchg: r = v; break; default: fatal("atomicrmw"); } storeMem(s, p, r, I); setv(f, I, o); return true; }
  case Instruction::Fence: return true;
  case Instruction::ExtractValue: { E e = val(f, I->getOperand(0)); for (unsigned i : cast<ExtractValueInst>(I)->indices()) e = e.n->kids[i]; setv(f, I, e); return true; }
  case Instruction::InsertValue: { auto *iv = cast<InsertValueInst>(I); E agg = val(f, I->getOperand(0)), v = val(f, I->getOperand(1)); std::function<E(E, size_t)> ins = [&](E a, size_t d) -> E { if (d == iv->getNumIndices()) return v; auto ks = a.n->kids; ks[iv->getIndices()[d]] = ins(ks[iv->getIndices()[d]], d + 1); return mkTuple(ks); }; setv(f, I, ins(agg, 0)); return true; }
  case Instruction::ExtractElement: { E e = val(f, I->getOperand(0)), i = val(f, I->getOperand(1)); if (!i.isC()) fatal("extractelement"); setv(f, I, e.n->kids[i.c]); return true; }
  case Instruction::InsertElement: { E a = val(f, I->getOperand(0)), v = val(f, I->getOperand(1)), i = val(f, I->getOperand(2)); if (!i.isC()) fatal("insertelement"); auto ks = a.n->kids; ks[i.c] = v; setv(f, I, mkTuple(ks)); return true; }
  case Instruction::ShuffleVector: { auto *sv = cast<ShuffleVectorInst>(I); E a = val(f, sv->getOperand(0)), b = val(f, sv->getOperand(1)); std::vector<E> r; size_t n = a.n->kids.size(); for (int m : sv->getShuffleMask()) r.push_back(m < 0 ? a.n->kids[0] : (size_t)m < n ? a.n->kids[m] : b.n->kids[m - n]); setv(f, I, mkTuple(r)); return true; }
  default: fatal(std::string("instruction ") + I->getOpcodeName());
  }
}
