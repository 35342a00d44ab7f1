#include "solver.h"
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <poll.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/prctl.h>
#include <cmath>
#include <cstring>
#include <fstream>
#include <algorithm>
#include <iostream>
using namespace llvm;
Stats gStats;
double nowS() { struct timeval tv; gettimeofday(&tv, nullptr); return tv.tv_sec + tv.tv_usec * 1e-6; }

static void fpes(unsigned w, unsigned &e, unsigned &s) {
  switch (w) { case 16: e = 5; s = 11; break; case 32: e = 8; s = 24; break; case 64: e = 11; s = 53; break; default: fprintf(stderr, "fp width %u\n", w); exit(3); }
}
static std::string fpsort(unsigned w) { unsigned e, s; fpes(w, e, s); return "(_ FloatingPoint " + std::to_string(e) + " " + std::to_string(s) + ")"; }
static std::string smtSort(const E &e) { if (e.k == K_FP) return fpsort(e.w); if (e.w == 1) return "Bool"; return "(_ BitVec " + std::to_string(e.w) + ")"; }
static std::string bvlit(const APInt &v) { SmallString<128> s; v.toStringUnsigned(s, 2); std::string t(s.str()); unsigned w = v.getBitWidth();
  if (w % 4 == 0) { SmallString<64> h; v.toString(h, 16, false); std::string x(h.str()); for (auto &ch : x) ch = tolower(ch); return "#x" + std::string(w / 4 - x.size(), '0') + x; }
  return "#b" + std::string(w - t.size(), '0') + t; }

std::string Printer::term(const E &e) {
  if (e.isConst()) {
    if (e.k == K_FP) { unsigned ex, s; fpes(e.w, ex, s);
      APFloat f(semOf(e.w), APInt(e.w, e.c)); if (f.isNaN()) return "(_ NaN " + std::to_string(ex) + " " + std::to_string(s) + ")";
      APInt v(e.w, e.c);
      return "(fp " + bvlit(v.extractBits(1, e.w - 1)) + " " + bvlit(v.extractBits(ex, s - 1)) + " " + bvlit(v.extractBits(s - 1, 0)) + ")"; }
    if (e.w == 1) return e.c ? "true" : "false";
    return bvlit(constVal(e));
  }
  return (e.n->op == O_VAR ? "v" : "n") + std::to_string(e.n->id);
}

static bool pow2Const(const E &e) { if (!e.isC() || e.k != K_FP) return false; unsigned ex, sg; fpes(e.w, ex, sg); uint64_t m = e.c & maskw(sg - 1), x = (e.c >> (sg - 1)) & maskw(ex); return m == 0 && x != 0 && x != maskw(ex); }
bool fpHard(const Node *n) {
  switch (n->op) { case O_FADD: case O_FSUB: return true; case O_FMUL: return !pow2Const(n->kids[0]) && !pow2Const(n->kids[1]); case O_FDIV: return !pow2Const(n->kids[1]); case O_FSQRT: return true; default: return false; }
}
bool Printer::isAbs(const Node *n) const { if (!abs || n->w > 64 || !fpHard(n)) return false; return abs == 1 || (n->op != O_FADD && n->op != O_FSUB); }
// Sound facts about correctly rounded (round-to-nearest) operations; see tools/check_fp_axioms.py,
// which has the solver confirm each of them on a small float format.
void Printer::absAxioms(const Node *n, std::ostream &os) {
  E self; self.n = n; self.w = n->w; self.k = K_FP; unsigned ex, sg; fpes(n->w, ex, sg);
  std::string x = term(n->kids[0]), y = n->kids.size() > 1 ? term(n->kids[1]) : "", r = term(self);
  std::string zero = "(_ +zero " + std::to_string(ex) + " " + std::to_string(sg) + ")", one = "((_ to_fp " + std::to_string(ex) + " " + std::to_string(sg) + ") RNE 1.0)";
  auto A = [&](const std::string &p, const std::string &q) { os << "(assert (=> " << p << " " << q << "))\n"; };
  auto le = [&](const std::string &a, const std::string &b) { return "(fp.leq " + a + " " + b + ")"; };
  auto lt = [&](const std::string &a, const std::string &b) { return "(fp.lt " + a + " " + b + ")"; };
  auto an = [&](const std::string &a, const std::string &b) { return "(and " + a + " " + b + ")"; };
  auto ab = [&](const std::string &a) { return "(fp.abs " + a + ")"; };
  auto fin = [&](const std::string &a) { return "(not (or (fp.isNaN " + a + ") (fp.isInfinite " + a + ")))"; };
  auto nn = [&](const std::string &a) { return "(not (fp.isNaN " + a + "))"; };
  FInfo f = eF(self);
  if (!f.nan) os << "(assert " << nn(r) << ")\n";
  auto lit = [&](double d) { APFloat v(d); bool li; v.convert(semOf(n->w), APFloat::rmNearestTiesToEven, &li); return term(mkFPC(v.bitcastToAPInt().getZExtValue(), n->w)); };
  if (f.lo > -INFINITY) os << "(assert (or (fp.isNaN " << r << ") " << le(lit(f.lo), r) << "))\n";
  if (f.hi < INFINITY) os << "(assert (or (fp.isNaN " << r << ") " << le(r, lit(f.hi)) << "))\n";
  if (n->op == O_FADD || n->op == O_FSUB) { // magnitudes: a negligible operand is absorbed, a sum at most doubles
    int emax = (1 << (ex - 1)) - 1; std::string k1 = lit(std::ldexp(1.0, emax - 4)), k2 = lit(std::ldexp(1.0, emax - 4 - (int)sg - 2)), k3 = lit(std::ldexp(1.0, emax - 3));
    A(an(le(k1, ab(x)), le(ab(y), k2)), "(= " + r + " " + x + ")"); A(an(le(ab(x), k1), le(ab(y), k1)), le(ab(r), k3));
    if (n->op == O_FADD) A(an(le(k1, ab(y)), le(ab(x), k2)), "(= " + r + " " + y + ")"); }
  switch (n->op) {
  case O_FADD:
    A(an(fin(x), fin(y)), nn(r)); A("(or (fp.isNaN " + x + ") (fp.isNaN " + y + "))", "(fp.isNaN " + r + ")");
    A(an(nn(r), le(zero, y)), le(x, r)); A(an(nn(r), le(y, zero)), le(r, x));
    A(an(nn(r), le(zero, x)), le(y, r)); A(an(nn(r), le(x, zero)), le(r, y));
    break;
  case O_FSUB:
    A(an(fin(x), fin(y)), nn(r)); A("(or (fp.isNaN " + x + ") (fp.isNaN " + y + "))", "(fp.isNaN " + r + ")");
    A(an(nn(r), le(zero, y)), le(r, x)); A(an(nn(r), le(y, zero)), le(x, r));
    A(an(nn(r), le(y, x)), le(zero, r)); A(an(nn(r), le(x, y)), le(r, zero)); A(an(nn(r), lt(y, x)), lt(zero, r)); A(an(nn(r), lt(x, y)), lt(r, zero));
    A(an(nn(r), le(zero, x)), le("(fp.neg " + y + ")", r)); A(an(nn(r), le(x, zero)), le(r, "(fp.neg " + y + ")"));
    break;
  case O_FMUL:
    A(an(fin(x), fin(y)), nn(r)); A("(or (fp.isNaN " + x + ") (fp.isNaN " + y + "))", "(fp.isNaN " + r + ")");
    A(an(nn(r), "(or " + an(le(zero, x), le(zero, y)) + " " + an(le(x, zero), le(y, zero)) + ")"), le(zero, r));
    A(an(nn(r), "(or " + an(le(zero, x), le(y, zero)) + " " + an(le(x, zero), le(zero, y)) + ")"), le(r, zero));
    A(an(nn(r), le(ab(x), one)), le(ab(r), ab(y))); A(an(nn(r), le(ab(y), one)), le(ab(r), ab(x)));
    A(an(nn(r), le(one, ab(x))), le(ab(y), ab(r))); A(an(nn(r), le(one, ab(y))), le(ab(x), ab(r)));
    break;
  case O_FDIV:
    A(an(an(fin(x), nn(y)), "(not (fp.isZero " + y + "))"), nn(r)); A("(or (fp.isNaN " + x + ") (fp.isNaN " + y + "))", "(fp.isNaN " + r + ")");
    A(an(nn(r), "(or " + an(le(zero, x), lt(zero, y)) + " " + an(le(x, zero), lt(y, zero)) + ")"), le(zero, r));
    A(an(nn(r), "(or " + an(le(zero, x), lt(y, zero)) + " " + an(le(x, zero), lt(zero, y)) + ")"), le(r, zero));
    A(an(nn(r), le(ab(x), ab(y))), le(ab(r), one)); A(an(nn(r), le(ab(y), ab(x))), le(one, ab(r)));
    A(an(nn(r), le(one, ab(y))), le(ab(r), ab(x))); A(an(nn(r), le(ab(y), one)), le(ab(x), ab(r)));
    break;
  case O_FSQRT:
    A(le(zero, x), an(le(zero, r), nn(r))); A(lt(zero, x), lt(zero, r)); A("(or (fp.isNaN " + x + ") " + lt(x, zero) + ")", "(fp.isNaN " + r + ")");
    A(an(le(zero, x), le(x, one)), an(le(r, one), le(x, r))); A(le(one, x), an(le(one, r), le(r, x)));
    break;
  default: break;
  }
  // monotonicity between applications of the same operation sharing an operand
  size_t pairs = 0;
  for (size_t i = absNodes.size(); i-- > 0 && pairs < 40;) { const Node *m = absNodes[i]; if (m->op != n->op || m->w != n->w) continue;
    E me; me.n = m; me.w = m->w; me.k = K_FP; std::string r2 = term(me);
    auto mono = [&](const std::string &g, const std::string &a, const std::string &b, bool up) { pairs++;
      std::string ok = an(nn(r), nn(r2)); if (!g.empty()) ok = an(ok, g);
      A(an(ok, le(a, b)), up ? le(r, r2) : le(r2, r)); A(an(ok, le(b, a)), up ? le(r2, r) : le(r, r2)); };
    if (n->op == O_FSQRT) { mono("", x, term(m->kids[0]), true); continue; }
    for (int p = 0; p < 2; p++) for (int q = 0; q < 2; q++) {
      bool comm = n->op == O_FADD || n->op == O_FMUL; if (!comm && p != q) continue; if (n->kids[p] != m->kids[q]) continue;
      std::string c = term(n->kids[p]), a = term(n->kids[1 - p]), b = term(m->kids[1 - q]);
      if (n->op == O_FADD) mono("", a, b, true);
      else if (n->op == O_FSUB) mono("", a, b, p == 1);
      else if (n->op == O_FMUL) { mono(le(zero, c), a, b, true); mono(le(c, zero), a, b, false); }
      else if (n->op == O_FDIV && p == 1) { mono(lt(zero, c), a, b, true); mono(lt(c, zero), a, b, false); }
      else if (n->op == O_FDIV && p == 0) { mono(an(le(zero, c), an(lt(zero, a), lt(zero, b))), a, b, false); }
    } }
  absNodes.push_back(n);
}
void Printer::emit(const E &root, std::ostream &os) {
  std::vector<std::pair<E, bool>> st; if (!root.isConst()) st.push_back({root, false});
  while (!st.empty()) {
    auto [e, dn] = st.back(); st.pop_back();
    const Node *n = e.n;
    if (done.count(n->id)) continue;
    if (!dn) { st.push_back({e, true}); for (auto &k : n->kids) if (!k.isConst() && !done.count(k.n->id)) st.push_back({k, false}); continue; }
    done.insert(n->id);
    if (n->k == K_TUP) { fprintf(stderr, "rsym: tuple in query\n"); exit(3); }
    std::string nm = term(e);
    if (n->op == O_VAR) { os << "(declare-const " << nm << " " << smtSort(e) << ")\n"; vars.push_back(n); continue; }
    auto t = [&](int i) { return term(n->kids[i]); };
    auto bv = [&](int i) { E k = n->kids[i]; if (k.w == 1 && k.k == K_BV) return "(ite " + term(k) + " #b1 #b0)"; return term(k); };
    unsigned ex = 0, sg = 0; if (n->k == K_FP) { fpes(n->w, ex, sg); fp = true; }
    std::string tofp = "(_ to_fp " + std::to_string(ex) + " " + std::to_string(sg) + ")";
    bool b1 = n->w == 1 && n->k == K_BV;
    if (n->k == K_FP && isAbs(n)) { abstracted = true; os << "(declare-const " << nm << " " << smtSort(e) << ")\n"; absAxioms(n, os); continue; }
    std::string x;
    auto bin = [&](const char *o) { x = std::string("(") + o + " " + t(0) + " " + t(1) + ")"; };
    auto rbin = [&](const char *o) { x = std::string("(") + o + " RNE " + t(0) + " " + t(1) + ")"; };
    switch (n->op) {
    case O_ADD: if (b1) bin("xor"); else bin("bvadd"); break;
    case O_SUB: if (b1) bin("xor"); else bin("bvsub"); break;
    case O_MUL: if (b1) bin("and"); else bin("bvmul"); break;
    case O_UDIV: bin("bvudiv"); break; case O_SDIV: bin("bvsdiv"); break;
    case O_UREM: bin("bvurem"); break; case O_SREM: bin("bvsrem"); break;
    case O_AND: bin(b1 ? "and" : "bvand"); break; case O_OR: bin(b1 ? "or" : "bvor"); break;
    case O_XOR: if (b1 && n->kids[1].isC()) x = n->kids[1].c ? "(not " + t(0) + ")" : t(0); else bin(b1 ? "xor" : "bvxor"); break;
    case O_SHL: bin("bvshl"); break; case O_LSHR: bin("bvlshr"); break; case O_ASHR: bin("bvashr"); break;
    case O_EXTRACT: { std::string q = "((_ extract " + std::to_string(n->p0 + n->w - 1) + " " + std::to_string(n->p0) + ") " + bv(0) + ")";
      x = b1 ? "(= " + q + " #b1)" : q; break; }
    case O_CONCAT: x = "(concat " + bv(0) + " " + bv(1) + ")"; break;
    case O_ZEXT: x = "((_ zero_extend " + std::to_string(n->w - n->kids[0].w) + ") " + bv(0) + ")"; break;
    case O_SEXT: x = "((_ sign_extend " + std::to_string(n->w - n->kids[0].w) + ") " + bv(0) + ")"; break;
    case O_ITE: x = "(ite " + t(0) + " " + t(1) + " " + t(2) + ")"; break;
    case O_EQ: bin("="); break;
    case O_ULT: if (n->kids[0].w == 1) x = "(and (not " + t(0) + ") " + t(1) + ")"; else bin("bvult"); break;
    case O_ULE: if (n->kids[0].w == 1) x = "(or (not " + t(0) + ") " + t(1) + ")"; else bin("bvule"); break;
    case O_SLT: if (n->kids[0].w == 1) x = "(and " + t(0) + " (not " + t(1) + "))"; else bin("bvslt"); break;
    case O_SLE: if (n->kids[0].w == 1) x = "(or " + t(0) + " (not " + t(1) + "))"; else bin("bvsle"); break;
    case O_FADD: rbin("fp.add"); break; case O_FSUB: rbin("fp.sub"); break; case O_FMUL: rbin("fp.mul"); break; case O_FDIV: rbin("fp.div"); break;
    case O_FMA: x = "(fp.fma RNE " + t(0) + " " + t(1) + " " + t(2) + ")"; break;
    case O_FSQRT: x = "(fp.sqrt RNE " + t(0) + ")"; break;
    case O_FNEG: x = "(fp.neg " + t(0) + ")"; break; case O_FABS: x = "(fp.abs " + t(0) + ")"; break;
    case O_FLT: bin("fp.lt"); break; case O_FLE: bin("fp.leq"); break; case O_FEQ: bin("fp.eq"); break;
    case O_FISNAN: x = "(fp.isNaN " + t(0) + ")"; break; case O_FISINF: x = "(fp.isInfinite " + t(0) + ")"; break;
    case O_FRINT: { auto rm = (RoundingMode)(int8_t)n->p0; const char *r = rm == RoundingMode::TowardNegative ? "RTN" : rm == RoundingMode::TowardPositive ? "RTP" : rm == RoundingMode::TowardZero ? "RTZ" : rm == RoundingMode::NearestTiesToAway ? "RNA" : "RNE";
      x = std::string("(fp.roundToIntegral ") + r + " " + t(0) + ")"; break; }
    case O_FP2FP: x = "(" + tofp + " RNE " + t(0) + ")"; break;
    case O_SI2F: x = "(" + tofp + " RNE " + bv(0) + ")"; break;
    case O_UI2F: x = "((_ to_fp_unsigned " + std::to_string(ex) + " " + std::to_string(sg) + ") RNE " + bv(0) + ")"; break;
    case O_F2SI: x = "((_ fp.to_sbv " + std::to_string(n->w) + ") RTZ " + t(0) + ")"; fp = true; break;
    case O_F2UI: x = "((_ fp.to_ubv " + std::to_string(n->w) + ") RTZ " + t(0) + ")"; fp = true; break;
    case O_BV2FP: x = "(" + tofp + " " + bv(0) + ")"; break;
    case O_FP2BV: { unsigned e2, s2; fpes(n->kids[0].w, e2, s2); fp = true;
      os << "(declare-const " << nm << " " << smtSort(e) << ")\n(assert (= ((_ to_fp " << e2 << " " << s2 << ") " << nm << ") " << t(0) << "))\n"; continue; }
    case O_UF: {
      std::string f = "uf_" + ufName(n->p0) + "_" + std::to_string(n->w) + "_" + std::to_string(n->kids.size());
      uint32_t key = n->p0 * 256 + n->w + n->kids.size() * 100000; 
      if (ufDecl.insert(key).second) { os << "(declare-fun " << f << " ("; for (auto &k : n->kids) os << smtSort(k) << " "; os << ") " << smtSort(e) << ")\n"; }
      x = "(" + f; for (size_t i = 0; i < n->kids.size(); i++) x += " " + t(i); x += ")"; apps.push_back(n); break; }
    default: fprintf(stderr, "print op %d\n", n->op); exit(3);
    }
    os << "(define-fun " << nm << " () " << smtSort(e) << " " << x << ")\n";
  }
}

// ---- contracts of library math functions ----------------------------------------------------------
static E fpc(double v, unsigned w) { APFloat f(v); bool li; f.convert(semOf(w), APFloat::rmNearestTiesToEven, &li); return mkFPC(f.bitcastToAPInt().getZExtValue(), w); }
static E imp(E a, E b) { return mkOr(mkNot(a), b); }
std::vector<E> ufContract(const E &app) {
  std::vector<E> r; const Node *n = app.n; const std::string &f = ufName(n->p0); unsigned w = n->w; E x = n->kids[0];
  E zero = fpc(0, w), one = fpc(1, w), inf = fpc(INFINITY, w), ninf = fpc(-INFINITY, w);
  auto lt = [&](E a, E b) { return mk(O_FLT, a, b); }; auto le = [&](E a, E b) { return mk(O_FLE, a, b); }; auto eq = [&](E a, E b) { return mk(O_FEQ, a, b); };
  E xnan = mk(O_FISNAN, x), rnan = mk(O_FISNAN, app);
  if (f == "log") {
    double mn = w == 64 ? -746 : w == 32 ? -104 : -17, mx = w == 64 ? 710 : w == 32 ? 89 : 12;
    r.push_back(imp(mkOr(xnan, lt(x, zero)), rnan));
    r.push_back(imp(eq(x, zero), eq(app, ninf)));
    r.push_back(imp(mkAnd(lt(zero, x), lt(x, inf)), mkAnd(le(fpc(mn, w), app), le(app, fpc(mx, w)))));
    r.push_back(imp(eq(x, inf), eq(app, inf)));
    r.push_back(imp(eq(x, one), eq(app, zero)));
    r.push_back(imp(mkAnd(lt(zero, x), lt(x, one)), lt(app, zero)));
    r.push_back(imp(lt(one, x), lt(zero, app)));
  } else if (f == "exp") {
    r.push_back(mkIte(xnan, rnan, le(zero, app)));
    r.push_back(imp(le(x, zero), le(app, one)));
    r.push_back(imp(le(zero, x), le(one, app)));
  } else if (f == "pow") {
    E y = n->kids[1]; E ynan = mk(O_FISNAN, y);
    r.push_back(imp(mkAnd(le(zero, x), mkAnd(mkNot(xnan), mkNot(ynan))), le(zero, app)));
    r.push_back(imp(mkAnd(mkAnd(le(zero, x), le(x, one)), le(zero, y)), le(app, one)));
  } else if (f == "tan" || f == "sin" || f == "cos") {
    r.push_back(imp(mkAnd(lt(ninf, x), lt(x, inf)), f == "tan" ? mkAnd(lt(ninf, app), lt(app, inf)) : mkAnd(le(fpc(-1, w), app), le(app, one))));
  }
  return r;
}

// ---- z3 pipe ----------------------------------------------------------------------------------
void Solver::start() {
  int a[2], b[2]; if (pipe2(a, O_CLOEXEC) || pipe2(b, O_CLOEXEC)) { perror("pipe"); exit(3); }
  pid = fork();
  if (pid == 0) { prctl(PR_SET_PDEATHSIG, SIGKILL); dup2(a[0], 0); dup2(b[1], 1); int nul = open("/dev/null", O_WRONLY); dup2(nul, 2);
    struct rlimit rl{4ull << 30, 4ull << 30}; setrlimit(RLIMIT_AS, &rl);
    execlp(z3.c_str(), z3.c_str(), "-in", "-smt2", (char *)nullptr); _exit(127); }
  close(a[0]); close(b[1]); in = a[1]; out = b[0]; rbuf.clear(); pr = Printer(); pr.abs = absMode; sinceStart = 0;
  sendLine("(set-option :print-success false)\n(set-option :produce-models true)\n");
}
void Solver::stop() { if (absS) absS->stop(); if (pid > 0) { close(in); close(out); kill(pid, SIGKILL); int st; waitpid(pid, &st, 0); } pid = -1; }
Solver::~Solver() { stop(); }
bool Solver::sendLine(const std::string &s) {
  size_t o = 0; while (o < s.size()) { ssize_t r = write(in, s.data() + o, s.size() - o); if (r <= 0) { if (r < 0 && errno == EINTR) continue; return false; } o += r; } return true;
}
bool Solver::readSexp(std::string &s, int timeoutMs) {
  double end = nowS() + timeoutMs * 1e-3; 
  for (;;) {
    size_t i = 0; while (i < rbuf.size() && isspace((unsigned char)rbuf[i])) i++;
    if (i < rbuf.size()) {
      if (rbuf[i] != '(') { size_t j = rbuf.find('\n', i); if (j != std::string::npos) { s = rbuf.substr(i, j - i); rbuf.erase(0, j + 1); return true; } }
      else { int d = 0; bool str = false; for (size_t j = i; j < rbuf.size(); j++) { char c = rbuf[j]; if (c == '"') str = !str; if (str) continue; if (c == '(') d++; if (c == ')' && --d == 0) { s = rbuf.substr(i, j - i + 1); rbuf.erase(0, j + 1); return true; } } }
    }
    int left = (int)((end - nowS()) * 1000); if (left <= 0) return false;
    struct pollfd p{out, POLLIN, 0}; int pr = poll(&p, 1, left); if (pr < 0 && errno == EINTR) continue; if (pr <= 0) return false;
    char buf[65536]; ssize_t r = read(out, buf, sizeof buf); if (r <= 0) return false; rbuf.append(buf, r);
  }
}
static void parseModel(const std::string &s, const std::vector<const Node *> &vars, Model &m) {
  std::map<std::string, const Node *> byName; for (auto *n : vars) byName["v" + std::to_string(n->id)] = n;
  size_t i = 0;
  while ((i = s.find("(v", i)) != std::string::npos) {
    size_t j = s.find_first_of(" \n", i); std::string nm = s.substr(i + 1, j - i - 1);
    while (isspace((unsigned char)s[j])) j++;
    size_t k = s.find_first_of(") \n", j); std::string v = s.substr(j, k - j);
    auto it = byName.find(nm); i = k; if (it == byName.end()) continue;
    unsigned w = it->second->w; APInt x(w, 0);
    if (v == "true") x = APInt(1, 1); else if (v == "false") x = APInt(1, 0);
    else if (v.rfind("#x", 0) == 0) x = APInt(std::max<unsigned>(w, 4 * (v.size() - 2)), v.substr(2), 16).trunc(w);
    else if (v.rfind("#b", 0) == 0) x = APInt(w, v.substr(2), 2);
    m.v.emplace(it->second->name, x);
  }
}
static void rangesOf(const std::vector<const Node *> &vars, size_t from, std::ostream &os) {
  for (size_t i = from; i < vars.size(); i++) { auto *n = vars[i]; if (n->w <= 64 && n->w > 1 && (n->umin > 0 || n->umax < maskw(n->w))) {
    std::string nm = "v" + std::to_string(n->id);
    if (n->umin > 0) os << "(assert (bvule " << bvlit(APInt(n->w, n->umin)) << " " << nm << "))\n";
    if (n->umax < maskw(n->w)) os << "(assert (bvule " << nm << " " << bvlit(APInt(n->w, n->umax)) << "))\n"; } }
}
static void emitAll(Printer &pr, const std::vector<E> &conj, const std::vector<E> &extra, std::ostream &os) {
  size_t v0 = pr.vars.size(), a0 = pr.apps.size();
  for (auto &e : conj) pr.emit(e, os);
  for (auto &e : extra) pr.emit(e, os);
  for (size_t i = a0; i < pr.apps.size(); i++) { E a; a.n = pr.apps[i]; a.w = a.n->w; a.k = a.n->k;
    for (auto &ax : ufContract(a)) { if (ax.isConst() && ax.c) continue; pr.emit(ax, os); os << "(assert " << pr.term(ax) << ")\n"; } }
  // monotonicity / congruence between applications is left to CEGAR
  rangesOf(pr.vars, v0, os);
}

// sets the bits of the variable under e so that (e & mask) == (v & mask), where that is a matter of moving bits
static void pinBits(const E &e, uint64_t v, uint64_t mask, std::map<const Node *, std::pair<uint64_t, uint64_t>> &pins) {
  if (!e.n || e.w > 64 || !mask) return;
  switch (e.n->op) {
    case O_VAR: { auto &p = pins[e.n]; uint64_t fresh = mask & ~p.first; p.first |= mask & maskw(e.w); p.second |= v & fresh; return; }
    case O_ZEXT: case O_SEXT: pinBits(e.n->kids[0], v, mask & maskw(e.n->kids[0].w), pins); return;
    case O_EXTRACT: if (e.n->kids[0].w <= 64) pinBits(e.n->kids[0], v << e.n->p0, mask << e.n->p0, pins); return;
    case O_CONCAT: { auto &lo = e.n->kids[1]; if (lo.w < 64) { pinBits(e.n->kids[0], v >> lo.w, mask >> lo.w, pins); pinBits(lo, v, mask & maskw(lo.w), pins); } return; }
    case O_AND: if (e.n->kids[1].isC()) pinBits(e.n->kids[0], v, mask & e.n->kids[1].c, pins); else if (e.n->kids[0].isC()) pinBits(e.n->kids[1], v, mask & e.n->kids[0].c, pins); return;
    case O_XOR: if (e.n->kids[1].isC()) pinBits(e.n->kids[0], v ^ e.n->kids[1].c, mask, pins); else if (e.n->kids[0].isC()) pinBits(e.n->kids[1], v ^ e.n->kids[0].c, mask, pins); return;
    case O_LSHR: if (e.n->kids[1].isC() && e.n->kids[1].c < 64) pinBits(e.n->kids[0], v << e.n->kids[1].c, mask << e.n->kids[1].c, pins); return;
    case O_SHL: if (e.n->kids[1].isC() && e.n->kids[1].c < 64) pinBits(e.n->kids[0], v >> e.n->kids[1].c, mask >> e.n->kids[1].c, pins); return;
    case O_ADD: if (mask == maskw(e.w)) { if (e.n->kids[1].isC()) pinBits(e.n->kids[0], (v - e.n->kids[1].c) & mask, mask, pins); else if (e.n->kids[0].isC()) pinBits(e.n->kids[1], (v - e.n->kids[0].c) & mask, mask, pins); } return;
    default: return;
  }
}
// assignments with every variable at its smallest or largest value, or random: cheap candidates for a model
static bool boundaryModel(const std::vector<E> &conj, Model &out) {
  std::set<const Node *> seen; std::vector<const Node *> st, vars; for (auto &e : conj) if (e.n) st.push_back(e.n);
  while (!st.empty()) { auto *n = st.back(); st.pop_back(); if (!seen.insert(n).second) continue; if (seen.size() > 20000) return false; if (n->op == O_VAR) vars.push_back(n); for (auto &k : n->kids) if (k.n) st.push_back(k.n); }
  bool fpf = false; for (auto *n : seen) if (n->k == K_FP) { fpf = true; break; }
  int tries = fpf ? (seen.size() > 2000 ? 12 : 60) : 2; uint64_t rs = 0x9e3779b97f4a7c15ull; auto rnd = [&]() { rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17; return rs; };
  std::map<const Node *, std::pair<uint64_t, uint64_t>> pins;
  for (auto &e : conj) if (e.n && e.n->op == O_EQ) { auto &a = e.n->kids[0], &b = e.n->kids[1]; if (a.k == K_BV && a.w <= 64) { if (b.isC()) pinBits(a, b.c, maskw(a.w), pins); else if (a.isC()) pinBits(b, a.c, maskw(a.w), pins); } }
  for (int mode = 0; mode < tries; mode++) {
    Model m; for (auto *n : vars) { if (n->w > 64) { m.v.emplace(n->name, mode == 1 ? APInt::getAllOnes(n->w) : APInt(n->w, 0)); continue; }
      uint64_t v = mode == 1 ? n->umax : n->umin, span = n->umax - n->umin; 
      if (mode >= 2) switch (mode % 2 ? 5 : rnd() % 8) { case 0: v = n->umin; break; case 1: v = n->umax; break; case 2: v = n->umin + std::min<uint64_t>(span, rnd() % 4); break; case 3: v = n->umax - std::min<uint64_t>(span, rnd() % 4); break;
        case 4: v = n->umin + span / 2; break; default: v = span == ~0ull ? rnd() : n->umin + rnd() % (span + 1); }
      auto pi = pins.find(n); if (mode >= 2 && pi != pins.end()) { uint64_t p = (v & ~pi->second.first) | pi->second.second; if (p >= n->umin && p <= n->umax) v = p; }
      m.v.emplace(n->name, APInt(n->w, v)); }
    Evaluator ev(m); bool ok = true; for (auto &e : conj) { E v = ev.eval(e); if (ev.incomplete || !v.isC() || !v.c) { ok = false; break; } }
    if (ok) { out = m; return true; } }
  return false;
}
bool Solver::cheap(const std::vector<E> &conj0, Model *m) {
  std::vector<E> conj; for (auto &e : conj0) { if (e.isConst()) { if (!e.c) return false; continue; } conj.push_back(e); }
  for (size_t i = recent.size(); i-- > 0;) { Evaluator ev(recent[i]); bool ok = true; for (auto &e : conj) { E v = ev.eval(e); if (ev.incomplete || !v.isC() || !v.c) { ok = false; break; } } if (ok) { *m = recent[i]; return true; } }
  if (boundaryModel(conj, *m)) { if (recent.size() > 12) recent.erase(recent.begin()); recent.push_back(*m); return true; }
  return false;
}
Verdict Solver::check(const std::vector<E> &conj0, int timeoutMs, Model *m) {
  std::vector<E> conj;
  for (auto &e : conj0) { if (e.isConst()) { if (!e.c) return V_UNSAT; continue; } conj.push_back(e); }
  gStats.feas++;
  std::vector<std::pair<const Node *, uint64_t>> key; for (auto &e : conj) key.push_back({e.n, 0});
  std::sort(key.begin(), key.end()); key.erase(std::unique(key.begin(), key.end()), key.end());
  if (!m) { auto it = cache.find(key); if (it != cache.end()) { gStats.cacheHits++; return it->second; } }
  // recent models
  if (!absMode) for (size_t i = recent.size(); i-- > 0;) { Evaluator ev(recent[i]); bool ok = true; for (auto &e : conj) { E v = ev.eval(e); if (ev.incomplete || !v.isC() || !v.c) { ok = false; break; } }
    if (ok) { gStats.cacheHits++; if (m) *m = recent[i]; cache[key] = V_SAT; return V_SAT; } }
  if (!absMode) { Model bm; if (boundaryModel(conj, bm)) { gStats.cacheHits++; if (recent.size() > 12) recent.erase(recent.begin()); recent.push_back(bm); if (m) *m = bm; cache[key] = V_SAT; return V_SAT; } }
  if (!absMode) { // rounding-aware abstraction first: its "unsat" is final, anything else says nothing
    bool hard = false; { std::set<const Node *> seen; std::vector<const Node *> st; for (auto &e : conj) if (e.n) st.push_back(e.n);
      while (!st.empty() && !hard) { auto *n = st.back(); st.pop_back(); if (!seen.insert(n).second) continue; if (n->k == K_FP && fpHard(n)) hard = true; for (auto &k : n->kids) if (k.n) st.push_back(k.n); } }
    if (hard) { if (!absS) { absS = std::make_unique<Solver>(); absS->absMode = 1; absS->z3 = z3; }
      if (absS->check(conj, std::min(timeoutMs, 1000), nullptr) == V_UNSAT) { cache[key] = V_UNSAT; return V_UNSAT; } } }
  double t0 = nowS();
  if (pid < 0 || sinceStart > 3000) { stop(); start(); }
  sinceStart++;
  std::ostringstream os; emitAll(pr, conj, {}, os);
  os << "(set-option :timeout " << timeoutMs << ")\n(push)\n";
  for (auto &e : conj) os << "(assert " << pr.term(e) << ")\n";
  os << "(check-sat)\n";
  Verdict v = V_UNKNOWN; std::string r; bool dead = false;
  if (!sendLine(os.str()) || !readSexp(r, timeoutMs + 3000)) dead = true;
  gStats.queries++;
  if (!dead) { if (r == "sat") v = V_SAT; else if (r == "unsat") v = V_UNSAT; else if (r.find("error") != std::string::npos) { fprintf(stderr, "rsym: z3 says %s\n", r.c_str()); dead = true; } }
  if (v == V_SAT && !absMode) {
    Model mm; if (!pr.vars.empty()) { std::string q = "(get-value ("; for (auto *n : pr.vars) q += "v" + std::to_string(n->id) + " "; q += "))\n";
      if (!sendLine(q) || !readSexp(r, 10000)) dead = true; else parseModel(r, pr.vars, mm); }
    if (recent.size() > 12) recent.erase(recent.begin()); recent.push_back(mm); if (m) *m = mm;
  }
  if (v == V_SAT && absMode) v = V_UNKNOWN;
  if (dead) stop(); else sendLine("(pop)\n");
  gStats.time += nowS() - t0;
  if (v != V_UNKNOWN) cache[key] = v;
  return v;
}

// ---- stand-alone portfolio ------------------------------------------------------------------------
static bool haveArith(const std::vector<E> &c) {
  std::set<const Node *> seen; std::vector<const Node *> st; for (auto &e : c) if (e.n) st.push_back(e.n);
  while (!st.empty()) { auto *n = st.back(); st.pop_back(); if (!seen.insert(n).second) continue;
    if (n->op == O_MUL || (n->op >= O_UDIV && n->op <= O_SREM)) return true; for (auto &k : n->kids) if (k.n) st.push_back(k.n); }
  return false;
}
Verdict portfolio(const std::vector<E> &conj0, const std::vector<E> &extra, int timeoutMs, Model *m, std::string &solverName, const std::string &scratch, const std::string &keep) {
  std::vector<E> conj;
  for (auto &e : conj0) { if (e.isConst()) { if (!e.c) { solverName = "simplifier"; return V_UNSAT; } continue; } conj.push_back(e); }
  double t0 = nowS();
  Printer pr; std::ostringstream body; emitAll(pr, conj, extra, body);
  for (auto &e : conj) body << "(assert " << pr.term(e) << ")\n";
  for (auto &e : extra) body << "(assert " << pr.term(e) << ")\n";
  std::string gv; if (!pr.vars.empty()) { gv = "(get-value ("; for (auto *n : pr.vars) gv += "v" + std::to_string(n->id) + " "; gv += "))\n"; }
  bool uf = !pr.apps.empty();
  std::string logic = pr.fp ? (uf ? "QF_UFFPBV" : "QF_BVFP") : "QF_BV";
  static int cnt = 0; std::string base = scratch + "/q" + std::to_string(getpid()) + "_" + std::to_string(cnt++);
  std::string fn = base + ".smt2";
  { std::ofstream o(fn); o << "(set-option :produce-models true)\n(set-logic " << (uf && pr.fp ? "ALL" : logic) << ")\n" << body.str() << "(check-sat)\n"; }
  if (!keep.empty()) { std::ofstream o(keep); o << "(set-logic ALL)\n" << body.str() << "(check-sat)\n" << gv; }
  std::string fm = base + "m.smt2"; { std::ofstream o(fm); o << "(set-option :produce-models true)\n(set-logic " << (uf && pr.fp ? "ALL" : logic) << ")\n" << body.str() << "(check-sat)\n" << gv; }
  bool ar = haveArith(conj);
  std::vector<PortCfg> cf; std::set<std::string> absFiles; std::string fa[2];
  for (int mode = 1; mode <= 2 && pr.fp; mode++) { Printer pa; pa.abs = mode; std::ostringstream b; emitAll(pa, conj, extra, b); if (!pa.abstracted) break;
    for (auto &e : conj) b << "(assert " << pa.term(e) << ")\n"; for (auto &e : extra) b << "(assert " << pa.term(e) << ")\n";
    fa[mode - 1] = base + "a" + std::to_string(mode) + ".smt2"; std::ofstream o(fa[mode - 1]); o << "(set-logic ALL)\n" << b.str() << "(check-sat)\n"; 
    std::string nm = mode == 1 ? "z3-new(rounding axioms)" : "z3-new(rounding axioms for * / sqrt)"; cf.push_back({nm, {"z3-new", fa[mode - 1]}, mode == 1 ? 0 : 500}); absFiles.insert(nm); }
  int late = cf.empty() ? 0 : 2500; cf.push_back({"z3-new", {"z3-new", fm}, late});
  if (ar && !pr.fp) cf.push_back({"cvc5-bv-as-int", {"cvc5", "--solve-bv-as-int=sum", "--nl-ext-tplanes", fm}, 300});
  cf.push_back({"cvc5", {"cvc5", fm}, 1000 + 2 * late});
  cf.push_back({"z3-4.8", {"z3", fm}, 3000 + 3 * late});
  struct P { pid_t pid; std::string out; bool done = false; double start; };
  std::vector<P> ps(cf.size()); for (auto &p : ps) p.pid = -1;
  Verdict v = V_UNKNOWN; solverName = "none";
  double end = t0 + timeoutMs * 1e-3;
  for (;;) {
    double now = nowS(); bool any = false;
    for (size_t i = 0; i < cf.size(); i++) {
      if (ps[i].pid < 0 && !ps[i].done && now - t0 >= cf[i].delayMs * 1e-3) {
        ps[i].out = base + "." + std::to_string(i);
        pid_t p = fork();
        if (p == 0) { prctl(PR_SET_PDEATHSIG, SIGKILL); int o = open(ps[i].out.c_str(), O_CREAT | O_WRONLY | O_TRUNC, 0600); dup2(o, 1); int nul = open("/dev/null", O_WRONLY); dup2(nul, 2);
          struct rlimit rl{6ull << 30, 6ull << 30}; setrlimit(RLIMIT_AS, &rl);
          std::vector<char *> av; for (auto &s : cf[i].argv) av.push_back((char *)s.c_str()); av.push_back(nullptr); execvp(av[0], av.data()); _exit(127); }
        ps[i].pid = p;
      }
      if (!ps[i].done) any = true;
      if (ps[i].pid > 0 && !ps[i].done) {
        int st; pid_t r = waitpid(ps[i].pid, &st, WNOHANG);
        if (r == ps[i].pid) {
          ps[i].done = true; std::ifstream f(ps[i].out); std::string first; std::getline(f, first); std::stringstream rest; rest << f.rdbuf();
          if (first == "unsat") { v = V_UNSAT; solverName = cf[i].name; }
          else if (first == "sat" && absFiles.count(cf[i].name)) {}
          else if (first == "sat") { Model mm; parseModel(rest.str(), pr.vars, mm); if (m) *m = mm; v = V_SAT; solverName = cf[i].name; }
        }
      }
      if (v != V_UNKNOWN) break;
    }
    if (v != V_UNKNOWN || !any || now > end) break;
    usleep(now - t0 < 0.2 ? 2000 : 20000);
  }
  for (auto &p : ps) { if (p.pid > 0 && !p.done) { kill(p.pid, SIGKILL); int st; waitpid(p.pid, &st, 0); } if (!p.out.empty()) unlink(p.out.c_str()); }
  unlink(fn.c_str()); unlink(fm.c_str()); for (auto &f : fa) if (!f.empty()) unlink(f.c_str());
  gStats.queries++; gStats.time += nowS() - t0; gStats.bySolver[solverName]++;
  return v;
}

static void collectApps(const std::vector<E> &c, std::vector<const Node *> &apps) {
  std::set<const Node *> seen; std::vector<const Node *> st; for (auto &e : c) if (e.n) st.push_back(e.n);
  while (!st.empty()) { auto *n = st.back(); st.pop_back(); if (!seen.insert(n).second) continue; if (n->op == O_UF) apps.push_back(n); for (auto &k : n->kids) if (k.n) st.push_back(k.n); }
}
Verdict decide(Solver &inc, const std::vector<E> &conj0, int quickMs, int timeoutMs, Model *mOut, std::string &who, const std::string &scratch, const std::string &keep) {
  for (auto &e : conj0) if (e.isConst() && !e.c) { who = "simplifier"; gStats.bySolver[who]++; return V_UNSAT; }
  std::vector<std::pair<E, E>> defs; std::vector<E> conj = substEqs(conj0, defs);
  for (auto &e : conj) if (e.isConst() && !e.c) { who = "substitution"; gStats.bySolver[who]++; return V_UNSAT; }
  if (gaussRefutes(conj)) { who = "GF(2) elimination"; gStats.bySolver[who]++; return V_UNSAT; }
  if (timeoutMs >= 5000 && boxRefutes(conj, 3000, 4)) { who = "interval branch and prune"; gStats.bySolver[who]++; return V_UNSAT; }
  std::vector<const Node *> apps; collectApps(conj, apps);
  std::vector<E> extra; double end = nowS() + timeoutMs * 1e-3;
  for (int iter = 0; iter < 60; iter++) {
    Model m; Verdict v = V_UNKNOWN;
    if (iter == 0 && quickMs > 0) { v = inc.check(conj, quickMs, &m); if (v != V_UNKNOWN) { who = "z3-new(inc)"; gStats.bySolver[who]++; } }
    if (v == V_UNKNOWN) { int left = (int)((end - nowS()) * 1000); if (left < 200) return V_UNKNOWN; v = portfolio(conj, extra, left, &m, who, scratch, keep); }
    if (v != V_SAT) return v;
    for (size_t i = defs.size(); i-- > 0;) { Evaluator dv(m); m.v[defs[i].first.n->name] = constVal(dv.eval(defs[i].second)); }
    Evaluator ev(m); bool ok = true; for (auto &e : conj0) { E x = ev.eval(e); if (!x.isC() || !x.c) { ok = false; break; } }
    if (ok && !ev.incomplete) { if (mOut) *mOut = m; return V_SAT; }
    if (apps.empty()) { fprintf(stderr, "rsym: model from %s does not validate\n", who.c_str()); who += "(model rejected)"; return V_UNKNOWN; }
    // CEGAR: pin the library functions at the evaluated points
    size_t before = extra.size();
    for (auto *a : apps) { std::vector<E> ks; for (auto &k : a->kids) ks.push_back(ev.eval(k)); E val; if (!hostUF(ufName(a->p0), ks, a->w, val)) { who = "no host function"; return V_UNKNOWN; }
      E self; self.n = a; self.w = a->w; self.k = K_FP; E pre = T(); for (size_t i = 0; i < ks.size(); i++) pre = mkAnd(pre, mkEq(a->kids[i], ks[i]));
      E fact = mkOr(mkNot(pre), mkEq(self, val)); if (!fact.isConst()) extra.push_back(fact); }
    if (extra.size() == before) return V_UNKNOWN;
  }
  return V_UNKNOWN;
}
