// Prints every axiom the executor's abstraction uses for + - * / sqrt (Printer::absAxioms, engine/solver.cpp) on half-precision numbers,
// each as an SMT query in which the operation itself is defined exactly: the query is satisfiable iff the axiom is false.
#include "../engine/solver.h"
#include <iostream>
#include <sstream>
int main() {
  E a = mkVar("a", 16, K_FP), b = mkVar("b", 16, K_FP), c = mkVar("c", 16, K_FP);
  struct { Op op; const char *smt; int n; } ops[] = {{O_FADD, "fp.add RNE", 2}, {O_FSUB, "fp.sub RNE", 2}, {O_FMUL, "fp.mul RNE", 2}, {O_FDIV, "fp.div RNE", 2}, {O_FSQRT, "fp.sqrt RNE", 1}};
  int q = 0;
  for (auto &o : ops) for (int way = 0; way < 4; way++) { // the two applications share an operand in each of four ways
    if (o.n == 1 && way) continue;
    E x = o.n == 1 ? mkF(o.op, {a}, 16, K_FP) : mkF(o.op, {a, b}, 16, K_FP), y = o.n == 1 ? mkF(o.op, {b}, 16, K_FP) : way == 0 ? mkF(o.op, {a, c}, 16, K_FP) : way == 1 ? mkF(o.op, {c, b}, 16, K_FP) : way == 2 ? mkF(o.op, {b, c}, 16, K_FP) : mkF(o.op, {c, a}, 16, K_FP);
    if (!x.n || !y.n || x.n->op != o.op || y.n->op != o.op || x == y) continue;
    Printer p; p.abs = 1; std::ostringstream decl, ax; for (E v : {a, b, c}) p.emit(v, decl);
    for (E r : {x, y}) { decl << "(define-fun " << p.term(r) << " () (_ FloatingPoint 5 11) (" << o.smt; for (auto &k : r.n->kids) decl << " " << p.term(k); decl << "))\n"; p.absAxioms(r.n, ax); }
    std::istringstream in(ax.str()); std::string l;
    while (std::getline(in, l)) { if (l.compare(0, 8, "(assert ")) { std::cerr << "unexpected: " << l << "\n"; return 1; } q++; std::cout << "(push)\n" << decl.str() << "(assert (not " << l.substr(8) << ")\n(echo \"" << o.smt << " " << l.substr(8, l.size() - 9) << "\")\n(check-sat)\n(pop)\n"; }
  }
  std::cerr << q << " axioms\n"; return 0;
}
