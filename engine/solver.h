#pragma once
#include "expr.h"
#include <sstream>
#include "llvm/ADT/SmallString.h"
#include <sys/types.h>
#include <functional>

enum Verdict { V_UNSAT, V_SAT, V_UNKNOWN };

struct Facts { // contract axioms about one node (library math functions), and CEGAR refinements
  std::vector<E> list;
};
// returns the contract axioms of an uninterpreted application
std::vector<E> ufContract(const E &app);

struct Printer {
  std::set<uint32_t> done;
  std::set<uint32_t> ufDecl;
  std::vector<const Node *> vars;        // in emission order
  std::vector<const Node *> apps;        // uninterpreted applications emitted
  bool fp = false;
  int abs = 0;                           // 1: + - * / sqrt are abstracted by sound axioms; 2: only * / sqrt
  bool abstracted = false;
  std::vector<const Node *> absNodes;
  bool isAbs(const Node *n) const;
  void absAxioms(const Node *n, std::ostream &os);
  void emit(const E &e, std::ostream &os);   // definitions for everything below e
  std::string term(const E &e);
};

struct Stats { uint64_t queries = 0, feas = 0, cacheHits = 0; double time = 0; std::map<std::string, int> bySolver; };
extern Stats gStats;

struct Solver {
  std::string z3 = "z3-new";
  int in = -1, out = -1; pid_t pid = -1;
  Printer pr; std::string rbuf;
  unsigned sinceStart = 0;
  std::vector<Model> recent;
  ~Solver();
  void start(); void stop();
  bool sendLine(const std::string &s);
  bool readSexp(std::string &s, int timeoutMs);
  // incremental check of a conjunction
  Verdict check(const std::vector<E> &conj, int timeoutMs, Model *m);
  bool cheap(const std::vector<E> &conj, Model *m); // a model found by trying a few assignments
  int absMode = 0; std::unique_ptr<Solver> absS;
  std::map<std::vector<std::pair<const Node *, uint64_t>>, Verdict> cache;
};

struct PortCfg { std::string name; std::vector<std::string> argv; int delayMs = 0; };
// stand-alone portfolio check; solverName receives who answered
Verdict portfolio(const std::vector<E> &conj, const std::vector<E> &extra, int timeoutMs, Model *m, std::string &solverName, const std::string &scratch, const std::string &keep = "");
// full obligation: with CEGAR for uninterpreted functions. On V_SAT the model is validated by evaluation.
Verdict decide(Solver &inc, const std::vector<E> &conj, int quickMs, int timeoutMs, Model *m, std::string &solverName, const std::string &scratch, const std::string &keep = "");
double nowS();
