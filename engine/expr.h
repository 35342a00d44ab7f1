// Hash-consed bit-vector / IEEE-float expression DAG used by rsym.
#pragma once
#include <cstdint>
#include <string>
#include <vector>
#include <unordered_map>
#include <map>
#include <set>
#include <memory>
#include "llvm/ADT/APInt.h"
#include "llvm/ADT/APFloat.h"
#include "llvm/ADT/APSInt.h"
#include "llvm/ADT/SmallString.h"

enum Op : uint8_t {
  O_CONST, O_VAR, O_TUPLE,
  O_ADD, O_SUB, O_MUL, O_UDIV, O_SDIV, O_UREM, O_SREM,
  O_AND, O_OR, O_XOR, O_SHL, O_LSHR, O_ASHR,
  O_EXTRACT, O_CONCAT, O_ZEXT, O_SEXT, O_ITE, O_EQ, O_ULT, O_ULE, O_SLT, O_SLE,
  // floating point
  O_FADD, O_FSUB, O_FMUL, O_FDIV, O_FREM, O_FSQRT, O_FNEG, O_FABS, O_FMA,
  O_FLT, O_FLE, O_FEQ, O_FISNAN, O_FISINF, O_FRINT /*p0=mode*/, O_FP2FP, O_SI2F, O_UI2F, O_F2SI, O_F2UI,
  O_BV2FP, O_FP2BV, O_UF /* p0 = function id */,
  O_NUM
};

enum Kind : uint8_t { K_BV = 0, K_FP = 1, K_TUP = 2 };

struct Node;
// A value: an inline constant (w<=64 bits) or a node.
struct E {
  const Node *n = nullptr;
  uint64_t c = 0;
  uint16_t w = 0;
  Kind k = K_BV;
  bool isConst() const;             // includes wide constants
  bool isC() const { return n == nullptr; } // inline constant
  bool valid() const { return w != 0 || n != nullptr; }
  bool operator==(const E &o) const { return n == o.n && c == o.c && w == o.w && k == o.k; }
  bool operator!=(const E &o) const { return !(*this == o); }
};

struct Node {
  Op op; Kind k; uint16_t w;
  uint32_t id; uint32_t p0 = 0;
  std::vector<E> kids;
  std::string name;            // VAR
  std::unique_ptr<llvm::APInt> big;  // wide constant
  // abstract information (w<=64 bit-vectors)
  uint64_t umin = 0, umax = ~0ull, kz = 0; // unsigned interval, known-zero mask
  double flo, fhi; bool fnan = true;         // value interval of a floating-point node, and whether it may be NaN
};

inline bool E::isConst() const { return n == nullptr || n->op == O_CONST; }
inline uint64_t maskw(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }

E mkC(uint64_t v, unsigned w);
E mkBig(const llvm::APInt &v);
E mkFPC(uint64_t bits, unsigned w);
E mkVar(const std::string &name, unsigned w, Kind k = K_BV, uint64_t lo = 0, uint64_t hi = ~0ull);
E mk(Op op, E a);
E mk(Op op, E a, E b);
E mk(Op op, E a, E b, E c);
E mkExtract(E a, unsigned lo, unsigned w);
E mkConcat(E hi, E lo);
E mkZExt(E a, unsigned w);
E mkSExt(E a, unsigned w);
E mkIte(E c, E a, E b);
E mkNot(E a);
E mkAnd(E a, E b);
E mkOr(E a, E b);
E mkEq(E a, E b);
E mkTuple(const std::vector<E> &v);
E mkF(Op op, const std::vector<E> &kids, unsigned w, Kind k, uint32_t p0 = 0);
E mkUF(const std::string &fn, const std::vector<E> &args, unsigned w);
const std::string &ufName(uint32_t id);
llvm::APInt constVal(const E &e);       // e.isConst()
inline E T() { return mkC(1, 1); }
inline E F() { return mkC(0, 1); }
uint64_t eUMin(const E &e);
void dumpE(const E &e, int d);
uint64_t eUMax(const E &e);
uint64_t eKZ(const E &e);
struct FInfo { double lo, hi; bool nan; };
FInfo eF(const E &e);
size_t nodeCount();

const llvm::fltSemantics &semOf(unsigned w);
bool foldOp(Op op, const std::vector<E> &kids, unsigned w, Kind k, uint32_t p0, E &out);

// concrete evaluation under an assignment of the variables
struct Model { std::map<std::string, llvm::APInt> v; };
struct Evaluator {
  const Model &m; std::unordered_map<const Node *, E> memo;
  bool useHostLibm = true; bool incomplete = false;
  explicit Evaluator(const Model &mm) : m(mm) {}
  E eval(const E &e);
};
bool hostUF(const std::string &fn, const std::vector<E> &args, unsigned w, E &out);

// substitutes var == term conjuncts (recorded in defs, in order); equivalent to conj up to the values of the defs
std::vector<E> substEqs(const std::vector<E> &conj, std::vector<std::pair<E, E>> &defs);
// true: the conjunction has no model, by linear algebra over GF(2)
bool gaussRefutes(const std::vector<E> &conj);
// true: the conjunction has no model, by interval evaluation over a finite cover of the inputs' ranges by boxes
bool boxRefutes(const std::vector<E> &conj, unsigned maxBoxes, double seconds);
