// Hash-consed bit-vector / floating-point expression DAG with local simplification.
#pragma once
#include <cstdint>
#include <cstring>
#include <string>
#include <unordered_map>
#include <vector>

enum Op : uint8_t {
  OP_CONST, OP_VAR,
  OP_ADD, OP_SUB, OP_MUL, OP_UDIV, OP_SDIV, OP_UREM, OP_SREM,
  OP_AND, OP_OR, OP_XOR, OP_SHL, OP_LSHR, OP_ASHR,
  OP_EQ, OP_ULT, OP_ULE, OP_SLT, OP_SLE,
  OP_ITE, OP_CONCAT, OP_EXTRACT, OP_ZEXT, OP_SEXT,
  // floating point, operands and results are IEEE bit patterns
  OP_FADD, OP_FSUB, OP_FMUL, OP_FDIV, OP_FNEG, OP_FABS, OP_FSQRT,
  OP_FOEQ, OP_FOLT, OP_FOLE, OP_FUNO,
  OP_FPEXT, OP_FPTRUNC, OP_SITOFP, OP_UITOFP, OP_FPTOSI, OP_FPTOUI,
  OP_UF, // uninterpreted function of one or two arguments, name in c
};

struct Expr {
  Op op;
  bool hasFP, hasUF;
  uint32_t w;
  uint32_t id;
  uint64_t c; // constant value, variable id, extract offset, UF name id
  Expr *a[3];
  void *z3;   // cached Z3 term (bit-vector mode)
  void *z3r;  // cached Z3 term (real mode)
};

struct VarInfo { std::string name; uint32_t w; bool isUninit; bool isFloat; };

extern std::vector<VarInfo> gVars;
extern std::vector<std::string> gUFNames;
extern bool gRealMode;

inline uint64_t maskw(uint32_t w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
inline int64_t sextw(uint64_t v, uint32_t w) { return w >= 64 ? (int64_t)v : ((int64_t)(v << (64 - w))) >> (64 - w); }

Expr *mkConst(uint64_t v, uint32_t w);
Expr *mkVar(const std::string &name, uint32_t w, bool isUninit = false, bool isFloat = false);
Expr *mkBin(Op op, Expr *a, Expr *b);
Expr *mkNot(Expr *a);
Expr *mkIte(Expr *c, Expr *t, Expr *e);
Expr *mkConcat(Expr *hi, Expr *lo);
Expr *mkExtract(Expr *a, uint32_t off, uint32_t w);
Expr *mkZExt(Expr *a, uint32_t w);
Expr *mkSExt(Expr *a, uint32_t w);
Expr *mkFp1(Op op, Expr *a, uint32_t w);
Expr *mkUF(const std::string &name, Expr *a, Expr *b = nullptr);

uint64_t foldBin(Op op, uint64_t a, uint64_t b, uint32_t w);
uint64_t foldFp1(Op op, uint64_t a, uint32_t wa, uint32_t w);
bool foldUF(const std::string &name, uint64_t a, uint64_t b, uint32_t w, uint64_t &out);

inline bool isC(const Expr *e) { return e->op == OP_CONST; }
inline bool isC(const Expr *e, uint64_t v) { return e->op == OP_CONST && e->c == v; }

typedef std::vector<uint64_t> Assign; // indexed by variable id; missing means 0
// Evaluates e under the assignment. Returns false if it cannot be evaluated (uninterpreted function, real mode).
struct Evaluator {
  const Assign &as;
  std::unordered_map<const Expr *, uint64_t> memo;
  bool ok = true;
  explicit Evaluator(const Assign &a) : as(a) {}
  uint64_t eval(const Expr *e);
};
void collectVars(const Expr *e, std::vector<uint32_t> &out); // sorted, cached
const std::vector<uint32_t> &varsOf(const Expr *e);
std::string toStr(const Expr *e, int depth = 6);
extern uint64_t gNumExprs;
