#include "expr.h"
#include <algorithm>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <unordered_set>

std::vector<VarInfo> gVars;
std::vector<std::string> gUFNames;
bool gRealMode = false;
uint64_t gNumExprs = 0;

namespace {
struct Key { Op op; uint32_t w; uint64_t c; Expr *a0, *a1, *a2; };
struct KH {
  size_t operator()(const Expr *e) const {
    uint64_t h = e->op * 0x9E3779B97F4A7C15ull + e->w;
    auto mix = [&](uint64_t v) { h ^= v + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; h ^= h >> 32; };
    mix(e->c); mix((uint64_t)e->a[0]); mix((uint64_t)e->a[1]); mix((uint64_t)e->a[2]);
    return h;
  }
};
struct KE {
  bool operator()(const Expr *x, const Expr *y) const {
    return x->op == y->op && x->w == y->w && x->c == y->c && x->a[0] == y->a[0] && x->a[1] == y->a[1] && x->a[2] == y->a[2];
  }
};
std::unordered_set<Expr *, KH, KE> gTable;
std::vector<Expr *> gFreePool;

Expr *intern(Op op, uint32_t w, uint64_t c, Expr *a0 = nullptr, Expr *a1 = nullptr, Expr *a2 = nullptr) {
  Expr tmp;
  tmp.op = op; tmp.w = w; tmp.c = c; tmp.a[0] = a0; tmp.a[1] = a1; tmp.a[2] = a2;
  auto it = gTable.find(&tmp);
  if (it != gTable.end()) return *it;
  static char *arena = nullptr; static size_t left = 0;
  if (left < sizeof(Expr)) { left = sizeof(Expr) * 4096; arena = (char *)malloc(left); }
  Expr *e = (Expr *)arena; arena += sizeof(Expr); left -= sizeof(Expr);
  *e = tmp;
  e->id = ++gNumExprs; e->z3 = nullptr; e->z3r = nullptr;
  e->hasFP = op >= OP_FADD; e->hasUF = op == OP_UF;
  for (int i = 0; i < 3; ++i) if (e->a[i]) { e->hasFP |= e->a[i]->hasFP; e->hasUF |= e->a[i]->hasUF; }
  gTable.insert(e);
  return e;
}
float bf(uint64_t v) { uint32_t x = (uint32_t)v; float f; memcpy(&f, &x, 4); return f; }
double bd(uint64_t v) { double f; memcpy(&f, &v, 8); return f; }
uint64_t fb(float f) { uint32_t x; if (f != f) return 0x7fc00000u; memcpy(&x, &f, 4); return x; }
uint64_t db(double f) { uint64_t x; if (f != f) return 0x7ff8000000000000ull; memcpy(&x, &f, 8); return x; }
bool isCmp(Op op) { return (op >= OP_EQ && op <= OP_SLE) || (op >= OP_FOEQ && op <= OP_FUNO); }
bool isComm(Op op) { return op == OP_ADD || op == OP_MUL || op == OP_AND || op == OP_OR || op == OP_XOR || op == OP_EQ || op == OP_FADD || op == OP_FMUL || op == OP_FOEQ || op == OP_FUNO; }
} // namespace

uint64_t foldBin(Op op, uint64_t a, uint64_t b, uint32_t w) {
  uint64_t m = maskw(w);
  a &= m; b &= m;
  switch (op) {
  case OP_ADD: return (a + b) & m;
  case OP_SUB: return (a - b) & m;
  case OP_MUL: return (a * b) & m;
  case OP_UDIV: return b ? a / b : m;
  case OP_UREM: return b ? a % b : a;
  case OP_SDIV: { int64_t x = sextw(a, w), y = sextw(b, w); if (!y) return (x < 0 ? 1 : m) & m; if (y == -1) return (0 - (uint64_t)x) & m; return (uint64_t)(x / y) & m; }
  case OP_SREM: { int64_t x = sextw(a, w), y = sextw(b, w); if (!y) return a; if (y == -1) return 0; return (uint64_t)(x % y) & m; }
  case OP_AND: return a & b;
  case OP_OR: return a | b;
  case OP_XOR: return a ^ b;
  case OP_SHL: return b >= w ? 0 : (a << b) & m;
  case OP_LSHR: return b >= w ? 0 : a >> b;
  case OP_ASHR: { int64_t x = sextw(a, w); return (uint64_t)(x >> (b >= w ? w - 1 : b)) & m; }
  case OP_EQ: return a == b;
  case OP_ULT: return a < b;
  case OP_ULE: return a <= b;
  case OP_SLT: return sextw(a, w) < sextw(b, w);
  case OP_SLE: return sextw(a, w) <= sextw(b, w);
  case OP_FADD: return w == 32 ? fb(bf(a) + bf(b)) : db(bd(a) + bd(b));
  case OP_FSUB: return w == 32 ? fb(bf(a) - bf(b)) : db(bd(a) - bd(b));
  case OP_FMUL: return w == 32 ? fb(bf(a) * bf(b)) : db(bd(a) * bd(b));
  case OP_FDIV: return w == 32 ? fb(bf(a) / bf(b)) : db(bd(a) / bd(b));
  case OP_FOEQ: return w == 32 ? bf(a) == bf(b) : bd(a) == bd(b);
  case OP_FOLT: return w == 32 ? bf(a) < bf(b) : bd(a) < bd(b);
  case OP_FOLE: return w == 32 ? bf(a) <= bf(b) : bd(a) <= bd(b);
  case OP_FUNO: return w == 32 ? (bf(a) != bf(a) || bf(b) != bf(b)) : (bd(a) != bd(a) || bd(b) != bd(b));
  default: fprintf(stderr, "foldBin: bad op %d\n", op); abort();
  }
}
uint64_t foldFp1(Op op, uint64_t a, uint32_t wa, uint32_t w) {
  switch (op) {
  case OP_FNEG: return a ^ (1ull << (wa - 1));
  case OP_FABS: return a & ~(1ull << (wa - 1)) & maskw(wa);
  case OP_FSQRT: return wa == 32 ? fb(std::sqrt(bf(a))) : db(std::sqrt(bd(a)));
  case OP_FPEXT: return db((double)bf(a));
  case OP_FPTRUNC: return fb((float)bd(a));
  case OP_SITOFP: return w == 32 ? fb((float)sextw(a, wa)) : db((double)sextw(a, wa));
  case OP_UITOFP: return w == 32 ? fb((float)a) : db((double)a);
  case OP_FPTOSI: return (uint64_t)(int64_t)(wa == 32 ? (double)bf(a) : bd(a)) & maskw(w);
  case OP_FPTOUI: { double d = wa == 32 ? (double)bf(a) : bd(a); return (d < 0 ? (uint64_t)(int64_t)d : (uint64_t)d) & maskw(w); }
  default: abort();
  }
}
bool foldUF(const std::string &n, uint64_t a, uint64_t b, uint32_t w, uint64_t &out) {
  if (w == 32) {
    float x = bf(a), y = bf(b);
    if (n == "sin") out = fb(sinf(x)); else if (n == "cos") out = fb(cosf(x)); else if (n == "tan") out = fb(tanf(x));
    else if (n == "asin") out = fb(asinf(x)); else if (n == "acos") out = fb(acosf(x)); else if (n == "atan") out = fb(atanf(x));
    else if (n == "pow") out = fb(powf(x, y)); else return false;
    return true;
  }
  double x = bd(a), y = bd(b);
  if (n == "sin") out = db(sin(x)); else if (n == "cos") out = db(cos(x)); else if (n == "tan") out = db(tan(x));
  else if (n == "asin") out = db(asin(x)); else if (n == "acos") out = db(acos(x)); else if (n == "atan") out = db(atan(x));
  else if (n == "pow") out = db(pow(x, y)); else return false;
  return true;
}

Expr *mkConst(uint64_t v, uint32_t w) { return intern(OP_CONST, w, v & maskw(w)); }
Expr *mkVar(const std::string &name, uint32_t w, bool isUninit, bool isFloat) {
  gVars.push_back({name, w, isUninit, isFloat});
  return intern(OP_VAR, w, gVars.size() - 1);
}
Expr *mkNot(Expr *a) {
  if (isC(a)) return mkConst(~a->c, a->w);
  if (a->w == 1) {
    switch (a->op) {
    case OP_ULT: return mkBin(OP_ULE, a->a[1], a->a[0]);
    case OP_ULE: return mkBin(OP_ULT, a->a[1], a->a[0]);
    case OP_SLT: return mkBin(OP_SLE, a->a[1], a->a[0]);
    case OP_SLE: return mkBin(OP_SLT, a->a[1], a->a[0]);
    default: break;
    }
  }
  return mkBin(OP_XOR, a, mkConst(~0ull, a->w));
}
static bool isNot(Expr *e) { return e->op == OP_XOR && isC(e->a[1]) && e->a[1]->c == maskw(e->w); }

Expr *mkBin(Op op, Expr *a, Expr *b) {
  uint32_t w = a->w;
  if (a->w != b->w) { fprintf(stderr, "width mismatch op %d: %u %u\n", op, a->w, b->w); abort(); }
  uint32_t rw = isCmp(op) ? 1 : w;
  if (isC(a) && isC(b) && !(gRealMode && op >= OP_FADD)) return mkConst(foldBin(op, a->c, b->c, w), rw);
  if (isC(a) && isC(b)) return mkConst(foldBin(op, a->c, b->c, w), rw); // constants are exact enough in real mode as well
  if (isComm(op)) {
    if (isC(a) || (!isC(b) && a->id > b->id)) std::swap(a, b);
  }
  switch (op) {
  case OP_ADD:
    if (isC(b, 0)) return a;
    if (isC(b) && a->op == OP_ADD && isC(a->a[1])) return mkBin(OP_ADD, a->a[0], mkConst(a->a[1]->c + b->c, w));
    if (!isC(b) && a->op == OP_ADD && isC(a->a[1])) return mkBin(OP_ADD, mkBin(OP_ADD, a->a[0], b), a->a[1]);
    if (!isC(b) && b->op == OP_ADD && isC(b->a[1])) return mkBin(OP_ADD, mkBin(OP_ADD, a, b->a[0]), b->a[1]);
    break;
  case OP_SUB:
    if (isC(b, 0)) return a;
    if (a == b) return mkConst(0, w);
    if (isC(b)) return mkBin(OP_ADD, a, mkConst(0 - b->c, w));
    break;
  case OP_MUL:
    if (isC(b, 0)) return b;
    if (isC(b, 1)) return a;
    break;
  case OP_UDIV: case OP_SDIV:
    if (isC(b, 1)) return a;
    break;
  case OP_AND:
    if (isC(b, 0)) return b;
    if (isC(b, maskw(w)) || a == b) return a;
    if (isC(b) && a->op == OP_ZEXT && (b->c & maskw(a->a[0]->w)) == maskw(a->a[0]->w)) return a;
    if (isC(b) && b->c == 1 && a->op == OP_ZEXT) return mkZExt(mkExtract(a->a[0], 0, 1), w);
    break;
  case OP_OR:
    if (isC(b, 0) || a == b) return a;
    if (isC(b, maskw(w))) return b;
    break;
  case OP_XOR:
    if (isC(b, 0)) return a;
    if (a == b) return mkConst(0, w);
    if (isC(b) && a->op == OP_XOR && isC(a->a[1])) return mkBin(OP_XOR, a->a[0], mkConst(a->a[1]->c ^ b->c, w));
    if (w == 1 && isC(b, 1)) {
      if (a->op == OP_ULT) return mkBin(OP_ULE, a->a[1], a->a[0]);
      if (a->op == OP_ULE) return mkBin(OP_ULT, a->a[1], a->a[0]);
      if (a->op == OP_SLT) return mkBin(OP_SLE, a->a[1], a->a[0]);
      if (a->op == OP_SLE) return mkBin(OP_SLT, a->a[1], a->a[0]);
    }
    break;
  case OP_SHL: case OP_LSHR: case OP_ASHR:
    if (isC(b, 0)) return a;
    if (isC(a, 0)) return a;
    if (isC(b) && b->c >= w && op != OP_ASHR) return mkConst(0, w);
    if (isC(b) && op == OP_LSHR) return mkZExt(mkExtract(a, b->c, w - b->c), w);
    if (isC(b) && op == OP_SHL) return mkConcat(mkExtract(a, 0, w - b->c), mkConst(0, b->c));
    break;
  case OP_EQ:
    if (a == b) return mkConst(1, 1);
    if (isC(b)) {
      if (w == 1) return b->c ? a : mkNot(a);
      if (a->op == OP_ZEXT) {
        if (b->c & ~maskw(a->a[0]->w)) return mkConst(0, 1);
        return mkBin(OP_EQ, a->a[0], mkConst(b->c, a->a[0]->w));
      }
      if (a->op == OP_SEXT) {
        uint64_t lo = b->c & maskw(a->a[0]->w);
        if (((uint64_t)sextw(lo, a->a[0]->w) & maskw(w)) != b->c) return mkConst(0, 1);
        return mkBin(OP_EQ, a->a[0], mkConst(lo, a->a[0]->w));
      }
      if (a->op == OP_ITE && isC(a->a[1]) && isC(a->a[2])) {
        bool t = a->a[1]->c == b->c, e = a->a[2]->c == b->c;
        if (t && e) return mkConst(1, 1);
        if (t) return a->a[0];
        if (e) return mkNot(a->a[0]);
        return mkConst(0, 1);
      }
      if (a->op == OP_ADD && isC(a->a[1])) return mkBin(OP_EQ, a->a[0], mkConst(b->c - a->a[1]->c, w));
      if (a->op == OP_XOR && isC(a->a[1])) return mkBin(OP_EQ, a->a[0], mkConst(b->c ^ a->a[1]->c, w));
      if (a->op == OP_SUB && b->c == 0) return mkBin(OP_EQ, a->a[0], a->a[1]);
      if (a->op == OP_CONCAT) {
        Expr *hi = a->a[0], *lo = a->a[1];
        if (isC(hi)) { if (hi->c != (b->c >> lo->w)) return mkConst(0, 1); return mkBin(OP_EQ, lo, mkConst(b->c, lo->w)); }
        if (isC(lo)) { if (lo->c != (b->c & maskw(lo->w))) return mkConst(0, 1); return mkBin(OP_EQ, hi, mkConst(b->c >> lo->w, hi->w)); }
      }
    } else {
      if ((a->op == OP_ZEXT && b->op == OP_ZEXT) || (a->op == OP_SEXT && b->op == OP_SEXT))
        if (a->a[0]->w == b->a[0]->w) return mkBin(OP_EQ, a->a[0], b->a[0]);
      if (w == 1 && isNot(a) && isNot(b)) return mkBin(OP_EQ, a->a[0], b->a[0]);
      if (a->op == OP_ADD || b->op == OP_ADD) { // drop what both sums have in common
        std::vector<Expr *> l, r;
        auto terms = [](Expr *e, std::vector<Expr *> &o) { while (e->op == OP_ADD && o.size() < 8) { o.push_back(e->a[1]); e = e->a[0]; } o.push_back(e); };
        terms(a, l); terms(b, r);
        bool same = false; uint64_t cl = 0, cr = 0;
        for (size_t i = 0; i < l.size();) {
          auto j = std::find(r.begin(), r.end(), l[i]);
          if (j != r.end()) { r.erase(j); l.erase(l.begin() + i); same = true; } else ++i;
        }
        auto konst = [](std::vector<Expr *> &v, uint64_t &c) { bool any = false; for (size_t i = 0; i < v.size();) if (isC(v[i])) { c += v[i]->c; v.erase(v.begin() + i); any = true; } else ++i; return any; };
        bool kl = konst(l, cl), kr = konst(r, cr);
        if (same || (kl && kr)) {
          auto sum = [&](std::vector<Expr *> &v) { Expr *e = nullptr; for (size_t i = v.size(); i-- > 0;) e = e ? mkBin(OP_ADD, e, v[i]) : v[i]; return e ? e : mkConst(0, w); };
          return mkBin(OP_EQ, sum(l), mkBin(OP_ADD, sum(r), mkConst((cr - cl) & maskw(w), w)));
        }
      }
      if (w == 1 && (isNot(a) && a->a[0] == b)) return mkConst(0, 1);
      if (w == 1 && (isNot(b) && b->a[0] == a)) return mkConst(0, 1);
    }
    break;
  case OP_ULT:
    if (a == b) return mkConst(0, 1);
    if (isC(b, 0)) return mkConst(0, 1);
    if (isC(b, 1)) return mkBin(OP_EQ, a, mkConst(0, w));
    if (isC(a, maskw(w))) return mkConst(0, 1);
    if (a->op == OP_ZEXT && b->op == OP_ZEXT && a->a[0]->w == b->a[0]->w) return mkBin(op, a->a[0], b->a[0]);
    if (a->op == OP_ZEXT && isC(b)) { if (b->c > maskw(a->a[0]->w)) return mkConst(1, 1); return mkBin(op, a->a[0], mkConst(b->c, a->a[0]->w)); }
    if (b->op == OP_ZEXT && isC(a)) { if (a->c >= maskw(b->a[0]->w)) return mkConst(0, 1); return mkBin(op, mkConst(a->c, b->a[0]->w), b->a[0]); }
    break;
  case OP_ULE:
    if (a == b) return mkConst(1, 1);
    if (isC(a, 0)) return mkConst(1, 1);
    if (isC(b, maskw(w))) return mkConst(1, 1);
    if (a->op == OP_ZEXT && b->op == OP_ZEXT && a->a[0]->w == b->a[0]->w) return mkBin(op, a->a[0], b->a[0]);
    if (a->op == OP_ZEXT && isC(b)) { if (b->c >= maskw(a->a[0]->w)) return mkConst(1, 1); return mkBin(op, a->a[0], mkConst(b->c, a->a[0]->w)); }
    if (b->op == OP_ZEXT && isC(a)) { if (a->c > maskw(b->a[0]->w)) return mkConst(0, 1); return mkBin(op, mkConst(a->c, b->a[0]->w), b->a[0]); }
    break;
  case OP_SLT: case OP_SLE:
    if (a == b) return mkConst(op == OP_SLE, 1);
    // zero-extended operands are non-negative
    if (a->op == OP_ZEXT && a->a[0]->w < w && (b->op == OP_ZEXT ? b->a[0]->w < w : false)) return mkBin(op == OP_SLT ? OP_ULT : OP_ULE, a, b);
    if (a->op == OP_ZEXT && a->a[0]->w < w && isC(b)) { if (sextw(b->c, w) < 0) return mkConst(0, 1); return mkBin(op == OP_SLT ? OP_ULT : OP_ULE, a, b); }
    if (b->op == OP_ZEXT && b->a[0]->w < w && isC(a)) { if (sextw(a->c, w) < 0) return mkConst(1, 1); return mkBin(op == OP_SLT ? OP_ULT : OP_ULE, a, b); }
    if (a->op == OP_SEXT && b->op == OP_SEXT && a->a[0]->w == b->a[0]->w) return mkBin(op, a->a[0], b->a[0]);
    // ite over constants against constant
    if (isC(b) && a->op == OP_ITE && isC(a->a[1]) && isC(a->a[2])) {
      bool t = foldBin(op, a->a[1]->c, b->c, w), e = foldBin(op, a->a[2]->c, b->c, w);
      if (t == e) return mkConst(t, 1);
      return t ? a->a[0] : mkNot(a->a[0]);
    }
    if (isC(b) && a->op == OP_SEXT) {
      uint32_t aw = a->a[0]->w; int64_t v = sextw(b->c, w);
      if (v >= sextw(1ull << (aw - 1), aw) && v <= (int64_t)maskw(aw - 1)) return mkBin(op, a->a[0], mkConst(v, aw));
    }
    if (isC(a) && b->op == OP_SEXT) {
      uint32_t bw = b->a[0]->w; int64_t v = sextw(a->c, w);
      if (v >= sextw(1ull << (bw - 1), bw) && v <= (int64_t)maskw(bw - 1)) return mkBin(op, mkConst(v, bw), b->a[0]);
    }
    break;
  default: break;
  }
  return intern(op, rw, 0, a, b);
}
Expr *mkIte(Expr *c, Expr *t, Expr *e) {
  if (isC(c)) return c->c ? t : e;
  if (t == e) return t;
  if (t->w == 1) {
    if (isC(t, 1) && isC(e, 0)) return c;
    if (isC(t, 0) && isC(e, 1)) return mkNot(c);
    if (isC(t, 1)) return mkBin(OP_OR, c, e);
    if (isC(e, 0)) return mkBin(OP_AND, c, t);
    if (isC(t, 0)) return mkBin(OP_AND, mkNot(c), e);
    if (isC(e, 1)) return mkBin(OP_OR, mkNot(c), t);
  }
  if (isC(t, 1) && isC(e, 0)) return mkZExt(c, t->w);
  if (isNot(c)) return mkIte(c->a[0], e, t);
  return intern(OP_ITE, t->w, 0, c, t, e);
}
static Expr *extractNode(Expr *a, uint32_t off, uint32_t w);
// Extraction is pushed into the operands: shared subterms are visited once.
Expr *mkExtract(Expr *a, uint32_t off, uint32_t w) {
  if (w == a->w) return a;
  if (isC(a)) return mkConst(a->c >> off, w);
  static std::unordered_map<Expr *, std::vector<std::pair<uint32_t, Expr *>>> memo; // terms are never freed
  uint32_t key = off << 8 | w;
  auto it = memo.find(a);
  if (it != memo.end()) for (auto &kv : it->second) if (kv.first == key) return kv.second;
  Expr *r = extractNode(a, off, w);
  memo[a].push_back({key, r});
  return r;
}
static Expr *extractNode(Expr *a, uint32_t off, uint32_t w) {
  switch (a->op) {
  case OP_EXTRACT: return mkExtract(a->a[0], (uint32_t)a->c + off, w);
  case OP_ZEXT:
    if (off >= a->a[0]->w) return mkConst(0, w);
    if (off + w <= a->a[0]->w) return mkExtract(a->a[0], off, w);
    return mkZExt(mkExtract(a->a[0], off, a->a[0]->w - off), w);
  case OP_SEXT:
    if (off + w <= a->a[0]->w) return mkExtract(a->a[0], off, w);
    if (off == 0) return mkSExt(a->a[0], w);
    break;
  case OP_CONCAT: {
    uint32_t lw = a->a[1]->w;
    if (off + w <= lw) return mkExtract(a->a[1], off, w);
    if (off >= lw) return mkExtract(a->a[0], off - lw, w);
    return mkConcat(mkExtract(a->a[0], 0, off + w - lw), mkExtract(a->a[1], off, lw - off));
  }
  case OP_ITE:
    if (isC(a->a[1]) || isC(a->a[2])) return mkIte(a->a[0], mkExtract(a->a[1], off, w), mkExtract(a->a[2], off, w));
    break;
  case OP_AND: case OP_OR: case OP_XOR:
    return mkBin(a->op, mkExtract(a->a[0], off, w), mkExtract(a->a[1], off, w));
  case OP_ADD: case OP_SUB: case OP_MUL:
    if (off == 0) return mkBin(a->op, mkExtract(a->a[0], 0, w), mkExtract(a->a[1], 0, w));
    break;
  default: break;
  }
  return intern(OP_EXTRACT, w, off, a);
}
Expr *mkConcat(Expr *hi, Expr *lo) {
  uint32_t w = hi->w + lo->w;
  if (w > 64) { fprintf(stderr, "concat too wide\n"); abort(); }
  if (isC(hi) && isC(lo)) return mkConst(hi->c << lo->w | lo->c, w);
  if (isC(hi, 0)) return mkZExt(lo, w);
  if (hi->op == OP_EXTRACT && lo->op == OP_EXTRACT && hi->a[0] == lo->a[0] && hi->c == lo->c + lo->w) return mkExtract(hi->a[0], lo->c, w);
  if (hi->op == OP_EXTRACT && hi->a[0] == lo && hi->c == lo->w) return mkExtract(lo, 0, w);
  // merge with the low half of a nested concat on the right: hi ++ (x ++ y)
  if (lo->op == OP_CONCAT && hi->op == OP_EXTRACT && lo->a[0]->op == OP_EXTRACT && hi->a[0] == lo->a[0]->a[0] && hi->c == lo->a[0]->c + lo->a[0]->w)
    return mkConcat(mkExtract(hi->a[0], lo->a[0]->c, hi->w + lo->a[0]->w), lo->a[1]);
  if (lo->op == OP_CONCAT && isC(hi) && isC(lo->a[0])) return mkConcat(mkConst(hi->c << lo->a[0]->w | lo->a[0]->c, hi->w + lo->a[0]->w), lo->a[1]);
  return intern(OP_CONCAT, w, 0, hi, lo);
}
Expr *mkZExt(Expr *a, uint32_t w) {
  if (w == a->w) return a;
  if (isC(a)) return mkConst(a->c, w);
  if (a->op == OP_ZEXT) return mkZExt(a->a[0], w);
  return intern(OP_ZEXT, w, 0, a);
}
Expr *mkSExt(Expr *a, uint32_t w) {
  if (w == a->w) return a;
  if (isC(a)) return mkConst((uint64_t)sextw(a->c, a->w), w);
  if (a->op == OP_SEXT) return mkSExt(a->a[0], w);
  if (a->op == OP_ZEXT) return mkZExt(a->a[0], w);
  if (a->op == OP_ITE && isC(a->a[1]) && isC(a->a[2])) return mkIte(a->a[0], mkSExt(a->a[1], w), mkSExt(a->a[2], w));
  return intern(OP_SEXT, w, 0, a);
}
Expr *mkFp1(Op op, Expr *a, uint32_t w) {
  if (isC(a)) return mkConst(foldFp1(op, a->c, a->w, w), w);
  if (op == OP_FNEG && a->op == OP_FNEG) return a->a[0];
  return intern(op, w, 0, a);
}
Expr *mkUF(const std::string &name, Expr *a, Expr *b) {
  uint64_t r;
  if (isC(a) && (!b || isC(b)) && foldUF(name, a->c, b ? b->c : 0, a->w, r)) return mkConst(r, a->w);
  size_t i = 0;
  for (; i < gUFNames.size(); ++i) if (gUFNames[i] == name) break;
  if (i == gUFNames.size()) gUFNames.push_back(name);
  return intern(OP_UF, a->w, i, a, b);
}

uint64_t Evaluator::eval(const Expr *e) {
  if (e->op == OP_CONST) return e->c;
  if (e->op == OP_VAR) return (e->c < as.size() ? as[e->c] : 0) & maskw(e->w);
  auto it = memo.find(e);
  if (it != memo.end()) return it->second;
  uint64_t r = 0;
  if (gRealMode && e->op >= OP_FADD) { ok = false; }
  else switch (e->op) {
  case OP_ITE: r = eval(e->a[0]) ? eval(e->a[1]) : eval(e->a[2]); break;
  case OP_CONCAT: r = eval(e->a[0]) << e->a[1]->w | eval(e->a[1]); break;
  case OP_EXTRACT: r = (eval(e->a[0]) >> e->c) & maskw(e->w); break;
  case OP_ZEXT: r = eval(e->a[0]); break;
  case OP_SEXT: r = (uint64_t)sextw(eval(e->a[0]), e->a[0]->w) & maskw(e->w); break;
  case OP_FNEG: case OP_FABS: case OP_FSQRT: case OP_FPEXT: case OP_FPTRUNC: case OP_SITOFP: case OP_UITOFP: case OP_FPTOSI: case OP_FPTOUI:
    r = foldFp1(e->op, eval(e->a[0]), e->a[0]->w, e->w); break;
  case OP_UF: ok = false; break;
  default: r = foldBin(e->op, eval(e->a[0]), eval(e->a[1]), e->a[0]->w); break;
  }
  memo[e] = r;
  return r;
}
static std::unordered_map<const Expr *, std::vector<uint32_t>> gVarCache;
const std::vector<uint32_t> &varsOf(const Expr *e) {
  auto it = gVarCache.find(e);
  if (it != gVarCache.end()) return it->second;
  std::vector<uint32_t> out;
  std::unordered_set<const Expr *> seen;
  std::vector<const Expr *> st{e};
  while (!st.empty()) {
    const Expr *x = st.back(); st.pop_back();
    if (!seen.insert(x).second) continue;
    if (x->op == OP_VAR) out.push_back((uint32_t)x->c);
    for (int i = 0; i < 3; ++i) if (x->a[i] && x->a[i]->op != OP_CONST) st.push_back(x->a[i]);
  }
  std::sort(out.begin(), out.end());
  return gVarCache[e] = out;
}
std::string toStr(const Expr *e, int d) {
  static const char *N[] = {"const","var","add","sub","mul","udiv","sdiv","urem","srem","and","or","xor","shl","lshr","ashr","eq","ult","ule","slt","sle","ite","concat","extract","zext","sext","fadd","fsub","fmul","fdiv","fneg","fabs","fsqrt","foeq","folt","fole","funo","fpext","fptrunc","sitofp","uitofp","fptosi","fptoui","uf"};
  char b[64];
  if (e->op == OP_CONST) { snprintf(b, 64, "0x%llx:%u", (unsigned long long)e->c, e->w); return b; }
  if (e->op == OP_VAR) return gVars[e->c].name;
  if (d <= 0) return "...";
  std::string s = "(" + std::string(e->op == OP_UF ? gUFNames[e->c].c_str() : N[e->op]);
  if (e->op == OP_EXTRACT) { snprintf(b, 64, "[%llu+%u]", (unsigned long long)e->c, e->w); s += b; }
  if (e->op == OP_ZEXT || e->op == OP_SEXT) { snprintf(b, 64, "%u", e->w); s += b; }
  for (int i = 0; i < 3; ++i) if (e->a[i]) s += " " + toStr(e->a[i], d - 1);
  return s + ")";
}
