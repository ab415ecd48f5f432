#include <sys/wait.h>
#include <unistd.h>
#include <poll.h>
#include <signal.h>
#include "solver.h"
#include <algorithm>
#include <chrono>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <unordered_set>
#include <z3.h>

SolverStats gStats;
static Z3_context C = nullptr;
static Z3_solver gSimple = nullptr;
static std::string gZ3Error;

static void onErr(Z3_context c, Z3_error_code e) { gZ3Error = Z3_get_error_msg(c, e); fprintf(stderr, "z3 error: %s\n", gZ3Error.c_str()); }

Solver::Solver() {
  Z3_config cfg = Z3_mk_config();
  Z3_set_param_value(cfg, "model", "true");
  C = Z3_mk_context(cfg);
  Z3_set_error_handler(C, onErr);
  Z3_del_config(cfg);
  gSimple = Z3_mk_simple_solver(C);
  Z3_solver_inc_ref(C, gSimple);
}
static Z3_ast b2bv(Z3_ast b) { // bool -> bv1
  Z3_sort s = Z3_mk_bv_sort(C, 1);
  return Z3_mk_ite(C, b, Z3_mk_unsigned_int64(C, 1, s), Z3_mk_unsigned_int64(C, 0, s));
}
static Z3_ast bv2b(Z3_ast v) { return Z3_mk_eq(C, v, Z3_mk_unsigned_int64(C, 1, Z3_mk_bv_sort(C, 1))); }
static Z3_sort fps(uint32_t w) { return w == 32 ? Z3_mk_fpa_sort_32(C) : Z3_mk_fpa_sort_64(C); }

static Z3_ast trBool(Expr *e);
static Z3_ast tr(Expr *e);
static Z3_ast trReal(Expr *e);

static Z3_ast fp(Expr *e) { return Z3_mk_fpa_to_fp_bv(C, tr(e), fps(e->w)); }
static Z3_ast fromfp(Z3_ast f) { return Z3_mk_fpa_to_ieee_bv(C, f); }

// Cache of boolean-sorted translations
static std::unordered_map<Expr *, Z3_ast> gBool;
static std::unordered_map<Expr *, std::vector<Z3_ast>> gAxiomOf; // real mode: facts about the term an expression introduces
static std::vector<Z3_ast> *gCur = nullptr;

static Z3_ast mkRealConst(Expr *e) {
  double d;
  if (e->w == 32) { uint32_t x = (uint32_t)e->c; float f; memcpy(&f, &x, 4); d = f; } else memcpy(&d, &e->c, 8);
  if (!std::isfinite(d)) { return Z3_mk_const(C, Z3_mk_string_symbol(C, "nonfinite"), Z3_mk_real_sort(C)); }
  // exact rational: mantissa * 2^exp
  int ex; double m = frexp(d, &ex); // d = m * 2^ex
  long long mi = (long long)ldexp(m, 53); ex -= 53;
  while (mi && !(mi & 1)) { mi >>= 1; ++ex; }
  char buf[64];
  snprintf(buf, 64, "%lld", mi);
  Z3_ast n = Z3_mk_numeral(C, buf, Z3_mk_real_sort(C));
  if (ex == 0 || !mi) return n;
  // 2^|ex| as decimal string through repeated doubling
  std::string p = "1";
  for (int i = 0; i < std::abs(ex); ++i) { int carry = 0; for (int k = (int)p.size() - 1; k >= 0; --k) { int v = (p[k] - '0') * 2 + carry; p[k] = '0' + v % 10; carry = v / 10; } if (carry) p.insert(p.begin(), '0' + carry); }
  if (ex > 0) { Z3_ast f = Z3_mk_numeral(C, p.c_str(), Z3_mk_real_sort(C)); Z3_ast a[2] = {n, f}; return Z3_mk_mul(C, 2, a); }
  std::string q = std::string(buf) + "/" + p;
  return Z3_mk_numeral(C, q.c_str(), Z3_mk_real_sort(C));
}
static std::unordered_map<uint64_t, Z3_ast> gRealVars;
static Z3_ast realLeaf(Expr *e) {
  char n[48]; snprintf(n, 48, "r%u", e->id);
  return Z3_mk_const(C, Z3_mk_string_symbol(C, n), Z3_mk_real_sort(C));
}
static Z3_ast rz(const char *v) { return Z3_mk_numeral(C, v, Z3_mk_real_sort(C)); }

static Z3_ast trReal0(Expr *e) {
  switch (e->op) {
  case OP_CONST: return mkRealConst(e);
  case OP_FADD: { Z3_ast a[2] = {trReal(e->a[0]), trReal(e->a[1])}; return Z3_mk_add(C, 2, a); }
  case OP_FSUB: { Z3_ast a[2] = {trReal(e->a[0]), trReal(e->a[1])}; return Z3_mk_sub(C, 2, a); }
  case OP_FMUL: { Z3_ast a[2] = {trReal(e->a[0]), trReal(e->a[1])}; return Z3_mk_mul(C, 2, a); }
  case OP_FDIV: {
    Z3_ast d = trReal(e->a[1]);
    if (e->a[1]->op == OP_CONST) return Z3_mk_div(C, trReal(e->a[0]), d);
    // inverse variable: i * d == 1 when d != 0
    char n[48]; snprintf(n, 48, "inv%u", e->a[1]->id);
    Z3_ast i = Z3_mk_const(C, Z3_mk_string_symbol(C, n), Z3_mk_real_sort(C));
    Z3_ast p[2] = {i, d};
    Z3_ast z = Z3_mk_eq(C, d, rz("0"));
    Z3_ast o[2] = {z, Z3_mk_eq(C, Z3_mk_mul(C, 2, p), rz("1"))};
    gCur->push_back(Z3_mk_or(C, 2, o));
    Z3_ast m[2] = {trReal(e->a[0]), i};
    return Z3_mk_mul(C, 2, m);
  }
  case OP_FNEG: return Z3_mk_unary_minus(C, trReal(e->a[0]));
  case OP_FABS: { Z3_ast a = trReal(e->a[0]); return Z3_mk_ite(C, Z3_mk_ge(C, a, rz("0")), a, Z3_mk_unary_minus(C, a)); }
  case OP_FSQRT: {
    Z3_ast x = trReal(e->a[0]); Z3_ast r = realLeaf(e);
    Z3_ast p[2] = {r, r};
    Z3_ast o[2] = {Z3_mk_lt(C, x, rz("0")), Z3_mk_eq(C, Z3_mk_mul(C, 2, p), x)};
    gCur->push_back(Z3_mk_or(C, 2, o));
    gCur->push_back(Z3_mk_ge(C, r, rz("0")));
    return r;
  }
  case OP_FPEXT: case OP_FPTRUNC: return trReal(e->a[0]);
  case OP_ITE: return Z3_mk_ite(C, trBool(e->a[0]), trReal(e->a[1]), trReal(e->a[2]));
  case OP_UF: {
    const std::string &n = gUFNames[e->c];
    Z3_sort rs = Z3_mk_real_sort(C);
    Z3_sort dom[2] = {rs, rs};
    unsigned k = e->a[1] ? 2 : 1;
    Z3_ast args[2] = {trReal(e->a[0]), e->a[1] ? trReal(e->a[1]) : nullptr};
    Z3_ast r = Z3_mk_app(C, Z3_mk_func_decl(C, Z3_mk_string_symbol(C, ("R" + n).c_str()), k, dom, rs), k, args);
    if (n == "sin" || n == "cos") {
      Z3_ast s = Z3_mk_app(C, Z3_mk_func_decl(C, Z3_mk_string_symbol(C, "Rsin"), 1, dom, rs), 1, args);
      Z3_ast c = Z3_mk_app(C, Z3_mk_func_decl(C, Z3_mk_string_symbol(C, "Rcos"), 1, dom, rs), 1, args);
      Z3_ast ss[2] = {s, s}, cc[2] = {c, c};
      Z3_ast sum[2] = {Z3_mk_mul(C, 2, ss), Z3_mk_mul(C, 2, cc)};
      gCur->push_back(Z3_mk_eq(C, Z3_mk_add(C, 2, sum), rz("1")));
    }
    if (n == "acos") { // cos(acos(x)) = x for |x| <= 1
      Z3_ast ra[1] = {r};
      Z3_ast c = Z3_mk_app(C, Z3_mk_func_decl(C, Z3_mk_string_symbol(C, "Rcos"), 1, dom, rs), 1, ra);
      Z3_ast o[3] = {Z3_mk_lt(C, args[0], rz("-1")), Z3_mk_gt(C, args[0], rz("1")), Z3_mk_eq(C, c, args[0])};
      gCur->push_back(Z3_mk_or(C, 3, o));
      // acos(x) lies in [0, pi]: its sine is not negative, and is sqrt(1 - x^2)
      Z3_ast s = Z3_mk_app(C, Z3_mk_func_decl(C, Z3_mk_string_symbol(C, "Rsin"), 1, dom, rs), 1, ra);
      Z3_ast ss[2] = {s, s}, xx[2] = {args[0], args[0]};
      Z3_ast sum[2] = {Z3_mk_mul(C, 2, ss), Z3_mk_mul(C, 2, xx)};
      Z3_ast both[2] = {Z3_mk_ge(C, s, rz("0")), Z3_mk_eq(C, Z3_mk_add(C, 2, sum), rz("1"))};
      Z3_ast o2[3] = {o[0], o[1], Z3_mk_and(C, 2, both)};
      gCur->push_back(Z3_mk_or(C, 3, o2));
    }
    return r;
  }
  default: return realLeaf(e);
  }
}
static Z3_ast trReal(Expr *e) {
  if (e->z3r) return (Z3_ast)e->z3r;
  for (int i = 0; i < 3; ++i) if (e->a[i] && e->op != OP_ITE) trReal(e->a[i]); // operands first: they own their axioms
  if (e->op == OP_ITE) { trReal(e->a[1]); trReal(e->a[2]); }
  std::vector<Z3_ast> ax, *save = gCur;
  gCur = &ax;
  Z3_ast r = trReal0(e);
  gCur = save;
  for (Z3_ast x : ax) Z3_inc_ref(C, x);
  if (!ax.empty()) gAxiomOf[e] = ax;
  Z3_inc_ref(C, r);
  e->z3r = r;
  return r;
}
static void collectAxioms(Expr *e, std::unordered_set<Expr *> &seen, std::vector<Z3_ast> &out) {
  if (!seen.insert(e).second) return;
  auto it = gAxiomOf.find(e);
  if (it != gAxiomOf.end()) out.insert(out.end(), it->second.begin(), it->second.end());
  for (int i = 0; i < 3; ++i) if (e->a[i]) collectAxioms(e->a[i], seen, out);
}

static Z3_ast trBool0(Expr *e) {
  Expr **a = e->a;
  switch (e->op) {
  case OP_CONST: return e->c ? Z3_mk_true(C) : Z3_mk_false(C);
  case OP_EQ: if (a[0]->w == 1) return Z3_mk_eq(C, trBool(a[0]), trBool(a[1])); return Z3_mk_eq(C, tr(a[0]), tr(a[1]));
  case OP_ULT: return Z3_mk_bvult(C, tr(a[0]), tr(a[1]));
  case OP_ULE: return Z3_mk_bvule(C, tr(a[0]), tr(a[1]));
  case OP_SLT: return Z3_mk_bvslt(C, tr(a[0]), tr(a[1]));
  case OP_SLE: return Z3_mk_bvsle(C, tr(a[0]), tr(a[1]));
  case OP_AND: { Z3_ast x[2] = {trBool(a[0]), trBool(a[1])}; return Z3_mk_and(C, 2, x); }
  case OP_OR: { Z3_ast x[2] = {trBool(a[0]), trBool(a[1])}; return Z3_mk_or(C, 2, x); }
  case OP_XOR: if (isC(a[1], 1)) return Z3_mk_not(C, trBool(a[0])); return Z3_mk_xor(C, trBool(a[0]), trBool(a[1]));
  case OP_ITE: return Z3_mk_ite(C, trBool(a[0]), trBool(a[1]), trBool(a[2]));
  case OP_FOEQ: if (gRealMode) return Z3_mk_eq(C, trReal(a[0]), trReal(a[1])); return Z3_mk_fpa_eq(C, fp(a[0]), fp(a[1]));
  case OP_FOLT: if (gRealMode) return Z3_mk_lt(C, trReal(a[0]), trReal(a[1])); return Z3_mk_fpa_lt(C, fp(a[0]), fp(a[1]));
  case OP_FOLE: if (gRealMode) return Z3_mk_le(C, trReal(a[0]), trReal(a[1])); return Z3_mk_fpa_leq(C, fp(a[0]), fp(a[1]));
  case OP_FUNO: {
    if (gRealMode) return Z3_mk_false(C);
    Z3_ast x[2] = {Z3_mk_fpa_is_nan(C, fp(a[0])), Z3_mk_fpa_is_nan(C, fp(a[1]))};
    return Z3_mk_or(C, 2, x);
  }
  default: return bv2b(tr(e));
  }
}
static Z3_ast trBool(Expr *e) {
  auto it = gBool.find(e);
  if (it != gBool.end()) return it->second;
  Z3_ast r = trBool0(e);
  Z3_inc_ref(C, r);
  gBool[e] = r;
  return r;
}
static Z3_ast tr0(Expr *e) {
  Expr **a = e->a;
  switch (e->op) {
  case OP_CONST: return Z3_mk_unsigned_int64(C, e->c, Z3_mk_bv_sort(C, e->w));
  case OP_VAR: { char n[32]; snprintf(n, 32, "v%llu", (unsigned long long)e->c); return Z3_mk_const(C, Z3_mk_string_symbol(C, n), Z3_mk_bv_sort(C, e->w)); }
  case OP_ADD: return Z3_mk_bvadd(C, tr(a[0]), tr(a[1]));
  case OP_SUB: return Z3_mk_bvsub(C, tr(a[0]), tr(a[1]));
  case OP_MUL: return Z3_mk_bvmul(C, tr(a[0]), tr(a[1]));
  case OP_UDIV: return Z3_mk_bvudiv(C, tr(a[0]), tr(a[1]));
  case OP_SDIV: return Z3_mk_bvsdiv(C, tr(a[0]), tr(a[1]));
  case OP_UREM: return Z3_mk_bvurem(C, tr(a[0]), tr(a[1]));
  case OP_SREM: return Z3_mk_bvsrem(C, tr(a[0]), tr(a[1]));
  case OP_AND: if (e->w == 1) return b2bv(trBool(e)); return Z3_mk_bvand(C, tr(a[0]), tr(a[1]));
  case OP_OR: if (e->w == 1) return b2bv(trBool(e)); return Z3_mk_bvor(C, tr(a[0]), tr(a[1]));
  case OP_XOR: if (e->w == 1) return b2bv(trBool(e)); return Z3_mk_bvxor(C, tr(a[0]), tr(a[1]));
  case OP_SHL: return Z3_mk_bvshl(C, tr(a[0]), tr(a[1]));
  case OP_LSHR: return Z3_mk_bvlshr(C, tr(a[0]), tr(a[1]));
  case OP_ASHR: return Z3_mk_bvashr(C, tr(a[0]), tr(a[1]));
  case OP_EQ: case OP_ULT: case OP_ULE: case OP_SLT: case OP_SLE: case OP_FOEQ: case OP_FOLT: case OP_FOLE: case OP_FUNO:
    return b2bv(trBool(e));
  case OP_ITE: if (e->w == 1) return b2bv(trBool(e)); return Z3_mk_ite(C, trBool(a[0]), tr(a[1]), tr(a[2]));
  case OP_CONCAT: return Z3_mk_concat(C, tr(a[0]), tr(a[1]));
  case OP_EXTRACT: return Z3_mk_extract(C, (unsigned)(e->c + e->w - 1), (unsigned)e->c, tr(a[0]));
  case OP_ZEXT: return Z3_mk_zero_ext(C, e->w - a[0]->w, tr(a[0]));
  case OP_SEXT: return Z3_mk_sign_ext(C, e->w - a[0]->w, tr(a[0]));
  default: break;
  }
  if (gRealMode) { // a floating-point result used as bits: opaque, but equal reals are not forced to equal bits
    char n[32]; snprintf(n, 32, "bits%u", e->id);
    return Z3_mk_const(C, Z3_mk_string_symbol(C, n), Z3_mk_bv_sort(C, e->w));
  }
  Z3_ast rm = Z3_mk_fpa_rne(C);
  switch (e->op) {
  case OP_FADD: return fromfp(Z3_mk_fpa_add(C, rm, fp(a[0]), fp(a[1])));
  case OP_FSUB: return fromfp(Z3_mk_fpa_sub(C, rm, fp(a[0]), fp(a[1])));
  case OP_FMUL: return fromfp(Z3_mk_fpa_mul(C, rm, fp(a[0]), fp(a[1])));
  case OP_FDIV: return fromfp(Z3_mk_fpa_div(C, rm, fp(a[0]), fp(a[1])));
  case OP_FSQRT: return fromfp(Z3_mk_fpa_sqrt(C, rm, fp(a[0])));
  case OP_FNEG: return Z3_mk_bvxor(C, tr(a[0]), Z3_mk_unsigned_int64(C, 1ull << (e->w - 1), Z3_mk_bv_sort(C, e->w)));
  case OP_FABS: return Z3_mk_bvand(C, tr(a[0]), Z3_mk_unsigned_int64(C, maskw(e->w) >> 1, Z3_mk_bv_sort(C, e->w)));
  case OP_FPEXT: case OP_FPTRUNC: return fromfp(Z3_mk_fpa_to_fp_float(C, rm, fp(a[0]), fps(e->w)));
  case OP_SITOFP: return fromfp(Z3_mk_fpa_to_fp_signed(C, rm, tr(a[0]), fps(e->w)));
  case OP_UITOFP: return fromfp(Z3_mk_fpa_to_fp_unsigned(C, rm, tr(a[0]), fps(e->w)));
  case OP_FPTOSI: return Z3_mk_fpa_to_sbv(C, Z3_mk_fpa_rtz(C), fp(a[0]), e->w);
  case OP_FPTOUI: return Z3_mk_fpa_to_ubv(C, Z3_mk_fpa_rtz(C), fp(a[0]), e->w);
  case OP_UF: {
    Z3_sort s = Z3_mk_bv_sort(C, e->w); Z3_sort dom[2] = {s, s}; unsigned k = a[1] ? 2 : 1;
    Z3_ast args[2] = {tr(a[0]), a[1] ? tr(a[1]) : nullptr};
    return Z3_mk_app(C, Z3_mk_func_decl(C, Z3_mk_string_symbol(C, gUFNames[e->c].c_str()), k, dom, s), k, args);
  }
  default: fprintf(stderr, "tr: bad op %d\n", e->op); abort();
  }
}
static Z3_ast tr(Expr *e) {
  if (e->z3) return (Z3_ast)e->z3;
  Z3_ast r = tr0(e);
  Z3_inc_ref(C, r);
  e->z3 = r;
  return r;
}

struct CacheVal { Sat s; std::vector<std::pair<uint32_t, uint64_t>> model; bool modelOk; };
static std::unordered_map<std::string, CacheVal> gCache;

// Applications of uninterpreted functions become variables, equal for equal arguments
struct Acker {
  std::unordered_map<unsigned, Z3_ast> memo; // by ast id; Z3 keeps every ast of the originals alive
  struct App { Z3_func_decl f; std::vector<Z3_ast> args; Z3_ast v; };
  std::vector<App> apps;
  std::vector<Z3_ast> keep;
  Z3_ast hold(Z3_ast a) { Z3_inc_ref(C, a); keep.push_back(a); return a; }
  Z3_ast go(Z3_ast a) {
    if (Z3_get_ast_kind(C, a) != Z3_APP_AST) return a;
    auto it = memo.find(Z3_get_ast_id(C, a));
    if (it != memo.end()) return it->second;
    Z3_app app = Z3_to_app(C, a);
    unsigned n = Z3_get_app_num_args(C, app);
    std::vector<Z3_ast> args;
    for (unsigned i = 0; i < n; ++i) args.push_back(go(Z3_get_app_arg(C, app, i)));
    Z3_ast r = a;
    if (n) {
      Z3_func_decl f = Z3_get_app_decl(C, app);
      if (Z3_get_decl_kind(C, f) == Z3_OP_UNINTERPRETED) {
        r = nullptr;
        for (App &p : apps) if (p.f == f && p.args == args) { r = p.v; break; }
        if (!r) { char nm[32]; snprintf(nm, 32, "uf%zu", apps.size()); r = hold(Z3_mk_const(C, Z3_mk_string_symbol(C, nm), Z3_get_sort(C, a))); apps.push_back({f, args, r}); }
      } else r = hold(Z3_update_term(C, a, n, args.data()));
    }
    return memo[Z3_get_ast_id(C, a)] = r;
  }
  std::vector<Z3_ast> congruence() {
    std::vector<Z3_ast> out;
    for (size_t i = 0; i < apps.size(); ++i) for (size_t j = 0; j < i; ++j) if (apps[i].f == apps[j].f) {
      std::vector<Z3_ast> o{Z3_mk_eq(C, apps[i].v, apps[j].v)};
      for (size_t k = 0; k < apps[i].args.size(); ++k) o.push_back(Z3_mk_not(C, Z3_mk_eq(C, apps[i].args[k], apps[j].args[k])));
      out.push_back(hold(Z3_mk_or(C, o.size(), o.data())));
    }
    return out;
  }
  ~Acker() { for (Z3_ast a : keep) Z3_dec_ref(C, a); }
};

static double nowS() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }

Sat Solver::check(const std::vector<Expr *> &pc, Expr *extra, Assign *model, bool *modelOk) {
  ++gStats.queries;
  if (modelOk) *modelOk = true;
  if (isC(extra)) { if (!extra->c) { ++gStats.unsat; return UNSAT; } ++gStats.sat; return SAT; }
  // slice: constraints transitively sharing variables with extra
  std::vector<Expr *> cs;
  std::vector<bool> inV(gVars.size(), false);
  for (uint32_t v : varsOf(extra)) inV[v] = true;
  std::vector<char> used(pc.size(), 0);
  bool hasFP = extra->hasFP, hasUF = extra->hasUF;
  for (bool ch = true; ch;) {
    ch = false;
    for (size_t i = 0; i < pc.size(); ++i) if (!used[i]) {
      const auto &vs = varsOf(pc[i]);
      bool hit = false;
      for (uint32_t v : vs) if (inV[v]) { hit = true; break; }
      if (hit) { used[i] = 1; ch = true; for (uint32_t v : vs) inV[v] = true; cs.push_back(pc[i]); hasFP |= pc[i]->hasFP; hasUF |= pc[i]->hasUF; }
    }
  }
  cs.push_back(extra);
  std::sort(cs.begin(), cs.end(), [](Expr *x, Expr *y) { return x->id < y->id; });
  cs.erase(std::unique(cs.begin(), cs.end()), cs.end());
  std::string key((const char *)cs.data(), cs.size() * sizeof(Expr *));
  auto it = gCache.find(key);
  CacheVal cv;
  if (it != gCache.end()) { ++gStats.cacheHits; cv = it->second; }
  else {
    double t0 = nowS();
    ++gStats.z3calls;
    std::vector<Z3_ast> as;
    for (Expr *e : cs) as.push_back(trBool(e));
    auto assertAll = [&](Z3_solver s) {
      for (Z3_ast a : as) Z3_solver_assert(C, s, a);
      if (gRealMode) {
        std::unordered_set<Expr *> seen; std::vector<Z3_ast> ax;
        for (Expr *e : cs) collectAxioms(e, seen, ax);
        for (Z3_ast a : ax) Z3_solver_assert(C, s, a);
      }
    };
    auto solve = [&](const std::vector<Z3_ast> &pins, unsigned limitMs, CacheVal &cv) {
    Z3_lbool r = Z3_L_UNDEF;
    Z3_model m = nullptr;
    Z3_solver own = nullptr;
    if (!hasFP && !gRealMode) {
      Z3_solver_reset(C, gSimple);
      Z3_params p = Z3_mk_params(C); Z3_params_inc_ref(C, p);
      Z3_params_set_uint(C, p, Z3_mk_string_symbol(C, "timeout"), 3000);
      Z3_solver_set_params(C, gSimple, p);
      Z3_params_dec_ref(C, p);
      assertAll(gSimple);
      r = Z3_solver_check(C, gSimple);
      if (r == Z3_L_TRUE) m = Z3_solver_get_model(C, gSimple);
    }
    if (r == Z3_L_UNDEF) {
      if (gRealMode) own = Z3_mk_solver_for_logic(C, Z3_mk_string_symbol(C, hasUF ? "QF_UFNRA" : "QF_NRA"));
      else if (hasUF) own = Z3_mk_solver(C);
      else if (hasFP) own = Z3_mk_solver_for_logic(C, Z3_mk_string_symbol(C, "QF_FPBV"));
      else own = Z3_mk_solver_for_logic(C, Z3_mk_string_symbol(C, "QF_BV"));
      Z3_solver_inc_ref(C, own);
      Z3_params p = Z3_mk_params(C); Z3_params_inc_ref(C, p);
      Z3_params_set_uint(C, p, Z3_mk_string_symbol(C, "timeout"), limitMs);
      Z3_solver_set_params(C, own, p);
      Z3_params_dec_ref(C, p);
      assertAll(own);
      for (Z3_ast a : pins) Z3_solver_assert(C, own, a);
      r = Z3_solver_check(C, own);
      if (r == Z3_L_UNDEF && gRealMode && hasUF) { // the same without uninterpreted functions: within reach of nlsat
        Z3_solver_dec_ref(C, own);
        own = Z3_mk_solver_for_logic(C, Z3_mk_string_symbol(C, "QF_NRA"));
        Z3_solver_inc_ref(C, own);
        Z3_params q = Z3_mk_params(C); Z3_params_inc_ref(C, q);
        Z3_params_set_uint(C, q, Z3_mk_string_symbol(C, "timeout"), limitMs);
        Z3_solver_set_params(C, own, q);
        Z3_params_dec_ref(C, q);
        Acker ack;
        std::unordered_set<Expr *> seen; std::vector<Z3_ast> ax;
        for (Expr *e : cs) collectAxioms(e, seen, ax);
        for (Z3_ast a : as) Z3_solver_assert(C, own, ack.go(a));
        for (Z3_ast a : ax) Z3_solver_assert(C, own, ack.go(a));
        for (Z3_ast a : pins) Z3_solver_assert(C, own, ack.go(a));
        for (Z3_ast a : ack.congruence()) Z3_solver_assert(C, own, a);
        r = Z3_solver_check(C, own);
      }
      if (r == Z3_L_TRUE) m = Z3_solver_get_model(C, own);
    }
    cv.s = r == Z3_L_TRUE ? SAT : r == Z3_L_FALSE ? UNSAT : UNKNOWN;
    cv.modelOk = true;
    if (cv.s == SAT) {
      if (!m) cv.modelOk = false;
      else {
        Z3_model_inc_ref(C, m);
        std::vector<uint32_t> vs;
        for (Expr *e : cs) for (uint32_t v : varsOf(e)) vs.push_back(v);
        std::sort(vs.begin(), vs.end()); vs.erase(std::unique(vs.begin(), vs.end()), vs.end());
        for (uint32_t v : vs) {
          uint64_t val = 0;
          char n[32]; snprintf(n, 32, "v%u", v);
          bool asReal = false;
          if (gRealMode && gVars[v].isFloat) asReal = true;
          if (asReal) {
            // find the leaf expression for the variable: intern returns the same node
            Expr *ve = nullptr;
            for (Expr *e : cs) { // search
              std::vector<Expr *> st{e}; std::unordered_set<Expr *> seen;
              while (!st.empty() && !ve) { Expr *x = st.back(); st.pop_back(); if (!seen.insert(x).second) continue; if (x->op == OP_VAR && x->c == v) ve = x; for (int i = 0; i < 3; ++i) if (x->a[i]) st.push_back(x->a[i]); }
              if (ve) break;
            }
            Z3_ast out = nullptr;
            double d = 0;
            if (ve && Z3_model_eval(C, m, realLeaf(ve), true, &out) && out) {
              std::string s = Z3_get_numeral_decimal_string(C, out, 20) ? Z3_get_numeral_decimal_string(C, out, 20) : "0";
              d = atof(s.c_str());
            }
            if (gVars[v].w == 32) { float f = (float)d; uint32_t x; memcpy(&x, &f, 4); val = x; } else memcpy(&val, &d, 8);
          } else {
            Z3_ast x = Z3_mk_const(C, Z3_mk_string_symbol(C, n), Z3_mk_bv_sort(C, gVars[v].w)), out = nullptr;
            if (Z3_model_eval(C, m, x, true, &out) && out) Z3_get_numeral_uint64(C, out, &val);
            else cv.modelOk = false;
          }
          cv.model.push_back({v, val});
        }
        Z3_model_dec_ref(C, m);
      }
    }
    if (own) Z3_solver_dec_ref(C, own);
    };
    if (!gRealMode) solve({}, timeoutMs, cv);
    else {
      // Non-linear real arithmetic may ignore its time limit: solve in a child process that can be stopped.
      auto guarded = [&](const std::vector<Z3_ast> &pins, unsigned limitMs, CacheVal &cv) {
        cv = CacheVal(); cv.s = UNKNOWN; cv.modelOk = true;
        int fd[2]; if (pipe(fd)) return;
        fflush(stdout); fflush(stderr);
        pid_t p = fork();
        if (p < 0) { close(fd[0]); close(fd[1]); return; }
        if (p == 0) {
          close(fd[0]); CacheVal c; c.s = UNKNOWN; c.modelOk = true; solve(pins, limitMs, c);
          std::vector<uint64_t> o{(uint64_t)c.s, (uint64_t)c.modelOk, (uint64_t)c.model.size()};
          for (auto &kv : c.model) { o.push_back(kv.first); o.push_back(kv.second); }
          size_t n = o.size() * 8, at = 0; while (at < n) { ssize_t w = write(fd[1], (char *)o.data() + at, n - at); if (w <= 0) break; at += w; }
          _exit(0);
        }
        close(fd[1]); std::string got; double end = nowS() + limitMs / 1000.0 + 2;
        for (;;) {
          double left = end - nowS(); if (left <= 0) break;
          struct pollfd pf{fd[0], POLLIN, 0}; int pr = poll(&pf, 1, (int)(left * 1000) + 1);
          if (pr <= 0) break;
          char buf[65536]; ssize_t k = read(fd[0], buf, sizeof buf); if (k <= 0) break; got.append(buf, k);
        }
        close(fd[0]); kill(p, SIGKILL); int st; waitpid(p, &st, 0);
        if (got.size() < 24) return;
        std::vector<uint64_t> o(got.size() / 8); memcpy(o.data(), got.data(), o.size() * 8);
        if (o.size() < 3 + 2 * o[2]) return;
        cv.s = (Sat)o[0]; cv.modelOk = o[1];
        for (uint64_t i = 0; i < o[2]; ++i) cv.model.push_back({(uint32_t)o[3 + 2 * i], o[4 + 2 * i]});
      };
      guarded({}, timeoutMs, cv);
      if (cv.s == UNKNOWN) {
        // No answer over all values: look for a counterexample with some inputs fixed (an UNSAT answer here decides nothing).
        std::vector<Expr *> fl; std::unordered_set<Expr *> seen; std::vector<Expr *> st(cs.begin(), cs.end());
        while (!st.empty()) { Expr *x = st.back(); st.pop_back(); if (!seen.insert(x).second) continue; if (x->op == OP_VAR && gVars[x->c].isFloat) fl.push_back(x); for (int i = 0; i < 3; ++i) if (x->a[i]) st.push_back(x->a[i]); }
        std::sort(fl.begin(), fl.end(), [](Expr *x, Expr *y) { return x->id < y->id; });
        static const char *V[] = {"1/2", "0", "-1/3", "1", "1/5", "-1/2", "1/7", "2"};
        uint32_t rot = 0;
        for (unsigned tryNo = 0; tryNo < 12 && cv.s != SAT; ++tryNo) {
          std::vector<Z3_ast> pins; unsigned freeVars = 1 + tryNo % 3;
          for (size_t i = 0; i < fl.size(); ++i) { if ((i + fl.size() - tryNo % fl.size()) % fl.size() < freeVars) continue; pins.push_back(Z3_mk_eq(C, realLeaf(fl[i]), rz(V[(rot++ + tryNo) % 8]))); }
          CacheVal t; guarded(pins, 4000, t);
          if (t.s == SAT) cv = t;
        }
      }
    }
    double dt = nowS() - t0;
    gStats.seconds += dt;
    if (dt > gStats.maxSeconds) gStats.maxSeconds = dt;
    if (gCache.size() > 2000000) gCache.clear();
    if (cv.s != UNKNOWN) gCache[key] = cv;
  }
  if (cv.s == SAT) ++gStats.sat; else if (cv.s == UNSAT) ++gStats.unsat; else ++gStats.unknown;
  if (cv.s == SAT && model) {
    if (model->size() < gVars.size()) model->resize(gVars.size(), 0);
    for (auto &kv : cv.model) (*model)[kv.first] = kv.second;
    if (modelOk) *modelOk = cv.modelOk;
  }
  return cv.s;
}
