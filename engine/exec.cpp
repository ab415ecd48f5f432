// symx: bounded symbolic execution of LLVM bitcode with Z3.
#include "mem.h"
#include "solver.h"
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/IntrinsicsX86.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Demangle/Demangle.h>
#include <algorithm>
#include <chrono>
#include <cmath>
#include <deque>
#include <map>
#include <set>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>
#include <unordered_set>

using namespace llvm;

static double nowS() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }

// ------------------------------------------------------------------ options
static std::string optEntry, optOut, optRepo = "/repo";
static std::map<std::string, long long> optParams;
static double optTime = 600;
static uint64_t optMaxSteps = 20000000, optMaxViol = 6, optMaxConcretize = 4096, optMaxIte = 64, optMaxDepth = 3000;
static int optJobs = 8;
static unsigned optQueryMs = 60000;
static bool optTrace = false;

// ------------------------------------------------------------------ decoded program
struct Slot { uint32_t w; uint32_t off; bool isF; };
typedef std::vector<Slot> Slots;
static const DataLayout *DL;
static Module *M;
static Expr *UNDEF; // sentinel

static std::map<Type *, Slots> gSlotCache;
static bool flattenInto(Type *t, uint32_t off, Slots &out) {
  if (t->isIntegerTy()) {
    unsigned w = t->getIntegerBitWidth();
    if (w > 64) return false;
    out.push_back({w, off, false}); return true;
  }
  if (t->isPointerTy()) { out.push_back({64, off, false}); return true; }
  if (t->isFloatTy()) { out.push_back({32, off, true}); return true; }
  if (t->isDoubleTy()) { out.push_back({64, off, true}); return true; }
  if (auto *s = dyn_cast<StructType>(t)) {
    if (s->isOpaque()) return false;
    auto *l = DL->getStructLayout(s);
    for (unsigned i = 0; i < s->getNumElements(); ++i) if (!flattenInto(s->getElementType(i), off + l->getElementOffset(i), out)) return false;
    return true;
  }
  if (auto *a = dyn_cast<ArrayType>(t)) {
    uint64_t es = DL->getTypeAllocSize(a->getElementType());
    if (a->getNumElements() > 100000) return false;
    for (uint64_t i = 0; i < a->getNumElements(); ++i) if (!flattenInto(a->getElementType(), off + i * es, out)) return false;
    return true;
  }
  if (auto *v = dyn_cast<FixedVectorType>(t)) {
    uint64_t es = DL->getTypeStoreSize(v->getElementType());
    for (unsigned i = 0; i < v->getNumElements(); ++i) if (!flattenInto(v->getElementType(), off + i * es, out)) return false;
    return true;
  }
  return false;
}
static bool slotsOf(Type *t, Slots &out) {
  auto it = gSlotCache.find(t);
  if (it != gSlotCache.end()) { out = it->second; return true; }
  Slots s;
  if (t->isVoidTy()) { out.clear(); return true; }
  if (!flattenInto(t, 0, s)) return false;
  gSlotCache[t] = s; out = s; return true;
}
static uint32_t nSlots(Type *t) { Slots s; if (!slotsOf(t, s)) return 0; return s.size(); }

enum KOp : uint8_t {
  KO_ALLOCA, KO_LOAD, KO_STORE, KO_GEP, KO_BIN, KO_ICMP, KO_FCMP, KO_CAST, KO_SELECT, KO_PHI, KO_BR, KO_CONDBR, KO_SWITCH,
  KO_CALL, KO_RET, KO_UNREACHABLE, KO_COPY, KO_EXTRACTELT, KO_INSERTELT, KO_SHUFFLE, KO_INSERTVAL, KO_FNEG, KO_RMW, KO_CMPXCHG, KO_FENCE, KO_VAARG, KO_NOP, KO_UNSUPPORTED, KO_FREEZE
};
struct GepIdx { int op; uint32_t w; int64_t scale; };
struct Arg { int op; uint32_t n; Type *t; bool byval; uint64_t byvalSize; };
struct KFunc;
struct KI {
  KOp op;
  uint16_t sub = 0;       // opcode / predicate / cast kind
  uint16_t n = 1;         // number of slots of the result
  uint32_t dst = 0, w = 0, w2 = 0;
  int a = 0, b = 0, c = 0; // operands
  int t0 = -1, t1 = -1;    // branch targets (block index)
  int64_t imm = 0; uint32_t align = 0; // align: of vector accesses, which fault when misaligned
  Instruction *I = nullptr;
  KFunc *callee = nullptr;
  int ext = -1;
  Slots sl;
  std::vector<GepIdx> gi;
  std::vector<Arg> args;
  std::vector<std::pair<int, int>> phi;          // pred block, operand
  std::vector<std::pair<uint64_t, int>> cases;   // value, block
  std::vector<int> mask;
};
struct KBlock { uint32_t start; uint32_t nphi; bool covered = false; };
struct KFunc {
  Function *F = nullptr;
  bool decoded = false, isDecl = false, inRepo = false;
  uint32_t nregs = 0;
  int index = 0;
  std::vector<KI> code;
  std::vector<KBlock> blocks;
  std::vector<std::pair<uint32_t, uint32_t>> params; // slot, n
  uint64_t executed = 0, calls = 0;
  int ext = -1;
  std::string file; unsigned line = 0;
  std::map<const Value *, uint32_t> reg;                     // first register of a value
  std::map<const BasicBlock *, std::vector<bool>> liveOut;   // registers alive at the end of a block
  std::map<uint32_t, std::vector<uint32_t>> liveAt;          // registers alive before an instruction
};
static std::vector<Val> gPool; // constants; operand index i < 0 means gPool[~i]
static std::map<Function *, KFunc *> gFuncs;
static std::vector<KFunc *> gFuncByIdx;
static std::map<const GlobalVariable *, uint64_t> gGlobalAddr;
static uint64_t globalAddr(const GlobalVariable *g);

static const uint64_t R_GLOBAL = 1, R_HEAP = 2, R_STACK = 3, R_FUNC = 4;
static const int64_t BIAS = 1 << 27;
static inline uint64_t slotAddr(uint64_t region, int64_t slot) { return (region << 44) | ((uint64_t)(slot + BIAS) << 16); }
static inline uint64_t zig(int64_t s) { return s >= 0 ? (uint64_t)s * 2 : (uint64_t)(-s) * 2 - 1; }
static uint64_t funcAddr(Function *F);

// ------------------------------------------------------------------ states
struct Frame {
  KFunc *f; uint32_t pc = 0; int prev = -1, block = 0;
  std::vector<Val> regs;
  std::vector<int64_t> allocas; // stack slots
  std::vector<std::pair<Val, uint32_t>> varargs;
  KI *callSite = nullptr;       // in the caller
};
struct BufStore { uint64_t addr; uint32_t bytes; std::vector<std::pair<Slot, Val>> v; };
struct Thread { std::vector<Frame> fr; bool done = false, waiting = false; int64_t stack = 0, stackEnd = 0; std::vector<BufStore> sb; }; // sb: stores not yet visible to the other threads (total store order)
struct Input { std::string name; uint32_t w; Val v; };
struct State;
static void flushAll(State &s, int t);
struct State {
  std::vector<Thread> th;
  int cur = 0, granted = -1;
  Table mem[4]; // by region
  int64_t heapUp = 0, heapDown = -1, stackNext = 0;
  int heapDir = 0;
  uint64_t heapLive = 0, heapBytes = 0;
  std::vector<Expr *> pc;
  Assign model; bool modelOk = true;
  uint64_t steps = 0, concretized = 0;
  std::vector<Input> in;
  std::vector<std::string> covers;
  uint64_t nAssert = 0;
  bool dead = false;
  uint64_t id = 0;
};
struct Violation { std::string kind, msg, loc; std::vector<std::string> stack; std::vector<std::pair<std::string, uint64_t>> inputs; bool uninit = false; };

static std::vector<Violation> gViol;
static std::map<std::string, int> gViolCount;
static std::map<std::string, uint64_t> gCovers, gAssertMsgs;
static std::set<std::string> gIncomplete;
static uint64_t gPaths = 0, gForks = 0, gSteps = 0, gAssertSym = 0, gAssertConc = 0, gInfeasible = 0, gMaxPathSteps = 0, gSymPaths = 0, gMerged = 0;
static std::vector<State *> gWork;
static Solver *S;
static double gStart;
typedef std::vector<std::pair<std::string, uint64_t>> Inputs;
static std::vector<std::pair<Inputs, std::string>> gSamples; // reservoir of completed paths
static uint64_t gSampleSeen = 0, optSamples = 8, gRng = 88172645463325252ull;
static uint64_t rnd() { gRng ^= gRng << 13; gRng ^= gRng >> 7; gRng ^= gRng << 17; return gRng; }
static bool gStop = false;
static uint64_t gNextObjName = 0;

static std::string locOf(const Instruction *I) {
  if (!I) return "?";
  if (const DebugLoc &d = I->getDebugLoc()) {
    if (auto *sc = dyn_cast<DIScope>(d.getScope())) return (sc->getFilename() + ":" + Twine(d.getLine())).str();
  }
  return I->getFunction()->getName().str();
}
static std::string shortFn(Function *F) { std::string s = demangle(F->getName().str()); if (s.size() > 160) s.resize(160); return s; }
static Frame &top(State &s) { return s.th[s.cur].fr.back(); }

static bool ensureModel(State &s) {
  if (s.modelOk) return true;
  Assign m = s.model; bool ok = true;
  // one query over the whole path condition
  Expr *all = mkConst(1, 1);
  for (Expr *e : s.pc) all = mkBin(OP_AND, all, e);
  Sat r = S->check({}, all, &m, &ok);
  if (r == SAT && ok) { s.model = m; s.modelOk = !gRealMode; return true; }
  return false;
}
static void violation(State &s, const std::string &kind, const std::string &msg) {
  Violation v; v.kind = kind; v.msg = msg;
  auto &fr = s.th[s.cur].fr;
  for (int i = (int)fr.size() - 1; i >= 0; --i) {
    KFunc *f = fr[i].f;
    Instruction *I = i == (int)fr.size() - 1 ? f->code[fr[i].pc < f->code.size() ? fr[i].pc : 0].I : (fr[i + 1].callSite ? fr[i + 1].callSite->I : nullptr);
    std::string l = locOf(I) + " in " + shortFn(f->F);
    if (v.stack.size() < 25) v.stack.push_back(l);
    if (v.loc.empty() && f->inRepo) v.loc = locOf(I);
  }
  if (v.loc.empty() && !v.stack.empty()) v.loc = v.stack[0];
  s.dead = true;
  std::string key = kind + "|" + msg + "|" + v.loc;
  if (++gViolCount[key] > 2) return;
  if (gViol.size() >= optMaxViol) { gStop = true; return; }
  ensureModel(s);
  Evaluator ev(s.model);
  for (auto &in : s.in) v.inputs.push_back({in.name, in.v.e ? ev.eval(in.v.e) : in.v.c});
  for (Expr *e : s.pc) for (uint32_t x : varsOf(e)) if (gVars[x].isUninit) v.uninit = true;
  gViol.push_back(v);
  if (gViol.size() >= optMaxViol) gStop = true;
}
static void incomplete(State &s, const std::string &why) {
  std::string k = why;
  if (!s.th[s.cur].fr.empty()) {
    Frame &f = top(s);
    k += " at " + locOf(f.pc < f.f->code.size() ? f.f->code[f.pc].I : nullptr) + " in " + shortFn(f.f->F);
  }
  gIncomplete.insert(k);
  s.dead = true;
}

static Val freshUninit(State &s, uint32_t w) {
  Expr *e = mkVar("uninit" + std::to_string(gVars.size()), w, true);
  (void)s;
  return VE(e);
}
static inline Val getRaw(Frame &f, int op) { return op >= 0 ? f.regs[op] : gPool[~op]; }
static inline Val get(State &s, Frame &f, int op, uint32_t w) {
  Val v = op >= 0 ? f.regs[op] : gPool[~op];
  if (v.e == UNDEF) { v = freshUninit(s, w); if (op >= 0) f.regs[op] = v; }
  return v;
}

// Decide a condition: returns 1 or 0 and, when both are feasible, sets other to the state of the opposite branch.
static int decide(State &s, Expr *c, State *&other) {
  other = nullptr;
  if (isC(c)) return (int)c->c;
  if (s.modelOk && s.model.size() < gVars.size()) s.model.resize(gVars.size(), 0);
  bool have = false; int v = 0;
  if (s.modelOk) { Evaluator ev(s.model); uint64_t r = ev.eval(c); if (ev.ok) { have = true; v = (int)(r & 1); } }
  if (have) {
    Assign m = s.model; bool ok;
    Expr *o = v ? mkNot(c) : c;
    Sat r = S->check(s.pc, o, &m, &ok);
    if (r == UNSAT) return v;
    if (r == UNKNOWN) gIncomplete.insert("solver gave no answer on a branch at " + locOf(top(s).f->code[top(s).pc].I));
    other = new State(s);
    other->pc.push_back(o);
    other->model = m; other->modelOk = r == SAT && ok && !gRealMode;
    s.pc.push_back(v ? c : mkNot(c));
    ++gForks;
    return v;
  }
  Assign m1 = s.model, m0 = s.model; bool ok1, ok0;
  Expr *n = mkNot(c);
  Sat r1 = S->check(s.pc, c, &m1, &ok1), r0 = S->check(s.pc, n, &m0, &ok0);
  if (r1 == UNKNOWN || r0 == UNKNOWN) gIncomplete.insert("solver gave no answer on a branch at " + locOf(top(s).f->code[top(s).pc].I));
  if (r1 == UNSAT && r0 == UNSAT) { s.dead = true; ++gInfeasible; return 0; }
  if (r1 == UNSAT) { s.model = m0; return 0; }
  if (r0 == UNSAT) { s.model = m1; return 1; }
  other = new State(s);
  other->pc.push_back(n); other->model = m0; other->modelOk = false;
  s.pc.push_back(c); s.model = m1; s.modelOk = false;
  ++gForks;
  return 1;
}
// Make a value concrete, forking over all feasible values. Returns false when the state must re-execute or died.
static bool concretize(State &s, Val &v, uint32_t w) {
  if (!v.e) return true;
  if (v.e == UNDEF) v = freshUninit(s, w);
  if (s.model.size() < gVars.size()) s.model.resize(gVars.size(), 0);
  if (!s.modelOk && !ensureModel(s)) { incomplete(s, "no model to enumerate a symbolic address or size"); return false; }
  Evaluator ev(s.model);
  uint64_t x = ev.eval(v.e);
  if (!ev.ok) { incomplete(s, "cannot evaluate a symbolic address or size"); return false; }
  if (++s.concretized > optMaxConcretize) { incomplete(s, "bound on enumerated values of a symbolic address or size reached"); return false; }
  State *o;
  Expr *c = mkBin(OP_EQ, v.e, mkConst(x, w));
  decide(s, c, o);
  if (o) gWork.push_back(o); // re-executes the same instruction with v != x
  v = VC(x);
  return true;
}

// ------------------------------------------------------------------ memory access
static MemObj *findObj(State &s, uint64_t addr) {
  uint64_t r = addr >> 44;
  if (r < 1 || r > 3) return nullptr;
  int64_t slot = (int64_t)((addr >> 16) & 0xFFFFFFF) - BIAS;
  return s.mem[r].get(zig(slot));
}
static MemObj *objW(State &s, MemObj *o) {
  uint64_t r = o->base >> 44;
  int64_t s0 = (int64_t)((o->base >> 16) & 0xFFFFFFF) - BIAS, s1 = (int64_t)(((o->base + (o->size ? o->size - 1 : 0)) >> 16) & 0xFFFFFFF) - BIAS;
  if (s0 == s1) return s.mem[r].getW(zig(s0));
  // multi-slot object: shared by all its slots
  MemObj *n = new MemObj(*o); n->refs = 0;
  RC<MemObj> rc(n);
  if (o->refs <= (uint32_t)(s1 - s0 + 1)) { // possibly exclusively ours, but chunks may be shared: only safe when no chunk is shared
    bool excl = true;
    for (int64_t k = s0; k <= s1; ++k) if (s.mem[r].ch[zig(k) >> 6]->refs > 1) excl = false;
    if (excl) return o;
  }
  for (int64_t k = s0; k <= s1; ++k) s.mem[r].set(zig(k), rc);
  return n;
}
static std::string describe(uint64_t addr, MemObj *o) {
  char b[200];
  if (!o) { snprintf(b, 200, "address 0x%llx%s", (unsigned long long)addr, addr < 4096 ? " (null)" : ""); return b; }
  snprintf(b, 200, "offset %lld of a %llu byte %s object", (long long)(addr - o->base), (unsigned long long)o->size, o->kind == K_HEAP ? "heap" : o->kind == K_STACK ? "stack" : "global");
  return std::string(b) + (o->name.empty() ? "" : " " + o->name);
}
static MemObj *access(State &s, uint64_t addr, uint64_t n, bool write, const char *what) {
  MemObj *o = findObj(s, addr);
  if (!o || addr < o->base || n > o->size || addr + n > o->base + o->size) {
    // addr may lie in the guard area around the object
    violation(s, "memory", std::string(write ? "write" : "read") + " outside any object" + (what ? std::string(" in ") + what : "") + (o ? "" : addr < 4096 ? " (null pointer)" : ""));
    if (optTrace) fprintf(stderr, "  at %s\n", describe(addr, o).c_str());
    return nullptr;
  }
  if (o->freed) { violation(s, "memory", std::string(write ? "write" : "read") + " after free" + (what ? std::string(" in ") + what : "")); return nullptr; }
  if (write && o->readonly) { violation(s, "memory", "write to constant memory"); return nullptr; }
  return o;
}
static Val loadBytes(State &s, MemObj *o, uint64_t off, uint32_t w) {
  uint32_t nb = (w + 7) / 8;
  bool conc = true;
  for (uint32_t i = 0; i < nb; ++i) if (o->st[off + i] != B_CONC) { conc = false; break; }
  if (conc) { uint64_t v = 0; memcpy(&v, &o->data[off], nb); return VC(v & maskw(w)); }
  for (uint32_t i = 0; i < nb; ++i) if (o->st[off + i] == B_UNINIT) {
    // stable garbage: one fresh variable per run of uninitialised bytes
    o = objW(s, o);
    uint32_t j = i; while (j < nb && o->st[off + j] == B_UNINIT) ++j;
    Expr *e = mkVar("uninit" + std::to_string(gVars.size()), (j - i) * 8, true);
    for (uint32_t k = i; k < j; ++k) o->wrSym(off + k, e, k - i);
    i = j - 1;
  }
  if (o->st[off] == B_SYM) {
    Expr *e = o->sym[off].e; bool same = o->sym[off].idx == 0 && (e->w == nb * 8);
    for (uint32_t i = 1; same && i < nb; ++i) same = o->st[off + i] == B_SYM && o->sym[off + i].e == e && o->sym[off + i].idx == i;
    if (same) return VE(mkExtract(e, 0, w));
  }
  Expr *r = nullptr;
  for (uint32_t i = 0; i < nb; ++i) {
    Expr *b = o->st[off + i] == B_CONC ? mkConst(o->data[off + i], 8) : mkExtract(o->sym[off + i].e, o->sym[off + i].idx * 8, 8);
    r = r ? mkConcat(b, r) : b;
  }
  // concat built from low to high keeps adjacent extracts unmerged on the left; rebuild from the top to merge
  if (nb > 1) {
    Expr *q = nullptr;
    for (int i = nb - 1; i >= 0; --i) {
      // merge maximal runs of the same expression
      int j = i;
      if (o->st[off + i] == B_SYM) {
        while (j > 0 && o->st[off + j - 1] == B_SYM && o->sym[off + j - 1].e == o->sym[off + i].e && o->sym[off + j - 1].idx + (i - j + 1) == o->sym[off + i].idx) --j;
        Expr *b = mkExtract(o->sym[off + j].e, o->sym[off + j].idx * 8, (i - j + 1) * 8);
        q = q ? mkConcat(q, b) : b;
        i = j;
      } else {
        Expr *b = mkConst(o->data[off + i], 8);
        q = q ? mkConcat(q, b) : b;
      }
    }
    r = q;
  }
  return VE(mkExtract(r, 0, w));
}
static void storeBytes(MemObj *o, uint64_t off, uint32_t w, const Val &v) {
  uint32_t nb = (w + 7) / 8;
  if (v.e == UNDEF) { for (uint32_t i = 0; i < nb; ++i) o->st[off + i] = B_UNINIT; return; }
  if (!v.e) { for (uint32_t i = 0; i < nb; ++i) { o->data[off + i] = (uint8_t)(v.c >> (8 * i)); o->st[off + i] = B_CONC; } return; }
  Expr *e = v.e;
  if (e->w != nb * 8) e = mkZExt(e, nb * 8);
  for (uint32_t i = 0; i < nb; ++i) o->wrSym(off + i, e, i);
}

static uint64_t newObj(State &s, ObjKind k, uint64_t size, uint64_t align, const std::string &name, const void *site) {
  if (align < 1) align = 1;
  MemObj *o = new MemObj;
  o->kind = k; o->setSize(size, B_UNINIT); o->name = name; o->site = site; o->thread = s.cur;
  uint64_t region = k == K_HEAP ? R_HEAP : k == K_STACK ? R_STACK : R_GLOBAL;
  static int64_t globalNext = 0;
  uint64_t span = (size + 0x3000 + (align > 4096 ? 2 * align : 0)) / 65536 + 1;
  int64_t first;
  if (k == K_HEAP) {
    if (s.heapDir == 0) { first = s.heapUp; s.heapUp += span; } else { s.heapDown -= span; first = s.heapDown + 1; }
  } else if (k == K_STACK && s.cur) { // threads reuse their stacks: equal states are found equal whatever was called before
    Thread &t = s.th[s.cur];
    if (t.stack + (int64_t)span > t.stackEnd) { gIncomplete.insert("stack of a thread"); s.dead = true; t.stack = t.stackEnd - 512; }
    first = t.stack; t.stack += span;
  } else if (k == K_STACK) { first = s.stackNext; s.stackNext += span; }
  else { first = globalNext; globalNext += span; }
  uint64_t a = slotAddr(region, first);
  if (align <= 2048) a += 0x1000 + align;            // aligned to exactly align
  else { a += 0x1000; a = (a + 2 * align - 1) / (2 * align) * (2 * align) + align; if (a >= slotAddr(region, first) + 2 * align + 0x1000) a -= 2 * align; if (a < slotAddr(region, first) + 0x1000) a += 2 * align; }
  o->base = a;
  RC<MemObj> rc(o);
  int64_t s0 = (int64_t)((a >> 16) & 0xFFFFFFF) - BIAS, s1 = (int64_t)(((a + (size ? size - 1 : 0)) >> 16) & 0xFFFFFFF) - BIAS;
  for (int64_t q = std::min<int64_t>(first, s0); q <= s1; ++q) s.mem[region].set(zig(q), rc);
  // single-slot objects occupy exactly their first slot
  return a;
}
static uint64_t heapAlloc(State &s, uint64_t size, uint64_t align, uint8_t how, const void *site) {
  uint64_t a = newObj(s, K_HEAP, size, align, "", site);
  MemObj *o = objW(s, findObj(s, a)); o->how = how;
  ++s.heapLive; s.heapBytes += size;
  return a;
}
static bool heapFree(State &s, uint64_t a, const char *what) {
  if (a == 0) return true;
  MemObj *o = findObj(s, a);
  if (!o || o->kind != K_HEAP || o->base != a) { violation(s, "memory", std::string("invalid ") + what + " of an address that is not the start of a heap block"); return false; }
  if (o->freed) { violation(s, "memory", std::string("double free in ") + what); return false; }
  o = objW(s, o);
  o->freed = true; --s.heapLive; s.heapBytes -= o->size;
  return true;
}
// A symbolic address that stays within one small object is not enumerated: the access is expressed over all positions.
// Returns 1 (object and stride set), 0 (enumerate instead) or -1 (the state died). The positions outside the object, when
// feasible, are left to a forked state, which re-executes the instruction.
static int symAddr(State &s, const Val &p, uint64_t n, bool write, MemObj *&o, uint32_t &stride) {
  if (s.th.size() > 1 || gRealMode || p.e == UNDEF) return 0;
  if (s.model.size() < gVars.size()) s.model.resize(gVars.size(), 0);
  if (!s.modelOk && !ensureModel(s)) return 0;
  Evaluator ev(s.model);
  uint64_t x = ev.eval(p.e);
  if (!ev.ok) return 0;
  o = findObj(s, x);
  if (!o || x < o->base || x + n > o->base + o->size || o->freed || (write && o->readonly)) return 0;
  uint64_t base = o->base;
  Assign m = s.model; bool mok;
  if (S->check(s.pc, mkNot(mkBin(OP_EQ, p.e, mkConst(x, 64))), &m, &mok) == UNSAT) return 0; // only one position
  stride = (x - base) % n ? 1 : n;
  if (o->size / stride > optMaxIte || o->size / stride < 2) return 0;
  State *other;
  int r = decide(s, mkBin(OP_ULE, mkBin(OP_SUB, p.e, mkConst(base, 64)), mkConst(o->size - n, 64)), other);
  if (other) gWork.push_back(other);
  if (s.dead) return -1;
  if (!r) return 0;
  if (stride > 1) {
    r = decide(s, mkBin(OP_EQ, mkBin(OP_UREM, mkBin(OP_SUB, p.e, mkConst(base, 64)), mkConst(stride, 64)), mkConst(0, 64)), other);
    if (other) gWork.push_back(other);
    if (s.dead) return -1;
    if (!r) stride = 1;
    if (!r && o->size > optMaxIte) return 0;
  }
  o = findObj(s, base);
  return 1;
}
static bool memCopy(State &s, uint64_t dst, uint64_t src, uint64_t n, bool overlapOk, const char *what) {
  if (n == 0) return true;
  MemObj *so = access(s, src, n, false, what); if (!so) return false;
  MemObj *d = access(s, dst, n, true, what); if (!d) return false;
  if (!overlapOk && dst != src && dst < src + n && src < dst + n) { violation(s, "memory", "memcpy between overlapping ranges"); return false; }
  uint64_t so0 = src - so->base;
  std::vector<uint8_t> data(so->data.begin() + so0, so->data.begin() + so0 + n), st(so->st.begin() + so0, so->st.begin() + so0 + n);
  std::vector<SymByte> sy;
  bool anySym = false; for (uint8_t x : st) if (x == B_SYM) { anySym = true; break; }
  if (anySym) sy.assign(so->sym.begin() + so0, so->sym.begin() + so0 + n);
  d = objW(s, d);
  uint64_t o = dst - d->base;
  memcpy(&d->data[o], data.data(), n); memcpy(&d->st[o], st.data(), n);
  if (anySym) { if (d->sym.empty()) d->sym.resize(d->size); for (uint64_t i = 0; i < n; ++i) if (st[i] == B_SYM) d->sym[o + i] = sy[i]; }
  return true;
}
static bool readCStr(State &s, uint64_t a, std::string &out) {
  out.clear();
  MemObj *o = findObj(s, a);
  if (!o) return false;
  for (uint64_t i = a - o->base; i < o->size; ++i) { if (o->st[i] != B_CONC) return false; if (!o->data[i]) return true; out.push_back(o->data[i]); }
  return false;
}

// ------------------------------------------------------------------ decoding
static void constSlots(Constant *c, std::vector<Val> &out);
static Val constScalar(Constant *c, uint32_t w);

static uint64_t constAddrOrThrow(Constant *c, bool &ok) {
  if (auto *g = dyn_cast<GlobalVariable>(c)) return globalAddr(g);
  if (auto *f = dyn_cast<Function>(c)) return funcAddr(f);
  if (auto *al = dyn_cast<GlobalAlias>(c)) return constAddrOrThrow(al->getAliasee(), ok);
  if (isa<ConstantPointerNull>(c)) return 0;
  ok = false; return 0;
}
static Val constScalar(Constant *c, uint32_t w) {
  if (auto *i = dyn_cast<ConstantInt>(c)) return VC(i->getValue().getZExtValue() & maskw(w));
  if (auto *f = dyn_cast<ConstantFP>(c)) return VC(f->getValueAPF().bitcastToAPInt().getZExtValue() & maskw(w));
  if (isa<UndefValue>(c)) { Val v; v.e = UNDEF; return v; }
  if (isa<ConstantPointerNull>(c) || isa<ConstantAggregateZero>(c)) return VC(0);
  bool ok = true;
  uint64_t a = constAddrOrThrow(c, ok);
  if (ok) return VC(a);
  if (auto *e = dyn_cast<ConstantExpr>(c)) {
    switch (e->getOpcode()) {
    case Instruction::GetElementPtr: {
      APInt off(64, 0);
      if (cast<GEPOperator>(e)->accumulateConstantOffset(*DL, off)) return VC(constScalar(e->getOperand(0), 64).c + off.getSExtValue());
      break;
    }
    case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::AddrSpaceCast: case Instruction::Trunc:
      return VC(constScalar(e->getOperand(0), 64).c & maskw(w));
    case Instruction::Add: return VC((constScalar(e->getOperand(0), w).c + constScalar(e->getOperand(1), w).c) & maskw(w));
    case Instruction::Sub: return VC((constScalar(e->getOperand(0), w).c - constScalar(e->getOperand(1), w).c) & maskw(w));
    default: break;
    }
  }
  errs() << "unsupported constant: " << *c << "\n";
  Val v; v.e = UNDEF; return v;
}
static void constSlots(Constant *c, std::vector<Val> &out) {
  Type *t = c->getType();
  if (t->isSingleValueType() && !t->isVectorTy()) { Slots s; slotsOf(t, s); out.push_back(constScalar(c, s.empty() ? 64 : s[0].w)); return; }
  unsigned n = t->isStructTy() ? t->getStructNumElements() : t->isArrayTy() ? t->getArrayNumElements() : cast<FixedVectorType>(t)->getNumElements();
  for (unsigned i = 0; i < n; ++i) {
    Constant *e = c->getAggregateElement(i);
    if (!e) { errs() << "aggregate constant\n"; Val v; v.e = UNDEF; out.push_back(v); continue; }
    constSlots(e, out);
  }
}
struct Decoder {
  KFunc *k; std::map<const Value *, uint32_t> reg; std::map<const BasicBlock *, int> bb; std::map<const Value *, int> cpool;
  static std::map<Constant *, int> gcp;
  int opd(Value *v) {
    if (auto *c = dyn_cast<Constant>(v)) {
      auto it = gcp.find(c); if (it != gcp.end()) return it->second;
      std::vector<Val> vals; constSlots(c, vals);
      int base = (int)gPool.size();
      for (auto &x : vals) gPool.push_back(x);
      if (vals.empty()) gPool.push_back(VC(0));
      // consecutive slots of a constant: index base, base+1, ... encoded as ~base, so slot j is ~(base + j)
      return gcp[c] = ~base;
    }
    auto it = reg.find(v);
    return it == reg.end() ? 0 : (int)it->second;
  }
};
std::map<Constant *, int> Decoder::gcp;
static inline int opSlot(int op, int j) { return op >= 0 ? op + j : ~(~op + j); }

static KFunc *getK(Function *F);
static int extIndex(const std::string &n);

static void decode(KFunc *k) {
  if (k->decoded) return;
  k->decoded = true;
  Function *F = k->F;
  Decoder D; D.k = k;
  uint32_t r = 0;
  for (auto &A : F->args()) { uint32_t n = std::max(1u, nSlots(A.getType())); D.reg[&A] = r; k->params.push_back({r, n}); r += n; }
  int bi = 0;
  for (auto &B : *F) { D.bb[&B] = bi++; for (auto &I : B) if (!I.getType()->isVoidTy()) { uint32_t n = std::max(1u, nSlots(I.getType())); D.reg[&I] = r; r += n; } }
  k->nregs = r; k->reg = D.reg;
  for (auto &B : *F) {
    KBlock kb; kb.start = k->code.size(); kb.nphi = 0;
    for (auto &I : B) {
      KI q; q.I = &I; q.op = KO_UNSUPPORTED;
      if (!I.getType()->isVoidTy()) { q.dst = D.reg[&I]; Slots sl; if (!slotsOf(I.getType(), sl)) { k->code.push_back(q); continue; } q.n = sl.size(); q.sl = sl; if (!sl.empty()) q.w = sl[0].w; }
      if (isa<DbgInfoIntrinsic>(&I) || isa<PseudoProbeInst>(&I)) continue;
      if (auto *a = dyn_cast<AllocaInst>(&I)) {
        q.op = KO_ALLOCA; q.imm = DL->getTypeAllocSize(a->getAllocatedType()); q.w2 = a->getAlign().value(); q.a = D.opd(a->getArraySize());
        q.t0 = a->getArraySize()->getType()->getIntegerBitWidth();
      } else if (auto *l = dyn_cast<LoadInst>(&I)) { q.op = KO_LOAD; q.a = D.opd(l->getPointerOperand()); q.sub = l->isVolatile() || l->isAtomic(); q.imm = DL->getTypeStoreSize(l->getType()); if (l->getType()->isVectorTy()) q.align = l->getAlign().value(); }
      else if (auto *st = dyn_cast<StoreInst>(&I)) {
        Slots sl; if (!slotsOf(st->getValueOperand()->getType(), sl)) { k->code.push_back(q); continue; }
        q.op = KO_STORE; q.sl = sl; q.n = sl.size(); q.a = D.opd(st->getPointerOperand()); q.b = D.opd(st->getValueOperand()); q.sub = st->isVolatile() || st->isAtomic(); q.imm = DL->getTypeStoreSize(st->getValueOperand()->getType()); if (st->getValueOperand()->getType()->isVectorTy()) q.align = st->getAlign().value();
      } else if (auto *g = dyn_cast<GetElementPtrInst>(&I)) {
        if (g->getType()->isVectorTy()) { k->code.push_back(q); continue; }
        q.op = KO_GEP; q.a = D.opd(g->getPointerOperand()); q.imm = 0;
        for (auto gt = gep_type_begin(g), ge = gep_type_end(g); gt != ge; ++gt) {
          Value *ix = gt.getOperand();
          if (StructType *sty = gt.getStructTypeOrNull()) { q.imm += DL->getStructLayout(sty)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue()); continue; }
          int64_t sc = DL->getTypeAllocSize(gt.getIndexedType());
          if (auto *ci = dyn_cast<ConstantInt>(ix)) q.imm += ci->getSExtValue() * sc;
          else q.gi.push_back({D.opd(ix), (uint32_t)ix->getType()->getIntegerBitWidth(), sc});
        }
      } else if (auto *b = dyn_cast<BinaryOperator>(&I)) { q.op = KO_BIN; q.sub = b->getOpcode(); q.a = D.opd(b->getOperand(0)); q.b = D.opd(b->getOperand(1)); }
      else if (isa<UnaryOperator>(&I)) { q.op = KO_FNEG; q.a = D.opd(I.getOperand(0)); }
      else if (auto *ic = dyn_cast<ICmpInst>(&I)) { q.op = KO_ICMP; q.sub = ic->getPredicate(); Slots sl; slotsOf(ic->getOperand(0)->getType(), sl); if (sl.empty()) { q.op = KO_UNSUPPORTED; } else q.w2 = sl[0].w; q.a = D.opd(ic->getOperand(0)); q.b = D.opd(ic->getOperand(1)); }
      else if (auto *fc = dyn_cast<FCmpInst>(&I)) { q.op = KO_FCMP; q.sub = fc->getPredicate(); Slots sl; slotsOf(fc->getOperand(0)->getType(), sl); if (sl.empty()) q.op = KO_UNSUPPORTED; else q.w2 = sl[0].w; q.a = D.opd(fc->getOperand(0)); q.b = D.opd(fc->getOperand(1)); }
      else if (auto *ca = dyn_cast<CastInst>(&I)) {
        Slots sl; if (!slotsOf(ca->getOperand(0)->getType(), sl) || sl.empty()) { k->code.push_back(q); continue; }
        q.op = KO_CAST; q.sub = ca->getOpcode(); q.a = D.opd(ca->getOperand(0)); q.w2 = sl[0].w; q.imm = sl.size();
      } else if (auto *se = dyn_cast<SelectInst>(&I)) { q.op = KO_SELECT; q.a = D.opd(se->getCondition()); q.b = D.opd(se->getTrueValue()); q.c = D.opd(se->getFalseValue()); q.sub = se->getCondition()->getType()->isVectorTy(); }
      else if (auto *ph = dyn_cast<PHINode>(&I)) { q.op = KO_PHI; for (unsigned i = 0; i < ph->getNumIncomingValues(); ++i) q.phi.push_back({D.bb[ph->getIncomingBlock(i)], D.opd(ph->getIncomingValue(i))}); ++kb.nphi; }
      else if (auto *br = dyn_cast<BranchInst>(&I)) { if (br->isConditional()) { q.op = KO_CONDBR; q.a = D.opd(br->getCondition()); q.t0 = D.bb[br->getSuccessor(0)]; q.t1 = D.bb[br->getSuccessor(1)]; } else { q.op = KO_BR; q.t0 = D.bb[br->getSuccessor(0)]; } }
      else if (auto *sw = dyn_cast<SwitchInst>(&I)) { q.op = KO_SWITCH; q.a = D.opd(sw->getCondition()); q.w2 = sw->getCondition()->getType()->getIntegerBitWidth(); q.t0 = D.bb[sw->getDefaultDest()]; for (auto &cs : sw->cases()) q.cases.push_back({cs.getCaseValue()->getZExtValue(), D.bb[cs.getCaseSuccessor()]}); }
      else if (auto *rt = dyn_cast<ReturnInst>(&I)) { q.op = KO_RET; if (rt->getReturnValue()) { q.a = D.opd(rt->getReturnValue()); q.n = nSlots(rt->getReturnValue()->getType()); } else q.n = 0; }
      else if (isa<UnreachableInst>(&I)) q.op = KO_UNREACHABLE;
      else if (auto *ev = dyn_cast<ExtractValueInst>(&I)) {
        // slot offset of the element
        Type *t = ev->getAggregateOperand()->getType(); uint32_t off = 0;
        for (unsigned ix : ev->indices()) { for (unsigned j = 0; j < ix; ++j) off += nSlots(t->isStructTy() ? t->getStructElementType(j) : t->getArrayElementType()); t = t->isStructTy() ? t->getStructElementType(ix) : t->getArrayElementType(); }
        q.op = KO_COPY; q.a = opSlot(D.opd(ev->getAggregateOperand()), off);
      } else if (auto *iv = dyn_cast<InsertValueInst>(&I)) {
        Type *t = iv->getAggregateOperand()->getType(); uint32_t off = 0;
        for (unsigned ix : iv->indices()) { for (unsigned j = 0; j < ix; ++j) off += nSlots(t->isStructTy() ? t->getStructElementType(j) : t->getArrayElementType()); t = t->isStructTy() ? t->getStructElementType(ix) : t->getArrayElementType(); }
        q.op = KO_INSERTVAL; q.a = D.opd(iv->getAggregateOperand()); q.b = D.opd(iv->getInsertedValueOperand()); q.imm = off; q.t0 = nSlots(iv->getInsertedValueOperand()->getType());
      } else if (auto *ee = dyn_cast<ExtractElementInst>(&I)) { q.op = KO_EXTRACTELT; q.a = D.opd(ee->getVectorOperand()); q.b = D.opd(ee->getIndexOperand()); q.imm = nSlots(ee->getVectorOperand()->getType()); q.w2 = ee->getIndexOperand()->getType()->getIntegerBitWidth(); }
      else if (auto *ie = dyn_cast<InsertElementInst>(&I)) { q.op = KO_INSERTELT; q.a = D.opd(ie->getOperand(0)); q.b = D.opd(ie->getOperand(1)); q.c = D.opd(ie->getOperand(2)); q.w2 = ie->getOperand(2)->getType()->getIntegerBitWidth(); }
      else if (auto *sv = dyn_cast<ShuffleVectorInst>(&I)) { q.op = KO_SHUFFLE; q.a = D.opd(sv->getOperand(0)); q.b = D.opd(sv->getOperand(1)); q.imm = nSlots(sv->getOperand(0)->getType()); for (int m : sv->getShuffleMask()) q.mask.push_back(m); }
      else if (auto *rm = dyn_cast<AtomicRMWInst>(&I)) { q.op = KO_RMW; q.sub = rm->getOperation(); q.a = D.opd(rm->getPointerOperand()); q.b = D.opd(rm->getValOperand()); q.imm = (q.w + 7) / 8; }
      else if (auto *cx = dyn_cast<AtomicCmpXchgInst>(&I)) { q.op = KO_CMPXCHG; q.a = D.opd(cx->getPointerOperand()); q.b = D.opd(cx->getCompareOperand()); q.c = D.opd(cx->getNewValOperand()); q.imm = (q.w + 7) / 8; q.sub = cx->isWeak(); }
      else if (isa<FenceInst>(&I)) q.op = KO_FENCE;
      else if (isa<FreezeInst>(&I)) { q.op = KO_FREEZE; q.a = D.opd(I.getOperand(0)); }
      else if (auto *cb = dyn_cast<CallBase>(&I)) {
        if (isa<InvokeInst>(&I) || isa<CallBrInst>(&I)) { k->code.push_back(q); continue; }
        q.op = KO_CALL;
        if (cb->isInlineAsm()) { auto *ia = cast<InlineAsm>(cb->getCalledOperand()); if (ia->getAsmString().empty()) { q.op = KO_NOP; } else q.op = KO_UNSUPPORTED; k->code.push_back(q); continue; }
        Value *cv = cb->getCalledOperand()->stripPointerCasts();
        if (auto *al = dyn_cast<GlobalAlias>(cv)) cv = al->getAliaseeObject();
        if (auto *fn = dyn_cast<Function>(cv)) q.callee = getK(fn); else q.c = D.opd(cb->getCalledOperand());
        bool bad = false;
        for (unsigned i = 0; i < cb->arg_size(); ++i) {
          Value *av = cb->getArgOperand(i);
          if (av->getType()->isMetadataTy()) { q.args.push_back({0, 0, nullptr, false, 0}); continue; }
          Slots sl; if (!slotsOf(av->getType(), sl)) { bad = true; break; }
          Arg ar{D.opd(av), (uint32_t)sl.size(), av->getType(), cb->isByValArgument(i), 0};
          if (ar.byval) ar.byvalSize = DL->getTypeAllocSize(cb->getParamByValType(i));
          q.args.push_back(ar);
        }
        if (bad) q.op = KO_UNSUPPORTED;
      }
      k->code.push_back(q);
    }
    k->blocks.push_back(kb);
  }
}
static KFunc *getK(Function *F) {
  auto it = gFuncs.find(F);
  if (it != gFuncs.end()) return it->second;
  KFunc *k = new KFunc; k->F = F; k->isDecl = F->isDeclaration(); k->index = gFuncByIdx.size();
  if (auto *sp = F->getSubprogram()) {
    std::string f = sp->getFilename().str();
    if (!f.empty() && f[0] != '/' && sp->getDirectory().size()) f = (sp->getDirectory() + "/" + f).str();
    k->file = f; k->line = sp->getLine();
    k->inRepo = f.compare(0, optRepo.size(), optRepo) == 0;
  }
  gFuncs[F] = k; gFuncByIdx.push_back(k);
  if (k->isDecl) k->ext = F->isIntrinsic() ? -1 : extIndex(F->getName().str());
  else { int e = extIndex(F->getName().str()); if (e >= 0 && F->getName().starts_with("sx_")) { k->isDecl = true; k->ext = e; } }
  return k;
}
static uint64_t funcAddr(Function *F) { KFunc *k = getK(F); return (R_FUNC << 44) | ((uint64_t)(k->index + 1) << 8); }
static uint64_t globalAddr(const GlobalVariable *g) {
  auto it = gGlobalAddr.find(g);
  if (it != gGlobalAddr.end()) return it->second;
  errs() << "no address for global " << g->getName() << "\n";
  return 0;
}

// ------------------------------------------------------------------ external functions
enum Ext {
  X_malloc, X_free, X_calloc, X_realloc, X_posix_memalign, X_aligned_alloc, X_usable, X_new, X_newa, X_newal, X_del, X_memcpy, X_memmove, X_memset,
  X_noop0, X_abort, X_exit, X_purevirt, X_fsqrt, X_ffabs, X_uf1, X_uf2,
  X_sym, X_symf, X_choice, X_assume, X_assert, X_cover, X_live, X_order, X_thread, X_join, X_fail, X_param, X_feq, X_trace, X_concrete, X_accessible, X_blocksize, X_native, X_time, X_setsteps, X_isptr, X_private
};
struct ExtDef { const char *n; Ext x; const char *arg; };
static const ExtDef EXT[] = {
  {"malloc", X_malloc, 0}, {"free", X_free, 0}, {"calloc", X_calloc, 0}, {"realloc", X_realloc, 0}, {"posix_memalign", X_posix_memalign, 0}, {"aligned_alloc", X_aligned_alloc, 0}, {"memalign", X_aligned_alloc, 0},
  {"malloc_usable_size", X_usable, 0}, {"_Znwm", X_new, 0}, {"_Znam", X_newa, 0}, {"_ZnwmRKSt9nothrow_t", X_new, 0}, {"_ZnamRKSt9nothrow_t", X_newa, 0}, {"_ZnwmSt11align_val_t", X_newal, 0}, {"_ZnamSt11align_val_t", X_newal, 0},
  {"_ZdlPv", X_del, 0}, {"_ZdlPvm", X_del, 0}, {"_ZdaPv", X_del, 0}, {"_ZdaPvm", X_del, 0}, {"_ZdlPvSt11align_val_t", X_del, 0}, {"_ZdlPvmSt11align_val_t", X_del, 0}, {"_ZdaPvSt11align_val_t", X_del, 0},
  {"memcpy", X_memcpy, 0}, {"memmove", X_memmove, 0}, {"memset", X_memset, 0},
  {"fprintf", X_noop0, 0}, {"printf", X_noop0, 0}, {"puts", X_noop0, 0}, {"putchar", X_noop0, 0}, {"fputs", X_noop0, 0}, {"fputc", X_noop0, 0}, {"fwrite", X_noop0, 0}, {"fflush", X_noop0, 0}, {"__cxa_atexit", X_noop0, 0}, {"putc", X_noop0, 0}, {"sched_yield", X_noop0, 0},
  {"abort", X_abort, 0}, {"__assert_fail", X_abort, 0}, {"exit", X_exit, 0}, {"_exit", X_exit, 0}, {"__cxa_pure_virtual", X_purevirt, 0}, {"_ZSt9terminatev", X_abort, 0},
  {"sqrtf", X_fsqrt, 0}, {"sqrt", X_fsqrt, 0}, {"fabsf", X_ffabs, 0}, {"fabs", X_ffabs, 0},
  {"sinf", X_uf1, "sin"}, {"cosf", X_uf1, "cos"}, {"tanf", X_uf1, "tan"}, {"asinf", X_uf1, "asin"}, {"acosf", X_uf1, "acos"}, {"atanf", X_uf1, "atan"},
  {"sin", X_uf1, "sin"}, {"cos", X_uf1, "cos"}, {"tan", X_uf1, "tan"}, {"asin", X_uf1, "asin"}, {"acos", X_uf1, "acos"}, {"atan", X_uf1, "atan"},
  {"powf", X_uf2, "pow"}, {"pow", X_uf2, "pow"},
  {"sx_sym", X_sym, 0}, {"sx_symf", X_symf, 0}, {"sx_choice", X_choice, 0}, {"sx_assume", X_assume, 0}, {"sx_assert", X_assert, 0}, {"sx_cover", X_cover, 0},
  {"sx_live", X_live, 0}, {"sx_order", X_order, 0}, {"sx_thread", X_thread, 0}, {"sx_join", X_join, 0}, {"sx_fail", X_fail, 0}, {"sx_param", X_param, 0}, {"sx_feq", X_feq, 0}, {"sx_trace", X_trace, 0},
  {"sx_concrete", X_concrete, 0}, {"sx_private", X_private, 0}, {"sx_accessible", X_accessible, 0}, {"sx_blocksize", X_blocksize, 0}, {"sx_native", X_native, 0}, {"time", X_time, 0}, {"clock", X_time, 0},
  {nullptr, X_noop0, 0}};
static int extIndex(const std::string &n) {
  static std::map<std::string, int> m;
  if (m.empty()) for (int i = 0; EXT[i].n; ++i) m[EXT[i].n] = i;
  auto it = m.find(n); return it == m.end() ? -1 : it->second;
}

static void gotoBlock(State &s, Frame &f, int target) {
  KFunc *k = f.f;
  KBlock &b = k->blocks[target];
  b.covered = true;
  if (b.nphi) {
    Val tmp[64]; std::vector<Val> big; Val *t = tmp;
    uint32_t tot = 0;
    for (uint32_t i = 0; i < b.nphi; ++i) tot += k->code[b.start + i].n;
    if (tot > 64) { big.resize(tot); t = big.data(); }
    uint32_t p = 0;
    for (uint32_t i = 0; i < b.nphi; ++i) {
      KI &q = k->code[b.start + i];
      int o = 0; bool found = false;
      for (auto &pr : q.phi) if (pr.first == f.block) { o = pr.second; found = true; break; }
      if (!found) { incomplete(s, "phi without incoming edge"); return; }
      for (uint32_t j = 0; j < q.n; ++j) t[p++] = getRaw(f, opSlot(o, j));
    }
    p = 0;
    for (uint32_t i = 0; i < b.nphi; ++i) { KI &q = k->code[b.start + i]; for (uint32_t j = 0; j < q.n; ++j) f.regs[q.dst + j] = t[p++]; }
  }
  f.prev = f.block; f.block = target; f.pc = b.start + b.nphi;
}
static void pushFrame(State &s, Thread &t, KFunc *k, KI *site) {
  decode(k);
  Frame f; f.f = k; f.regs.resize(k->nregs); f.callSite = site;
  f.block = 0; f.pc = k->blocks[0].start;
  k->blocks[0].covered = true; ++k->calls;
  t.fr.push_back(std::move(f));
}
static void popFrame(State &s, Thread &t) {
  Frame &f = t.fr.back();
  if (!f.allocas.empty() && t.stackEnd) {
    for (int64_t a : f.allocas) s.mem[R_STACK].clear(zig(a));
    t.stack = f.allocas.front();
  } else if (!f.allocas.empty()) {
    for (int64_t a : f.allocas) s.mem[R_STACK].clear(zig(a));
    uint64_t k0 = zig(f.allocas.front()) >> 6, k1 = zig(f.allocas.back()) >> 6, kn = zig(s.stackNext) >> 6;
    for (uint64_t k = k0; k <= k1 && k < kn; ++k) {
      auto &c = s.mem[R_STACK].ch[k]; if (!c) continue;
      bool empty = true; for (int i = 0; i < 64 && empty; ++i) if (c->o[i]) empty = false;
      if (empty) s.mem[R_STACK].dropChunkIfDead(k);
    }
  }
  t.fr.pop_back();
}
static Expr *fcmpExpr(unsigned p, Expr *a, Expr *b) {
  switch (p) {
  case CmpInst::FCMP_FALSE: return mkConst(0, 1);
  case CmpInst::FCMP_OEQ: return mkBin(OP_FOEQ, a, b);
  case CmpInst::FCMP_OGT: return mkBin(OP_FOLT, b, a);
  case CmpInst::FCMP_OGE: return mkBin(OP_FOLE, b, a);
  case CmpInst::FCMP_OLT: return mkBin(OP_FOLT, a, b);
  case CmpInst::FCMP_OLE: return mkBin(OP_FOLE, a, b);
  case CmpInst::FCMP_ONE: return mkBin(OP_OR, mkBin(OP_FOLT, a, b), mkBin(OP_FOLT, b, a));
  case CmpInst::FCMP_ORD: return mkNot(mkBin(OP_FUNO, a, b));
  case CmpInst::FCMP_UNO: return mkBin(OP_FUNO, a, b);
  case CmpInst::FCMP_UEQ: return mkBin(OP_OR, mkBin(OP_FUNO, a, b), mkBin(OP_FOEQ, a, b));
  case CmpInst::FCMP_UGT: return mkNot(mkBin(OP_FOLE, a, b));
  case CmpInst::FCMP_UGE: return mkNot(mkBin(OP_FOLT, a, b));
  case CmpInst::FCMP_ULT: return mkNot(mkBin(OP_FOLE, b, a));
  case CmpInst::FCMP_ULE: return mkNot(mkBin(OP_FOLT, b, a));
  case CmpInst::FCMP_UNE: return mkNot(mkBin(OP_FOEQ, a, b));
  default: return mkConst(1, 1);
  }
}
static Val icmpVal(unsigned p, Val a, Val b, uint32_t w) {
  if (!a.e && !b.e) {
    uint64_t x = a.c & maskw(w), y = b.c & maskw(w);
    switch (p) {
    case CmpInst::ICMP_EQ: return VC(x == y);
    case CmpInst::ICMP_NE: return VC(x != y);
    case CmpInst::ICMP_UGT: return VC(x > y);
    case CmpInst::ICMP_UGE: return VC(x >= y);
    case CmpInst::ICMP_ULT: return VC(x < y);
    case CmpInst::ICMP_ULE: return VC(x <= y);
    case CmpInst::ICMP_SGT: return VC(sextw(x, w) > sextw(y, w));
    case CmpInst::ICMP_SGE: return VC(sextw(x, w) >= sextw(y, w));
    case CmpInst::ICMP_SLT: return VC(sextw(x, w) < sextw(y, w));
    default: return VC(sextw(x, w) <= sextw(y, w));
    }
  }
  Expr *x = EX(a, w), *y = EX(b, w);
  switch (p) {
  case CmpInst::ICMP_EQ: return VE(mkBin(OP_EQ, x, y));
  case CmpInst::ICMP_NE: return VE(mkNot(mkBin(OP_EQ, x, y)));
  case CmpInst::ICMP_UGT: return VE(mkBin(OP_ULT, y, x));
  case CmpInst::ICMP_UGE: return VE(mkBin(OP_ULE, y, x));
  case CmpInst::ICMP_ULT: return VE(mkBin(OP_ULT, x, y));
  case CmpInst::ICMP_ULE: return VE(mkBin(OP_ULE, x, y));
  case CmpInst::ICMP_SGT: return VE(mkBin(OP_SLT, y, x));
  case CmpInst::ICMP_SGE: return VE(mkBin(OP_SLE, y, x));
  case CmpInst::ICMP_SLT: return VE(mkBin(OP_SLT, x, y));
  default: return VE(mkBin(OP_SLE, x, y));
  }
}
static Op binOp(unsigned o) {
  switch (o) {
  case Instruction::Add: return OP_ADD; case Instruction::Sub: return OP_SUB; case Instruction::Mul: return OP_MUL;
  case Instruction::UDiv: return OP_UDIV; case Instruction::SDiv: return OP_SDIV; case Instruction::URem: return OP_UREM; case Instruction::SRem: return OP_SREM;
  case Instruction::And: return OP_AND; case Instruction::Or: return OP_OR; case Instruction::Xor: return OP_XOR;
  case Instruction::Shl: return OP_SHL; case Instruction::LShr: return OP_LSHR; case Instruction::AShr: return OP_ASHR;
  case Instruction::FAdd: return OP_FADD; case Instruction::FSub: return OP_FSUB; case Instruction::FMul: return OP_FMUL; case Instruction::FDiv: return OP_FDIV;
  default: return OP_CONST;
  }
}
static Val binVal(Op op, Val a, Val b, uint32_t w) {
  if (!a.e && !b.e) return VC(foldBin(op, a.c, b.c, w));
  return VE(mkBin(op, EX(a, w), EX(b, w)));
}

// assertion: returns true when the state continues
static bool doAssert(State &s, Val c, const std::string &msg, uint32_t w) {
  ++s.nAssert; ++gAssertMsgs[msg];
  if (!c.e) {
    ++gAssertConc;
    if (!(c.c & maskw(w))) { violation(s, "assert", msg); return false; }
    return true;
  }
  ++gAssertSym;
  Expr *t = w == 1 ? c.e : mkNot(mkBin(OP_EQ, c.e, mkConst(0, w)));
  if (isC(t, 1)) return true;
  Expr *n = mkNot(t);
  if (s.model.size() < gVars.size()) s.model.resize(gVars.size(), 0);
  Assign m = s.model; bool ok;
  // the negation may already hold under the current model; the solver decides either way
  if (s.modelOk) { Evaluator ev(s.model); uint64_t v = ev.eval(n); if (ev.ok && v) { ++gStats.queries; ++gStats.sat; s.pc.push_back(n); violation(s, "assert", msg); return false; } }
  Sat r = S->check(s.pc, n, &m, &ok);
  if (r == UNSAT) return true;
  if (r == UNKNOWN) { incomplete(s, "solver gave no answer on assertion '" + msg + "'"); return false; }
  s.model = m; s.pc.push_back(n); s.modelOk = ok && !gRealMode;
  violation(s, "assert", msg);
  return false;
}

static void finishPath(State &s) {
  ++gPaths;
  if (!s.pc.empty()) ++gSymPaths;
  for (auto &c : s.covers) ++gCovers[c];
  if (s.steps > gMaxPathSteps) gMaxPathSteps = s.steps;
  if (optSamples && s.th.size() == 1) {
    ++gSampleSeen;
    size_t at = gSamples.size() < optSamples ? gSamples.size() : rnd() % gSampleSeen;
    if (at < optSamples && ensureModel(s)) {
      Inputs in;
      Evaluator ev(s.model); bool ok = true;
      for (auto &x : s.in) { in.push_back({x.name, x.v.e ? ev.eval(x.v.e) : x.v.c}); if (!ev.ok) ok = false; }
      for (Expr *e : s.pc) if (e->hasUF || (gRealMode && e->hasFP)) ok = ok && gRealMode;
      for (Expr *e : s.pc) for (uint32_t x : varsOf(e)) if (gVars[x].isUninit) ok = false;
      if (ok) {
        std::string d = std::to_string(s.pc.size()) + " constraints, " + std::to_string(s.steps) + " instructions, " + std::to_string(s.nAssert) + " assertions";
        if (at == gSamples.size()) gSamples.push_back({in, d}); else gSamples[at] = {in, d};
      }
    }
  }
  s.dead = true;
}

#define CONC(v, w) do { if ((v).e && !concretize(s, v, w)) return; } while (0)

static void setRes(Frame &f, KI &q, Val v) { f.regs[q.dst] = v; }

// Calls an external or intrinsic function. Advances pc itself (callers do ++pc before when needed).
static void callExt(State &s, KI &q, int x) {
  Frame &f = top(s);
  auto arg = [&](unsigned i, uint32_t w) { return get(s, f, q.args[i].op, w); };
  auto argw = [&](unsigned i) -> uint32_t { Type *t = q.args[i].t; if (t->isPointerTy()) return 64; if (t->isFloatTy()) return 32; if (t->isDoubleTy()) return 64; return t->getIntegerBitWidth(); };
  const ExtDef &d = EXT[x];
  Val r = VC(0);
  switch (d.x) {
  case X_malloc: case X_new: case X_newa: case X_newal: {
    Val n = arg(0, 64); CONC(n, 64);
    uint64_t al = 16;
    if (d.x == X_newal) { Val a = arg(1, 64); CONC(a, 64); al = a.c; }
    if (n.c > (1u << 27)) { incomplete(s, "allocation larger than the engine's limit"); return; }
    r = VC(heapAlloc(s, n.c, al, d.x == X_malloc ? 1 : 2, q.I)); break;
  }
  case X_calloc: {
    Val n = arg(0, 64), m = arg(1, 64); CONC(n, 64); CONC(m, 64);
    uint64_t a = heapAlloc(s, n.c * m.c, 16, 1, q.I);
    MemObj *o = objW(s, findObj(s, a)); std::fill(o->st.begin(), o->st.end(), B_CONC);
    r = VC(a); break;
  }
  case X_realloc: {
    Val p = arg(0, 64), n = arg(1, 64); CONC(p, 64); CONC(n, 64);
    if (!p.c) { r = VC(heapAlloc(s, n.c, 16, 1, q.I)); break; }
    MemObj *o = findObj(s, p.c);
    if (!o || o->kind != K_HEAP || o->base != p.c || o->freed) { violation(s, "memory", "realloc of an invalid pointer"); return; }
    if (!n.c) { heapFree(s, p.c, "realloc"); r = VC(0); break; }
    uint64_t old = o->size;
    uint64_t a = heapAlloc(s, n.c, 16, 1, q.I);
    if (!memCopy(s, a, p.c, std::min<uint64_t>(old, n.c), true, "realloc")) return;
    heapFree(s, p.c, "realloc");
    r = VC(a); break;
  }
  case X_posix_memalign: {
    Val p = arg(0, 64), al = arg(1, 64), n = arg(2, 64); CONC(p, 64); CONC(al, 64); CONC(n, 64);
    if (al.c < 8 || (al.c & (al.c - 1))) { r = VC(22); break; } // EINVAL
    if (n.c > (1u << 27)) { incomplete(s, "allocation larger than the engine's limit"); return; }
    MemObj *o = access(s, p.c, 8, true, "posix_memalign"); if (!o) return;
    uint64_t off = p.c - o->base;
    uint64_t a = heapAlloc(s, n.c, al.c, 1, q.I);
    o = objW(s, findObj(s, p.c));
    storeBytes(o, off, 64, VC(a));
    break;
  }
  case X_aligned_alloc: { Val al = arg(0, 64), n = arg(1, 64); CONC(al, 64); CONC(n, 64); r = VC(heapAlloc(s, n.c, al.c, 1, q.I)); break; }
  case X_usable: {
    Val p = arg(0, 64); CONC(p, 64);
    if (!p.c) break;
    MemObj *o = findObj(s, p.c);
    if (!o || o->kind != K_HEAP || o->base != p.c || o->freed) { violation(s, "memory", "malloc_usable_size of an invalid pointer"); return; }
    r = VC(o->size); break;
  }
  case X_free: case X_del: { Val p = arg(0, 64); CONC(p, 64); if (!heapFree(s, p.c, d.x == X_free ? "free" : "delete")) return; break; }
  case X_memcpy: case X_memmove: {
    Val a = arg(0, 64), b = arg(1, 64), n = arg(2, 64); CONC(a, 64); CONC(b, 64); CONC(n, 64);
    if (!memCopy(s, a.c, b.c, n.c, d.x == X_memmove, d.n)) return;
    r = a; break;
  }
  case X_memset: {
    Val a = arg(0, 64), v = arg(1, 32), n = arg(2, 64); CONC(a, 64); CONC(n, 64);
    if (n.c) {
      MemObj *o = access(s, a.c, n.c, true, "memset"); if (!o) return;
      o = objW(s, o);
      Val b = v.e ? VE(mkExtract(v.e, 0, 8)) : VC(v.c & 255);
      for (uint64_t i = 0; i < n.c; ++i) storeBytes(o, a.c - o->base + i, 8, b);
    }
    r = a; break;
  }
  case X_noop0: break;
  case X_time: r = VE(mkVar("time" + std::to_string(gVars.size()), 64)); break;
  case X_abort: violation(s, "abort", std::string("call of ") + d.n); return;
  case X_purevirt: violation(s, "abort", "call of a pure virtual function"); return;
  case X_exit: finishPath(s); return;
  case X_fsqrt: case X_ffabs: {
    uint32_t w = argw(0); Val a = arg(0, w); Op o = d.x == X_fsqrt ? OP_FSQRT : OP_FABS;
    r = VE(mkFp1(o, EX(a, w), w)); break;
  }
  case X_uf1: { uint32_t w = argw(0); Val a = arg(0, w); r = VE(mkUF(d.arg, EX(a, w))); break; }
  case X_uf2: { uint32_t w = argw(0); Val a = arg(0, w), b = arg(1, w); r = VE(mkUF(d.arg, EX(a, w), EX(b, w))); break; }
  case X_sym: case X_symf: {
    Val p = arg(0, 64); std::string n; if (p.e || !readCStr(s, p.c, n)) n = "in";
    uint32_t w = 32;
    if (d.x == X_sym) { Val b = arg(1, 32); w = (uint32_t)b.c; }
    Expr *v = mkVar(n, w, false, d.x == X_symf);
    s.in.push_back({n, w, VE(v)});
    r = VE(d.x == X_sym ? mkZExt(v, 64) : v); break;
  }
  case X_choice: {
    Val p = arg(0, 64), n = arg(1, 32); std::string nm; if (p.e || !readCStr(s, p.c, nm)) nm = "choice";
    CONC(n, 32);
    // resolved by forking one state per value
    uint32_t N = (uint32_t)n.c;
    if (N == 0) { s.dead = true; ++gInfeasible; return; }
    for (uint32_t i = N - 1; i > 0; --i) {
      State *o = new State(s);
      Frame &of = top(*o);
      o->in.push_back({nm, 32, VC(i)});
      of.regs[q.dst] = VC(i); ++of.pc;
      gWork.push_back(o); ++gForks;
    }
    s.in.push_back({nm, 32, VC(0)});
    r = VC(0); break;
  }
  case X_assume: {
    Val c = arg(0, argw(0)); uint32_t w = argw(0);
    if (!c.e) { if (!(c.c & maskw(w))) { s.dead = true; ++gInfeasible; return; } break; }
    Expr *t = w == 1 ? c.e : mkNot(mkBin(OP_EQ, c.e, mkConst(0, w)));
    if (isC(t)) { if (!t->c) { s.dead = true; ++gInfeasible; return; } break; }
    if (s.model.size() < gVars.size()) s.model.resize(gVars.size(), 0);
    bool holds = false;
    if (s.modelOk) { Evaluator ev(s.model); uint64_t v = ev.eval(t); holds = ev.ok && v; }
    if (!holds) {
      Assign m = s.model; bool ok;
      Sat rr = S->check(s.pc, t, &m, &ok);
      if (rr == UNSAT) { s.dead = true; ++gInfeasible; return; }
      if (rr == UNKNOWN) gIncomplete.insert("solver gave no answer on an assumption");
      s.model = m; s.modelOk = rr == SAT && ok && !gRealMode;
    }
    s.pc.push_back(t);
    break;
  }
  case X_assert: {
    Val c = arg(0, argw(0)); Val p = arg(1, 64); std::string m; if (p.e || !readCStr(s, p.c, m)) m = "assertion";
    if (!doAssert(s, c, m, argw(0))) return;
    break;
  }
  case X_feq: { // sx_feq(a, b, msg): equality of two floats (real semantics in real mode, == or both NaN otherwise)
    Val a = arg(0, 32), b = arg(1, 32), p = arg(2, 64); std::string m; if (p.e || !readCStr(s, p.c, m)) m = "float equality";
    Expr *ea = EX(a, 32), *eb = EX(b, 32);
    Expr *c = mkBin(OP_FOEQ, ea, eb);
    if (!gRealMode) c = mkBin(OP_OR, c, mkBin(OP_AND, mkBin(OP_FUNO, ea, ea), mkBin(OP_FUNO, eb, eb)));
    if (ea == eb) c = mkConst(1, 1);
    if (!doAssert(s, VE(c), m, 1)) return;
    break;
  }
  case X_fail: { Val p = arg(0, 64); std::string m; if (p.e || !readCStr(s, p.c, m)) m = "fail"; ++gAssertMsgs[m]; violation(s, "assert", m); return; }
  case X_cover: { Val p = arg(0, 64); std::string m; if (!p.e && readCStr(s, p.c, m)) s.covers.push_back(m); break; }
  case X_live: r = VC(s.heapLive); break;
  case X_private: { Val p = arg(0, 64); CONC(p, 64); if (MemObj *o = findObj(s, p.c)) objW(s, o)->priv = true; break; }
  case X_order: { Val a = arg(0, 32); CONC(a, 32); s.heapDir = (int)a.c; break; }
  case X_thread: {
    Val fn = arg(0, 64), a = arg(1, 64); CONC(fn, 64);
    uint64_t ix = ((fn.c & ((1ull << 44) - 1)) >> 8) - 1;
    if (fn.c >> 44 != R_FUNC || ix >= gFuncByIdx.size()) { violation(s, "memory", "thread entry is not a function"); return; }
    s.th.push_back(Thread());
    s.th.back().stack = s.stackNext; s.stackNext += 512; s.th.back().stackEnd = s.stackNext;
    pushFrame(s, s.th.back(), gFuncByIdx[ix], nullptr);
    Thread &t = s.th.back();
    t.fr.back().regs[gFuncByIdx[ix]->params[0].first] = a;
    ++top(s).pc; return;
  }
  case X_join: {
    for (size_t i = 1; i < s.th.size(); ++i) if (!s.th[i].done) {
      // main waits: run another thread; the join is re-executed when all have finished
      s.th[0].waiting = true;
      s.cur = (int)i; s.granted = -1;
      return;
    }
    for (size_t i = 1; i < s.th.size(); ++i) { flushAll(s, (int)i); if (s.dead) return; }
    s.th[0].waiting = false; s.th.resize(1); break;
  }
  case X_param: {
    Val p = arg(0, 64), dv = arg(1, 64); std::string n; readCStr(s, p.c, n);
    auto it = optParams.find(n); r = VC(it == optParams.end() ? dv.c : (uint64_t)it->second); break;
  }
  case X_trace: {
    Val p = arg(0, 64), v = arg(1, 64); std::string n; readCStr(s, p.c, n);
    if (optTrace) fprintf(stderr, "trace %s = %s\n", n.c_str(), v.e ? toStr(v.e).c_str() : std::to_string((long long)v.c).c_str());
    break;
  }
  case X_concrete: { Val v = arg(0, 64); CONC(v, 64); r = v; break; }
  case X_accessible: {
    Val p = arg(0, 64), n = arg(1, 64); CONC(p, 64); CONC(n, 64);
    MemObj *o = findObj(s, p.c); r = VC(o && !o->freed && p.c >= o->base && p.c + n.c <= o->base + o->size); break;
  }
  case X_blocksize: {
    Val p = arg(0, 64); CONC(p, 64);
    MemObj *o = findObj(s, p.c); r = VC(o && !o->freed && p.c >= o->base && p.c <= o->base + o->size ? o->base + o->size - p.c : 0); break;
  }
  case X_native: r = VC(0); break;
  default: incomplete(s, std::string("external ") + d.n); return;
  }
  Frame &f2 = top(s);
  if (!q.I->getType()->isVoidTy()) { if (r.e == nullptr && q.w) r.c &= maskw(q.w); f2.regs[q.dst] = r; }
  ++f2.pc;
}

static void callIntrinsic(State &s, KI &q, Function *F) {
  Frame &f = top(s);
  auto arg = [&](unsigned i, uint32_t w) { return get(s, f, q.args[i].op, w); };
  Val r = VC(0);
  uint32_t w = q.w;
  switch (F->getIntrinsicID()) {
  case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::assume: case Intrinsic::donothing: case Intrinsic::experimental_noalias_scope_decl:
  case Intrinsic::invariant_start: case Intrinsic::invariant_end: case Intrinsic::prefetch: case Intrinsic::var_annotation: ++f.pc; return;
  case Intrinsic::stacksave: f.regs[q.dst] = VC(0); ++f.pc; return;
  case Intrinsic::stackrestore: ++f.pc; return;
  case Intrinsic::expect: r = arg(0, w); break;
  case Intrinsic::trap: case Intrinsic::ubsantrap: case Intrinsic::debugtrap: violation(s, "trap", "reached a trap (control flow without return value or undefined behaviour)"); return;
  case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: {
    Val a = arg(0, 64), b = arg(1, 64), n = arg(2, q.args[2].t->getIntegerBitWidth()); CONC(a, 64); CONC(b, 64); CONC(n, 64);
    // clang lowers aggregate assignment to memcpy, for which exact self-overlap is allowed
    if (!memCopy(s, a.c, b.c, n.c, F->getIntrinsicID() == Intrinsic::memmove, "memcpy")) return;
    ++f.pc; return;
  }
  case Intrinsic::memset: {
    Val a = arg(0, 64), v = arg(1, 8), n = arg(2, 64); CONC(a, 64); CONC(n, 64);
    if (n.c) { MemObj *o = access(s, a.c, n.c, true, "memset"); if (!o) return; o = objW(s, o); for (uint64_t i = 0; i < n.c; ++i) storeBytes(o, a.c - o->base + i, 8, v); }
    ++f.pc; return;
  }
  case Intrinsic::x86_avx_maskstore_ps: case Intrinsic::x86_avx2_maskstore_d: case Intrinsic::masked_store: { // lanes whose mask is set are written, the others are not touched
    bool ms = F->getIntrinsicID() == Intrinsic::masked_store; unsigned pi = ms ? 1 : 0, mi = ms ? 3 : 1, vi = ms ? 0 : 2;
    Val a = arg(pi, 64); CONC(a, 64);
    Slots ss; slotsOf(q.args[vi].t, ss);
    for (uint32_t j = 0; j < ss.size(); ++j) {
      Val m = get(s, f, opSlot(q.args[mi].op, j), ms ? 1 : 32); CONC(m, (ms ? 1u : 32u));
      if (!(ms ? m.c & 1 : m.c >> 31 & 1)) continue;
      Val v = get(s, f, opSlot(q.args[vi].op, j), ss[j].w);
      MemObj *o = access(s, a.c + ss[j].off, ss[j].w / 8, true, "masked store"); if (!o) return;
      o = objW(s, o); storeBytes(o, a.c + ss[j].off - o->base, ss[j].w, v);
    }
    ++f.pc; return;
  }
  case Intrinsic::ctlz: case Intrinsic::cttz: case Intrinsic::ctpop: {
    Val a = arg(0, w);
    unsigned id = F->getIntrinsicID();
    if (id != Intrinsic::ctpop) {
      Val poison = arg(1, 1);
      if (!poison.e && poison.c) { // zero is undefined
        Expr *z = mkBin(OP_EQ, EX(a, w), mkConst(0, w));
        if (!doAssert(s, VE(mkNot(z)), "count leading/trailing zeros of zero is undefined", 1)) return;
      }
    }
    if (!a.e) {
      uint64_t x = a.c & maskw(w);
      r = VC(id == Intrinsic::ctpop ? __builtin_popcountll(x) : id == Intrinsic::ctlz ? (x ? __builtin_clzll(x) - (64 - w) : w) : (x ? __builtin_ctzll(x) : w));
    } else {
      Expr *res;
      if (id == Intrinsic::ctpop) { res = mkConst(0, w); for (uint32_t i = 0; i < w; ++i) res = mkBin(OP_ADD, res, mkZExt(mkExtract(a.e, i, 1), w)); }
      else if (id == Intrinsic::ctlz) { res = mkConst(w, w); for (uint32_t i = 0; i < w; ++i) res = mkIte(mkBin(OP_EQ, mkExtract(a.e, i, 1), mkConst(1, 1)), mkConst(w - 1 - i, w), res); }
      else { res = mkConst(w, w); for (int i = (int)w - 1; i >= 0; --i) res = mkIte(mkBin(OP_EQ, mkExtract(a.e, i, 1), mkConst(1, 1)), mkConst(i, w), res); }
      r = VE(res);
    }
    break;
  }
  case Intrinsic::bswap: { Val a = arg(0, w); Expr *e = EX(a, w), *o = nullptr; for (uint32_t i = 0; i < w; i += 8) { Expr *b = mkExtract(e, i, 8); o = o ? mkConcat(o, b) : b; } r = VE(o); break; }
  case Intrinsic::fabs: case Intrinsic::sqrt: {
    for (uint32_t j = 0; j < q.n; ++j) { Val a = get(s, f, opSlot(q.args[0].op, j), w); f.regs[q.dst + j] = VE(mkFp1(F->getIntrinsicID() == Intrinsic::fabs ? OP_FABS : OP_FSQRT, EX(a, w), w)); }
    ++f.pc; return;
  }
  case Intrinsic::abs: { Val a = arg(0, w); Expr *e = EX(a, w); r = VE(mkIte(mkBin(OP_SLT, e, mkConst(0, w)), mkBin(OP_SUB, mkConst(0, w), e), e)); break; }
  case Intrinsic::smax: case Intrinsic::smin: case Intrinsic::umax: case Intrinsic::umin: {
    Expr *a = EX(arg(0, w), w), *b = EX(arg(1, w), w); unsigned id = F->getIntrinsicID();
    Expr *lt = mkBin(id == Intrinsic::smax || id == Intrinsic::smin ? OP_SLT : OP_ULT, a, b);
    r = VE(id == Intrinsic::smax || id == Intrinsic::umax ? mkIte(lt, b, a) : mkIte(lt, a, b)); break;
  }
  case Intrinsic::fmuladd: case Intrinsic::fma: {
    Expr *a = EX(arg(0, w), w), *b = EX(arg(1, w), w), *c = EX(arg(2, w), w);
    r = VE(mkBin(OP_FADD, mkBin(OP_FMUL, a, b), c)); break;
  }
  case Intrinsic::minnum: case Intrinsic::maxnum: { // the other operand when one is not a number
    for (uint32_t j = 0; j < q.n; ++j) {
      Expr *a = EX(get(s, f, opSlot(q.args[0].op, j), w), w), *b = EX(get(s, f, opSlot(q.args[1].op, j), w), w);
      Expr *pick = F->getIntrinsicID() == Intrinsic::minnum ? mkBin(OP_FOLT, b, a) : mkBin(OP_FOLT, a, b);
      f.regs[q.dst + j] = VE(mkIte(mkBin(OP_OR, pick, mkBin(OP_FUNO, a, a)), b, a));
    }
    ++f.pc; return;
  }
  case Intrinsic::copysign: {
    Expr *a = EX(arg(0, w), w), *b = EX(arg(1, w), w);
    if (gRealMode) { incomplete(s, "copysign over the reals"); return; }
    r = VE(mkConcat(mkExtract(b, w - 1, 1), mkExtract(a, 0, w - 1))); break;
  }
  case Intrinsic::is_fpclass: {
    uint32_t aw = q.args[0].t->getScalarSizeInBits(); Val m = arg(1, 32); Expr *a = EX(arg(0, aw), aw);
    if (m.e || (m.c != 3 && m.c != 1020)) { incomplete(s, "floating-point class test"); return; }
    Expr *n = mkBin(OP_FUNO, a, a); r = VE(m.c == 3 ? n : mkNot(n)); break;
  }
  case Intrinsic::fshl: case Intrinsic::fshr: {
    Val a = arg(0, w), b = arg(1, w), c = arg(2, w); bool l = F->getIntrinsicID() == Intrinsic::fshl;
    Expr *x = EX(a, w), *y = EX(b, w), *k = mkBin(OP_UREM, EX(c, w), mkConst(w, w)), *z = mkBin(OP_EQ, k, mkConst(0, w)), *rest = mkBin(OP_SUB, mkConst(w, w), k);
    r = VE(l ? mkIte(z, x, mkBin(OP_OR, mkBin(OP_SHL, x, k), mkBin(OP_LSHR, y, rest))) : mkIte(z, y, mkBin(OP_OR, mkBin(OP_SHL, x, rest), mkBin(OP_LSHR, y, k)))); break;
  }
  case Intrinsic::bitreverse: { Expr *e = EX(arg(0, w), w), *o = nullptr; for (uint32_t i = 0; i < w; ++i) { Expr *b = mkExtract(e, i, 1); o = o ? mkConcat(o, b) : b; } r = VE(o); break; }
  case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::smul_with_overflow: {
    Expr *x = EX(arg(0, w), w), *y = EX(arg(1, w), w); unsigned id = F->getIntrinsicID(); Expr *z, *ov, *o = mkConst(0, w);
    auto neg = [&](Expr *e) { return mkBin(OP_SLT, e, o); };
    if (id == Intrinsic::smul_with_overflow) {
      Expr *mn = mkConst((uint64_t)1 << (w - 1), w), *m1 = mkConst(~0ull, w); z = mkBin(OP_MUL, x, y);
      Expr *minneg = mkBin(OP_OR, mkBin(OP_AND, mkBin(OP_EQ, x, m1), mkBin(OP_EQ, y, mn)), mkBin(OP_AND, mkBin(OP_EQ, y, m1), mkBin(OP_EQ, x, mn)));
      ov = mkBin(OP_OR, minneg, mkBin(OP_AND, mkNot(mkBin(OP_EQ, x, o)), mkNot(mkBin(OP_EQ, mkBin(OP_SDIV, z, mkIte(mkBin(OP_EQ, x, o), mkConst(1, w), x)), y))));
    } else {
      bool add = id == Intrinsic::sadd_with_overflow; z = mkBin(add ? OP_ADD : OP_SUB, x, y);
      Expr *same = mkBin(OP_EQ, neg(x), neg(y)), *flip = mkNot(mkBin(OP_EQ, neg(z), neg(x)));
      ov = mkBin(OP_AND, add ? same : mkNot(same), flip);
    }
    f.regs[q.dst] = VE(z); f.regs[q.dst + 1] = VE(ov); ++f.pc; return;
  }
  case Intrinsic::umul_with_overflow: case Intrinsic::uadd_with_overflow: case Intrinsic::usub_with_overflow: {
    Val a = arg(0, w), b = arg(1, w);
    unsigned id = F->getIntrinsicID();
    Val res, ov;
    if (!a.e && !b.e) {
      unsigned __int128 x = a.c, y = b.c, z = id == Intrinsic::umul_with_overflow ? x * y : id == Intrinsic::uadd_with_overflow ? x + y : x - y;
      res = VC((uint64_t)z & maskw(w)); ov = VC(id == Intrinsic::usub_with_overflow ? y > x : (z >> w) != 0);
    } else {
      Expr *x = EX(a, w), *y = EX(b, w);
      if (id == Intrinsic::uadd_with_overflow) { Expr *z = mkBin(OP_ADD, x, y); res = VE(z); ov = VE(mkBin(OP_ULT, z, x)); }
      else if (id == Intrinsic::usub_with_overflow) { res = VE(mkBin(OP_SUB, x, y)); ov = VE(mkBin(OP_ULT, x, y)); }
      else { Expr *z = mkBin(OP_MUL, x, y); res = VE(z); ov = VE(mkBin(OP_AND, mkNot(mkBin(OP_EQ, x, mkConst(0, w))), mkNot(mkBin(OP_EQ, mkBin(OP_UDIV, z, x), y)))); }
    }
    f.regs[q.dst] = res; f.regs[q.dst + 1] = ov; ++f.pc; return;
  }
  case Intrinsic::vastart: {
    Val p = arg(0, 64); CONC(p, 64);
    // x86-64 va_list with everything on the overflow area
    auto va = f.varargs;
    uint64_t area = newObj(s, K_STACK, std::max<size_t>(8, va.size() * 8), 8, "va_area", q.I);
    f.allocas.push_back((int64_t)((area >> 16) & 0xFFFFFFF) - BIAS);
    MemObj *o = objW(s, findObj(s, area));
    for (size_t i = 0; i < va.size(); ++i) { Val v = va[i].first; if (v.e && v.e != UNDEF) v = VE(mkZExt(v.e, 64)); storeBytes(o, i * 8, 64, v); }
    MemObj *l = access(s, p.c, 24, true, "va_start"); if (!l) return;
    l = objW(s, l); uint64_t off = p.c - l->base;
    storeBytes(l, off, 32, VC(48)); storeBytes(l, off + 4, 32, VC(176)); storeBytes(l, off + 8, 64, VC(area)); storeBytes(l, off + 16, 64, VC(0));
    ++top(s).pc; return;
  }
  case Intrinsic::vaend: ++f.pc; return;
  case Intrinsic::vacopy: { Val a = arg(0, 64), b = arg(1, 64); CONC(a, 64); CONC(b, 64); if (!memCopy(s, a.c, b.c, 24, true, "va_copy")) return; ++f.pc; return; }
  case Intrinsic::threadlocal_address: r = arg(0, 64); break;
  default: {
    // An instruction without side effects that has no model: any result is possible (what is then reported still has to
    // show in the replay).
    if (!F->doesNotAccessMemory() || q.I->getType()->isVoidTy() || q.n > 16) { incomplete(s, "intrinsic " + F->getName().str()); return; }
    Slots ss; slotsOf(q.I->getType(), ss);
    for (uint32_t j = 0; j < ss.size(); ++j) { if (ss[j].w > 64) { incomplete(s, "intrinsic " + F->getName().str()); return; } f.regs[q.dst + j] = VE(mkVar("any" + std::to_string(gVars.size()), ss[j].w)); }
    ++f.pc; return;
  }
  }
  f.regs[q.dst] = r; ++f.pc;
}

static void doCall(State &s, KI &q) {
  Frame &f = top(s);
  KFunc *k = q.callee;
  if (!k) {
    Val p = get(s, f, q.c, 64);
    if (p.e && !concretize(s, p, 64)) return;
    uint64_t ix = ((p.c & ((1ull << 44) - 1)) >> 8) - 1;
    if (p.c >> 44 != R_FUNC || ix >= gFuncByIdx.size()) { violation(s, "memory", p.c == 0 ? "call through a null function pointer" : "call through an invalid function pointer"); return; }
    k = gFuncByIdx[ix];
  }
  if (k->isDecl) {
    if (k->F->isIntrinsic()) { callIntrinsic(s, q, k->F); return; }
    if (k->ext >= 0) { callExt(s, q, k->ext); return; }
    incomplete(s, "call of unmodelled external function " + k->F->getName().str());
    return;
  }
  Thread &t = s.th[s.cur];
  if (t.fr.size() >= optMaxDepth) { violation(s, "depth", "recursion deeper than the bound (stack exhaustion)"); return; }
  size_t fi = t.fr.size() - 1;
  pushFrame(s, t, k, &q);
  Frame &cf = t.fr[fi], &nf = t.fr.back();
  size_t np = k->params.size();
  for (size_t i = 0; i < q.args.size(); ++i) {
    Arg &a = q.args[i];
    if (i < np) {
      for (uint32_t j = 0; j < a.n && j < k->params[i].second; ++j) nf.regs[k->params[i].first + j] = getRaw(cf, opSlot(a.op, j));
      if (a.byval) {
        Val p = nf.regs[k->params[i].first];
        if (p.e) { incomplete(s, "byval through a symbolic pointer"); return; }
        uint64_t c = newObj(s, K_STACK, a.byvalSize, 16, "byval", q.I);
        nf.allocas.push_back((int64_t)((c >> 16) & 0xFFFFFFF) - BIAS);
        if (!memCopy(s, c, p.c, a.byvalSize, true, "argument copy")) return;
        nf.regs[k->params[i].first] = VC(c);
      }
    } else {
      Val v = get(s, cf, a.op, a.n ? (a.t->isPointerTy() ? 64 : a.t->isFloatTy() ? 32 : a.t->isDoubleTy() ? 64 : a.t->isIntegerTy() ? a.t->getIntegerBitWidth() : 64) : 64);
      nf.varargs.push_back({v, 64});
    }
  }
}

static bool visibleAccess(State &s, uint64_t addr) {
  if (s.th.size() < 2) return false;
  MemObj *o = findObj(s, addr);
  if (!o) return false;
  if (o->readonly || o->priv) return false;
  if (o->kind == K_STACK && o->thread == s.cur) return false;
  return true;
}
static int optTso = -1;
static bool tso() { if (optTso < 0) { auto it = optParams.find("TSO"); optTso = it != optParams.end() && it->second; } return optTso; }
static void flushOldest(State &s, int t) {
  BufStore b = s.th[t].sb.front(); s.th[t].sb.erase(s.th[t].sb.begin());
  MemObj *o = access(s, b.addr, b.bytes, true, nullptr); if (!o) return;
  o = objW(s, o); uint64_t off = b.addr - o->base;
  for (auto &x : b.v) storeBytes(o, off + x.first.off, x.first.w, x.second);
}
static void flushAll(State &s, int t) { while (!s.dead && !s.th[t].sb.empty()) flushOldest(s, t); }
// The registers an execution of k that is about to run instruction pc may still read.
static const std::vector<uint32_t> &liveRegs(KFunc *k, uint32_t pc) {
  auto it = k->liveAt.find(pc); if (it != k->liveAt.end()) return it->second;
  auto use = [&](const Instruction &I, std::vector<bool> &l) {
    auto one = [&](const Value *v, bool on) { auto r = k->reg.find(v); if (r == k->reg.end()) return; uint32_t n = std::max(1u, nSlots(v->getType())); for (uint32_t j = 0; j < n; ++j) l[r->second + j] = on; };
    if (!I.getType()->isVoidTy()) one(&I, false);
    if (!isa<PHINode>(I)) for (const Use &u : I.operands()) one(u.get(), true);
  };
  if (k->liveOut.empty()) {
    std::map<const BasicBlock *, std::vector<bool>> in;
    for (auto &B : *k->F) { k->liveOut[&B].assign(k->nregs, false); in[&B].assign(k->nregs, false); }
    for (bool ch = true; ch;) {
      ch = false;
      for (auto &B : *k->F) {
        std::vector<bool> &o = k->liveOut[&B];
        for (const BasicBlock *T : successors(&B)) {
          for (uint32_t i = 0; i < k->nregs; ++i) if (in[T][i]) o[i] = true;
          for (auto &ph : T->phis()) { auto r = k->reg.find(ph.getIncomingValueForBlock(&B)); if (r != k->reg.end()) for (uint32_t j = 0; j < std::max(1u, nSlots(ph.getType())); ++j) o[r->second + j] = true; }
        }
        std::vector<bool> l = o;
        for (auto I = B.rbegin(); I != B.rend(); ++I) use(*I, l);
        if (l != in[&B]) { in[&B] = l; ch = true; }
      }
    }
  }
  std::vector<uint32_t> &res = k->liveAt[pc];
  const Instruction *at = pc < k->code.size() ? k->code[pc].I : nullptr;
  std::vector<bool> l(k->nregs, true);
  if (at) { l = k->liveOut[at->getParent()]; for (auto I = at->getParent()->rbegin();; ++I) { use(*I, l); if (&*I == at) break; } }
  for (uint32_t i = 0; i < k->nregs; ++i) if (l[i]) res.push_back(i);
  return res;
}
// A hash of everything the rest of an execution depends on. Two paths that reach the same state need only one continuation.
struct StateKey { uint64_t a, b; bool operator==(const StateKey &o) const { return a == o.a && b == o.b; } };
struct StateKeyHash { size_t operator()(const StateKey &k) const { return k.a; } };
struct Hasher {
  uint64_t a = 0x9E3779B97F4A7C15ull, b = 0xC2B2AE3D27D4EB4Full;
  void add(uint64_t x) { a ^= x; a *= 0xff51afd7ed558ccdull; a ^= a >> 32; b += x * 0x9FB21C651E98DF25ull; b = (b << 27 | b >> 37) * 0x165667B19E3779F9ull; b ^= b >> 29; }
  void val(const Val &v) { add(v.e ? (uint64_t)(uintptr_t)v.e : v.c); add(v.e != nullptr); }
};
static std::unordered_set<StateKey, StateKeyHash> gSeen;
static uint64_t gSameState = 0;
static StateKey stateKey(State &s) {
  Hasher h;
  for (Thread &t : s.th) {
    h.add(t.done | t.waiting << 1); h.add(t.stack); h.add(t.fr.size());
    for (Frame &f : t.fr) {
      h.add((uint64_t)(uintptr_t)f.f); h.add(f.pc); h.add((uint64_t)(uintptr_t)f.callSite);
      for (uint32_t r : liveRegs(f.f, f.pc)) h.val(f.regs[r]);
      h.add(f.allocas.size()); for (int64_t a : f.allocas) h.add(a);
      h.add(f.varargs.size()); for (auto &v : f.varargs) h.val(v.first);
    }
    h.add(t.sb.size());
    for (BufStore &b : t.sb) { h.add(b.addr); h.add(b.bytes); for (auto &v : b.v) h.val(v.second); }
  }
  h.add(s.heapUp); h.add(s.heapDown); h.add(s.stackNext); h.add(s.heapDir); h.add(s.heapLive); h.add(s.heapBytes);
  std::set<Expr *> pc(s.pc.begin(), s.pc.end()); for (Expr *e : pc) h.add((uint64_t)(uintptr_t)e);
  std::set<std::string> cov(s.covers.begin(), s.covers.end()); for (auto &c : cov) { h.add(7); for (char x : c) h.add((unsigned char)x); }
  for (int r = 1; r < 4; ++r) for (size_t c = 0; c < s.mem[r].ch.size(); ++c) if (s.mem[r].ch[c]) for (int i = 0; i < 64; ++i) {
    MemObj *o = s.mem[r].ch[c]->o[i].p; if (!o || o->readonly) continue;
    h.add(c * 64 + i); h.add(o->base); h.add(o->size); h.add(o->freed | o->priv << 1);
    for (uint64_t j = 0; j < o->size; ++j) { if (o->st[j] == B_CONC) h.add(o->data[j]); else if (o->st[j] == B_UNINIT) h.add(1ull << 40); else { h.add((uint64_t)(uintptr_t)o->sym[j].e); h.add(1ull << 41 | o->sym[j].idx); } }
  }
  return {h.a, h.b};
}
// Scheduling point before a visible access. Returns true when the current thread may proceed.
static bool schedule(State &s) {
  if (s.th.size() < 2) return true;
  if (s.granted == s.cur) { s.granted = -1; return true; }
  std::vector<int> run;
  for (size_t i = 0; i < s.th.size(); ++i) if (!s.th[i].done && !s.th[i].waiting) run.push_back((int)i);
  std::vector<int> fl;
  for (size_t i = 0; i < s.th.size(); ++i) if (!s.th[i].sb.empty()) fl.push_back((int)i);
  if (run.size() == 1 && (fl.empty() || (fl.size() == 1 && fl[0] == s.cur))) { return true; }
  if (!gSeen.insert(stateKey(s)).second) { ++gSameState; s.dead = true; return false; }
  for (int t : fl) {
    State *o = new State(s);
    o->in.push_back({"sched", 8, VC(100 + t)}); flushOldest(*o, t);
    if (o->dead) { delete o; continue; }
    gWork.push_back(o); ++gForks;
  }
  for (size_t i = 1; i < run.size(); ++i) {
    State *o = new State(s);
    o->cur = run[i]; o->granted = run[i]; o->in.push_back({"sched", 8, VC(run[i])});
    gWork.push_back(o); ++gForks;
  }
  s.cur = run[0]; s.granted = run[0]; s.in.push_back({"sched", 8, VC(run[0])});
  return false; // the granted thread re-executes its own instruction
}

static void step(State &s);
static int optMerge = -1;
// A branch around a few instructions without effects is not explored as two paths: both sides are evaluated and their
// results become one conditional value.
static bool tryMerge(State &s, Frame &f, KI &q, Expr *c) {
  if (optMerge < 0) { auto it = optParams.find("MERGE"); optMerge = it == optParams.end() ? 0 : (int)it->second; }
  if (!optMerge || gRealMode || s.th.size() > 1) return false;
  KFunc *k = f.f;
  const BasicBlock *here = q.I->getParent();
  auto endOf = [&](int b) { return b + 1 < (int)k->blocks.size() ? k->blocks[b + 1].start : (uint32_t)k->code.size(); };
  auto arm = [&](int b) -> int { // the block an arm without effects continues to
    KBlock &kb = k->blocks[b]; uint32_t e = endOf(b);
    if (kb.nphi || e - kb.start > 16 || k->code[e - 1].op != KO_BR) return -1;
    if (k->code[kb.start].I->getParent()->getSinglePredecessor() != here) return -1;
    for (uint32_t i = kb.start; i + 1 < e; ++i) switch (k->code[i].op) {
      case KO_BIN: { Op op = binOp(k->code[i].sub); if (op == OP_UDIV || op == OP_SDIV || op == OP_UREM || op == OP_SREM || op == OP_CONST) return -1; break; }
      case KO_GEP: case KO_ICMP: case KO_FCMP: case KO_FNEG: case KO_CAST: case KO_SELECT: case KO_COPY: case KO_NOP: case KO_LOAD: break;
      default: return -1;
    }
    return k->code[e - 1].t0;
  };
  int j0 = arm(q.t0), j1 = arm(q.t1), J, a0 = -1, a1 = -1;
  if (j0 >= 0 && j0 == j1) J = j0, a0 = q.t0, a1 = q.t1;
  else if (j0 >= 0 && j0 == q.t1) J = q.t1, a0 = q.t0;
  else if (j1 >= 0 && j1 == q.t0) J = q.t0, a1 = q.t1;
  else return false;
  KBlock &jb = k->blocks[J];
  for (uint32_t i = 0; i < jb.nphi; ++i) { KI &x = k->code[jb.start + i]; if (x.I->getType()->isPointerTy()) return false; }
  uint32_t pc0 = f.pc;
  auto run = [&](int b) { // evaluates an arm; a load that could do anything but give a defined value ends the attempt
    if (b < 0) return true;
    uint32_t e = endOf(b) - 1;
    for (f.pc = k->blocks[b].start; f.pc < e;) {
      KI &x = k->code[f.pc];
      if (x.op == KO_LOAD) {
        Val p = getRaw(f, x.a); if (p.e) return false;
        MemObj *o = findObj(s, p.c);
        if (!o || o->freed || p.c < o->base || p.c + x.imm > o->base + o->size) return false;
        for (int64_t i = 0; i < x.imm; ++i) if (o->st[p.c - o->base + i] == B_UNINIT) return false;
      }
      uint32_t at = f.pc; step(s); if (s.dead || f.pc != at + 1) { return false; }
    }
    return true;
  };
  bool ok = run(a0) && run(a1);
  f.pc = pc0;
  if (!ok) return false;
  std::vector<Val> r;
  int p0 = a0 >= 0 ? a0 : f.block, p1 = a1 >= 0 ? a1 : f.block;
  for (uint32_t i = 0; i < jb.nphi; ++i) {
    KI &x = k->code[jb.start + i]; int o0 = 0, o1 = 0, got = 0;
    for (auto &pr : x.phi) { if (pr.first == p0) o0 = pr.second, got |= 1; if (pr.first == p1) o1 = pr.second, got |= 2; }
    if (got != 3) return false;
    for (uint32_t j = 0; j < x.n; ++j) {
      Val a = getRaw(f, opSlot(o0, j)), b = getRaw(f, opSlot(o1, j));
      if (a.e == UNDEF || b.e == UNDEF) return false;
      r.push_back(!a.e && !b.e && a.c == b.c ? a : VE(mkIte(c, EX(a, x.sl[j].w), EX(b, x.sl[j].w))));
    }
  }
  uint32_t p = 0;
  for (uint32_t i = 0; i < jb.nphi; ++i) { KI &x = k->code[jb.start + i]; for (uint32_t j = 0; j < x.n; ++j) f.regs[x.dst + j] = r[p++]; }
  if (a0 >= 0) k->blocks[a0].covered = true;
  if (a1 >= 0) k->blocks[a1].covered = true;
  jb.covered = true; f.prev = f.block; f.block = J; f.pc = jb.start + jb.nphi; ++gMerged;
  return true;
}
// Execute one instruction of the current thread.
static void step(State &s) {
  Frame &f = top(s);
  KI &q = f.f->code[f.pc];
  ++s.steps; ++gSteps;
  switch (q.op) {
  case KO_ALLOCA: {
    Val n = get(s, f, q.a, q.t0); CONC(n, 64);
    uint64_t a = newObj(s, K_STACK, q.imm * n.c, q.w2, q.I->hasName() ? q.I->getName().str() : "", q.I);
    int64_t s0 = (int64_t)((a >> 16) & 0xFFFFFFF) - BIAS, s1 = (int64_t)(((a + (q.imm * n.c ? q.imm * n.c - 1 : 0)) >> 16) & 0xFFFFFFF) - BIAS;
    for (int64_t x = s0; x <= s1; ++x) f.allocas.push_back(x);
    f.regs[q.dst] = VC(a); ++f.pc; return;
  }
  case KO_LOAD: {
    Val p = get(s, f, q.a, 64);
    if (p.e && q.n == 1) {
      MemObj *o; uint32_t st; int r = symAddr(s, p, q.imm, false, o, st);
      if (r < 0) return;
      if (r) {
        uint64_t base = o->base; Expr *v = nullptr;
        for (uint64_t off = 0; off + q.imm <= o->size; off += st) {
          Val x = loadBytes(s, o, off + q.sl[0].off, q.sl[0].w); o = findObj(s, base);
          Expr *xe = EX(x, q.sl[0].w);
          v = v ? mkIte(mkBin(OP_EQ, p.e, mkConst(base + off, 64)), xe, v) : xe;
        }
        f.regs[q.dst] = VE(v); ++f.pc; return;
      }
    }
    CONC(p, 64);
    if (q.align && p.c % q.align) { violation(s, "memory", "misaligned vector read"); return; }
    if (s.th.size() > 1 && visibleAccess(s, p.c) && !schedule(s)) return;
    MemObj *o = access(s, p.c, q.imm, false, nullptr); if (!o) return;
    if (tso() && !s.th[s.cur].sb.empty()) {
      auto &sb = s.th[s.cur].sb; bool part = false; BufStore *hit = nullptr;
      for (auto &b : sb) if (b.addr < p.c + q.imm && p.c < b.addr + b.bytes) { if (b.addr == p.c && b.bytes == q.imm && b.v.size() == 1 && q.n == 1 && b.v[0].first.w == q.sl[0].w) hit = &b, part = false; else part = true; }
      if (part) { flushAll(s, s.cur); if (s.dead) return; o = findObj(s, p.c); }
      else if (hit) { f.regs[q.dst] = hit->v[0].second; ++f.pc; return; }
    }
    uint64_t off = p.c - o->base;
    if (q.n == 1) { f.regs[q.dst] = loadBytes(s, o, off + q.sl[0].off, q.sl[0].w); }
    else for (uint32_t j = 0; j < q.n; ++j) { o = findObj(s, p.c); f.regs[q.dst + j] = loadBytes(s, o, off + q.sl[j].off, q.sl[j].w); }
    ++f.pc; return;
  }
  case KO_STORE: {
    Val p = get(s, f, q.a, 64);
    if (p.e && q.n == 1 && getRaw(f, q.b).e != UNDEF) {
      MemObj *o; uint32_t st; int r = symAddr(s, p, q.imm, true, o, st);
      if (r < 0) return;
      if (r && st == q.imm && q.sl[0].w == q.imm * 8) {
        uint64_t base = o->base; Expr *v = EX(getRaw(f, q.b), q.sl[0].w);
        for (uint64_t off = 0; off + q.imm <= o->size; off += st) {
          o = findObj(s, base);
          Expr *old = EX(loadBytes(s, o, off, q.sl[0].w), q.sl[0].w);
          o = objW(s, findObj(s, base));
          storeBytes(o, off, q.sl[0].w, VE(mkIte(mkBin(OP_EQ, p.e, mkConst(base + off, 64)), v, old)));
        }
        ++f.pc; return;
      }
    }
    CONC(p, 64);
    if (q.align && p.c % q.align) { violation(s, "memory", "misaligned vector write"); return; }
    if (tso() && s.th.size() > 1 && s.cur != 0 && visibleAccess(s, p.c)) {
      if (cast<StoreInst>(q.I)->getOrdering() != AtomicOrdering::SequentiallyConsistent) {
        if (!access(s, p.c, q.imm, true, nullptr)) return;
        BufStore b{p.c, (uint32_t)q.imm, {}}; for (uint32_t j = 0; j < q.n; ++j) b.v.push_back({q.sl[j], getRaw(f, opSlot(q.b, j))});
        s.th[s.cur].sb.push_back(b); ++f.pc; return;
      }
      if (!schedule(s)) return;
      flushAll(s, s.cur); if (s.dead) return;
    } else
    if (s.th.size() > 1 && visibleAccess(s, p.c) && !schedule(s)) return;
    MemObj *o = access(s, p.c, q.imm, true, nullptr); if (!o) return;
    o = objW(s, o);
    uint64_t off = p.c - o->base;
    for (uint32_t j = 0; j < q.n; ++j) storeBytes(o, off + q.sl[j].off, q.sl[j].w, getRaw(f, opSlot(q.b, j)));
    ++f.pc; return;
  }
  case KO_GEP: {
    Val p = get(s, f, q.a, 64);
    uint64_t c = q.imm; Expr *e = p.e; if (!e) c += p.c;
    for (auto &g : q.gi) {
      Val i = get(s, f, g.op, g.w);
      if (!i.e) c += (uint64_t)sextw(i.c, g.w) * (uint64_t)g.scale;
      else { Expr *t = mkBin(OP_MUL, mkSExt(i.e, 64), mkConst(g.scale, 64)); e = e ? mkBin(OP_ADD, e, t) : t; }
    }
    f.regs[q.dst] = e ? VE(mkBin(OP_ADD, e, mkConst(c, 64))) : VC(c);
    ++f.pc; return;
  }
  case KO_BIN: {
    Op op = binOp(q.sub);
    if (op == OP_CONST) { incomplete(s, "binary operator"); return; }
    for (uint32_t j = 0; j < q.n; ++j) {
      Val a = get(s, f, opSlot(q.a, j), q.w), b = get(s, f, opSlot(q.b, j), q.w);
      if (op == OP_UDIV || op == OP_SDIV || op == OP_UREM || op == OP_SREM) {
        if (!b.e ? b.c == 0 : true) {
          Val nz = b.e ? VE(mkNot(mkBin(OP_EQ, b.e, mkConst(0, q.w)))) : VC(0);
          if (!doAssert(s, nz, "integer division by zero", 1)) return;
        }
      }
      f.regs[q.dst + j] = binVal(op, a, b, q.w);
    }
    ++f.pc; return;
  }
  case KO_FNEG: for (uint32_t j = 0; j < q.n; ++j) { Val a = get(s, f, opSlot(q.a, j), q.w); f.regs[q.dst + j] = VE(mkFp1(OP_FNEG, EX(a, q.w), q.w)); } ++f.pc; return;
  case KO_ICMP: for (uint32_t j = 0; j < q.n; ++j) { Val a = get(s, f, opSlot(q.a, j), q.w2), b = get(s, f, opSlot(q.b, j), q.w2); f.regs[q.dst + j] = icmpVal(q.sub, a, b, q.w2); } ++f.pc; return;
  case KO_FCMP: for (uint32_t j = 0; j < q.n; ++j) { Val a = get(s, f, opSlot(q.a, j), q.w2), b = get(s, f, opSlot(q.b, j), q.w2); f.regs[q.dst + j] = VE(fcmpExpr(q.sub, EX(a, q.w2), EX(b, q.w2))); } ++f.pc; return;
  case KO_CAST: {
    if (q.sub == Instruction::BitCast && (q.n != (uint32_t)q.imm)) {
      // between shapes: through a little-endian byte string
      uint32_t wi = q.w2, wo = q.w;
      std::vector<Val> bytes;
      if (wi % 8 || wo % 8) { incomplete(s, "bitcast of sub-byte vector"); return; }
      for (int64_t j = 0; j < q.imm; ++j) { Val a = get(s, f, opSlot(q.a, j), wi); for (uint32_t b = 0; b < wi; b += 8) bytes.push_back(a.e ? VE(mkExtract(a.e, b, 8)) : VC((a.c >> b) & 255)); }
      for (uint32_t j = 0; j < q.n; ++j) {
        Expr *e = nullptr;
        for (int b = (int)wo / 8 - 1; b >= 0; --b) { Expr *x = EX(bytes[j * wo / 8 + b], 8); e = e ? mkConcat(e, x) : x; }
        f.regs[q.dst + j] = VE(e);
      }
      ++f.pc; return;
    }
    for (uint32_t j = 0; j < q.n; ++j) {
      Val a = get(s, f, opSlot(q.a, j), q.w2), r;
      switch (q.sub) {
      case Instruction::Trunc: r = a.e ? VE(mkExtract(a.e, 0, q.w)) : VC(a.c & maskw(q.w)); break;
      case Instruction::ZExt: case Instruction::PtrToInt: case Instruction::IntToPtr:
        if (q.w < q.w2) r = a.e ? VE(mkExtract(a.e, 0, q.w)) : VC(a.c & maskw(q.w)); else r = a.e ? VE(mkZExt(a.e, q.w)) : a; break;
      case Instruction::SExt: r = a.e ? VE(mkSExt(a.e, q.w)) : VC((uint64_t)sextw(a.c, q.w2) & maskw(q.w)); break;
      case Instruction::BitCast: case Instruction::AddrSpaceCast: r = a; break;
      case Instruction::FPExt: r = VE(mkFp1(OP_FPEXT, EX(a, q.w2), q.w)); break;
      case Instruction::FPTrunc: r = VE(mkFp1(OP_FPTRUNC, EX(a, q.w2), q.w)); break;
      case Instruction::SIToFP: r = VE(mkFp1(OP_SITOFP, EX(a, q.w2), q.w)); break;
      case Instruction::UIToFP: r = VE(mkFp1(OP_UITOFP, EX(a, q.w2), q.w)); break;
      case Instruction::FPToSI: r = VE(mkFp1(OP_FPTOSI, EX(a, q.w2), q.w)); break;
      case Instruction::FPToUI: r = VE(mkFp1(OP_FPTOUI, EX(a, q.w2), q.w)); break;
      default: incomplete(s, "cast"); return;
      }
      f.regs[q.dst + j] = r;
    }
    ++f.pc; return;
  }
  case KO_SELECT: {
    for (uint32_t j = 0; j < q.n; ++j) {
      Val c = get(s, f, q.sub ? opSlot(q.a, j) : q.a, 1);
      if (!c.e) f.regs[q.dst + j] = getRaw(f, opSlot(c.c & 1 ? q.b : q.c, j));
      else { Val a = get(s, f, opSlot(q.b, j), q.sl[j].w), b = get(s, f, opSlot(q.c, j), q.sl[j].w); f.regs[q.dst + j] = VE(mkIte(c.e, EX(a, q.sl[j].w), EX(b, q.sl[j].w))); }
    }
    ++f.pc; return;
  }
  case KO_BR: gotoBlock(s, f, q.t0); return;
  case KO_CONDBR: {
    Val c = get(s, f, q.a, 1);
    if (!c.e) { gotoBlock(s, f, c.c & 1 ? q.t0 : q.t1); return; }
    if (tryMerge(s, f, q, c.e)) return;
    State *o;
    int v = decide(s, c.e, o);
    if (s.dead) return;
    gotoBlock(s, top(s), v ? q.t0 : q.t1);
    if (o) { gotoBlock(*o, top(*o), v ? q.t1 : q.t0); gWork.push_back(o); }
    return;
  }
  case KO_SWITCH: {
    Val c = get(s, f, q.a, q.w2);
    if (!c.e) { int t = q.t0; for (auto &cs : q.cases) if (cs.first == (c.c & maskw(q.w2))) { t = cs.second; break; } gotoBlock(s, f, t); return; }
    // one target at a time: is it this case?
    for (auto &cs : q.cases) {
      State *o;
      int v = decide(s, mkBin(OP_EQ, c.e, mkConst(cs.first, q.w2)), o);
      if (s.dead) return;
      if (v) { gotoBlock(s, top(s), cs.second); if (o) gWork.push_back(o); return; } // the other state re-executes the switch with c != value
      if (o) { gotoBlock(*o, top(*o), cs.second); gWork.push_back(o); }
    }
    gotoBlock(s, top(s), q.t0);
    return;
  }
  case KO_CALL: doCall(s, q); return;
  case KO_RET: {
    Thread &t = s.th[s.cur];
    Val tmp[16]; std::vector<Val> big; Val *v = tmp;
    if (q.n > 16) { big.resize(q.n); v = big.data(); }
    for (uint32_t j = 0; j < q.n; ++j) v[j] = getRaw(f, opSlot(q.a, j));
    KI *site = f.callSite;
    popFrame(s, t);
    if (t.fr.empty()) {
      t.done = true;
      if (s.cur == 0) { finishPath(s); return; }
      // pick another runnable thread (fork over the choice is not needed: nothing visible happened)
      for (size_t i = 1; i < s.th.size(); ++i) if (!s.th[i].done) { s.cur = (int)i; s.granted = -1; return; }
      s.cur = 0; s.th[0].waiting = false; return;
    }
    Frame &c = t.fr.back();
    if (site && !site->I->getType()->isVoidTy()) for (uint32_t j = 0; j < site->n && j < q.n; ++j) c.regs[site->dst + j] = v[j];
    ++c.pc; return;
  }
  case KO_UNREACHABLE: violation(s, "trap", "reached unreachable code (missing return value or undefined behaviour)"); return;
  case KO_COPY: case KO_FREEZE: for (uint32_t j = 0; j < q.n; ++j) f.regs[q.dst + j] = getRaw(f, opSlot(q.a, j)); ++f.pc; return;
  case KO_INSERTVAL: {
    std::vector<Val> t(q.n);
    for (uint32_t j = 0; j < q.n; ++j) t[j] = getRaw(f, opSlot(q.a, j));
    for (int j = 0; j < q.t0; ++j) t[q.imm + j] = getRaw(f, opSlot(q.b, j));
    for (uint32_t j = 0; j < q.n; ++j) f.regs[q.dst + j] = t[j];
    ++f.pc; return;
  }
  case KO_EXTRACTELT: { Val i = get(s, f, q.b, q.w2); CONC(i, q.w2); if (i.c >= (uint64_t)q.imm) { incomplete(s, "vector index"); return; } f.regs[q.dst] = getRaw(f, opSlot(q.a, (int)i.c)); ++f.pc; return; }
  case KO_INSERTELT: {
    Val i = get(s, f, q.c, q.w2); CONC(i, q.w2);
    if (i.c >= q.n) { incomplete(s, "vector index"); return; }
    std::vector<Val> t(q.n);
    for (uint32_t j = 0; j < q.n; ++j) t[j] = getRaw(f, opSlot(q.a, j));
    t[i.c] = getRaw(f, q.b);
    for (uint32_t j = 0; j < q.n; ++j) f.regs[q.dst + j] = t[j];
    ++f.pc; return;
  }
  case KO_SHUFFLE: {
    std::vector<Val> t(q.n);
    for (uint32_t j = 0; j < q.n; ++j) { int m = q.mask[j]; if (m < 0) { t[j].e = UNDEF; } else t[j] = m < q.imm ? getRaw(f, opSlot(q.a, m)) : getRaw(f, opSlot(q.b, m - (int)q.imm)); }
    for (uint32_t j = 0; j < q.n; ++j) f.regs[q.dst + j] = t[j];
    ++f.pc; return;
  }
  case KO_RMW: {
    Val p = get(s, f, q.a, 64); CONC(p, 64);
    if (s.th.size() > 1 && visibleAccess(s, p.c) && !schedule(s)) return;
    flushAll(s, s.cur); if (s.dead) return;
    MemObj *o = access(s, p.c, q.imm, true, "atomic operation"); if (!o) return;
    Val old = loadBytes(s, o, p.c - o->base, q.w), x = get(s, f, q.b, q.w), n;
    switch (q.sub) {
    case AtomicRMWInst::Xchg: n = x; break;
    case AtomicRMWInst::Add: n = binVal(OP_ADD, old, x, q.w); break;
    case AtomicRMWInst::Sub: n = binVal(OP_SUB, old, x, q.w); break;
    case AtomicRMWInst::And: n = binVal(OP_AND, old, x, q.w); break;
    case AtomicRMWInst::Or: n = binVal(OP_OR, old, x, q.w); break;
    case AtomicRMWInst::Xor: n = binVal(OP_XOR, old, x, q.w); break;
    case AtomicRMWInst::Nand: n = binVal(OP_XOR, binVal(OP_AND, old, x, q.w), VC(maskw(q.w)), q.w); break;
    case AtomicRMWInst::Max: case AtomicRMWInst::Min: { Expr *lt = mkBin(OP_SLT, EX(old, q.w), EX(x, q.w)); n = VE(q.sub == AtomicRMWInst::Max ? mkIte(lt, EX(x, q.w), EX(old, q.w)) : mkIte(lt, EX(old, q.w), EX(x, q.w))); break; }
    default: incomplete(s, "atomicrmw"); return;
    }
    o = objW(s, findObj(s, p.c));
    storeBytes(o, p.c - o->base, q.w, n);
    f.regs[q.dst] = old; ++f.pc; return;
  }
  case KO_CMPXCHG: {
    Val p = get(s, f, q.a, 64); CONC(p, 64);
    if (s.th.size() > 1 && visibleAccess(s, p.c) && !schedule(s)) return;
    flushAll(s, s.cur); if (s.dead) return;
    MemObj *o = access(s, p.c, q.imm, true, "atomic operation"); if (!o) return;
    Val old = loadBytes(s, o, p.c - o->base, q.w), cmp = get(s, f, q.b, q.w), nv = get(s, f, q.c, q.w);
    Val eq = icmpVal(CmpInst::ICMP_EQ, old, cmp, q.w);
    if (eq.e) { State *oth; int r = decide(s, eq.e, oth); if (oth) { if (s.th.size() > 1 && visibleAccess(s, p.c)) oth->granted = oth->cur; gWork.push_back(oth); } if (s.dead) return; eq = VC(r); }
    o = objW(s, findObj(s, p.c));
    Val st = !eq.e ? (eq.c ? nv : old) : VE(mkIte(eq.e, EX(nv, q.w), EX(old, q.w)));
    storeBytes(o, p.c - o->base, q.w, st);
    f.regs[q.dst] = old; f.regs[q.dst + 1] = eq; ++f.pc; return;
  }
  case KO_FENCE: if (cast<FenceInst>(q.I)->getOrdering() == AtomicOrdering::SequentiallyConsistent) { flushAll(s, s.cur); if (s.dead) return; } ++f.pc; return;
  case KO_NOP: ++f.pc; return;
  case KO_PHI: incomplete(s, "stray phi"); return;
  default: { std::string t; raw_string_ostream os(t); os << *q.I; incomplete(s, "unsupported instruction " + os.str()); return; }
  }
}

static bool timeUp() { return nowS() - gStart > optTime; }
static void runState(State *st, size_t stopAt) {
  // runs st to its end; forks go to gWork
  while (!st->dead) {
    uint64_t lim = 2048;
    while (!st->dead && lim--) {
      step(*st);
      if (st->steps > optMaxSteps) { violation(*st, "steps", "path longer than the instruction bound (possible non-termination)"); }
    }
    if (timeUp()) { gIncomplete.insert("time limit reached"); gStop = true; break; }
    if (stopAt && gWork.size() >= stopAt) { if (!st->dead) gWork.push_back(st); else delete st; return; }
  }
  delete st;
}

static std::string jstr(const std::string &s) {
  std::string o = "\"";
  for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; } else o += c; }
  return o + "\"";
}
static void writeResult(const std::string &path) {
  FILE *o = fopen(path.c_str(), "w");
  if (!o) return;
  fprintf(o, "{\"paths\":%llu,\"sympaths\":%llu,\"forks\":%llu,\"steps\":%llu,\"assert_sym\":%llu,\"assert_conc\":%llu,\"infeasible\":%llu,\"maxpath\":%llu,", (unsigned long long)gPaths, (unsigned long long)gSymPaths, (unsigned long long)gForks, (unsigned long long)gSteps, (unsigned long long)gAssertSym, (unsigned long long)gAssertConc, (unsigned long long)gInfeasible, (unsigned long long)gMaxPathSteps);
  fprintf(o, "\"queries\":%llu,\"z3calls\":%llu,\"cachehits\":%llu,\"sat\":%llu,\"unsat\":%llu,\"unknown\":%llu,\"solver_s\":%.3f,\"solver_max_s\":%.3f,\"wall_s\":%.3f,", (unsigned long long)gStats.queries, (unsigned long long)gStats.z3calls, (unsigned long long)gStats.cacheHits, (unsigned long long)gStats.sat, (unsigned long long)gStats.unsat, (unsigned long long)gStats.unknown, gStats.seconds, gStats.maxSeconds, nowS() - gStart);
  fprintf(o, "\"incomplete\":["); bool first = true;
  for (auto &s : gIncomplete) { fprintf(o, "%s%s", first ? "" : ",", jstr(s).c_str()); first = false; }
  fprintf(o, "],\"covers\":{"); first = true;
  for (auto &c : gCovers) { fprintf(o, "%s%s:%llu", first ? "" : ",", jstr(c.first).c_str(), (unsigned long long)c.second); first = false; }
  fprintf(o, "},\"asserts\":{"); first = true;
  for (auto &c : gAssertMsgs) { fprintf(o, "%s%s:%llu", first ? "" : ",", jstr(c.first).c_str(), (unsigned long long)c.second); first = false; }
  fprintf(o, "},\"samples\":["); first = true;
  for (auto &c : gSamples) {
    fprintf(o, "%s{\"about\":%s,\"inputs\":[", first ? "" : ",", jstr(c.second).c_str()); first = false;
    for (size_t i = 0; i < c.first.size(); ++i) fprintf(o, "%s[%s,%llu]", i ? "," : "", jstr(c.first[i].first).c_str(), (unsigned long long)c.first[i].second);
    fprintf(o, "]}");
  }
  fprintf(o, "],\"functions\":["); first = true;
  for (KFunc *k : gFuncByIdx) if (k->inRepo && k->calls) {
    size_t cov = 0; std::string cb; for (auto &b : k->blocks) { cov += b.covered; cb += b.covered ? '1' : '0'; }
    fprintf(o, "%s{\"f\":%s,\"file\":%s,\"line\":%u,\"calls\":%llu,\"cov\":\"%s\"}", first ? "" : ",", jstr(shortFn(k->F)).c_str(), jstr(k->file).c_str(), k->line, (unsigned long long)k->calls, cb.c_str()); first = false;
  }
  fprintf(o, "],\"violations\":["); first = true;
  for (auto &v : gViol) {
    fprintf(o, "%s{\"kind\":%s,\"msg\":%s,\"loc\":%s,\"uninit\":%s,\"stack\":[", first ? "" : ",", jstr(v.kind).c_str(), jstr(v.msg).c_str(), jstr(v.loc).c_str(), v.uninit ? "true" : "false"); first = false;
    for (size_t i = 0; i < v.stack.size(); ++i) fprintf(o, "%s%s", i ? "," : "", jstr(v.stack[i]).c_str());
    fprintf(o, "],\"inputs\":[");
    for (size_t i = 0; i < v.inputs.size(); ++i) fprintf(o, "%s[%s,%llu]", i ? "," : "", jstr(v.inputs[i].first).c_str(), (unsigned long long)v.inputs[i].second);
    fprintf(o, "]}");
  }
  fprintf(o, "],\"done\":true}\n");
  fclose(o);
}

static void initGlobals(State &s) {
  for (auto &g : M->globals()) {
    Type *t = g.getValueType();
    uint64_t size = t->isSized() ? DL->getTypeAllocSize(t) : 64;
    if (g.isDeclaration() && size < 64) size = 64;
    uint64_t al = g.getAlign() ? g.getAlign()->value() : DL->getABITypeAlign(t).value();
    uint64_t a = newObj(s, K_GLOBAL, size, std::max<uint64_t>(al, 1), demangle(g.getName().str()), nullptr);
    gGlobalAddr[&g] = a;
  }
  for (auto &F : *M) getK(&F);
  for (auto &g : M->globals()) {
    MemObj *o = objW(s, findObj(s, gGlobalAddr[&g]));
    if (!g.hasInitializer()) { std::fill(o->st.begin(), o->st.end(), B_CONC); continue; }
    Constant *c = g.getInitializer();
    std::fill(o->st.begin(), o->st.end(), B_CONC);
    std::function<void(Constant *, uint64_t)> put = [&](Constant *c, uint64_t off) {
      if (isa<ConstantAggregateZero>(c) || isa<ConstantPointerNull>(c)) return;
      Type *t = c->getType();
      if (isa<UndefValue>(c)) return;
      if (auto *cds = dyn_cast<ConstantDataSequential>(c)) {
        uint64_t es = cds->getElementByteSize();
        for (unsigned i = 0; i < cds->getNumElements(); ++i) { Val v = constScalar(cds->getElementAsConstant(i), es * 8); storeBytes(o, off + i * es, es * 8, v); }
        return;
      }
      if (t->isStructTy()) { auto *l = DL->getStructLayout(cast<StructType>(t)); for (unsigned i = 0; i < t->getStructNumElements(); ++i) put(c->getAggregateElement(i), off + l->getElementOffset(i)); return; }
      if (t->isArrayTy()) { uint64_t es = DL->getTypeAllocSize(t->getArrayElementType()); for (unsigned i = 0; i < t->getArrayNumElements(); ++i) put(c->getAggregateElement(i), off + i * es); return; }
      if (auto *vt = dyn_cast<FixedVectorType>(t)) { uint64_t es = DL->getTypeStoreSize(vt->getElementType()); for (unsigned i = 0; i < vt->getNumElements(); ++i) put(c->getAggregateElement(i), off + i * es); return; }
      Slots sl; if (!slotsOf(t, sl) || sl.size() != 1) { errs() << "global initializer type\n"; return; }
      storeBytes(o, off, sl[0].w, constScalar(c, sl[0].w));
    };
    put(c, 0);
    o->readonly = g.isConstant();
  }
}

int main(int argc, char **argv) {
  std::string bc;
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    auto val = [&](const char *p) { return a.substr(strlen(p)); };
    if (a.rfind("--entry=", 0) == 0) optEntry = val("--entry=");
    else if (a.rfind("--out=", 0) == 0) optOut = val("--out=");
    else if (a.rfind("--repo=", 0) == 0) optRepo = val("--repo=");
    else if (a.rfind("--time=", 0) == 0) optTime = atof(val("--time=").c_str());
    else if (a.rfind("--max-steps=", 0) == 0) optMaxSteps = atoll(val("--max-steps=").c_str());
    else if (a.rfind("--max-depth=", 0) == 0) optMaxDepth = atoll(val("--max-depth=").c_str());
    else if (a.rfind("--max-viol=", 0) == 0) optMaxViol = atoll(val("--max-viol=").c_str());
    else if (a.rfind("--max-ite=", 0) == 0) optMaxIte = atoll(val("--max-ite=").c_str());
    else if (a.rfind("--max-enum=", 0) == 0) optMaxConcretize = atoll(val("--max-enum=").c_str());
    else if (a.rfind("--query-ms=", 0) == 0) optQueryMs = atoi(val("--query-ms=").c_str());
    else if (a.rfind("--jobs=", 0) == 0) optJobs = atoi(val("--jobs=").c_str());
    else if (a.rfind("--samples=", 0) == 0) optSamples = atoll(val("--samples=").c_str());
    else if (a.rfind("--seed=", 0) == 0) gRng ^= 0x9E3779B97F4A7C15ull * (uint64_t)atoll(val("--seed=").c_str());
    else if (a == "--real") gRealMode = true;
    else if (a == "--trace") optTrace = true;
    else if (a.rfind("-p", 0) == 0) { size_t e = a.find('='); optParams[a.substr(2, e - 2)] = atoll(a.substr(e + 1).c_str()); }
    else bc = a;
  }
  gStart = nowS();
  struct rlimit rl; getrlimit(RLIMIT_STACK, &rl); (void)rl;
  LLVMContext ctx; SMDiagnostic err;
  std::unique_ptr<Module> mod = parseIRFile(bc, err, ctx);
  if (!mod) { err.print("symx", errs()); return 3; }
  M = mod.get(); DL = &M->getDataLayout();
  Solver solver; S = &solver; S->timeoutMs = optQueryMs;
  UNDEF = mkVar("undef-sentinel", 64);
  Function *entry = M->getFunction(optEntry);
  if (!entry) { fprintf(stderr, "symx: no entry %s\n", optEntry.c_str()); return 3; }
  State *s = new State;
  initGlobals(*s);
  // constructors, then the entry
  std::vector<std::pair<uint32_t, Function *>> ctors;
  if (auto *gc = M->getGlobalVariable("llvm.global_ctors")) if (auto *ca = dyn_cast<ConstantArray>(gc->getInitializer()))
    for (auto &op : ca->operands()) { auto *cs = cast<ConstantStruct>(op); ctors.push_back({(uint32_t)cast<ConstantInt>(cs->getOperand(0))->getZExtValue(), cast<Function>(cs->getOperand(1)->stripPointerCasts())}); }
  std::stable_sort(ctors.begin(), ctors.end(), [](auto &a, auto &b) { return a.first < b.first; });
  for (auto &c : ctors) {
    s->th.assign(1, Thread()); s->cur = 0;
    pushFrame(*s, s->th[0], getK(c.second), nullptr);
    while (!s->dead && !s->th[0].done) step(*s);
    if (s->th[0].done && s->dead) { s->dead = false; --gPaths; }
    if (s->dead || !gWork.empty()) { fprintf(stderr, "symx: static initialisation failed\n"); writeResult(optOut); return 3; }
  }
  gSamples.clear(); gSampleSeen = 0;
  s->heapLive = 0; // leaks are counted from here
  s->steps = 0;
  s->th.assign(1, Thread()); s->cur = 0;
  pushFrame(*s, s->th[0], getK(entry), nullptr);

  // breadth-first until there is enough work, then split over processes
  size_t want = optJobs > 1 ? (size_t)optJobs * 40 : 0;
  std::deque<State *> fifo;
  fifo.push_back(s);
  double t0 = nowS();
  while (!fifo.empty() && !gStop) {
    State *x = fifo.front(); fifo.pop_front();
    // run until it forks or ends, a slice at a time
    uint64_t lim = want ? 4000 : ~0ull;
    size_t before = gWork.size();
    while (!x->dead && lim--) {
      step(*x);
      if (x->steps > optMaxSteps) violation(*x, "steps", "path longer than the instruction bound (possible non-termination)");
      if (want && gWork.size() > before) break;
      if (!want && (lim & 2047) == 0 && timeUp()) { gIncomplete.insert("time limit reached"); gStop = true; break; }
    }
    if (timeUp()) { gIncomplete.insert("time limit reached"); gStop = true; }
    if (x->dead) delete x; else if (want) fifo.push_back(x); else fifo.push_front(x);
    if (want) { for (State *w : gWork) fifo.push_back(w); gWork.clear(); }
    else { while (!gWork.empty()) { fifo.push_front(gWork.back()); gWork.pop_back(); } }
    if (want && (fifo.size() >= want || (nowS() - t0 > 15 && fifo.size() >= (size_t)optJobs * 2))) break;
  }
  if (gStop || fifo.empty()) { writeResult(optOut); return 0; }
  writeResult(optOut);
  struct Shared { int next; int stop; };
  Shared *sh = (Shared *)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  sh->next = 0; sh->stop = 0;
  std::vector<State *> list(fifo.begin(), fifo.end());
  std::vector<pid_t> pids;
  for (int j = 0; j < optJobs; ++j) {
    pid_t p = fork();
    if (p == 0) {
      gPaths = gForks = gSteps = gAssertSym = gAssertConc = gInfeasible = gMaxPathSteps = gSymPaths = 0; gStats = SolverStats(); gViol.clear(); gViolCount.clear(); gCovers.clear(); gAssertMsgs.clear(); gSamples.clear(); gSampleSeen = 0; gRng += 7919 * (j + 1); gIncomplete.clear();
      for (KFunc *k : gFuncByIdx) k->calls = 0;
      for (;;) {
        int i = __sync_fetch_and_add(&sh->next, 1);
        if (i >= (int)list.size() || gStop || sh->stop) break;
        gWork.push_back(list[i]);
        while (!gWork.empty() && !gStop) {
          State *x = gWork.back(); gWork.pop_back();
          runState(x, 0);
          if (sh->stop) gStop = true;
        }
        if (!gViol.empty() && gViol.size() >= optMaxViol) sh->stop = 1;
      }
      if (gStop && gViol.size() >= optMaxViol) sh->stop = 1;
      writeResult(optOut + "." + std::to_string(j));
      _exit(0);
    }
    pids.push_back(p);
  }
  int rc = 0;
  for (int j = 0; j < (int)pids.size(); ++j) { int st; waitpid(pids[j], &st, 0); if (!WIFEXITED(st) || WEXITSTATUS(st)) { fprintf(stderr, "symx: worker %d died (status %d)\n", j, st); rc = 4; } }
  return rc;
}
