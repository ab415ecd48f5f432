// Copy-on-write symbolic memory: objects at concrete addresses, bytes concrete, symbolic or uninitialised.
#pragma once
#include "expr.h"
#include <string>
#include <vector>

struct Val { Expr *e = nullptr; uint64_t c = 0; };
inline Val VC(uint64_t c) { Val v; v.c = c; return v; }
inline Val VE(Expr *e) { Val v; if (isC(e)) v.c = e->c; else v.e = e; return v; }
inline Expr *EX(const Val &v, uint32_t w) { return v.e ? v.e : mkConst(v.c, w); }

template <class T> struct RC {
  T *p = nullptr;
  RC() {}
  explicit RC(T *q) : p(q) { if (p) ++p->refs; }
  RC(const RC &o) : p(o.p) { if (p) ++p->refs; }
  RC(RC &&o) : p(o.p) { o.p = nullptr; }
  RC &operator=(RC o) { std::swap(p, o.p); return *this; }
  ~RC() { if (p && --p->refs == 0) delete p; }
  T *operator->() const { return p; }
  explicit operator bool() const { return p != nullptr; }
  T *own() { if (p->refs > 1) { T *n = new T(*p); n->refs = 1; --p->refs; p = n; } return p; }
};

enum ObjKind : uint8_t { K_GLOBAL, K_HEAP, K_STACK, K_FUNC };
enum ByteState : uint8_t { B_UNINIT, B_CONC, B_SYM };
struct SymByte { Expr *e; uint32_t idx; };

struct MemObj {
  uint32_t refs = 0;
  uint64_t base = 0, size = 0;
  ObjKind kind = K_HEAP;
  bool freed = false, readonly = false, priv = false;
  uint8_t thread = 0;
  uint8_t how = 0; // 1 malloc family, 2 new, 3 new[]
  uint32_t nsym = 0;
  std::vector<uint8_t> data, st;
  std::vector<SymByte> sym;
  std::string name;
  const void *site = nullptr;
  void setSize(uint64_t n, ByteState s) { size = n; data.assign(n, 0); st.assign(n, s); }
  void wr8(uint64_t off, uint8_t v) { data[off] = v; st[off] = B_CONC; }
  void wrSym(uint64_t off, Expr *e, uint32_t idx) {
    if (sym.empty()) sym.resize(size);
    st[off] = B_SYM; sym[off] = {e, idx};
  }
};

struct Chunk { uint32_t refs = 0; RC<MemObj> o[64]; };

struct Table {
  std::vector<RC<Chunk>> ch;
  MemObj *get(uint64_t i) const {
    uint64_t k = i >> 6;
    if (k >= ch.size() || !ch[k]) return nullptr;
    return ch[k]->o[i & 63].p;
  }
  MemObj *getW(uint64_t i) { return ch[i >> 6].own()->o[i & 63].own(); }
  void set(uint64_t i, RC<MemObj> o) {
    uint64_t k = i >> 6;
    if (k >= ch.size()) ch.resize(k + 1);
    if (!ch[k]) ch[k] = RC<Chunk>(new Chunk);
    ch[k].own()->o[i & 63] = o;
  }
  void clear(uint64_t i) {
    uint64_t k = i >> 6;
    if (k >= ch.size() || !ch[k]) return;
    Chunk *c = ch[k].own();
    c->o[i & 63] = RC<MemObj>();
  }
  void dropChunkIfDead(uint64_t k) { ch[k] = RC<Chunk>(); }
};
