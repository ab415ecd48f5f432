// @src hal/memory_base.cpp hal/malloc_ansi.cpp hal/malloc_pool.cpp
// @entry h_pooled cover=newpool,reused,freed,three_pools quick:N=2 quick:K=6 quick:S=3 thorough:N=3 thorough:K=8 thorough:S=6
// @entry h_config cover=refused_size,refused_align,realloc_kept,realloc_refused quick:K=3 thorough:K=4 quick:S=20 thorough:S=34
// @entry h_owner cover=inside,outside quick:P=3 thorough:P=6
// @entry h_many cover=done quick:P=7 thorough:P=12
// @entry h_large cover=done quick:Z=4 thorough:Z=6
// @bound 1..N blocks per pool, 1..3 initial pools, block sizes 1..S, alignments 1..64, heap addresses growing and shrinking, every alloc/free history of K operations from the start, contents symbolic; ownership for every 64-bit address over up to P pools; release of P..P+1 pools in every creation/release order explored by the histories; 17 to 129 (thorough 300) blocks from pools of 1, 3, 40 or 300 blocks, given back in five orders and taken again, with arbitrary contents
// @outside longer histories, more pools, zero blocks per pool, zero initial pools, posix_memalign failing
#include "sx.h"
#include <string.h>
#include "model.h"
#include "hal/malloc_pool.h"
struct Out { uint8_t *p; uint8_t tag; };
static bool disjoint(const uint8_t *a, const uint8_t *b, uint64_t n) { return (uintptr_t)a + n <= (uintptr_t)b || (uintptr_t)b + n <= (uintptr_t)a; }
static void fill(Out &o, uint64_t n, uint8_t t) { o.tag = t; for (uint64_t i = 0; i < n; ++i) o.p[i] = t; }
static void verify(const Out &o, uint64_t n) { for (uint64_t i = 0; i < n; ++i) A(o.p[i] == o.tag, "a live block keeps its contents"); }

static void histories(MallocPooled &m, uint32_t N, uint32_t pools, uint64_t sz, uint64_t mal, uint32_t K, bool bad) {
  Out out[16]; uint32_t n = 0;
  A(m.getNumPools() == pools, "the initial pools are created");
  for (uint32_t k = 0; k < K; ++k) {
    uint32_t op = sx_choice("op", bad ? 2 * n + 2 : n + 1);
    if (op == 0) {
      uint32_t before = m.getNumPools();
      uint8_t *p = (uint8_t *)m.alloc(sz, 1);
      A(p != nullptr, "a fitting request is served");
      A(((uintptr_t)p & (mal - 1)) == 0, "blocks are aligned as configured");
      A(sx_accessible(p, sz), "blocks lie inside a pool");
      for (uint32_t i = 0; i < n; ++i) A(disjoint(p, out[i].p, sz), "live blocks are disjoint");
      if (n == N * before) { A(m.getNumPools() == before + 1, "a new pool is created when none has a free block"); sx_cover("newpool"); if (before == 2) sx_cover("three_pools"); }
      else { A(m.getNumPools() == before, "no pool is created while one has a free block"); if (k) sx_cover("reused"); }
      A(m.hasBlock(p) && m.hasBlock(p + sz - 1), "a live block is recognised");
      out[n].p = p; fill(out[n++], sz, symi<uint8_t>("tag"));
    } else if (op <= n) {
      verify(out[op - 1], sz);
      uint32_t before = m.getNumPools();
      m.free(out[op - 1].p); out[op - 1] = out[--n];
      A(m.getNumPools() == before, "freeing keeps the pools");
      sx_cover("freed");
    } else if (op <= 2 * n) {
      Out &o = out[op - n - 1];
      uint64_t rq = symi<uint64_t>("request");
      uint8_t *p = (uint8_t *)m.realloc(o.p, rq, 1);
      if (rq > sz) { A(!p, "reallocation to more than a block is refused"); sx_cover("realloc_refused"); }
      else { A(p == o.p, "reallocation keeps a block that is big enough"); sx_cover("realloc_kept"); }
    } else {
      uint64_t rq = symi<uint64_t>("request"), ra = symi<uint64_t>("reqalign");
      sx_assume((rq > sz) | (ra > mal));
      A(!m.alloc(rq, ra), "requests larger or more aligned than a block get null");
      if (rq > sz) sx_cover("refused_size"); else sx_cover("refused_align");
    }
    for (uint32_t i = 0; i < n; ++i) { verify(out[i], sz); A(m.hasBlock(out[i].p), "live blocks stay recognised"); }
  }
}
extern "C" void h_pooled() {
  sx_order(sx_choice("order", 2));
  uint32_t N = 1 + sx_choice("blocks", sx_param("N", 2)), P = 1 + sx_choice("pools", 3);
  static const uint64_t sizes[] = {8, 1, 20, 3, 24, 32};
  uint64_t sz = sizes[sx_choice("size", sx_param("S", 3))];
  { MallocPooled m(N, sz, 8, P); histories(m, N, P, sz, 8, sx_param("K", 6), false); }
  A(sx_live() == 0, "destruction releases every pool");
}
extern "C" void h_config() {
  uint32_t N = 1 + sx_choice("blocks", 2);
  uint64_t sz = 1 + sx_choice("size", sx_param("S", 20)), al = (uint64_t)1 << sx_choice("align", 7), mal = al < 8 ? 8 : al;
  { MallocPooled m(N, sz, al, 1); histories(m, N, 1, sz, mal, sx_param("K", 3), true); }
  A(sx_live() == 0, "destruction releases every pool");
}
extern "C" void h_owner() {
  sx_order(sx_choice("order", 2));
  uint32_t P = 1 + sx_choice("pools", sx_param("P", 3));
  uint64_t sz = 20;
  MallocPooled m(2, sz, 8, P);
  uintptr_t a = symi<uint64_t>("address");
  bool has = m.hasBlock((void *)a), in = false, near = false;
  for (uint32_t i = 0; i < 2 * P; ++i) {
    uintptr_t b = (uintptr_t)m.alloc(sz);
    in |= a - b < sz;
    near |= a - (b - 64) < 64 + 64; // the rest of the block's pool lies within its logical block
  }
  A(m.getNumPools() == P, "every block came from the initial pools");
  if (in) { A(has, "blocks are recognised"); sx_cover("inside"); }
  if (!near) { A(!has, "other addresses are not claimed"); sx_cover("outside"); }
}
// many pools: every block is freed in a chosen order, then the allocator must be able to serve them all again
extern "C" void h_many() {
  sx_order(sx_choice("order", 2));
  uint32_t P = sx_param("P", 7) + sx_choice("pools", 2);
  {
    MallocPooled m(1, 16, 8, 1);
    uint8_t *b[16];
    for (uint32_t i = 0; i < P; ++i) { b[i] = (uint8_t *)m.alloc(16); A(b[i] != nullptr, "served"); b[i][0] = (uint8_t)i; b[i][15] = (uint8_t)~i; }
    A(m.getNumPools() == P, "one pool per block");
    for (uint32_t i = 0; i < P; ++i) A(m.hasBlock(b[i]) && b[i][0] == (uint8_t)i && b[i][15] == (uint8_t)~i, "all blocks live");
    uint32_t f = sx_choice("first", P), s = sx_choice("second", P);
    m.free(b[f]); if (s != f) m.free(b[s]);
    uint8_t *x = (uint8_t *)m.alloc(16); A(x == b[f] || x == b[s], "a freed block is reused");
    if (s != f) { uint8_t *y = (uint8_t *)m.alloc(16); A(y != x && (y == b[f] || y == b[s]), "both freed blocks are reused"); }
    A(m.getNumPools() == P, "no pool is created while one has a free block");
  }
  A(sx_live() == 0, "destruction releases every pool");
  sx_cover("done");
}

// Hundreds of blocks in one to hundreds of pools.
extern "C" void h_large() {
  sx_order(sx_choice("order", 2)); static const uint16_t PER[] = {1, 3, 40, 300}; static uint8_t *p[320]; static uint32_t t[320]; static bool back[320];
  uint32_t n = largeSize(), per = PER[sx_choice("per", 4)], how = sx_choice("how", 5); uint64_t sz = sx_choice("size", 2) ? 8 : 36, al = sx_choice("align", 2) ? 8 : 32;
  { MallocPooled m(per, sz, al, 1);
    auto put = [&](uint32_t i) { p[i] = (uint8_t *)m.alloc(sz, 1); A(p[i] != nullptr, "a fitting request is served"); A(((uintptr_t)p[i] & (al - 1)) == 0 && sx_accessible(p[i], sz), "blocks are aligned and inside a pool"); t[i] = symi<uint32_t>("tag"); memcpy(p[i], &t[i], 4); memcpy(p[i] + sz - 4, &i, 4); };
    auto ok = [&](uint32_t i) { uint32_t x, y; memcpy(&x, p[i], 4); memcpy(&y, p[i] + sz - 4, 4); A(x == t[i] && y == i && m.hasBlock(p[i]), "live blocks keep their contents and are recognised"); };
    for (uint32_t i = 0; i < n; ++i) { put(i); A(m.getNumPools() == i / per + 1, "a new pool is created exactly when none has a free block"); } for (uint32_t i = 0; i < n; ++i) ok(i);
    uint32_t pools = m.getNumPools();
    for (uint32_t k = 0; k < n; ++k) { uint32_t i = how == 1 ? n - 1 - k : how == 4 ? (k * 211) % n : k; back[i] = how == 2 ? i % 2 == 0 : how == 3 ? i >= n / 2 : true; if (back[i]) { ok(i); m.free(p[i]); } }
    for (uint32_t i = 0; i < n; ++i) if (!back[i]) ok(i);
    for (uint32_t i = 0; i < n; ++i) if (back[i]) put(i);
    A(m.getNumPools() == pools, "no pool is created while one has a free block"); for (uint32_t i = 0; i < n; ++i) ok(i); }
  A(sx_live() == 0, "destruction releases every pool"); sx_cover("done");
}
