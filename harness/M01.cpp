// @src hal/memory_base.cpp hal/malloc_ansi.cpp hal/malloc_pool.cpp
// @entry h_pool cover=exhausted,released,caller_buffer quick:N=3 quick:K=5 thorough:N=4 thorough:K=7 quick:S=10 thorough:S=18
// @entry h_owner cover=inside,outside quick:N=3 thorough:N=5 quick:S=10 thorough:S=40
// @entry h_malloc cover=refused_size,refused_align,realloc_kept,realloc_refused,full quick:N=2 quick:K=4 thorough:N=3 thorough:K=6 quick:S=9 thorough:S=16
// @entry h_inline cover=done
// @entry h_large cover=done quick:Z=6,A=3 thorough:Z=6,A=7
// @bound block counts 1..N, every block size 1..S and 24 and 40, alignments 1,2,4,8,16,32,64, own or caller-provided buffer, every history of K operations; contents symbolic; ownership queries for every 64-bit address; pools and allocators of 17 to 300 blocks used up, given back in five orders and used up again, with arbitrary contents
// @outside block counts above N, longer histories, a block count of zero, posix_memalign failing
#include "sx.h"
#include <string.h>
#include "model.h"
#include "hal/malloc_pool.h"

static uint64_t pickSize(uint32_t S) { uint32_t i = sx_choice("size", S + 2); return i < S ? i + 1 : i == S ? 24 : 40; }
static uint64_t pickAlign() { return (uint64_t)1 << sx_choice("align", 7); }
struct Out { uint8_t *p; uint8_t tag; };
static bool disjoint(const uint8_t *a, const uint8_t *b, uint64_t n) { return (uintptr_t)a + n <= (uintptr_t)b || (uintptr_t)b + n <= (uintptr_t)a; }
static void fill(Out &o, uint64_t n, uint8_t t) { o.tag = t; o.p[0] = t; o.p[n - 1] = t; o.p[n / 2] = t; for (uint64_t i = 0; i < n; ++i) o.p[i] = t; }
static void verify(const Out &o, uint64_t n) { for (uint64_t i = 0; i < n; ++i) A(o.p[i] == o.tag, "an outstanding block keeps its bytes"); }

extern "C" void h_pool() {
  uint32_t N = 1 + sx_choice("blocks", sx_param("N", 3)), K = sx_param("K", 5);
  uint64_t sz = pickSize(sx_param("S", 8)), al = pickAlign(), mal = al < 8 ? 8 : al;
  uint8_t *buf = nullptr; uint64_t cap = 0;
  if (sx_choice("own", 2)) {
    cap = N * ((sz + 8 + mal - 1) / mal * mal);
    void *q = nullptr; posix_memalign(&q, mal, cap); buf = (uint8_t *)q;
    sx_cover("caller_buffer");
  }
  uint64_t live0 = sx_live();
  {
    MemoryPool pool(N, sz, al, buf);
    Out out[8]; uint32_t n = 0; uint8_t *freed = nullptr;
    for (uint32_t k = 0; k < K; ++k) {
      A(pool.getNumFreeBlocks() == N - n, "free blocks are the total minus the outstanding ones");
      A(pool.isExhausted() == (n == N), "exhausted exactly when no block is free");
      uint32_t op = sx_choice("op", n + 1);
      if (op == 0) {
        uint8_t *p = (uint8_t *)pool.acquireBlock();
        if (n == N) { A(!p, "an exhausted pool returns null"); sx_cover("exhausted"); continue; }
        A(p != nullptr, "a pool with a free block hands one out");
        A(((uintptr_t)p & (mal - 1)) == 0, "blocks are aligned");
        A(sx_accessible(p, sz), "blocks lie inside the buffer");
        if (buf) A(p >= buf && p + sz <= buf + cap, "blocks lie inside the caller's buffer");
        A(pool.hasBlock(p) && pool.hasBlock(p + sz - 1), "the pool owns the block it handed out");
        for (uint32_t i = 0; i < n; ++i) A(disjoint(p, out[i].p, sz), "outstanding blocks are disjoint");
        out[n].p = p; fill(out[n++], sz, symi<uint8_t>("tag"));
      } else {
        Out o = out[op - 1]; verify(o, sz);
        pool.releaseBlock(o.p); freed = o.p;
        out[op - 1] = out[--n];
        sx_cover("released");
      }
      for (uint32_t i = 0; i < n; ++i) verify(out[i], sz);
    }
    // everything that is free can still be acquired
    uint32_t more = 0;
    while (more <= N && pool.acquireBlock()) ++more;
    A(more == N - n, "every block that is not outstanding can be acquired");
  }
  A(sx_live() == live0, "the pool releases its own buffer and not the caller's");
}

extern "C" void h_owner() {
  uint32_t N = 1 + sx_choice("blocks", sx_param("N", 3));
  uint64_t sz = pickSize(sx_param("S", 8)), al = pickAlign();
  MemoryPool pool(N, sz, al);
  uintptr_t lo = 0, blk[8]; uint32_t n = 0;
  for (; n < N; ++n) blk[n] = (uintptr_t)pool.acquireBlock();
  for (uint32_t i = 0; i < N; ++i) if (!i || blk[i] < lo) lo = blk[i];
  uint64_t size = sx_blocksize((void *)lo); // from the first block to the end of the heap block
  uintptr_t a = symi<uint64_t>("address");
  bool has = pool.hasBlock((void *)a), inBlock = false;
  for (uint32_t i = 0; i < N; ++i) inBlock |= (a - blk[i]) < sz;
  if (inBlock) { A(has, "the ownership test is true for every address of a block"); sx_cover("inside"); }
  if (a - lo >= size) { A(!has, "the ownership test is false for memory outside the buffer"); sx_cover("outside"); }
}

extern "C" void h_malloc() {
  uint32_t N = 1 + sx_choice("blocks", sx_param("N", 2)), K = sx_param("K", 4);
  uint64_t sz = pickSize(sx_param("S", 8)), al = pickAlign(), mal = al < 8 ? 8 : al;
  {
    MallocPool m(N, sz, al);
    Out out[8]; uint32_t n = 0;
    for (uint32_t k = 0; k < K; ++k) {
      uint32_t op = sx_choice("op", 2 * n + 1);
      uint64_t rq = symi<uint64_t>("request"), ra = symi<uint64_t>("reqalign");
      if (op == 0) {
        uint8_t *p = (uint8_t *)m.alloc(rq, ra);
        if (rq > sz) { A(!p, "a request larger than a block is refused"); sx_cover("refused_size"); continue; }
        if (ra > mal) { A(!p, "a request more aligned than a block is refused"); sx_cover("refused_align"); continue; }
        if (n == N) { A(!p, "a full pool refuses"); sx_cover("full"); continue; }
        A(p != nullptr, "a fitting request is served while a block is free");
        A(((uintptr_t)p & (mal - 1)) == 0 && sx_accessible(p, sz), "blocks are aligned and inside the buffer");
        for (uint32_t i = 0; i < n; ++i) A(disjoint(p, out[i].p, sz), "a block still in use is not handed out");
        out[n].p = p; fill(out[n++], sz, symi<uint8_t>("tag"));
      } else if (op <= n) {
        verify(out[op - 1], sz);
        m.free(out[op - 1].p); out[op - 1] = out[--n];
      } else {
        Out &o = out[op - n - 1];
        uint8_t *p = (uint8_t *)m.realloc(o.p, rq, 1);
        if (rq > sz) { A(!p, "reallocation to more than a block is refused"); sx_cover("realloc_refused"); }
        else { A(p == o.p, "reallocation keeps a block that is big enough"); sx_cover("realloc_kept"); }
        verify(o, sz);
      }
      for (uint32_t i = 0; i < n; ++i) verify(out[i], sz);
    }
  }
  A(sx_live() == 0, "the allocator releases its buffer");
}

extern "C" void h_inline() {
  { MallocPoolInline<3, 20> m; uint8_t *a = (uint8_t *)m.alloc(20), *b = (uint8_t *)m.alloc(1), *c = (uint8_t *)m.alloc(20);
    A(a && b && c && !m.alloc(1), "exactly the static number of blocks");
    A(disjoint(a, b, 20) && disjoint(a, c, 20) && disjoint(b, c, 20), "disjoint"); A(!m.alloc(21), "too big"); m.free(b); A(m.alloc(20) == b, "the released block is available again"); }
  A(sx_live() == 0, "released"); sx_cover("done");
}

// Big pools: all blocks out, some or all back, all out again.
template<class Acq, class Rel> static void large(uint32_t n, uint64_t sz, uint64_t mal, Acq acquire, Rel release) {
  static uint8_t *p[320]; static uint32_t t[320];
  auto put = [&](uint32_t i) { p[i] = (uint8_t *)acquire(); A(p[i] != nullptr, "a pool with a free block hands one out"); A(((uintptr_t)p[i] & (mal - 1)) == 0 && sx_accessible(p[i], sz), "blocks are aligned and inside the buffer"); t[i] = symi<uint32_t>("tag"); memcpy(p[i], &t[i], 4); p[i][sz - 1] = (uint8_t)i; };
  auto ok = [&](uint32_t i) { uint32_t x; memcpy(&x, p[i], 4); if (sz == 4) x = (x & 0xffffff) | (t[i] & 0xff000000); A(x == t[i] && p[i][sz - 1] == (uint8_t)i, "an outstanding block keeps its bytes"); };
  for (uint32_t i = 0; i < n; ++i) put(i);
  A(!acquire(), "an exhausted pool returns null"); for (uint32_t i = 0; i < n; ++i) ok(i);
  uint32_t how = sx_choice("how", 5); static bool back[320];
  for (uint32_t k = 0; k < n; ++k) { uint32_t i = how == 1 ? n - 1 - k : how == 4 ? (k * 211) % n : k; back[i] = how == 2 ? i % 2 == 0 : how == 3 ? i >= n / 2 : true; if (back[i]) { ok(i); release(p[i]); } }
  for (uint32_t i = 0; i < n; ++i) if (!back[i]) ok(i);
  for (uint32_t i = 0; i < n; ++i) if (back[i]) put(i);
  A(!acquire(), "an exhausted pool returns null"); for (uint32_t i = 0; i < n; ++i) ok(i);
}
extern "C" void h_large() {
  static const uint8_t S[] = {4, 8, 24, 40, 100}; uint32_t n = largeSize(); uint64_t sz = S[sx_choice("size", 5)], al = (uint64_t)1 << (2 * sx_choice("align", sx_param("A", 3)) % 7), mal = al < 8 ? 8 : al;
  if (sx_choice("kind", 2)) { MemoryPool m(n, sz, al); large(n, sz, mal, [&] { return m.acquireBlock(); }, [&](void *p) { m.releaseBlock(p); }); A(m.getNumFreeBlocks() == 0 && m.isExhausted(), "exhausted exactly when no block is free"); }
  else { MallocPool m(n, sz, al); large(n, sz, mal, [&] { return m.alloc(sz, 1); }, [&](void *p) { m.free(p); }); }
  A(sx_live() == 0, "the pool releases its buffer"); sx_cover("done");
}
