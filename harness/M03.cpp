// @src hal/memory_base.cpp hal/malloc_ansi.cpp hal/malloc_pool.cpp hal/malloc_binned.cpp
// @entry h_sizes cover=served,toobig quick:C=6 thorough:C=10
// @entry h_history cover=alloc,freed,realloc_grow,realloc_shrink,realloc_null,realloc_zero quick:C=2 quick:K=3 thorough:C=4 thorough:K=4
// @entry h_default cover=served,toobig
// @entry h_large cover=done quick:Z=4,C=4 thorough:Z=6,C=8
// @bound every 64-bit request size against several bucket configurations (powers of two, at least two buckets, pools of 1..4 blocks of the biggest bucket), every history of K operations with sizes at the bucket boundaries and contents symbolic; 17 to 129 (thorough 300) blocks of mixed sizes, reallocated and freed in several orders and taken again
// @outside other configurations, increments below 2, pools too small for one block of the biggest bucket, size zero, longer histories
#include "sx.h"
#include "model.h"
#include "hal/malloc_binned.h"
struct Cfg { uint32_t pool, min, max, inc; };
static const Cfg cfgs[] = {{64, 8, 128, 2}, {128, 8, 128, 4}, {64, 16, 64, 2}, {128, 8, 2048, 16}, {256, 4, 64, 4}, {128, 2, 128, 2}, {512, 8, 512, 8}, {256, 16, 1024, 4}, {128, 1, 64, 2}, {256, 32, 256, 2}};
static uint64_t biggest(const Cfg &c) { uint64_t b = c.min; while (b * c.inc < c.max) b *= c.inc; return b; }
static uint64_t bucketOf(const Cfg &c, uint64_t n) { uint64_t b = c.min; while (b < n) b *= c.inc; return b; }
static bool disjoint(const uint8_t *a, uint64_t n, const uint8_t *b, uint64_t m) { return (uintptr_t)a + n <= (uintptr_t)b || (uintptr_t)b + m <= (uintptr_t)a; }

extern "C" void h_sizes() {
  const Cfg c = cfgs[sx_choice("config", sx_param("C", 6))];
  { MallocBinned m(MallocBinned::BucketInfo{c.pool, c.min, c.max, c.inc}, (uint64_t)1 << sx_choice("align", 6));
    uint64_t n = symi<uint64_t>("size"); sx_assume(n != 0);
    uint8_t *p = (uint8_t *)m.alloc(n, 1);
    if (n <= biggest(c)) {
      A(p != nullptr, "every size up to the biggest bucket is served");
      n = sx_concrete(n);
      A(sx_accessible(p, n), "the block is at least as big as requested");
      A(((uintptr_t)p & 7) == 0, "the block is aligned");
      for (uint64_t i = 0; i < n; ++i) p[i] = (uint8_t)i;
      // a second block of a size in the same bucket does not overlap it
      uint8_t *q = (uint8_t *)m.alloc(bucketOf(c, n), 1);
      A(q && disjoint(p, n, q, bucketOf(c, n)), "live blocks are disjoint");
      for (uint64_t i = 0; i < bucketOf(c, n); ++i) q[i] = 0xEE;
      for (uint64_t i = 0; i < n; ++i) A(p[i] == (uint8_t)i, "the block keeps its contents");
      m.free(p); m.free(q);
      sx_cover("served");
    } else { A(!p, "sizes above the biggest bucket get null"); sx_cover("toobig"); }
  }
  A(sx_live() == 0, "destruction releases every bucket");
}
struct Out { uint8_t *p; uint64_t n; uint8_t tag; };
static void fill(Out &o) { for (uint64_t i = 0; i < o.n; ++i) o.p[i] = (uint8_t)(o.tag + i); }
static void verify(const Out &o, uint64_t n) { for (uint64_t i = 0; i < n; ++i) A(o.p[i] == (uint8_t)(o.tag + i), "live blocks keep their contents"); }
extern "C" void h_history() {
  const Cfg c = cfgs[sx_choice("config", sx_param("C", 2))];
  uint64_t sz[8]; uint32_t ns = 0;
  for (uint64_t b = c.min; b <= biggest(c) && ns < 6; b *= c.inc) { sz[ns++] = b; if (b < biggest(c)) sz[ns++] = b + 1; }
  {
    MallocBinned m(MallocBinned::BucketInfo{c.pool, c.min, c.max, c.inc});
    Out out[8]; uint32_t n = 0; uint8_t *freed[8]; uint64_t freedB[8]; uint32_t nf = 0;
    uint32_t spare[6] = {0, 0, 0, 0, 0, 0}; // per bucket, blocks that came back and were not handed out again
    auto bk = [&](uint64_t size) { uint32_t i = 0; for (uint64_t b = c.min; b < size; b *= c.inc) ++i; return i; };
    auto took = [&](uint64_t size, int64_t live) { uint32_t b = bk(size); if (spare[b]) { A(sx_live() == live, "a block that was given back serves the next request of its bucket"); --spare[b]; } };
    for (uint32_t k = 0; k < sx_param("K", 3); ++k) {
      uint32_t op = sx_choice("op", 3);
      if (op == 0 || n == 0) {
        Out o; o.n = sz[sx_choice("size", ns)]; o.tag = symi<uint8_t>("tag");
        bool viaRealloc = op == 2; int64_t live = sx_live();
        o.p = (uint8_t *)(viaRealloc ? m.realloc(nullptr, o.n, 1) : m.alloc(o.n, 1));
        if (viaRealloc) sx_cover("realloc_null");
        A(o.p && sx_accessible(o.p, o.n) && ((uintptr_t)o.p & 7) == 0, "a big enough aligned block"); took(o.n, live);
        for (uint32_t i = 0; i < n; ++i) A(disjoint(o.p, o.n, out[i].p, out[i].n), "live blocks are disjoint");
        for (uint32_t i = 0; i < nf; ++i) if (o.p == freed[i]) A(freedB[i] == bucketOf(c, o.n), "a freed block serves only requests of its bucket");
        fill(o); out[n++] = o; sx_cover("alloc");
      } else {
        uint32_t i = sx_choice("which", n);
        verify(out[i], out[i].n);
        if (op == 1) {
          m.free(out[i].p); ++spare[bk(out[i].n)]; freed[nf] = out[i].p; freedB[nf++] = bucketOf(c, out[i].n); out[i] = out[--n]; sx_cover("freed");
        } else {
          uint32_t t = sx_choice("newsize", ns + 1);
          if (t == ns) { A(!m.realloc(out[i].p, 0, 1), "reallocating to zero frees"); ++spare[bk(out[i].n)]; out[i] = out[--n]; sx_cover("realloc_zero"); }
          else {
            uint64_t old = out[i].n; uint64_t nn = sz[t]; int64_t live = sx_live();
            uint8_t *p = (uint8_t *)m.realloc(out[i].p, nn, 1);
            A(p && sx_accessible(p, nn) && ((uintptr_t)p & 7) == 0, "reallocation yields a big enough block"); if (bk(old) != bk(nn)) { took(nn, live); ++spare[bk(old)]; }
            out[i].p = p; out[i].n = nn < old ? nn : old;
            verify(out[i], out[i].n);
            if (nn > old) sx_cover("realloc_grow"); else sx_cover("realloc_shrink");
            out[i].n = nn; fill(out[i]);
            for (uint32_t j = 0; j < n; ++j) if (j != i) A(disjoint(p, nn, out[j].p, out[j].n), "live blocks are disjoint");
          }
        }
      }
      for (uint32_t i = 0; i < n; ++i) verify(out[i], out[i].n);
    }
    for (uint32_t b = 0; b < 6; ++b) { uint64_t size = c.min; for (uint32_t i = 0; i < b; ++i) size *= c.inc; while (spare[b]) { int64_t live = sx_live(); uint8_t *p = (uint8_t *)m.alloc(size, 1); A(p && sx_accessible(p, size), "a big enough aligned block"); for (uint32_t i = 0; i < n; ++i) A(disjoint(p, size, out[i].p, out[i].n), "live blocks are disjoint"); took(size, live); } }
    for (uint32_t i = 0; i < n; ++i) verify(out[i], out[i].n);
  }
  A(sx_live() == 0, "destruction releases every bucket");
}
// the default configuration: which sizes are served, and how big the serving block is
extern "C" void h_default() {
  MallocBinned m;
  uint64_t n = symi<uint64_t>("size"); sx_assume(n != 0);
  uint64_t cap = n <= 8 ? 8 : n <= 64 ? 64 : n <= 512 ? 512 : n <= 4096 ? 4096 : n <= 32768 ? 32768 : 0;
  uint8_t *p = (uint8_t *)m.alloc(n, 1);
  if (!cap) { A(!p, "sizes above the biggest bucket get null"); sx_cover("toobig"); return; }
  A(p != nullptr, "served");
  uint8_t *q = (uint8_t *)m.alloc(sx_concrete(cap), 1);
  A(q && sx_accessible(p, cap) && disjoint(p, cap, q, cap), "big enough and disjoint from its neighbour");
  m.free(p);
  A((uint8_t *)m.alloc(cap, 1) == p, "the freed block serves its bucket again");
  sx_cover("served");
}

// Hundreds of blocks of mixed sizes.
extern "C" void h_large() {
  const Cfg c = cfgs[sx_choice("config", sx_param("C", 4))]; static Out o[320]; uint32_t n = largeSize(), how = sx_choice("how", 3), seed = sx_choice("seed", 2); uint64_t big = biggest(c);
  { MallocBinned m(MallocBinned::BucketInfo{c.pool, c.min, c.max, c.inc});
    auto size = [&](uint32_t i, uint32_t r) { uint64_t s = big; for (uint32_t d = (i * 7 + r * 5 + seed) % 5; d && s > c.min; --d) s /= 2; return s > 1 ? s - (i + r) % 2 : s; };
    for (uint32_t i = 0; i < n; ++i) { o[i].n = size(i, 0); o[i].tag = (uint8_t)(i * 13); o[i].p = (uint8_t *)m.alloc(o[i].n, 1); A(o[i].p && sx_accessible(o[i].p, o[i].n) && ((uintptr_t)o[i].p & 7) == 0, "a big enough aligned block"); fill(o[i]); }
    for (uint32_t i = 0; i < n; ++i) verify(o[i], o[i].n);
    for (uint32_t r = 1; r < 3; ++r) {
      for (uint32_t k = 0; k < n; ++k) { uint32_t i = how == 1 ? n - 1 - k : how == 2 ? (k * 211) % n : k; uint64_t s = size(i, r), old = o[i].n; if (i % 3 == r) { m.free(o[i].p); o[i].p = (uint8_t *)m.alloc(s, 1); A(o[i].p && sx_accessible(o[i].p, s), "a big enough block"); } else { uint8_t *p = (uint8_t *)m.realloc(o[i].p, s, 1); A(p && sx_accessible(p, s) && ((uintptr_t)p & 7) == 0, "reallocation yields a big enough block"); o[i].p = p; verify(o[i], s < old ? s : old); } o[i].n = s; fill(o[i]); }
      for (uint32_t i = 0; i < n; ++i) verify(o[i], o[i].n);
    } }
  A(sx_live() == 0, "destruction releases every bucket"); sx_cover("done");
}
