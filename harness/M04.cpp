// @src hal/memory_base.cpp hal/malloc_ansi.cpp
// @entry h_alloc cover=done quick:S=40 thorough:S=200
// @entry h_realloc cover=grow,shrink,null,zero quick:S=12 thorough:S=24
// @entry h_object cover=done,realloc quick:N=4 thorough:N=9
// @entry h_objsize cover=done
// @entry h_large cover=done quick:S=8,A=5 thorough:S=12,A=13
// @bound sizes 0..S, alignments 1..256 (powers of two), all old/new size pairs, contents symbolic; typed wrapper for element sizes 1, 8, 12 and 64 with any 32-bit count (recording allocator) and 1..N elements on the default allocator; sizes around the powers of two up to 64 KiB with alignments up to 4096, and reallocations between all of them
// @outside failing allocations, alignments that are no power of two, counts whose byte size overflows
#include "sx.h"
#include "hal/malloc_ansi.h"
#include "hal/malloc_object.h"
static uint64_t pickAlign(uint32_t n) { return (uint64_t)1 << sx_choice("align", n); }
extern "C" void h_alloc() {
  MallocAnsi m; uint64_t n = sx_choice("size", sx_param("S", 40)), al = pickAlign(9);
  bool def = sx_choice("default", 2);
  MallocBase &b = m;
  uint8_t *p = (uint8_t *)(def ? b.alloc(n) : b.alloc(n, al));
  uint64_t e = def || al < 8 ? 8 : al;
  A(p != nullptr && sx_blocksize(p) >= n && sx_accessible(p, n), "the block has the requested size");
  A(((uintptr_t)p & (e - 1)) == 0, "the block has the requested alignment");
  for (uint64_t i = 0; i < n; ++i) p[i] = (uint8_t)i;
  uint8_t *q = (uint8_t *)m.alloc(n, al);
  for (uint64_t i = 0; i < n; ++i) q[i] = 0;
  for (uint64_t i = 0; i < n; ++i) A(p[i] == (uint8_t)i, "blocks do not overlap");
  m.free(p); A(sx_live() == 1, "freeing releases the block once"); m.free(q); A(sx_live() == 0, "freeing releases the block once");
  sx_cover("done");
}
extern "C" void h_realloc() {
  MallocAnsi m; uint32_t S = sx_param("S", 12); uint64_t o = sx_choice("old", S + 1), n = sx_choice("new", S + 1), al = pickAlign(7), e = al < 8 ? 8 : al;
  uint8_t v[64], *p = nullptr;
  if (o) { p = (uint8_t *)m.alloc(o, 8); for (uint64_t i = 0; i < o; ++i) p[i] = v[i] = symi<uint8_t>("byte"); }
  uint8_t *q = (uint8_t *)m.realloc(p, n, al);
  if (n == 0 && p) { A(!q && sx_live() == 0, "reallocating to zero bytes frees and returns null"); sx_cover("zero"); return; }
  A(q && sx_accessible(q, n) && ((uintptr_t)q & (e - 1)) == 0, "reallocation has the new size and alignment");
  for (uint64_t i = 0; i < o && i < n; ++i) A(q[i] == v[i], "reallocation keeps the first min(old, new) bytes");
  for (uint64_t i = 0; i < n; ++i) q[i] = 1;
  A(sx_live() == 1, "the original block is released exactly once");
  m.free(q); A(sx_live() == 0, "the block is released");
  sx_cover(!p ? "null" : n > o ? "grow" : "shrink");
}
struct E1 { char c; }; struct E12 { int32_t a[3]; }; struct alignas(64) E64 { char c[64]; };
template<class T> static void obj() {
  uint32_t n = 1 + sx_choice("n", sx_param("N", 4));
  MallocObject<T> m;
  T *p = m.alloc(n);
  A(p && sx_accessible(p, n * sizeof(T)) && ((uintptr_t)p & (alignof(T) - 1)) == 0, "count elements with their alignment");
  uint8_t v = symi<uint8_t>("byte"); ((uint8_t *)p)[n * sizeof(T) - 1] = v; ((uint8_t *)p)[0] = v;
  uint32_t k = 1 + sx_choice("k", sx_param("N", 4));
  T *q = m.realloc(p, k);
  A(q && sx_accessible(q, k * sizeof(T)) && ((uintptr_t)q & (alignof(T) - 1)) == 0, "reallocated count elements with their alignment");
  A(((uint8_t *)q)[0] == v, "contents kept"); if (k >= n) A(((uint8_t *)q)[n * sizeof(T) - 1] == v, "contents kept");
  m.free(q); A(sx_live() == 0, "released");
  sx_cover("done"); if (k != n) sx_cover("realloc");
}
extern "C" void h_object() { switch (sx_choice("type", 4)) { case 0: obj<E1>(); break; case 1: obj<uint64_t>(); break; case 2: obj<E12>(); break; default: obj<E64>(); } }
struct Rec : MallocBase {
  uint64_t size = 0, align = 0, calls = 0; void *orig = nullptr, *freed = nullptr;
  void *alloc(sizet s, sizet a) override { size = s; align = a; ++calls; return this; }
  void *realloc(void *o, sizet s, sizet a) override { orig = o; size = s; align = a; ++calls; return this; }
  void free(void *o) override { freed = o; ++calls; }
};
template<class T> static void objsize() {
  Rec r; MallocObject<T> m(&r); uint64_t n = symi<uint32_t>("n");
  A((void *)m.alloc(n) == &r && r.size == n * sizeof(T) && r.align == alignof(T), "alloc asks for count times the element size with its alignment");
  A((void *)m.alloc() == &r && r.size == sizeof(T), "one element by default");
  T x; A((void *)m.realloc(&x, n) == &r && r.orig == &x && r.size == n * sizeof(T) && r.align == alignof(T), "realloc asks for count times the element size with its alignment");
  m.free(&x); A(r.freed == &x && r.calls == 4, "free passes the address on once");
  MallocObject<T> k(static_cast<MallocObject<T> &&>(m)); A((void *)k.alloc(2) == &r && r.size == 2 * sizeof(T), "moving the wrapper keeps its allocator");
  MallocObject<T> z; z = static_cast<MallocObject<T> &&>(k); A((void *)z.alloc(3) == &r && r.size == 3 * sizeof(T), "move assignment takes the allocator over");
  sx_cover("done");
}
extern "C" void h_objsize() { switch (sx_choice("type", 4)) { case 0: objsize<E1>(); break; case 1: objsize<uint64_t>(); break; case 2: objsize<E12>(); break; default: objsize<E64>(); } }

extern "C" void h_large() {
  static const uint32_t S[] = {63, 128, 255, 256, 257, 4095, 4097, 65536, 129, 1000, 4096, 70001}; MallocAnsi m; uint64_t o = S[sx_choice("old", sx_param("S", 8))], n = S[sx_choice("new", sx_param("S", 8))], al = pickAlign(13), e = al < 8 ? 8 : al, oa = pickAlign(sx_param("A", 5)), f = oa < 8 ? 8 : oa;
  uint8_t *p = (uint8_t *)m.alloc(o, oa); A(p && sx_accessible(p, o) && ((uintptr_t)p & (f - 1)) == 0, "the block has the requested size and alignment"); uint8_t a = symi<uint8_t>("byte"), b = symi<uint8_t>("byte"); uint64_t k = o < n ? o : n; for (uint64_t i = 0; i < k; i += 61) p[i] = (uint8_t)i; p[0] = a; p[k - 1] = b; p[o - 1] = b;
  uint8_t *q = (uint8_t *)m.realloc(p, n, al); A(q && sx_accessible(q, n) && ((uintptr_t)q & (e - 1)) == 0, "reallocation has the new size and alignment"); A(q[0] == a && q[k - 1] == b, "reallocation keeps the first min(old, new) bytes"); for (uint64_t i = 61; i < k - 1; i += 61) A(q[i] == (uint8_t)i, "reallocation keeps the first min(old, new) bytes");
  q[n - 1] = 1; A(sx_live() == 1, "the original block is released exactly once"); m.free(q); A(sx_live() == 0, "the block is released"); sx_cover("done");
}
