// @src hal/memory_base.cpp hal/malloc_ansi.cpp
// @entry h_pointer cover=asc,desc,key,lambda,count quick:N=6 thorough:N=7
// @entry h_inner cover=done quick:N=4 thorough:N=6
// @entry h_list cover=done quick:N=5 thorough:N=6
// @entry h_objects cover=done quick:N=5 thorough:N=6
// @entry h_large cover=ints,objects,list quick:Z=6,M=17 thorough:Z=6,M=33
// @bound key ranges of 0..N elements with arbitrary 8-bit keys (duplicates included) and distinct companions, through pointers and list iterators; resource-owning keys and companions; the five orders of A01; both ranges end with their memory blocks, or have arbitrary neighbours; key ranges of 17 to 300 elements in eight patterns (in order, reversed, equal, rotated, alternating, few values, scrambled, organ pipe), one key of those of up to M being arbitrary
// @outside longer ranges, overlapping ranges
#include "sort_run.h"
static uint32_t N() { return sx_param("N", 4); }
template<class It, class Iu> static void sortBy(It b, It e, Iu a, Kind k) {
  switch (k) {
    case ASC: Sort::argquicksort(b, e, a, ThreeWayCompare()); sx_cover("asc"); break;
    case DESC: Sort::argquicksort(b, e, a, Desc()); sx_cover("desc"); break;
    case KEY: Sort::argquicksort(b, e, a, ByKey()); sx_cover("key"); break;
    case LAMBDA: { auto f = [](int32 x, int32 y) { return x - y; }; Sort::argquicksort(b, e, a, f); sx_cover("lambda"); break; }
    default: { Counting c; Sort::argquicksort(b, e, a, c); sx_cover("count"); }
  }
}
// v: keys before, w: keys after, c: companions after (companion i belonged to key i).
static void checkArgs(const int32_t *v, const int32_t *w, const int32_t *c, uint32_t n, Kind k) {
  for (uint32_t i = 1; i < n; ++i) A(!wrongOrder(k, w[i - 1], w[i]), "the keys are in order");
  static bool seen[320]; for (uint32_t i = 0; i < n; ++i) seen[i] = false;
  for (uint32_t i = 0; i < n; ++i) { A(c[i] >= 0 && c[i] < (int32_t)n && !seen[c[i]], "every companion is still there exactly once"); seen[c[i]] = true; A(v[c[i]] == w[i], "every key keeps its companion"); }
}
extern "C" void h_pointer() {
  uint32_t n = sx_choice("n", N() + 1); Kind k = (Kind)sx_choice("order", KINDS); int32_t v[16], w[16], c[16];
  int8_t *b = (int8_t *)malloc(n); int32_t *a = (int32_t *)malloc(n * 4);
  for (uint32_t i = 0; i < n; ++i) { v[i] = b[i] = symi<int8_t>("v"); a[i] = (int32_t)i; }
  sortBy(b, b + n, a, k);
  for (uint32_t i = 0; i < n; ++i) { w[i] = b[i]; c[i] = a[i]; }
  checkArgs(v, w, c, n, k);
  free(b); free(a); A(sx_live() == 0, "nothing leaks");
}
extern "C" void h_inner() {
  uint32_t n = sx_choice("n", N() + 1), pre = sx_choice("pre", 2), post = sx_choice("post", 2), apre = sx_choice("apre", 2), apost = sx_choice("apost", 2);
  int8_t b[16]; int64_t a[16]; int32_t v[16], w[16], c[16];
  for (uint32_t i = 0; i < pre + n + post; ++i) v[i] = b[i] = symi<int8_t>("v");
  for (uint32_t i = 0; i < apre + n + apost; ++i) a[i] = (int64_t)i - apre;
  Sort::argquicksort(b + pre, b + pre + n, a + apre, ThreeWayCompare());
  for (uint32_t i = 0; i < pre + n + post; ++i) { w[i] = b[i]; if (i < pre || i >= pre + n) A(v[i] == w[i], "elements outside the key range are untouched"); }
  for (uint32_t i = 0; i < apre + n + apost; ++i) if (i < apre || i >= apre + n) A(a[i] == (int64_t)i - apre, "elements outside the companion range are untouched");
  for (uint32_t i = 0; i < n; ++i) c[i] = (int32_t)a[apre + i];
  checkArgs(v + pre, w + pre, c, n, ASC); sx_cover("done");
}
extern "C" void h_list() {
  uint32_t n = sx_choice("n", N() + 1), kind = sx_choice("kind", 3); int32_t v[16], w[16], c[16], i = 0;
  { List<int8_t> l; List<int32_t> m; int8_t b[16]; int32_t a[16];
    for (i = 0; i < (int32_t)n; ++i) { v[i] = symi<int8_t>("v"); l.pushBack((int8_t)v[i]); m.pushBack(i); b[i] = (int8_t)v[i]; a[i] = i; }
    if (kind == 0) Sort::argquicksort(l.begin(), l.end(), m.begin(), ThreeWayCompare());
    else if (kind == 1) Sort::argquicksort(l.begin(), l.end(), a, ThreeWayCompare());
    else Sort::argquicksort(b, b + n, m.begin(), ThreeWayCompare());
    A(l.getLength() == n && m.getLength() == n, "the lengths are unchanged");
    i = 0; if (kind == 2) for (; i < (int32_t)n; ++i) w[i] = b[i]; else for (auto x : l) w[i++] = x;
    i = 0; if (kind == 1) for (; i < (int32_t)n; ++i) c[i] = a[i]; else for (auto x : m) c[i++] = x;
    checkArgs(v, w, c, n, ASC); }
  A(sx_live() == 0, "nothing leaks"); sx_cover("done");
}
extern "C" void h_objects() {
  uint32_t n = sx_choice("n", N() + 1); Kind k = (Kind)sx_choice("order", 3); int32_t v[16], w[16], c[16];
  Obj *o = (Obj *)malloc(n * sizeof(Obj)), *a = (Obj *)malloc(n * sizeof(Obj));
  for (uint32_t i = 0; i < n; ++i) { v[i] = symi<int8_t>("v"); new (o + i) Obj(v[i]); new (a + i) Obj((int32_t)i); }
  switch (k) { case ASC: Sort::argquicksort(o, o + n, a, ThreeWayCompare()); break; case DESC: Sort::argquicksort(o, o + n, a, Desc()); break; default: Sort::argquicksort(o, o + n, a, ByKey()); }
  A(Obj::alive == 2 * (int64_t)n, "exactly the elements of both ranges are alive");
  for (uint32_t i = 0; i < n; ++i) { w[i] = o[i].val(); c[i] = a[i].val(); o[i].~Obj(); a[i].~Obj(); }
  checkArgs(v, w, c, n, k);
  free(o); free(a); A(sx_live() == 0, "nothing leaks"); sx_cover("done");
}
extern "C" void h_large() {
  uint32_t n = largeSize(), p = sx_choice("pattern", PATTERNS), kind = sx_choice("kind", 3); Kind k = (Kind)sx_choice("order", 3); static int32_t v[320], w[320], c[320];
  for (uint32_t i = 0; i < n; ++i) v[i] = patternAt(p, i, n); if (n <= sx_param("M", 17)) v[sx_choice("at", 3) * (n - 1) / 2] = symi<int16_t>("v");
  auto run = [&](auto b, auto e, auto a) { switch (k) { case ASC: Sort::argquicksort(b, e, a, ThreeWayCompare()); break; case DESC: Sort::argquicksort(b, e, a, Desc()); break; default: Sort::argquicksort(b, e, a, ByKey32()); } };
  if (kind == 0) { int32_t *b = (int32_t *)malloc(4 * n), *a = (int32_t *)malloc(4 * n); for (uint32_t i = 0; i < n; ++i) { b[i] = v[i]; a[i] = (int32_t)i; } run(b, b + n, a); for (uint32_t i = 0; i < n; ++i) { w[i] = b[i]; c[i] = a[i]; } free(b); free(a); sx_cover("ints"); }
  else if (kind == 1) { Obj *b = (Obj *)malloc(n * sizeof(Obj)), *a = (Obj *)malloc(n * sizeof(Obj)); for (uint32_t i = 0; i < n; ++i) { new (b + i) Obj(v[i]); new (a + i) Obj((int32_t)i); } run(b, b + n, a); A(Obj::alive == 2 * (int64_t)n, "exactly the elements of both ranges are alive"); for (uint32_t i = 0; i < n; ++i) { w[i] = b[i].val(); c[i] = a[i].val(); b[i].~Obj(); a[i].~Obj(); } free(b); free(a); sx_cover("objects"); }
  else { List<int32_t> l, m; for (uint32_t i = 0; i < n; ++i) { l.pushBack((int32_t)v[i]); m.pushBack((int32_t)i); } run(l.begin(), l.end(), m.begin()); uint32_t i = 0; for (auto x : l) { if (i < n) w[i] = x; ++i; } A(i == n, "the lengths are unchanged"); i = 0; for (auto x : m) { if (i < n) c[i] = x; ++i; } A(i == n && l.getLength() == n, "the lengths are unchanged"); sx_cover("list"); }
  checkArgs(v, w, c, n, k); A(sx_live() == 0, "nothing leaks");
}
