// @src hal/memory_base.cpp hal/malloc_ansi.cpp
// @entry h_pointer cover=asc,desc,key,lambda,count quick:N=6 thorough:N=7
// @entry h_inner cover=done quick:N=4 thorough:N=6
// @entry h_list cover=done quick:N=6 thorough:N=6
// @entry h_objects cover=done quick:N=5 thorough:N=6
// @entry h_partition cover=ints,objects,list quick:N=6 thorough:N=9
// @entry h_large cover=ints,objects,list quick:Z=6,M=17 thorough:Z=6,M=33
// @bound ranges of 0..N elements with arbitrary 8-bit values (duplicates included), through pointers and list iterators; resource-owning elements; five orders (ascending, descending, a lambda, an order with ties between different values, a stateful comparator passed by reference); the range ends with its memory block, or has arbitrary neighbours; ranges of 17 to 300 elements in eight patterns (in order, reversed, equal, rotated, alternating, few values, scrambled, organ pipe), one element of those of up to M being arbitrary
// @outside longer ranges, comparators that are not strict weak orders or that throw
#include "sort_run.h"
static uint32_t N() { return sx_param("N", 4); }
template<class It> static void sortBy(It b, It e, Kind k) {
  switch (k) {
    case ASC: Sort::quicksort(b, e, ThreeWayCompare()); sx_cover("asc"); break;
    case DESC: Sort::quicksort(b, e, Desc()); sx_cover("desc"); break;
    case KEY: Sort::quicksort(b, e, ByKey()); sx_cover("key"); break;
    case LAMBDA: { auto f = [](int32 x, int32 y) { return x - y; }; Sort::quicksort(b, e, f); sx_cover("lambda"); break; }
    default: { Counting c; Sort::quicksort(b, e, c); sx_cover("count"); }
  }
}
static void checkSorted(const int32_t *before, const int32_t *after, uint32_t n, Kind k) {
  for (uint32_t i = 1; i < n; ++i) A(!wrongOrder(k, after[i - 1], after[i]), "the range is in order");
  samePermutation(before, after, n, "the range holds the same elements as before");
}
extern "C" void h_pointer() {
  uint32_t n = sx_choice("n", N() + 1); Kind k = (Kind)sx_choice("order", KINDS);
  int8_t *b = (int8_t *)malloc(n); int32_t v[16], w[16];
  for (uint32_t i = 0; i < n; ++i) v[i] = b[i] = symi<int8_t>("v");
  sortBy(b, b + n, k);
  for (uint32_t i = 0; i < n; ++i) w[i] = b[i];
  checkSorted(v, w, n, k);
  free(b); A(sx_live() == 0, "nothing leaks");
}
extern "C" void h_inner() {
  uint32_t n = sx_choice("n", N() + 1), pre = sx_choice("pre", 3), post = sx_choice("post", 3);
  int8_t b[16]; int32_t v[16], w[16];
  for (uint32_t i = 0; i < pre + n + post; ++i) v[i] = b[i] = symi<int8_t>("v");
  Sort::quicksort(b + pre, b + pre + n, ThreeWayCompare());
  for (uint32_t i = 0; i < pre + n + post; ++i) { w[i] = b[i]; if (i < pre || i >= pre + n) A(v[i] == w[i], "elements outside the range are untouched"); }
  checkSorted(v + pre, w + pre, n, ASC); sx_cover("done");
}
extern "C" void h_list() {
  uint32_t n = sx_choice("n", N() + 1); Kind k = sx_choice("order", 2) ? DESC : ASC; int32_t v[16], w[16];
  { List<int8_t> l; for (uint32_t i = 0; i < n; ++i) { v[i] = symi<int8_t>("v"); l.pushBack((int8_t)v[i]); }
    if (k == ASC) Sort::quicksort(l.begin(), l.end(), ThreeWayCompare()); else Sort::quicksort(l.begin(), l.end(), Desc());
    A(l.getLength() == n, "the length is unchanged"); uint32_t i = 0; for (auto x : l) { A(i < n, "the length is unchanged"); w[i++] = x; } A(i == n, "the length is unchanged");
    checkSorted(v, w, n, k); }
  A(sx_live() == 0, "nothing leaks"); sx_cover("done");
}
extern "C" void h_objects() {
  uint32_t n = sx_choice("n", N() + 1); Kind k = (Kind)sx_choice("order", 3); int32_t v[16], w[16];
  Obj *o = (Obj *)malloc(n * sizeof(Obj)); for (uint32_t i = 0; i < n; ++i) { v[i] = symi<int8_t>("v"); new (o + i) Obj(v[i]); }
  switch (k) { case ASC: Sort::quicksort(o, o + n, ThreeWayCompare()); break; case DESC: Sort::quicksort(o, o + n, Desc()); break; default: Sort::quicksort(o, o + n, ByKey()); }
  A(Obj::alive == (int64_t)n, "exactly the elements of the range are alive");
  for (uint32_t i = 0; i < n; ++i) w[i] = o[i].val();
  checkSorted(v, w, n, k);
  for (uint32_t i = 0; i < n; ++i) o[i].~Obj();
  free(o); A(sx_live() == 0, "nothing leaks"); sx_cover("done");
}
extern "C" void h_partition() {
  uint32_t n = sx_choice("n", N() + 1), kind = sx_choice("kind", 3); int32_t p = symi<int8_t>("pivot"), v[16], w[16]; uint32_t at = 0;
  if (kind == 0) { int8_t *b = (int8_t *)malloc(n); for (uint32_t i = 0; i < n; ++i) v[i] = b[i] = symi<int8_t>("v"); int8_t *r = Sort::partition(b, b + n, (int8_t)p, ThreeWayCompare()); at = (uint32_t)(r - b); for (uint32_t i = 0; i < n; ++i) w[i] = b[i]; free(b); sx_cover("ints"); }
  else if (kind == 1) { Obj *o = (Obj *)malloc(n * sizeof(Obj)); for (uint32_t i = 0; i < n; ++i) { v[i] = symi<int8_t>("v"); new (o + i) Obj(v[i]); } Obj *r = Sort::partition(o, o + n, Obj(p), ThreeWayCompare()); A(Obj::alive == (int64_t)n, "exactly the elements of the range are alive"); at = (uint32_t)(r - o); for (uint32_t i = 0; i < n; ++i) { w[i] = o[i].val(); o[i].~Obj(); } free(o); sx_cover("objects"); }
  else { List<int8_t> l; for (uint32_t i = 0; i < n; ++i) { v[i] = symi<int8_t>("v"); l.pushBack((int8_t)v[i]); } auto r = Sort::partition(l.begin(), l.end(), (int8_t)p, ThreeWayCompare()); uint32_t i = 0; at = n; for (auto it = l.begin(); it != l.end(); ++it, ++i) { if (it == r) at = i; w[i] = *it; } A(i == n, "the length is unchanged"); sx_cover("list"); }
  A(at <= n, "the boundary is in the range");
  for (uint32_t i = 0; i < n; ++i) A((w[i] < p) == (i < at), "exactly the smaller elements stand before the returned boundary");
  samePermutation(v, w, n, "the range holds the same elements as before");
  A(sx_live() == 0, "nothing leaks");
}
extern "C" void h_large() {
  uint32_t n = largeSize(), p = sx_choice("pattern", PATTERNS), kind = sx_choice("kind", 3); Kind k = (Kind)sx_choice("order", 3); static int32_t v[320], w[320];
  for (uint32_t i = 0; i < n; ++i) v[i] = patternAt(p, i, n); if (n <= sx_param("M", 17)) v[sx_choice("at", 3) * (n - 1) / 2] = symi<int16_t>("v");
  auto run = [&](auto b, auto e) { switch (k) { case ASC: Sort::quicksort(b, e, ThreeWayCompare()); break; case DESC: Sort::quicksort(b, e, Desc()); break; default: Sort::quicksort(b, e, ByKey32()); } };
  if (kind == 0) { int32_t *b = (int32_t *)malloc(4 * n); for (uint32_t i = 0; i < n; ++i) b[i] = v[i]; run(b, b + n); for (uint32_t i = 0; i < n; ++i) w[i] = b[i]; free(b); sx_cover("ints"); }
  else if (kind == 1) { Obj *b = (Obj *)malloc(n * sizeof(Obj)); for (uint32_t i = 0; i < n; ++i) new (b + i) Obj(v[i]); run(b, b + n); A(Obj::alive == (int64_t)n, "exactly the elements of the range are alive"); for (uint32_t i = 0; i < n; ++i) { w[i] = b[i].val(); b[i].~Obj(); } free(b); sx_cover("objects"); }
  else { List<int32_t> l; for (uint32_t i = 0; i < n; ++i) l.pushBack((int32_t)v[i]); run(l.begin(), l.end()); uint32_t i = 0; for (auto x : l) { if (i < n) w[i] = x; ++i; } A(i == n && l.getLength() == n, "the length is unchanged"); sx_cover("list"); }
  checkSorted(v, w, n, k); A(sx_live() == 0, "nothing leaks");
}
