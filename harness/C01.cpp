// @src hal/memory_base.cpp hal/malloc_ansi.cpp
// @entry h_history cover=default,capacity,counted,buffer,static,malloc quick:N=3,K=2 thorough:N=4,K=3
// @entry h_wide cover=done quick:K=3 thorough:K=4
// @entry h_step cover=default,capacity,counted,buffer,static,malloc S=1 quick:N=3,K=1 thorough:N=6,K=1
// @entry h_self cover=self quick:N=3 thorough:N=5
// @entry h_large cover=done B=1 quick:Z=6,K=1 thorough:Z=6,K=2
// @entry h_waves cover=done Z=4
// @bound an initial array of 0..N elements from every constructor, with and without spare capacity, then every history of K operations (18 kinds, every index and count), element values symbolic; also K operations starting from one element of a 12-byte type; one insertion of elements that the array already holds; K operations of every kind on arrays of 17 to 300 elements, at the ends, in the middle and around the 128th and 256th element; arrays filled to up to 129 elements, emptied element by element from either end or the middle, and filled again, twice
// @outside longer histories and bigger arrays, counts above 2^32
#define MODEL_CAP 320
#include "array_run.h"
extern "C" void h_history() { ArrayRun<int32_t> r; r.build(sx_param("N", 3)); uint32_t K = sx_param("K", 2); for (uint32_t i = 0; i < K; ++i) r.step(); r.iterate(); r.finish(); }
extern "C" void h_self() { ArrayRun<int32_t> r; r.build(sx_param("N", 3)); r.self(); r.probe(); r.finish(); }
extern "C" void h_step() { ArrayRun<int32_t> r; r.build(sx_param("N", 3)); r.step(); r.probe(); r.finish(); }
struct Wide { int32_t x, y, z; Wide() = default; Wide(int32_t v) : x{v}, y{v ^ 0x55}, z{~v} {} bool operator==(const Wide &o) const { return (x == o.x) & (y == o.y) & (z == o.z); } };
static int32_t valOf(const Wide &w) { A(w.y == (w.x ^ 0x55) && w.z == ~w.x, "elements stay whole"); return w.x; }
template<class T> struct WideRun;
extern "C" void h_wide() {
  Array<Wide> a; Model m; uint32_t K = sx_param("K", 3); int32_t v0 = nextVal(); a.add(Wide(v0)); m.add(v0);
  for (uint32_t i = 0; i < K; ++i) {
    int32_t v = nextVal();
    switch (sx_choice("op", 5)) {
      case 0: a.add(Wide(v)); m.add(v); break;
      case 1: { uint32_t k = sx_choice("i", m.n + 1); a.insertAt(k, Wide(v)); m.insert(k, v); break; }
      case 2: { if (!m.n) break; uint32_t k = sx_choice("i", m.n), c = 1 + sx_choice("k", m.n - k); a.removeAt(k, c); m.remove(k, c); break; }
      case 3: { int32_t w = nextVal(); a.insertFirst(Wide(v), Wide(w)); m.insert(0, w); m.insert(0, v); break; }
      default: { int32_t w = nextVal(); uint32_t k = sx_choice("i", m.n + 1); a.insertAt(k, Wide(v), Wide(w)); m.insert(k, w); m.insert(k, v); }
    }
    A(a.getCount() == m.n && a.getBytes() == m.n * 12, "the count is the number of elements");
    for (uint32_t j = 0; j < m.n; ++j) A(valOf(a[j]) == m.v[j], "the elements are those of the list");
  }
  sx_cover("done");
}
extern "C" void h_large() { ArrayRun<int32_t> r; r.a = new Array<int32_t>(); r.fill(largeSize()); r.check(); if (sx_choice("own", 2)) r.self(); else for (uint32_t i = 0; i < sx_param("K", 1); ++i) r.step(); r.iterate(); r.finish(); sx_cover("done"); }
extern "C" void h_waves() {
  ArrayRun<int32_t> r; r.a = new Array<int32_t>(); uint32_t n = largeSize(), how = sx_choice("how", 3);
  for (uint32_t w = 0; w < 2; ++w) {
    r.fill(n); r.check();
    while (r.m.n) { uint32_t i = how == 0 ? 0 : how == 1 ? r.m.n - 1 : r.m.n / 2; if (how == 0) r.a->removeFirst(); else if (how == 1) r.a->removeLast(); else r.a->removeAt(i); r.m.remove(i); if (r.m.n % 8 == 1 || r.m.n < 3) r.check(); }
  }
  r.fill(3); r.check(); r.iterate(); r.finish(); sx_cover("done");
}
