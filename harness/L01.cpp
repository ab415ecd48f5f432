// @src hal/memory_base.cpp hal/malloc_ansi.cpp
// @entry h_history cover=default,malloc quick:N=3,K=3 thorough:N=4,K=4
// @entry h_step cover=default,malloc S=1 quick:N=5 thorough:N=8
// @entry h_large cover=done B=1 quick:Z=6,K=1 thorough:Z=6,K=2
// @entry h_waves cover=done Z=4
// @bound an initial list of 0..N elements, then every history of K operations (14 kinds, every position), element values symbolic; one operation at a symbolic position on lists of up to N elements; K operations of every kind on lists of 17 to 300 elements, at the ends, in the middle and around the 128th and 256th element; lists filled to up to 129 elements, emptied element by element from either end or the middle, and filled again, twice
// @outside longer histories, removing a link of another list
#define MODEL_CAP 320
#include "list_run.h"
extern "C" void h_history() { ListRun<int32_t> r; r.build(sx_param("N", 3)); uint32_t K = sx_param("K", 3); for (uint32_t i = 0; i < K; ++i) r.step(); r.iterate(); r.finish(); }
extern "C" void h_step() { ListRun<int32_t> r; r.build(sx_param("N", 5)); r.step(); r.probe(); r.finish(); }
extern "C" void h_large() { ListRun<int32_t> r; r.l = new List<int32_t>(); r.fill(largeSize()); r.check(); for (uint32_t i = 0; i < sx_param("K", 1); ++i) r.step(); r.iterate(); r.finish(); sx_cover("done"); }
extern "C" void h_waves() {
  ListRun<int32_t> r; r.l = new List<int32_t>(); uint32_t n = largeSize(), how = sx_choice("how", 3);
  for (uint32_t w = 0; w < 2; ++w) {
    r.fill(n); r.check();
    while (r.m.n) { uint32_t i = how == 0 ? 0 : how == 1 ? r.m.n - 1 : r.m.n / 2; if (how == 0) r.l->removeFront(); else if (how == 1) r.l->removeBack(); else r.l->remove(r.at(i)); r.m.remove(i); if (r.m.n % 8 == 1 || r.m.n < 3) r.check(); }
  }
  r.fill(3); r.check(); r.iterate(); r.finish(); sx_cover("done");
}
