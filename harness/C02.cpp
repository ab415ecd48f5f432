// @src hal/memory_base.cpp hal/malloc_ansi.cpp
// @entry h_history cover=default,capacity,counted,buffer,static,malloc quick:N=3,K=2 thorough:N=3,K=3
// @entry h_assign cover=copy,assign,move,moveassign quick:N=3,K=1 thorough:N=4,K=2
// @entry h_step cover=default,capacity,counted,buffer,static,malloc S=1 quick:N=3 thorough:N=5
// @entry h_self cover=self quick:N=3 thorough:N=5
// @entry h_large cover=done B=1 quick:Z=6,K=1 thorough:Z=6,K=2
// @entry h_waves cover=done Z=4
// @bound an initial array of 0..N resource-owning elements from every constructor, then every history of K operations (18 kinds, every index and count); copies, moves and assignments between arrays of 0..N elements followed by K operations; one insertion of elements that the array already holds; K operations of every kind on arrays of 17 to 300 elements, at the ends, in the middle and around the 128th and 256th element; arrays filled to up to 129 elements, emptied element by element from either end or the middle, and filled again, twice
// @outside longer histories, growing through operator()(index) beyond the end without a value (documented to leave elements unconstructed)
#define MODEL_CAP 320
#include "array_run.h"
extern "C" void h_self() { ArrayRun<Obj> r; r.build(sx_param("N", 3)); r.self(); r.probe(); r.finish(); }
extern "C" void h_step() { ArrayRun<Obj> r; r.build(sx_param("N", 3)); r.step(); r.probe(); r.finish(); }
extern "C" void h_history() { ArrayRun<Obj> r; r.build(sx_param("N", 3)); uint32_t K = sx_param("K", 2); for (uint32_t i = 0; i < K; ++i) r.step(); r.iterate(); r.finish(); }
extern "C" void h_assign() {
  uint32_t N = sx_param("N", 3), K = sx_param("K", 1);
  ArrayRun<Obj> s; s.a = new Array<Obj>(); s.fill(sx_choice("ns", N + 1));
  ArrayRun<Obj> d; uint32_t how = sx_choice("how", 4);
  if (how == 0) { d.a = new Array<Obj>(*s.a); d.m = s.m; sx_cover("copy"); }
  else if (how == 1) { d.a = new Array<Obj>((uint64)sx_choice("cap", N + 1)); d.fill(sx_choice("nd", N + 1)); *d.a = *s.a; d.m = s.m; sx_cover("assign"); }
  else if (how == 2) { d.a = new Array<Obj>(static_cast<Array<Obj> &&>(*s.a)); d.m = s.m; s.m.clear(); sx_cover("move"); }
  else { d.a = new Array<Obj>(); d.fill(sx_choice("nd", N + 1)); *d.a = static_cast<Array<Obj> &&>(*s.a); d.m = s.m; s.m.clear(); sx_cover("moveassign"); }
  d.extra = s.m.n; s.extra = d.m.n; d.check(); s.check();
  for (uint32_t i = 0; i < K; ++i) d.step();
  s.extra = d.m.n; s.check();
  if (sx_choice("first", 2)) { delete s.a; d.extra = 0; d.check(); delete d.a; } else { delete d.a; s.extra = 0; s.check(); delete s.a; }
  A(Obj::alive == 0, "every element is destroyed once"); A(sx_live() == 0, "nothing leaks");
}
extern "C" void h_large() { ArrayRun<Obj> r; r.a = new Array<Obj>(); r.fill(largeSize()); r.check(); if (sx_choice("own", 2)) r.self(); else for (uint32_t i = 0; i < sx_param("K", 1); ++i) r.step(); r.iterate(); r.finish(); sx_cover("done"); }
extern "C" void h_waves() {
  ArrayRun<Obj> r; r.a = new Array<Obj>(); uint32_t n = largeSize(), how = sx_choice("how", 3);
  for (uint32_t w = 0; w < 2; ++w) {
    r.fill(n); r.check();
    while (r.m.n) { uint32_t i = how == 0 ? 0 : how == 1 ? r.m.n - 1 : r.m.n / 2; if (how == 0) r.a->removeFirst(); else if (how == 1) r.a->removeLast(); else r.a->removeAt(i); r.m.remove(i); if (r.m.n % 8 == 1 || r.m.n < 3) r.check(); }
  }
  r.fill(3); r.check(); r.iterate(); r.finish(); sx_cover("done");
}
