// @src hal/memory_base.cpp hal/malloc_ansi.cpp hal/malloc_pool.cpp
// @entry h_history cover=default,malloc quick:N=3,K=2 thorough:N=3,K=3
// @entry h_step cover=default,malloc S=1 quick:N=4 thorough:N=6
// @entry h_assign cover=copy,assign,move,moveassign,range quick:N=3,K=1 thorough:N=4,K=2
// @entry h_managed cover=done quick:N=3 thorough:N=6
// @entry h_alloc cover=copy,assign,move,moveassign,moveback quick:N=2,K=1 thorough:N=3,K=2
// @entry h_large cover=done B=1 quick:Z=6,K=1 thorough:Z=6,K=2
// @entry h_waves cover=done Z=4
// @bound an initial list of 0..N resource-owning elements, then every history of K operations (14 kinds, every position); copies, moves and assignments between lists of 0..N elements followed by K operations; lists on two different allocators copied, assigned and moved in all combinations; lists that own their allocator; K operations of every kind on lists of 17 to 300 elements, at the ends, in the middle and around the 128th and 256th element; lists filled to up to 129 elements, emptied element by element from either end or the middle, and filled again, twice
// @outside longer histories, copying or moving lists that own their allocator
#define MODEL_CAP 320
#include "list_run.h"
#include "hal/malloc_pool.h"
#include "own.h"
extern "C" void h_history() { ListRun<Obj> r; r.build(sx_param("N", 3)); uint32_t K = sx_param("K", 2); for (uint32_t i = 0; i < K; ++i) r.step(); r.iterate(); r.finish(); }
extern "C" void h_step() { ListRun<Obj> r; r.build(sx_param("N", 4)); r.step(); r.probe(); r.finish(); }
extern "C" void h_assign() {
  uint32_t N = sx_param("N", 3), K = sx_param("K", 1);
  ListRun<Obj> s; s.l = new List<Obj>(); s.fill(sx_choice("ns", N + 1));
  ListRun<Obj> d; uint32_t how = sx_choice("how", 5);
  if (how == 0) { d.l = new List<Obj>(*s.l); d.m = s.m; sx_cover("copy"); }
  else if (how == 1) { d.l = new List<Obj>(); d.fill(sx_choice("nd", N + 1)); A(&(*d.l = *s.l) == d.l, "assignment returns the target"); d.m = s.m; sx_cover("assign"); }
  else if (how == 2) { d.l = new List<Obj>(static_cast<List<Obj> &&>(*s.l)); d.m = s.m; s.m.clear(); sx_cover("move"); }
  else if (how == 3) { d.l = new List<Obj>(); d.fill(sx_choice("nd", N + 1)); A(&(*d.l = static_cast<List<Obj> &&>(*s.l)) == d.l, "assignment returns the target"); d.m = s.m; s.m.clear(); sx_cover("moveassign"); }
  else { d.l = new List<Obj>(s.l->begin(), s.l->end()); d.m = s.m; sx_cover("range"); }
  d.extra = s.m.n; s.extra = d.m.n; d.check(); s.check();
  for (uint32_t i = 0; i < K; ++i) d.step();
  s.extra = d.m.n; s.check();
  if (sx_choice("first", 2)) { delete s.l; d.extra = 0; d.check(); delete d.l; } else { delete d.l; s.extra = 0; s.check(); delete s.l; }
  A(Obj::alive == 0, "every element is destroyed once"); A(sx_live() == 0, "nothing leaks");
}
extern "C" void h_managed() {
  uint32_t N = sx_param("N", 3), n = sx_choice("n", N + 1), r = sx_choice("r", n + 1); int32_t v[8];
  { List<Obj, MallocAnsi> a; List<Obj, MallocPooled> b{(uint32)2, sizeof(Link<Obj>)}; List<Obj> *l = sx_choice("kind", 2) ? (List<Obj> *)&a : (List<Obj> *)&b;
    for (uint32_t i = 0; i < n; ++i) l->pushBack(Obj(v[i] = nextVal()));
    for (uint32_t i = 0; i < r; ++i) l->removeFront();
    uint32_t i = r; for (auto &x : *l) { A(valOf(x) == v[i], "the elements are kept"); ++i; }
    A(i == n, "every element is linked"); A(Obj::alive == n - r, "exactly the contained elements are alive"); }
  A(Obj::alive == 0, "every element is destroyed once"); A(sx_live() == 0, "nothing leaks"); sx_cover("done");
}
// Lists on different allocators: every link goes back where it came from.
extern "C" void h_alloc() {
  uint32_t N = sx_param("N", 2), K = sx_param("K", 1);
  { Own a, b; ListRun<Obj> s, d; s.l = new List<Obj>(&a); s.fill(sx_choice("ns", N + 1)); A(a.n == s.m.n, "every link comes from the list's allocator");
    uint32_t how = sx_choice("how", 5);
    if (how == 0) { d.l = new List<Obj>(*s.l); d.m = s.m; sx_cover("copy"); }
    else if (how == 1) { d.l = new List<Obj>(static_cast<List<Obj> &&>(*s.l)); d.m = s.m; s.m.clear(); sx_cover("move"); }
    else { d.l = new List<Obj>(&b); d.fill(sx_choice("nd", N + 1)); if (how == 2) { *d.l = *s.l; d.m = s.m; sx_cover("assign"); } else { *d.l = static_cast<List<Obj> &&>(*s.l); d.m = s.m; s.m.clear(); sx_cover("moveassign"); }
      if (how == 4) { s.extra = d.m.n; s.fill(sx_choice("nr", N + 1)); *s.l = static_cast<List<Obj> &&>(*d.l); s.m = d.m; d.m.clear(); sx_cover("moveback"); } }
    d.extra = s.m.n; s.extra = d.m.n; d.check(); s.check();
    for (uint32_t i = 0; i < K; ++i) d.step();
    s.extra = d.m.n; s.check(); bool first = sx_choice("first", 2); if (first) delete s.l; delete d.l; if (!first) delete s.l;
    A(a.n == 0 && b.n == 0, "every link is given back"); }
  A(Obj::alive == 0, "every element is destroyed once"); A(sx_live() == 0, "nothing leaks");
}
extern "C" void h_large() { ListRun<Obj> r; r.l = new List<Obj>(); r.fill(largeSize()); r.check(); for (uint32_t i = 0; i < sx_param("K", 1); ++i) r.step(); r.iterate(); r.finish(); sx_cover("done"); }
extern "C" void h_waves() {
  ListRun<Obj> r; r.l = new List<Obj>(); uint32_t n = largeSize(), how = sx_choice("how", 3);
  for (uint32_t w = 0; w < 2; ++w) {
    r.fill(n); r.check();
    while (r.m.n) { uint32_t i = how == 0 ? 0 : how == 1 ? r.m.n - 1 : r.m.n / 2; if (how == 0) r.l->removeFront(); else if (how == 1) r.l->removeBack(); else r.l->remove(r.at(i)); r.m.remove(i); if (r.m.n % 8 == 1 || r.m.n < 3) r.check(); }
  }
  r.fill(3); r.check(); r.iterate(); r.finish(); sx_cover("done");
}
