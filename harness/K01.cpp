// @src hal/memory_base.cpp hal/malloc_ansi.cpp
// @entry h_history cover=insert,index,remove,pop,find,clear quick:N=2,K=2 thorough:N=3,K=2
// @entry h_concrete cover=insert,index,remove,pop,find,clear S=2 quick:N=6,K=3 thorough:N=9,K=3
// @entry h_obj cover=insert,index,remove,pop,find,clear S=2 quick:N=4,K=2 thorough:N=5,K=3
// @entry h_objkey cover=done quick:N=3 thorough:N=4
// @entry h_large cover=insert,index,remove,pop,find B=1 quick:Z=5,K=1 thorough:Z=6,K=2
// @bound every history of N insertions of arbitrary keys and values and K further operations; also K operations with any key out of 0..N on maps of up to N keys with arbitrary values, under an order that also yields other numbers than 1 and -1; resource-owning values and keys; K operations of every kind on maps of 17 to 257 (thorough 300) keys built in three orders, with the keys at the ends, in the middle, around the 128th and 256th and beside them; such maps emptied
// @outside longer histories, comparators that are not strict weak orders
#include "sx.h"
#include "elem.h"
#include "model.h"
#include "containers/map.h"
static int32_t nextVal() { return symi<int32_t>("v"); }
static int8_t key() { return sx_param("S", 0) == 2 ? (int8_t)sx_choice("k", sx_param("N", 4) + 1) : symi<int8_t>("k"); }

struct MM { int32_t k[320], v[320]; uint32_t n = 0;
  uint32_t lower(int32_t x) const { uint32_t i = 0; while (i < n && k[i] < x) ++i; return i; }
  bool has(int32_t x, uint32_t &i) const { i = lower(x); return i < n && k[i] == x; }
  void put(int32_t x, int32_t y) { uint32_t i; if (has(x, i)) { v[i] = y; return; } for (uint32_t j = n; j > i; --j) { k[j] = k[j - 1]; v[j] = v[j - 1]; } k[i] = x; v[i] = y; ++n; }
  void del(uint32_t i) { for (; i + 1 < n; ++i) { k[i] = k[i + 1]; v[i] = v[i + 1]; } --n; } };
struct Diff { int32_t operator()(int8_t a, int8_t b) const { return (int32_t)a - b; } }; // not only 1 and -1
template<class V, class C = ThreeWayCompare, class K = int8_t> struct Run {
  typedef Map<K, V, C> MapT;
  MapT t; MM m;
  static const bool res = sizeof(V) > 4;
  K key() { if (sx_param("B", 0)) { int32_t k = m.n ? m.k[modelIndex("k", m.n)] : 0; return (K)(k + (int32_t)sx_choice("beside", 2)); } return ::key(); }
  void check() {
    const MapT &c = t; uint32_t i = 0;
    A(t.getCount() == m.n && t.getSize() == m.n && t.getNumNodes() == m.n, "the count is the number of distinct keys");
    for (auto it = c.begin(); it != c.end(); ++it) { A(i < m.n, "iteration visits every pair once"); if (i >= m.n) break; A(it->first == m.k[i] && it->getKey() == m.k[i], "iteration visits the keys in increasing order"); A(valOf(it->second) == m.v[i] && valOf(it->getVal()) == m.v[i], "every key has its most recent value"); ++i; }
    A(i == m.n, "iteration visits every pair");
    if (res) A(Obj::alive == m.n, "exactly the contained values are alive");
  }
  void op(uint32_t o) {
    switch (o) {
      case 0: { K k = key(); int32_t v = nextVal(); V &r = t.insert(k, V(v)); m.put(k, v); A(valOf(r) == v, "insertion returns the stored value"); sx_cover("insert"); break; }
      case 1: { K k = key(); uint32_t i; bool had = m.has(k, i); V &r = t[k]; A(had || t.getCount() == m.n + 1, "index access creates an entry for an absent key"); if (had) A(valOf(r) == m.v[i], "index access yields the value of the key"); else if (res) A(valOf(r) == 0, "index access creates a default value"); else A(valOf(r) == 0, "index access creates a default value"); if (!had) m.put(k, 0);
        if (sx_choice("assign", 2)) { int32_t v = nextVal(); r = V(v); m.put(k, v); } sx_cover("index"); break; }
      case 2: { K k = key(); uint32_t i; bool had = m.has(k, i); A(t.remove(k) == had, "removal reports whether the key was present"); if (had) m.del(i); sx_cover("remove"); break; }
      case 3: { K k = key(); uint32_t i; bool had = m.has(k, i); { V out(77); A(t.pop(k, out) == had, "popping reports whether the key was present"); A(valOf(out) == (had ? m.v[i] : 77), "the popped value is handed out"); } if (had) m.del(i); sx_cover("pop"); break; }
      case 4: { K k = key(); uint32_t i; bool had = m.has(k, i); const auto &c = t; { V out(77); A(c.find(k, out) == had, "lookup reports whether the key is present"); A(valOf(out) == (had ? m.v[i] : 77), "lookup yields the value of the key"); }
        A(t.has(k) == had, "membership"); A((t.find(k) != t.end()) == had && (c.find(k) != c.end()) == had, "search finds exactly the present keys"); if (had) { A(t.find(k)->first == k && valOf(c.find(k)->second) == m.v[i], "search yields the pair of the key"); }
        uint32_t q = 0; for (auto it = t.begin(k); it != t.end(k); ++it) { A(it->first == k, "the range of a key"); ++q; } A(q == had, "the range of a key"); q = 0; for (auto it = c.begin(k); it != c.end(k); ++it) ++q; A(q == had, "the range of a key"); sx_cover("find"); break; }
      case 5: { uint32_t i = modelIndex("i", m.n + 1); auto it = t.begin(); for (uint32_t k = 0; k < i; ++k) ++it; auto r = t.remove(it); if (i < m.n) { m.del(i); A(i < m.n ? r != t.end() && r->first == m.k[i] : r == t.end(), "removal returns the next position"); } break; }
      default: { while (t.getCount()) t.remove(t.begin()); m.n = 0; sx_cover("clear"); }
    }
  }
};
template<class V, class C = ThreeWayCompare> static void history() {
  { Run<V, C> r; uint32_t n = sx_choice("n0", sx_param("N", 2) + 1), K = sx_param("K", 2);
    for (uint32_t i = 0; i < n; ++i) { if (sx_param("S", 0) == 2) { int8_t k = (int8_t)((i * 5 + 2) % (sx_param("N", 4) + 1)); int32_t v = nextVal(); r.t.insert(k, V(v)); r.m.put(k, v); } else r.op(0); }
    r.check(); for (uint32_t i = 0; i < K; ++i) { r.op(sx_choice("op", 7)); r.check(); } }
  A(Obj::alive == 0 && sx_live() == 0, "nothing leaks");
}
extern "C" void h_history() { history<int32_t>(); }
extern "C" void h_concrete() { history<int32_t, Diff>(); }
extern "C" void h_obj() { history<Obj>(); }
extern "C" void h_objkey() {
  uint32_t n = sx_choice("n", sx_param("N", 3) + 1);
  { Map<Obj, int32_t> t; MM m;
    for (uint32_t i = 0; i < n; ++i) { int32_t k = symi<int8_t>("k"), v = nextVal(); if (sx_choice("how", 2)) t.insert(Obj(k), v); else { Obj o(k); t[o] = v; A(valOf(o) == k, "a key passed by lvalue is copied"); } m.put(k, v); A(Obj::alive == m.n, "exactly the contained keys are alive"); }
    uint32_t i; int32_t k = symi<int8_t>("k"); bool had = m.has(k, i); { Obj p(k); A(t.has(p) == had, "membership"); if (had) A(t.find(p)->second == m.v[i], "search yields the value of the key"); A(t.remove(p) == had, "removal reports whether the key was present"); } if (had) m.del(i);
    A(Obj::alive == m.n && t.getCount() == m.n, "exactly the contained keys are alive"); i = 0; for (auto &p : t) { A(p.first.val() == m.k[i] && p.second == m.v[i], "iteration visits the pairs in order"); ++i; } }
  A(Obj::alive == 0 && sx_live() == 0, "nothing leaks"); sx_cover("done");
}
template<class V> static void large() {
  { Run<V, ThreeWayCompare, int32_t> r; uint32_t n = largeSize(), order = sx_choice("order", 3), K = sx_param("K", 1);
    for (uint32_t i = 0; i < n; ++i) { int32_t k = 2 * (order == 0 ? i : order == 1 ? n - 1 - i : (i * 211) % n), v = i % 16 ? (int32_t)i : nextVal(); r.t.insert(k, V(v)); r.m.put(k, v); }
    r.check(); for (uint32_t i = 0; i < K; ++i) { r.op(sx_choice("op", 6)); r.check(); }
    uint32_t how = sx_choice("how", 3); while (r.m.n) { uint32_t i = how == 0 ? 0 : how == 1 ? r.m.n - 1 : r.m.n / 2; A(r.t.remove(r.m.k[i]), "removal reports whether the key was present"); r.m.del(i); if (r.m.n % 32 == 1) r.check(); } r.check(); }
  A(Obj::alive == 0 && sx_live() == 0, "nothing leaks");
}
extern "C" void h_large() { if (sx_choice("type", 2)) large<Obj>(); else large<int32_t>(); }
