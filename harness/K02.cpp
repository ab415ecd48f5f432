// @src hal/memory_base.cpp hal/malloc_ansi.cpp
// @entry h_history cover=add,remove,get,clear quick:N=1,K=2 thorough:N=3,K=2
// @entry h_concrete cover=add,remove,get,clear S=2 quick:N=6,K=3 thorough:N=9,K=4
// @entry h_obj cover=add,remove,get,clear S=2 quick:N=5,K=2 thorough:N=6,K=3
// @entry h_query cover=any,all quick:N=3 thorough:N=4
// @entry h_items cover=add,remove,get quick:N=3,K=2 thorough:N=4,K=3
// @entry h_large cover=add,remove,get B=1 quick:Z=5,K=1 thorough:Z=6,K=2
// @bound every history of N additions of arbitrary keys and K further operations; K operations with any key out of 0..N on sets of up to N keys, under an order that also yields other numbers than 1 and -1; resource-owning keys; items that compare by a key and carry arbitrary other data; queries with up to 3 arbitrary keys on sets of up to N arbitrary keys; K operations of every kind on sets of 17 to 257 (thorough 300) keys built in three orders, with the keys at the ends, in the middle, around the 128th and 256th and beside them; such sets emptied
// @outside longer histories, comparators that are not strict weak orders
#include "set_model.h"
static int8_t key(const SM &, int8_t) { return sx_param("S", 0) == 2 ? (int8_t)sx_choice("k", sx_param("N", 4) + 1) : symi<int8_t>("k"); }
static int32_t key(const SM &m, int32_t) { int32_t k = m.n ? m.k[modelIndex("k", m.n)] : 0; return k + (int32_t)sx_choice("beside", 2); }
template<class K = int8_t, class T, class C> static void op(Set<T, C> &s, SM &m, uint32_t o) {
  switch (o) {
    case 0: { K k = key(m, K()); T &r = s.set(T(k)); m.put(k); A(valOf(r) == k, "the stored key is returned"); sx_cover("add"); break; }
    case 1: { K k = key(m, K()); { T x(k); A(s.remove(x) == m.has(k), "removal reports whether the key was present"); } m.del(k); sx_cover("remove"); break; }
    case 2: { K k = key(m, K()); { T x(k), out(77); bool had = m.has(k); A(s.remove(x, out) == had, "removal reports whether the key was present"); A(valOf(out) == (had ? k : 77), "the removed key is handed out"); } m.del(k); sx_cover("remove"); break; }
    case 3: { K k = key(m, K()); { T x(k), out(77); const Set<T, C> &c = s; bool had = m.has(k); A(s.get(x) == had && c.get(x) == had, "membership"); A(s.get(x, out) == had, "retrieval reports membership"); A(valOf(out) == (had ? k : 77), "retrieval yields the key"); T o2(77); A(c.get(x, o2) == had && valOf(o2) == (had ? k : 77), "retrieval from a constant set"); } sx_cover("get"); break; }
    case 4: { K a = key(m, K()), b = key(m, K()); s.set(T(a), T(b)); m.put(a); m.put(b); sx_cover("add"); break; }
    default: s.getTree().empty(); m.n = 0; sx_cover("clear");
  }
  same(s, m, "the set holds exactly the keys added and not removed since, in order");
  if (sizeof(T) > 4) A(Obj::alive == m.n, "exactly the contained keys are alive");
}
template<class T, class C = ThreeWayCompare> static void history() {
  { Set<T, C> s; SM m; uint32_t n = sx_choice("n0", sx_param("N", 2) + 1), K = sx_param("K", 2);
    for (uint32_t i = 0; i < n; ++i) { if (sx_param("S", 0) == 2) { int8_t k = (int8_t)((i * 5 + 2) % (sx_param("N", 4) + 1)); s.set(T(k)); m.put(k); } else op(s, m, 0); }
    for (uint32_t i = 0; i < K; ++i) op(s, m, sx_choice("op", 6)); }
  A(Obj::alive == 0 && sx_live() == 0, "nothing leaks");
}
extern "C" void h_history() { history<int8_t>(); }
extern "C" void h_concrete() { history<int8_t, Diff>(); }
extern "C" void h_obj() { history<Obj>(); }
extern "C" void h_query() {
  uint32_t n = sx_choice("n", sx_param("N", 3) + 1); Set<int8_t> s; SM m;
  for (uint32_t i = 0; i < n; ++i) { int8_t k = symi<int8_t>("k"); if (i) sx_assume(k > m.k[i - 1]); s.set(k); m.k[m.n++] = k; }
  int8_t a = symi<int8_t>("a"), b = symi<int8_t>("b"), c = symi<int8_t>("c"); bool ha = m.has(a), hb = m.has(b), hc = m.has(c);
  switch (sx_choice("q", 4)) {
    case 0: A(s.any(a) == ha, "any of one key"); A(s.all(a) == ha, "all of one key"); break;
    case 1: A(s.any(a, b) == (ha || hb), "any of two keys"); A(s.all(a, b) == (ha && hb), "all of two keys"); break;
    case 2: A(s.any(a, b, c) == (ha || hb || hc), "any of several keys"); sx_cover("any"); break;
    default: A(s.all(a, b, c) == (ha && hb && hc), "all of several keys"); sx_cover("all");
  }
}

// Items that are equal as far as the order goes, and yet not the same: the first one added stays.
struct Item { int8_t k; int32_t p; Item(int8_t a = 0, int32_t b = 0) : k(a), p(b) {} bool operator<(const Item &o) const { return k < o.k; } bool operator>(const Item &o) const { return k > o.k; } };
extern "C" void h_items() {
  const uint32_t U = 5; bool in[U] = {}; int32_t pay[U]; Set<Item> s; uint32_t n = sx_choice("n", sx_param("N", 3) + 1), K = sx_param("K", 2), cnt = 0;
  for (uint32_t i = 0; i < n + K; ++i) { int8_t k = (int8_t)sx_choice("k", U); int32_t p = symi<int32_t>("p");
    switch (i < n ? 0 : sx_choice("op", 3)) {
      case 0: { Item &r = s.set(Item(k, p)); if (!in[k]) { in[k] = true; pay[k] = p; ++cnt; } A(r.k == k && r.p == pay[k], "the stored item is returned"); sx_cover("add"); break; }
      case 1: { Item out(99, p); bool had = s.remove(Item(k, p ^ 1), out); A(had == in[k] && out.k == (had ? k : 99) && out.p == (had ? pay[k] : p), "the removed item is handed out"); if (had) { in[k] = false; --cnt; } sx_cover("remove"); break; }
      default: { Item out(99, p); const Set<Item> &c = s; bool had = s.get(Item(k, p ^ 1), out); A(had == in[k] && out.k == (had ? k : 99) && out.p == (had ? pay[k] : p), "retrieval yields the stored item"); Item o2(99, p); had = c.get(Item(k, p ^ 1), o2); A(had == in[k] && o2.k == (had ? k : 99) && o2.p == (had ? pay[k] : p), "retrieval from a constant set yields the stored item"); A(c.get(Item(k, p ^ 1)) == in[k], "membership"); auto f = c.begin(Item(k, p ^ 1)); if (in[k]) A((*f).p == pay[k], "iteration from a key starts with the stored item"); sx_cover("get"); }
    }
    A(s.getCount() == cnt, "each item once"); uint32_t j = 0; for (auto it = s.begin(); it != s.end() && j < U; ++it) { while (j < U && !in[j]) ++j; A(j < U && (*it).k == (int8_t)j && (*it).p == pay[j < U ? j : 0], "the first of several equal items stays"); ++j; }
  }
}
template<class T> static void large() {
  { Set<T> s; SM m; uint32_t n = largeSize(), order = sx_choice("order", 3), K = sx_param("K", 1);
    for (uint32_t i = 0; i < n; ++i) { int32_t k = 2 * (order == 0 ? i : order == 1 ? n - 1 - i : (i * 211) % n); s.set(T(k)); m.put(k); }
    same(s, m, "the set holds exactly the keys added"); for (uint32_t i = 0; i < K; ++i) op<int32_t>(s, m, sx_choice("op", 5));
    uint32_t how = sx_choice("how", 3); while (m.n) { uint32_t i = how == 0 ? 0 : how == 1 ? m.n - 1 : m.n / 2; int32_t k = m.k[i]; { T x(k); A(s.remove(x), "removal reports whether the key was present"); } m.del(k); if (m.n % 32 == 1) same(s, m, "the set holds exactly the keys added and not removed since, in order"); } same(s, m, "the set is empty"); }
  A(Obj::alive == 0 && sx_live() == 0, "nothing leaks");
}
extern "C" void h_large() { if (sx_choice("type", 2)) large<Obj>(); else large<int32_t>(); }
