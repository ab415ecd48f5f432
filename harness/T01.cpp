// @src hal/memory_base.cpp hal/malloc_ansi.cpp
// @entry h_insert_step cover=insert,unique,duplicate quick:N=8 thorough:N=11
// @entry h_remove_step cover=done quick:N=11,R=1 thorough:N=13,R=2
// @entry h_history cover=insert,unique,replace,remove quick:N=2,K=2 thorough:N=4,K=2
// @entry h_big cover=done quick:N=14,R=3 thorough:N=24,R=4
// @entry h_obj cover=done quick:N=5,K=2 thorough:N=6,K=3
// @entry h_managed cover=done N=4
// @entry h_items cover=insert,unique,replace,remove quick:N=4,K=2 thorough:N=5,K=3
// @bound one insertion of any key into every red-black tree of 0..N nodes with arbitrary sorted keys; R removals of any nodes from every red-black tree of 1..N nodes; every history of N insertions of arbitrary keys and K further operations on the tree class; R removals from trees of up to N nodes built in several insertion orders; resource-owning values; the default order, and one that yields other numbers than 1 and -1
// @entry h_large cover=done B=1 quick:Z=5,R=2 thorough:Z=6,R=3
// @bound trees of 17 to 257 (thorough 300) values built in four orders, with repetitions, R removals at the ends, in the middle and around the 128th and 256th; then emptied from either end or the middle
// @bound K operations on trees of up to N items that compare by one of 4 keys and carry arbitrary other data
// @outside bigger trees, longer histories on the tree class, comparators that are not strict weak orders
#define MODEL_CAP 320
#include "tree_run.h"
#include "hal/malloc_ansi.h"
typedef BinaryNode<int32_t, Scaled> N;
typedef BinaryTree<int8_t, Scaled> Tree; // histories depend on the order of the keys only, which 8 bits can realise in full
extern "C" void h_insert_step() {
  uint32_t n = 1 + sx_choice("n", sx_param("N", 8)); N *nodes[16]; int32_t prev = 0;
  bool uniq = sx_choice("unique", 2);
  for (uint32_t i = 0; i < n; ++i) { int32_t v = nextVal(); if (i) sx_assume(uniq ? prev < v : prev <= v); prev = v; nodes[i] = new N(v); }
  Gen<N> g{nodes}; N *root = g.tree(n);
  int32_t x = nextVal(); N *nn = new N(x);
  N *r = uniq ? root->insertUnique(nn) : root->insert(nn);
  root = root->getRoot();
  const N *out[20]; uint32_t m = checkTree<N>(root, out, 18);
  if (r == nn) { A(m == n + 1, "one node is added"); }
  else { A(uniq && r->data == x, "an existing equal node is returned instead"); A(m == n, "no node is added for an equal key"); }
  A(root->getNumNodes() == m, "the reported node count");
  // exactly the old nodes, in their old order, and the new one
  uint32_t j = 0; for (uint32_t i = 0; i < m; ++i) { if (out[i] == nn) continue; A(j < n && out[i] == nodes[j], "the old nodes keep their order"); ++j; }
  A(j == n, "no node is lost");
  for (uint32_t i = 0; i + 1 < m; ++i) { if (uniq) A(out[i]->data < out[i + 1]->data, "in-order walk is increasing"); else A(out[i]->data <= out[i + 1]->data, "in-order walk is non-decreasing"); }
  sx_cover(!uniq ? "insert" : r == nn ? "unique" : "duplicate");
}
extern "C" void h_remove_step() {
  uint32_t n = 1 + sx_choice("n", sx_param("N", 9)), R = sx_param("R", 1); N *nodes[16]; Model m; int32_t prev = 0;
  for (uint32_t i = 0; i < n; ++i) { int32_t v = nextVal(); if (i) sx_assume(prev <= v); prev = v; nodes[i] = new N(v); m.add(v); }
  Gen<N> g{nodes}; N *root = g.tree(n);
  const N *out[20];
  for (uint32_t k = 0; k < R && m.n; ++k) {
    checkTree<N>(root, out, 18);
    uint32_t i = sx_choice("i", m.n); N *node = const_cast<N *>(out[i]), *valid = node;
    N *gone = node->remove(valid);
    // what BinaryTree does to find the root again
    N *nr = nullptr; for (uint32_t j = 0; j < m.n; ++j) if (out[j] != gone) { nr = const_cast<N *>(out[j])->getRoot(); break; }
    root = nr; m.remove(i);
    delete gone;
    uint32_t c = checkTree<N>(root, out, 18);
    A(c == m.n, "exactly one node is removed");
    for (uint32_t j = 0; j < c; ++j) A(out[j]->data == m.v[j], "exactly the given value is removed");
    if (i < m.n) A(valid == out[i], "the next valid node is returned"); else A(valid == nullptr, "no node follows the last one");
  }
  for (uint32_t i = 0; i + 1 < m.n; ++i) A(out[i]->data <= out[i + 1]->data, "in-order walk is non-decreasing");
  sx_cover("done");
}
static int32_t key() { return symi<int8_t>("k"); }
// The oracle: a sorted list with repetitions.
static bool modelHas(const Model &m, int32_t v, uint32_t &pos) { for (uint32_t i = 0; i < m.n; ++i) if (m.v[i] == v) { pos = i; return true; } return false; }
static void modelInsert(Model &m, int32_t v) { uint32_t i = 0; while (i < m.n && m.v[i] <= v) ++i; m.insert(i, v); }
template<class T, class C> static void compare(const BinaryTree<T, C> &t, const Model &m) {
  const BinaryNode<T, C> *out[MODEL_CAP]; uint32_t c = checkTree<BinaryNode<T, C>>(t.getRoot(), out, MODEL_CAP - 2);
  A(c == m.n && t.getNumNodes() == m.n && t.getCount() == m.n && t.getSize() == m.n, "the reported node count is the number of stored values");
  for (uint32_t i = 0; i < c; ++i) A(valOf(out[i]->data) == m.v[i], "in-order walk visits exactly the stored values");
}
template<class T, class C> static void treeOp(BinaryTree<T, C> &t, Model &m, uint32_t op) {
  if (op == 0) { int32_t v = key(); T &r = t.insert(T(v)); A(valOf(r) == v, "the inserted value is returned"); modelInsert(m, v); sx_cover("insert"); }
  else if (op == 1) { int32_t v = key(); T &r = t.insertUnique(T(v)); A(valOf(r) == v, "the stored value is returned"); uint32_t p; if (!modelHas(m, v, p)) modelInsert(m, v); sx_cover("unique"); }
  else if (op == 2) { int32_t v = key(); T &r = t.replace(T(v)); A(valOf(r) == v, "the stored value is returned"); uint32_t p; if (!modelHas(m, v, p)) modelInsert(m, v); sx_cover("replace"); }
  else if (op == 3) { uint32_t i = sx_choice("i", m.n + 1); auto it = t.begin(); for (uint32_t k = 0; k < i; ++k) ++it; auto r = t.remove(it); if (i < m.n) m.remove(i); if (i < m.n) { auto q = t.begin(); for (uint32_t k = 0; k < i; ++k) ++q; A(r == q, "removal returns the next position"); } else A(r == t.end(), "removal of the last value returns the end"); sx_cover("remove"); }
  else if (op == 4) { int32_t v = key(); uint32_t p = 0; bool had = modelHas(m, v, p); T tmp(v); A(t.remove(tmp) == had, "removal by value reports whether it was there"); if (had) m.remove(p); }
  else { int32_t v = key(), w = key(); t.insert(T(v), T(w)); modelInsert(m, v); modelInsert(m, w); }
}
extern "C" void h_history() {
  uint32_t n = sx_choice("n0", sx_param("N", 4) + 1), K = sx_param("K", 2); Tree t; Model m;
  for (uint32_t i = 0; i < n; ++i) treeOp(t, m, 0);
  compare(t, m);
  for (uint32_t i = 0; i < K; ++i) { uint32_t op = sx_choice("op", 7); if (op == 6) { t.empty(); m.clear(); } else treeOp(t, m, op); compare(t, m); }
}
extern "C" void h_big() {
  uint32_t NN = sx_param("N", 14), n = NN / 2 + sx_choice("n", NN - NN / 2 + 1), order = sx_choice("order", 4), R = sx_param("R", 3); Tree t; Model m;
  for (uint32_t i = 0; i < n; ++i) { int32_t v = order == 0 ? i : order == 1 ? n - i : order == 2 ? (i % 2 ? (int32_t)i : -(int32_t)i) : (int32_t)((i * 7) % 16); t.insert((int8_t)v); modelInsert(m, v); }
  compare(t, m);
  for (uint32_t k = 0; k < R; ++k) { uint32_t i = sx_choice("i", m.n), at = m.v[i]; (void)at; auto it = t.begin(); for (uint32_t j = 0; j < i; ++j) ++it; t.remove(it); m.remove(i); compare(t, m); }
  sx_cover("done");
}
extern "C" void h_obj() {
  uint32_t n = sx_choice("n0", sx_param("N", 5) + 1), K = sx_param("K", 2);
  { BinaryTree<Obj> t; Model m;
    for (uint32_t i = 0; i < n; ++i) { int32_t v = (int32_t)(i * 3 % 7); t.insert(Obj(v)); modelInsert(m, v); }
    for (uint32_t i = 0; i < K; ++i) { uint32_t op = sx_choice("op", 6); if (op == 5) { t.empty(); m.clear(); } else treeOp(t, m, op); compare(t, m); A(Obj::alive == m.n, "exactly the stored values are alive"); } }
  A(Obj::alive == 0 && sx_live() == 0, "nothing leaks"); sx_cover("done");
}
extern "C" void h_managed() {
  uint32_t n = sx_choice("n", sx_param("N", 4) + 1);
  { BinaryTree<Obj, ThreeWayCompare, MallocAnsi> t; for (uint32_t i = 0; i < n; ++i) t.insert(Obj(nextVal())); A(t.getCount() == n && Obj::alive == n, "every value is stored"); }
  A(Obj::alive == 0 && sx_live() == 0, "nothing leaks"); sx_cover("done");
}
// Trees of several hundred values.
template<class T, class C> static void large() {
  { BinaryTree<T, C> t; Model m; uint32_t n = largeSize(), order = sx_choice("order", 4);
    for (uint32_t i = 0; i < n; ++i) { int32_t v = order == 0 ? i : order == 1 ? n - i : order == 2 ? (i % 2 ? (int32_t)i : -(int32_t)i) : (int32_t)((i * 37) % 191); t.insert(T(v)); modelInsert(m, v); }
    compare(t, m);
    for (uint32_t k = 0; k < sx_param("R", 2); ++k) { uint32_t i = modelIndex("i", m.n); auto it = t.begin(); for (uint32_t j = 0; j < i; ++j) ++it; t.remove(it); m.remove(i); compare(t, m); }
    uint32_t how = sx_choice("how", 3);
    while (m.n) { uint32_t i = how == 0 ? 0 : how == 1 ? m.n - 1 : m.n / 2; int32_t v = m.v[i]; while (i && m.v[i - 1] == v) --i; if (how == 0) t.remove(t.begin()); else { T x(v); A(t.remove(x), "a stored value is removed"); } m.remove(i); if (m.n % 16 == 1 || m.n < 3) compare(t, m); }
    A(!t.getRoot() && t.getCount() == 0, "an emptied tree has no nodes"); }
  A(Obj::alive == 0 && sx_live() == 0, "nothing leaks"); sx_cover("done");
}
extern "C" void h_large() { if (sx_choice("type", 2)) large<Obj, ThreeWayCompare>(); else large<int32_t, Scaled>(); }
// Items that are equal as far as the order goes, and yet not the same: unique insertion keeps the stored one, replacement overrides it.
struct Item { int8_t k; uint8_t tag; int32_t p; Item(int8_t a = 0, uint8_t t = 0, int32_t b = 0) : k(a), tag(t), p(b) {} bool operator<(const Item &o) const { return k < o.k; } bool operator>(const Item &o) const { return k > o.k; } bool same(const Item &o) const { return (k == o.k) & (tag == o.tag) & (p == o.p); } };
extern "C" void h_items() {
  const uint32_t U = 4; uint32_t n = sx_choice("n", sx_param("N", 4) + 1), K = sx_param("K", 2), m = 0; BinaryTree<Item> t; Item all[16];
  bool multi = sx_choice("multi", 2); // plain insertions, which let equal items in; or unique ones and replacements
  for (uint32_t i = 0; i < n + K; ++i) {
    uint32_t op = multi ? (i < n ? 0 : 3 * sx_choice("op", 2)) : 1 + (i < n ? 0 : sx_choice("op", 3));
    if (op < 3) {
      int8_t k = (int8_t)sx_choice("k", U); Item x(k, (uint8_t)i, symi<int32_t>("p")); uint32_t at = m; for (uint32_t j = 0; j < m; ++j) if (all[j].k == x.k) { at = j; break; }
      if (op == 0) { Item &r = t.insert(x); A(r.same(x), "the inserted item is returned"); all[m++] = x; sx_cover("insert"); }
      else if (op == 1) { Item &r = t.insertUnique(x); if (at == m) all[m++] = x; A(r.same(all[at]), "unique insertion keeps the stored item and returns it"); sx_cover("unique"); }
      else { Item &r = t.replace(x); if (at == m) ++m; all[at] = x; A(r.same(x), "replacement overrides the stored item and returns it"); sx_cover("replace"); }
    } else if (m) {
      uint32_t w = sx_choice("w", m), j = 0; auto it = t.begin(); while (w--) ++it; uint8_t tag = (*it).tag; t.remove(it);
      while (j < m && all[j].tag != tag) ++j; A(j < m, "a stored item is one of those inserted"); for (; j + 1 < m; ++j) all[j] = all[j + 1]; --m; sx_cover("remove");
    }
    A(t.getCount() == m, "the count is the number of items");
    bool seen[16] = {}; uint32_t c = 0; int prev = -1;
    for (auto it = t.begin(); it != t.end() && c <= m; ++it, ++c) {
      const Item &e = *it; A(e.k >= prev, "in-order walk is non-decreasing"); prev = e.k; uint32_t j = 0; while (j < m && (seen[j] || all[j].tag != e.tag)) ++j;
      A(j < m && e.same(all[j < m ? j : 0]), "the tree holds exactly the items inserted and not removed since"); if (j < m) seen[j] = true;
    }
    A(c == m, "the tree holds exactly the items inserted and not removed since");
  }
}
