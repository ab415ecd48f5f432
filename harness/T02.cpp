// @src hal/memory_base.cpp hal/malloc_ansi.cpp
// @entry h_node cover=found,absent quick:N=6 thorough:N=8
// @entry h_tree cover=found,absent,empty quick:N=4 thorough:N=5
// @entry h_removed cover=done quick:N=7,K=2 thorough:N=9,K=3
// @entry h_large cover=done B=1 quick:Z=5,R=1 thorough:Z=6,R=2
// @bound any probe on every red-black tree of 1..N nodes with arbitrary sorted keys, repetitions included; any probe on tree objects filled with up to N arbitrary keys; any probe on, and both iterations of, tree objects of up to N keys from which up to K were removed, under an order that also yields other numbers than 1 and -1; probes for values at the ends, in the middle and around the 128th and 256th, and for those beside them, and both iterations, on trees of 17 to 257 (thorough 300) values built in four orders, after R removals
// @outside bigger trees, probes of other types than the key
#define MODEL_CAP 320
#include "tree_run.h"
typedef BinaryNode<int32_t> N;
typedef BinaryTree<int32_t> Tree;
struct Diff { int32_t operator()(int8_t a, int8_t b) const { return (int32_t)a - b; } }; // not only 1 and -1
extern "C" void h_node() {
  uint32_t n = 1 + sx_choice("n", sx_param("N", 6)); N *nodes[16]; int32_t prev = 0, v[16];
  for (uint32_t i = 0; i < n; ++i) { v[i] = nextVal(); if (i) sx_assume(prev <= v[i]); prev = v[i]; nodes[i] = new N(v[i]); }
  Gen<N> g{nodes}; N *root = g.tree(n); const N *croot = root;
  int32_t x = nextVal();
  N *f = root->find(x);
  A(croot->find(x) == f, "const and non-const search agree");
  if (!f) { for (uint32_t i = 0; i < n; ++i) A(v[i] != x, "absence is reported only when no equal value is stored"); A(root->findMin(x) == nullptr && root->findMax(x) == nullptr, "no range for an absent key"); sx_cover("absent"); }
  else {
    A(f->data == x, "a found value is equal to the probe");
    N *lo = root->findMin(x), *hi = root->findMax(x);
    A(lo && lo->data == x, "the first match is equal"); A(lo && (lo->prev == nullptr || lo->prev->data != x), "no equal value precedes the first match");
    A(hi && hi->data == x, "the last match is equal"); A(hi && (hi->next == nullptr || hi->next->data != x), "no equal value follows the last match");
    A(croot->findMin(x) == lo && croot->findMax(x) == hi, "const and non-const search agree");
    sx_cover("found");
  }
  A(root->getMin() == nodes[0] && croot->getMin() == nodes[0], "the minimum is the first value"); A(root->getMax() == nodes[n - 1] && croot->getMax() == nodes[n - 1], "the maximum is the last value");
  uint32_t j = sx_choice("j", n); A(nodes[j]->getRoot() == root && ((const N *)nodes[j])->getRoot() == root, "every node knows the root");
}
extern "C" void h_tree() {
  uint32_t n = sx_choice("n", sx_param("N", 4) + 1); Tree t; Model m;
  for (uint32_t i = 0; i < n; ++i) { int32_t v = nextVal(); t.insert(v); uint32_t k = 0; while (k < m.n && m.v[k] <= v) ++k; m.insert(k, v); }
  const Tree &c = t;
  int32_t x = nextVal(); uint32_t lo = 0, hi = 0; while (lo < m.n && m.v[lo] < x) ++lo; hi = lo; while (hi < m.n && m.v[hi] == x) ++hi;
  bool has = hi > lo;
  A((t.findNode(x) != nullptr) == has && (c.findNode(x) != nullptr) == has, "a node is found exactly when an equal value is stored");
  A((t.find(x) != t.end()) == has && (c.find(x) != c.end()) == has, "an element is found exactly when an equal value is stored");
  if (has) A(*t.find(x) == x && *c.find(x) == x && t.findNode(x)->data == x, "the found element is equal");
  auto at = [&](uint32_t i) { auto it = t.begin(); while (i--) ++it; return it; };
  if (has) { A(t.begin(x) == at(lo), "the range of a key starts at its first occurrence"); A(t.end(x) == at(hi), "the range of a key ends after its last occurrence"); sx_cover("found"); }
  else { A(t.begin(x) == t.end(x) && c.begin(x) == c.end(x), "the range of an absent key is empty"); sx_cover("absent"); }
  uint32_t k = 0; for (auto it = c.begin(x); it != c.end(x); ++it) { A(*it == x, "the range of a key holds equal elements"); ++k; } A(k == hi - lo, "the range of a key holds all equal elements");
  k = 0; for (auto &d : t) { A(k < m.n && d == m.v[k], "iteration visits the values in order"); ++k; } A(k == m.n, "iteration visits every value");
  k = 0; for (auto it = c.begin(); it != c.end(); it++) { A(k < m.n && *it == m.v[k] && *(it.operator->()) == m.v[k], "const iteration visits the values in order"); ++k; } A(k == m.n, "const iteration visits every value");
  if (m.n) { A(t.getMin()->data == m.v[0] && c.getMin()->data == m.v[0] && t.getMax()->data == m.v[m.n - 1] && c.getMax()->data == m.v[m.n - 1], "minimum and maximum");
    Tree::Iterator it{t.getMax()}; for (k = m.n; k-- > 0; ) { A(*it == m.v[k], "iterating backwards visits the values in reverse"); if (k & 1) --it; else it--; } A(it == t.end(), "iterating backwards ends before the first value");
    Tree::ConstIterator ci{t.begin()}; A(ci == c.begin(), "iterators convert to constant ones"); }
  else { A(!t.getMin() && !c.getMin() && !t.getMax() && !c.getMax() && t.begin() == t.end(), "an empty tree has no extremes"); sx_cover("empty"); }
}
// Searches and both iterations after removals of any nodes.
extern "C" void h_removed() {
  const uint32_t N = sx_param("N", 7); uint32_t n = 1 + sx_choice("n", N), how = sx_choice("order", 3); BinaryTree<int8_t, Diff> t; Model m;
  for (uint32_t i = 0; i < n; ++i) { int8_t v = (int8_t)(4 * (how == 0 ? i : how == 1 ? n - 1 - i : (i * 5 + 3) % 11)); t.insert(v); uint32_t k = 0; while (k < m.n && m.v[k] <= v) ++k; m.insert(k, v); }
  for (uint32_t r = sx_choice("removals", sx_param("K", 2) + 1); r > 0 && m.n; --r) { uint32_t i = sx_choice("at", m.n); t.remove((int8_t)m.v[i]); m.remove(i); }
  uint32_t k = 0; for (auto it = t.begin(); it != t.end() && k < m.n; ++it) A(*it == m.v[k++], "iteration visits the values in order"); A(k == m.n, "iteration visits every value");
  { auto it = t.begin(); for (k = 0; k < m.n; ++k) ++it; A(it == t.end(), "iteration ends after the last value"); }
  if (m.n) { decltype(t.begin()) it{t.getMax()}; for (k = m.n; k-- > 0 && it != t.end(); --it) A(*it == m.v[k], "iterating backwards visits the values in reverse"); A(it == t.end() && k == ~0u, "iterating backwards visits every value and ends before the first"); A(t.getMin()->data == m.v[0] && t.getMax()->data == m.v[m.n - 1], "minimum and maximum"); }
  else A(!t.getMin() && !t.getMax(), "an empty tree has no extremes");
  int8_t x = symi<int8_t>("probe"); bool has = false; for (k = 0; k < m.n; ++k) if (m.v[k] == x) has = true;
  auto *f = t.findNode(x); A((f != nullptr) == has, "a node is found exactly when an equal value is stored"); if (f) A(f->data == x, "the found element is equal");
  sx_cover("done");
}
// Searches in trees of several hundred values.
extern "C" void h_large() {
  BinaryTree<int32_t, Scaled> t; const BinaryTree<int32_t, Scaled> &c = t; Model m; uint32_t n = largeSize(), order = sx_choice("order", 4);
  for (uint32_t i = 0; i < n; ++i) { int32_t v = order == 0 ? 2 * i : order == 1 ? 2 * (n - i) : order == 2 ? (i % 2 ? (int32_t)i : -(int32_t)i) : (int32_t)((i * 37) % 191); t.insert(v); uint32_t k = 0; while (k < m.n && m.v[k] <= v) ++k; m.insert(k, v); }
  for (uint32_t r = sx_param("R", 1); r > 0; --r) { uint32_t i = modelIndex("i", m.n); auto it = t.begin(); for (uint32_t k = 0; k < i; ++k) ++it; t.remove(it); m.remove(i); }
  uint32_t k = 0; for (auto it = t.begin(); it != t.end() && k < m.n; ++it) A(*it == m.v[k++], "iteration visits the values in order"); A(k == m.n, "iteration visits every value");
  { decltype(t.begin()) it{t.getMax()}; for (k = m.n; k-- > 0 && it != t.end(); --it) A(*it == m.v[k], "iterating backwards visits the values in reverse"); A(it == t.end() && k == ~0u, "iterating backwards visits every value and ends before the first"); }
  A(t.getMin()->data == m.v[0] && t.getMax()->data == m.v[m.n - 1], "minimum and maximum");
  int32_t x = m.v[modelIndex("probe", m.n)] + (int32_t)sx_choice("beside", 3) - 1; bool has = false; for (k = 0; k < m.n; ++k) has |= m.v[k] == x;
  auto *f = t.findNode(x); A((f != nullptr) == has, "a node is found exactly when an equal value is stored"); if (f) A(f->data == x && *c.find(x) == x && *t.find(x) == x, "a found value is equal to the probe");
  uint32_t cnt = 0, q = 0; for (k = 0; k < m.n; ++k) cnt += m.v[k] == x; for (auto it = c.begin(x); it != c.end(x) && q <= m.n; ++it) { A(*it == x, "the range of a key holds equal elements"); ++q; } A(q == cnt, "the range of a key holds all equal elements");
  sx_cover("done");
}
