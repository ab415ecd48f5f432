// @src hal/memory_base.cpp hal/malloc_ansi.cpp hal/malloc_pool.cpp
// @entry h_array cover=copy,assign,self,move,moveassign,copyofcopy,assignmoved,usemoved,moveback quick:N=3 thorough:N=5
// @entry h_list cover=copy,assign,self,move,moveassign,copyofcopy,assignmoved,usemoved,moveback quick:N=3 thorough:N=5
// @entry h_tree cover=copy,assign,self,move,moveassign,copyofcopy,assignmoved,usemoved,moveback quick:N=4,P=2 thorough:N=6,P=3
// @entry h_symtree cover=copy,assign,self,move,moveassign,copyofcopy,assignmoved,usemoved,moveback quick:N=2 thorough:N=3
// @entry h_symmap cover=copy,assign,self,move,moveassign,copyofcopy,assignmoved,usemoved,moveback quick:N=2 thorough:N=3
// @entry h_map cover=copy,assign,self,move,moveassign,copyofcopy,assignmoved,usemoved,moveback quick:N=3,P=2 thorough:N=5,P=2
// @entry h_set cover=copy,assign,self,move,moveassign,copyofcopy,assignmoved,usemoved,moveback quick:N=3,P=2 thorough:N=5,P=2
// @entry h_string cover=copy,assign,self,copyofcopy quick:N=4 thorough:N=7
// @entry h_nested cover=copy,assign,self,move,moveassign,copyofcopy,assignmoved,usemoved,moveback quick:N=2 thorough:N=3
// @entry h_treeshape cover=construct,assign quick:N=5,M=4 thorough:N=7,M=7
// @entry h_allocarray cover=copy,assign,self,move,moveassign,copyofcopy,assignmoved,usemoved,moveback quick:N=2 thorough:N=4
// @entry h_alloctree cover=copy,assign,self,move,moveassign,copyofcopy,assignmoved,usemoved,moveback quick:N=3,P=1 thorough:N=5,P=2
// @entry h_allocmap cover=copy,assign,self,move,moveassign,copyofcopy,assignmoved,usemoved,moveback quick:N=2,P=1 thorough:N=4,P=2
// @entry h_owned cover=copy,assign,self quick:N=2,P=1 thorough:N=3,P=2
// @entry h_ownedmap cover=copy,assign,self quick:N=2,P=1 thorough:N=4,P=2
// @entry h_onto cover=done quick:N=2,P=1 thorough:N=3,P=1
// @entry h_elements cover=copied,moved,several,stored quick:N=2 thorough:N=4
// @bound every pair of source and target contents of 0..N elements (arbitrary values; tree-based containers with concrete keys in P insertion orders), every form of copying and moving, one modification of either side, both orders of destruction; the same for arrays, trees and maps on two different allocators, each of which takes back only its own memory; containers that own their allocator copied and assigned; a container moved onto itself and used again; elements given to every insertion of every container as lvalues, constants and rvalues; copies of every red-black tree shape of up to N nodes onto every shape of up to M nodes
// @outside the contents after moving a container onto itself, moving containers that own their allocator, strings have no move operations of their own
#include "tree_run.h"
#include "containers/array.h"
#include "containers/list.h"
#include "containers/map.h"
#include "containers/set.h"
#include "containers/string.h"
#include "own.h"
#include "hal/malloc_pool.h"
// An adapter fills a container, modifies it once, and compares it with a sequence of integers.
struct AdArray { typedef Array<Obj> C;
  static void probe(const C &c, const Model &m) { if (m.n) { uint32_t j = sx_pick("j", m.n); A(c[j].val() == m.v[j], "every position holds its element"); } }
  static void fill(C &c, Model &m, uint32_t n) { for (uint32_t i = 0; i < n; ++i) { int32_t v = nextVal(); c.add(Obj(v)); m.add(v); } }
  static void same(const C &c, const Model &m) { A(c.getCount() == m.n, "the count is right"); for (uint32_t i = 0; i < m.n; ++i) A(c[i].val() == m.v[i], "the contents are right"); }
  static void mutate(C &c, Model &m) { int32_t v = nextVal(); switch (sx_choice("mut", 4)) { case 0: c.add(Obj(v)); m.add(v); break; case 1: if (m.n) { c[0] = Obj(v); m.v[0] = v; } break; case 2: if (m.n) { c.removeAt(0); m.remove(0); } break; default: c.empty(); m.clear(); } } };
struct AdList { typedef List<Obj> C; static void probe(const C &, const Model &) {}
  static void fill(C &c, Model &m, uint32_t n) { for (uint32_t i = 0; i < n; ++i) { int32_t v = nextVal(); c.pushBack(Obj(v)); m.add(v); } }
  static void same(const C &c, const Model &m) { A(c.getLength() == m.n, "the count is right"); uint32_t i = 0; auto *k = c.getHead(); for (; k && i < m.n; k = k->next, ++i) A(k->data.val() == m.v[i], "the contents are right"); A(i == m.n && !k, "the contents are right"); k = c.getTail(); for (i = m.n; k && i; k = k->prev) A(k->data.val() == m.v[--i], "the contents are right backwards"); A(!i && !k, "the contents are right backwards"); }
  static void mutate(C &c, Model &m) { int32_t v = nextVal(); switch (sx_choice("mut", 4)) { case 0: c.pushBack(Obj(v)); m.add(v); break; case 1: if (m.n) { c.getHead()->data = Obj(v); m.v[0] = v; } break; case 2: c.removeFront(); if (m.n) m.remove(0); break; default: c.empty(); m.clear(); } } };
static int32_t treeKey(uint32_t i, uint32_t n, uint32_t order) { return order == 0 ? (int32_t)i * 10 : order == 1 ? (int32_t)(n - 1 - i) * 10 : (int32_t)((i * 3 + 1) % n) * 10 + (int32_t)((i * 3 + 1) / n); }
// distinct keys in any order
static int32_t symKey(const Model &m) { int32_t k = symi<int8_t>("k"); sx_assume(k < 100); for (uint32_t i = 0; i < m.n; ++i) sx_assume(m.v[i] != k); return k; }
static bool symKeys() { return sx_param("P", 0) == 0; }
static void sorted(Model &m, int32_t v) { uint32_t i = 0; while (i < m.n && m.v[i] <= v) ++i; m.insert(i, v); }
struct AdTree { typedef BinaryTree<Obj> C;
  static void probe(const C &c, const Model &m) { int32_t k = symi<int8_t>("p"); Obj o(k); bool had = false; for (uint32_t i = 0; i < m.n; ++i) had |= m.v[i] == k; A((c.find(o) != c.end()) == had, "search agrees with the contents"); }
  static void fill(C &c, Model &m, uint32_t n) { uint32_t o = n > 1 && !symKeys() ? sx_choice("order", sx_param("P", 2)) : 0; for (uint32_t i = 0; i < n; ++i) { int32_t v = symKeys() ? symKey(m) : treeKey(i, n, o); c.insert(Obj(v)); sorted(m, v); } }
  static void same(const C &c, const Model &m) { const BinaryNode<Obj> *out[24]; uint32_t n = checkTree<BinaryNode<Obj>>(c.getRoot(), out, 22); A(n == m.n && c.getCount() == m.n, "the count is right"); for (uint32_t i = 0; i < n; ++i) A(out[i]->data.val() == m.v[i], "the contents are right"); }
  static void mutate(C &c, Model &m) { switch (sx_choice("mut", 4)) { case 0: { int32_t v = (int32_t)sx_choice("key", 4) * 10 - 5; c.insert(Obj(v)); sorted(m, v); break; } case 1: { if (!m.n) break; auto it = c.begin(); ++it; if (m.n > 1) { c.remove(it); m.remove(1); } break; } case 2: c.remove(c.begin()); if (m.n) m.remove(0); break; default: c.empty(); m.clear(); } } };
template<class M_> struct AdMapOf { typedef M_ C; static void probe(const C &, const Model &) {} // key k holds the value of the model entry
  static void fill(C &c, Model &m, uint32_t n) { uint32_t o = n > 1 && !symKeys() ? sx_choice("order", sx_param("P", 2)) : 0; for (uint32_t i = 0; i < n; ++i) { int32_t k = symKeys() ? symKey(m) : treeKey(i, n, o); c.insert(k, Obj(k)); sorted(m, k); } }
  static void same(const C &c, const Model &m) { A(c.getCount() == m.n, "the count is right"); uint32_t i = 0; for (auto it = c.begin(); it != c.end() && i < m.n; ++it, ++i) A(it->second.val() == m.v[i], "the contents are right"); A(i == m.n, "the contents are right"); }
  static void mutate(C &c, Model &m) { switch (sx_choice("mut", 4)) { case 0: { uint32_t n = c.getCount(); c.insert(500, Obj(500)); if (c.getCount() > n) m.add(500); else m.v[m.n - 1] = 500; break; } case 1: if (m.n) { int32_t v = nextVal(); c.begin()->second = Obj(v); m.v[0] = v; } break; case 2: c.remove(c.begin()); if (m.n) m.remove(0); break; default: while (c.getCount()) c.remove(c.begin()); m.clear(); } } };
template<class S_> struct AdSetOf { typedef S_ C; static void probe(const C &, const Model &) {}
  static void fill(C &c, Model &m, uint32_t n) { uint32_t o = n > 1 && !symKeys() ? sx_choice("order", sx_param("P", 2)) : 0; for (uint32_t i = 0; i < n; ++i) { int32_t k = symKeys() ? symKey(m) : treeKey(i, n, o); c.set(Obj(k)); sorted(m, k); } }
  static void same(const C &c, const Model &m) { A(c.getCount() == m.n, "the count is right"); uint32_t i = 0; for (auto it = c.begin(); it != c.end() && i < m.n; ++it, ++i) A(it->val() == m.v[i], "the contents are right"); A(i == m.n, "the contents are right"); }
  static void mutate(C &c, Model &m) { switch (sx_choice("mut", 3)) { case 0: c.set(Obj(500)); if (!m.n || m.v[m.n - 1] != 500) sorted(m, 500); break; case 1: { if (m.n) { int32_t k = m.v[m.n - 1]; Obj o(k); c.remove(o); m.remove(m.n - 1); } break; } default: while (m.n) { Obj o(m.v[0]); c.remove(o); m.remove(0); } } } };
typedef AdMapOf<Map<int32_t, Obj>> AdMap; typedef AdSetOf<Set<Obj>> AdSet;
struct AdString { typedef String C;
  static void probe(const C &c, const Model &m) { if (m.n) { uint32_t j = sx_pick("j", m.n); A(c[j] == (char)m.v[j], "every position holds its character"); } }
  static char ch() { char c = symi<char>("c"); return c; }
  static void fill(C &c, Model &m, uint32_t n) { for (uint32_t i = 0; i < n; ++i) { char x = ch(); c += x; m.add(x); } }
  static void same(const C &c, const Model &m) { A(c.getLength() == m.n, "the count is right"); for (uint32_t i = 0; i < m.n; ++i) A(c[i] == (char)m.v[i], "the contents are right"); A(c[m.n] == '\0', "the text is terminated"); }
  static void mutate(C &c, Model &m) { char x = ch(); switch (sx_choice("mut", 4)) { case 0: c += x; m.add(x); break; case 1: if (m.n) { c[0] = x; m.v[0] = x; } break; case 2: if (m.n) { c.splice(0, 1, ""); m.remove(0); } break; default: c.splice(0, m.n, ""); m.clear(); } } };
struct AdNested { typedef Array<List<Obj>> C; static void probe(const C &, const Model &) {} // lists of 1 or 2 elements
  static void fill(C &c, Model &m, uint32_t n) { for (uint32_t i = 0; i < n; ++i) { int32_t v = nextVal(), w = nextVal(); List<Obj> l; l.pushBack(Obj(v)); m.add(v); if (i % 2 == 0) { l.pushBack(Obj(w)); m.add(w); } c.add(l); } }
  static void same(const C &c, const Model &m) { uint32_t j = 0; for (uint32_t i = 0; i < c.getCount(); ++i) for (auto it = c[i].begin(); it != c[i].end(); ++it) { A(j < m.n, "the count is right"); if (j < m.n) A((*it).val() == m.v[j], "the contents are right"); ++j; } A(j == m.n, "the count is right"); }
  static void mutate(C &c, Model &m) { int32_t v = nextVal(); switch (sx_choice("mut", 3)) { case 0: if (m.n) { c[c.getCount() - 1].pushBack(Obj(v)); m.add(v); } break; case 1: if (m.n) { c[0].getHead()->data = Obj(v); m.v[0] = v; } break; default: c.empty(); m.clear(); } } };
static uint32_t objs(const Model &a, const Model &b) { return a.n + b.n; }
static Own *own[2]; // the allocators of the containers, if they are to have their own
template<class C, bool alloc> struct Fresh { static C *on(int) { return new C(); } };
template<class C> struct Fresh<C, true> { static C *on(int i) { return new C(static_cast<MallocBase *>(own[i])); } };
template<class Ad, bool moves, bool alloc = false> static void run() {
  typedef typename Ad::C C; uint32_t N = sx_param("N", 3);
  C *s = Fresh<C, alloc>::on(0), *d = nullptr; Model ms, md; Ad::fill(*s, ms, sx_choice("ns", N + 1)); Ad::same(*s, ms);
  uint32_t how = sx_choice("how", moves ? 6 : 4);
  if (how == 0) { d = new C(static_cast<const C &>(*s)); md = ms; sx_cover("copy"); }
  else if (how == 1) { d = Fresh<C, alloc>::on(1); Ad::fill(*d, md, sx_choice("nd", N + 1)); A(&(*d = static_cast<const C &>(*s)) == d, "assignment returns the target"); md = ms; sx_cover("assign"); }
  else if (how == 2) { d = new C(*s); md = ms; C &alias = *s; *s = alias; sx_cover("self"); }
  else if (how == 3) { C *t = new C(*s); d = new C(*t); if (sx_choice("late", 2)) { *t = *d; } delete t; md = ms; sx_cover("copyofcopy"); }
  else if (how == 4) { d = new C(static_cast<C &&>(*s)); md = ms; ms.clear(); sx_cover("move"); }
  else { d = Fresh<C, alloc>::on(1); Ad::fill(*d, md, sx_choice("nd", N + 1)); A(&(*d = static_cast<C &&>(*s)) == d, "assignment returns the target"); md = ms; ms.clear(); sx_cover("moveassign"); }
  Ad::same(*s, ms); Ad::same(*d, md); A(Obj::alive == 0 || Obj::alive == (int64_t)objs(ms, md), "exactly the contained elements are alive");
  if (sx_choice("side", 2) || how > 3) Ad::mutate(*d, md); else Ad::mutate(*s, ms);
  Ad::same(*s, ms); Ad::same(*d, md);
  if (how > 3) switch (sx_choice("reuse", 4)) { case 0: break;
    case 1: *s = static_cast<const C &>(*d); ms = md; Ad::same(*s, ms); Ad::mutate(*s, ms); Ad::same(*s, ms); Ad::same(*d, md); sx_cover("assignmoved"); break; // a moved-from container takes new contents
    case 2: Ad::fill(*s, ms, 1); Ad::same(*s, ms); Ad::same(*d, md); sx_cover("usemoved"); break;
    default: *s = static_cast<C &&>(*d); Ad::same(*s, md); ms = md; md.clear(); Ad::same(*d, md); Ad::mutate(*s, ms); Ad::same(*s, ms); sx_cover("moveback"); }
  Ad::probe(*d, md);
  if (sx_choice("first", 2)) { delete s; Ad::same(*d, md); delete d; } else { delete d; Ad::same(*s, ms); delete s; }
  A(Obj::alive == 0, "every element is destroyed once"); if (!alloc) A(sx_live() == 0, "nothing leaks");
}
template<class Ad> static void apart() {
  { Own a, b; own[0] = &a; own[1] = &b; run<Ad, true, true>(); A(a.n == 0 && b.n == 0, "all memory is given back"); }
  A(sx_live() == 0, "nothing leaks");
}
extern "C" void h_allocarray() { apart<AdArray>(); }
extern "C" void h_alloctree() { apart<AdTree>(); }
extern "C" void h_allocmap() { apart<AdMap>(); }
extern "C" void h_array() { run<AdArray, true>(); }
extern "C" void h_list() { run<AdList, true>(); }
extern "C" void h_tree() { run<AdTree, true>(); }
extern "C" void h_symtree() { run<AdTree, true>(); }
extern "C" void h_symmap() { run<AdMap, true>(); }
extern "C" void h_map() { run<AdMap, true>(); }
extern "C" void h_set() { run<AdSet, true>(); }
extern "C" void h_string() { run<AdString, false>(); }
extern "C" void h_nested() { run<AdNested, true>(); }
// Containers that own their allocator: a copy has an allocator of its own.
template<class Ad, class C> static void owned() { // C: the container of the adapter, with its own allocator
  uint32_t N = sx_param("N", 2); Model ms, md;
  { C *s = new C(), *d = nullptr; Ad::fill(*s, ms, sx_choice("ns", N + 1)); const C &cs = *s;
    switch (sx_choice("how", 3)) {
      case 0: d = new C(cs); sx_cover("copy"); break;
      case 1: d = new C(); Ad::fill(*d, md, sx_choice("nd", N + 1)); A(&(*d = cs) == d, "assignment returns the target"); sx_cover("assign"); break;
      default: { C t(cs); d = new C(); *d = t; *s = cs; sx_cover("self"); } }
    md = ms; Ad::same(*s, ms); Ad::same(*d, md); A(Obj::alive == (int64_t)objs(ms, md), "exactly the contained elements are alive");
    if (sx_choice("side", 2)) Ad::mutate(*d, md); else Ad::mutate(*s, ms);
    Ad::same(*s, ms); Ad::same(*d, md);
    if (sx_choice("first", 2)) { delete s; Ad::same(*d, md); Ad::mutate(*d, md); Ad::same(*d, md); delete d; } else { delete d; Ad::same(*s, ms); Ad::mutate(*s, ms); Ad::same(*s, ms); delete s; } }
  A(Obj::alive == 0, "every element is destroyed once"); A(sx_live() == 0, "nothing leaks");
}
extern "C" void h_owned() {
  switch (sx_choice("kind", 4)) {
    case 0: owned<AdArray, Array<Obj, MallocAnsi>>(); break;
    case 1: owned<AdArray, Array<Obj, MallocPoolInline<3, 16 * sizeof(Obj)>>>(); break;
    case 2: owned<AdList, List<Obj, MallocPoolInline<16, sizeof(Link<Obj>)>>>(); break;
    default: owned<AdTree, BinaryTree<Obj, ThreeWayCompare, MallocPoolInline<16, sizeof(BinaryNode<Obj>)>>>();
  }
}
extern "C" void h_ownedmap() {
  if (sx_choice("kind", 2)) { typedef Map<int32_t, Obj, ThreeWayCompare, MallocPoolInline<16, 128>> M; owned<AdMapOf<M>, M>(); }
  else { typedef Set<Obj, ThreeWayCompare, MallocPoolInline<16, 128>> T; owned<AdSetOf<T>, T>(); }
}
// Moving a container onto itself keeps it usable.
template<class Ad> static void onto() {
  typedef typename Ad::C C; Model m; { C c; Ad::fill(c, m, sx_choice("ns", sx_param("N", 2) + 1)); C &r = c; A(&(c = static_cast<C &&>(r)) == &c, "assignment returns the target");
    c = C(); m.clear(); Ad::same(c, m); Ad::fill(c, m, sx_choice("nd", sx_param("N", 2) + 1)); Ad::same(c, m); }
  A(Obj::alive == 0, "every element is destroyed once"); A(sx_live() == 0, "nothing leaks"); sx_cover("done");
}
extern "C" void h_onto() { switch (sx_choice("kind", 6)) { case 0: onto<AdArray>(); break; case 1: onto<AdList>(); break; case 2: onto<AdTree>(); break; case 3: onto<AdMap>(); break; case 4: onto<AdSet>(); break; default: onto<AdString>(); } }
// Trees of every shape copied onto trees of every other shape.
typedef BinaryNode<int32_t> Nd;
struct Shape { BinaryTree<int32_t> t;
  void make(uint32_t n, Model &m) {
    if (!n) return;
    Nd *tmp[12], *real[12], *at[12];
    for (uint32_t i = 0; i < n; ++i) { m.add((int32_t)i); tmp[i] = new Nd((int32_t)i); t.insert((int32_t)i); }
    Gen<Nd> g{tmp}; Nd *root = g.tree(n);
    uint32_t k = 0; for (Nd *x = t.getRoot()->getMin(); x; x = x->next) real[k++] = x;
    k = 0; for (uint32_t i = 0; i < n; ++i) { if (tmp[i] == root) { at[i] = t.getRoot(); continue; } while (real[k] == t.getRoot()) ++k; at[i] = real[k++]; }
    auto to = [&](Nd *x) { for (uint32_t i = 0; i < n; ++i) if (x == tmp[i]) return at[i]; return (Nd *)nullptr; };
    for (uint32_t i = 0; i < n; ++i) { Nd *x = at[i]; x->data = (int32_t)i; x->color = tmp[i]->color; x->left = to(tmp[i]->left); x->right = to(tmp[i]->right); x->parent = to(tmp[i]->parent); x->next = to(tmp[i]->next); x->prev = to(tmp[i]->prev); }
    for (uint32_t i = 0; i < n; ++i) delete tmp[i];
  }
};
static void sameTree(const BinaryTree<int32_t> &t, const Model &m) { const Nd *out[16]; uint32_t n = checkTree<Nd>(t.getRoot(), out, 14); A(n == m.n && t.getCount() == m.n, "the count is right"); for (uint32_t i = 0; i < n; ++i) A(out[i]->data == m.v[i], "the contents are right"); uint32_t i = 0; for (auto it = t.begin(); it != t.end(); ++it) { A(i < m.n && *it == m.v[i], "iteration visits the contents"); ++i; } A(i == m.n, "iteration visits the contents"); }
extern "C" void h_treeshape() {
  { Shape s; Model ms, md; s.make(sx_choice("ns", sx_param("N", 5) + 1), ms);
    if (sx_choice("how", 2)) { Shape d; d.make(sx_choice("nd", sx_param("M", 5) + 1), md); d.t = s.t; sameTree(d.t, ms); sameTree(s.t, ms); uint32_t i = sx_choice("i", ms.n + 1); auto it = d.t.begin(); for (uint32_t k = 0; k < i; ++k) ++it; d.t.remove(it); Model mo = ms; if (i < ms.n) mo.remove(i); sameTree(d.t, mo); sameTree(s.t, ms); sx_cover("assign"); }
    else { BinaryTree<int32_t> d(s.t); sameTree(d, ms); sameTree(s.t, ms); sx_cover("construct"); } }
  A(sx_live() == 0, "nothing leaks");
}

// An element given as an lvalue is copied and stays as it was, one given as an rvalue is moved.
template<class F> static void give(F put) {
  int32_t v = nextVal();
  switch (sx_choice("category", 3)) {
    case 0: { Obj x(v); A(put(x).val() == v && x.val() == v, "an lvalue is copied and keeps its value"); sx_cover("copied"); break; }
    case 1: { const Obj x(v); A(put(x).val() == v && x.val() == v, "a constant is copied"); sx_cover("copied"); break; }
    default: { Obj x(v); A(put(static_cast<Obj &&>(x)).val() == v && x.moved(), "an rvalue is moved"); sx_cover("moved"); }
  }
}
template<class F> static void give2(F put) { int32_t v = nextVal(), w = nextVal(); Obj x(v), y(w); if (sx_choice("swap", 2)) { put(static_cast<Obj &&>(x), y); A(x.moved() && y.val() == w, "an rvalue is moved, an lvalue keeps its value"); } else { put(x, static_cast<Obj &&>(y)); A(x.val() == v && y.moved(), "an rvalue is moved, an lvalue keeps its value"); } sx_cover("several"); }
extern "C" void h_elements() {
  uint32_t n = sx_choice("n", sx_param("N", 2) + 1);
  switch (sx_choice("kind", 5)) {
    case 0: { Array<Obj> a; for (uint32_t i = 0; i < n; ++i) a.add(Obj(nextVal())); uint32_t i = sx_choice("i", n + 2);
      switch (sx_choice("op", 5)) {
        case 0: give([&](auto &&x) -> Obj & { return a.add(forward<decltype(x)>(x)); }); break;
        case 1: give([&](auto &&x) -> Obj & { return a.insertAt(i, forward<decltype(x)>(x)); }); break;
        case 2: give([&](auto &&x) -> Obj & { return a.insertFirst(forward<decltype(x)>(x)); }); break;
        case 3: give2([&](auto &&x, auto &&y) { switch (sx_choice("at", 3)) { case 0: a.add(forward<decltype(x)>(x), forward<decltype(y)>(y)); break; case 1: a.insertAt(i, forward<decltype(x)>(x), forward<decltype(y)>(y)); break; default: a.insertFirst(forward<decltype(x)>(x), forward<decltype(y)>(y)); } }); break;
        default: if (n && i < n) { int32_t v = a[i].val(); if (sx_choice("rvalue", 2)) { a.add(static_cast<Obj &&>(a[i])); A(a[n].val() == v && a[i].moved(), "an rvalue is moved"); } else { a.add(a[i]); A(a[n].val() == v && a[i].val() == v, "an lvalue is copied and keeps its value"); } sx_cover("stored"); }
      }
      A((uint64_t)Obj::alive == a.getCount(), "exactly the elements are alive"); break; }
    case 1: { List<Obj> l; for (uint32_t i = 0; i < n; ++i) l.pushBack(Obj(nextVal()));
      switch (sx_choice("op", 3)) {
        case 0: give([&](auto &&x) -> Obj & { return l.pushBack(forward<decltype(x)>(x)); }); break;
        case 1: give([&](auto &&x) -> Obj & { return l.pushFront(forward<decltype(x)>(x)); }); break;
        default: give2([&](auto &&x, auto &&y) { if (sx_choice("front", 2)) l.pushFront(forward<decltype(x)>(x), forward<decltype(y)>(y)); else l.pushBack(forward<decltype(x)>(x), forward<decltype(y)>(y)); });
      }
      A((uint64_t)Obj::alive == l.getLength(), "exactly the elements are alive"); break; }
    case 2: { BinaryTree<Obj> t; for (uint32_t i = 0; i < n; ++i) t.insert(Obj((int32_t)i * 1000));
      switch (sx_choice("op", 3)) {
        case 0: give([&](auto &&x) -> Obj & { return t.insert(forward<decltype(x)>(x)); }); break;
        case 1: { int32_t v = nextVal(); bool had = false; for (uint32_t i = 0; i < n; ++i) if (v == (int32_t)i * 1000) had = true; if (had) { Obj x(v); Obj &r = t.insertUnique(x); A(&r != &x && r.val() == v && x.val() == v && t.getCount() == n, "an equal value is found, not added"); } else { Obj x(v); t.insertUnique(static_cast<Obj &&>(x)); A(x.moved() && t.getCount() == n + 1, "an rvalue is moved"); } sx_cover("moved"); break; }
        default: give([&](auto &&x) -> Obj & { return t.replace(forward<decltype(x)>(x)); });
      }
      A((uint64_t)Obj::alive == t.getCount(), "exactly the elements are alive"); break; }
    case 3: { Set<Obj> t; for (uint32_t i = 0; i < n; ++i) t.set(Obj((int32_t)i * 1000)); int32_t v = nextVal(); for (uint32_t i = 0; i < n; ++i) sx_assume(v != (int32_t)i * 1000);
      if (sx_choice("rvalue", 2)) { Obj x(v); A(t.set(static_cast<Obj &&>(x)).val() == v && x.moved(), "an rvalue is moved"); } else { Obj x(v); A(t.set(x).val() == v && x.val() == v, "an lvalue is copied and keeps its value"); }
      { Obj o(0); bool had = t.remove(Obj(v), o); A(had && o.val() == v, "a removed value is handed over"); } break; }
    default: { Map<int32_t, Obj> m; for (uint32_t i = 0; i < n; ++i) m.insert((int32_t)i, Obj(nextVal())); int32_t k = symi<int8_t>("k");
      give([&](auto &&x) -> Obj & { return m.insert(k, forward<decltype(x)>(x)); });
      A((uint64_t)Obj::alive == m.getCount(), "exactly the values are alive"); }
  }
}
