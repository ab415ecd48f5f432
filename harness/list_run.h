// Drives a List<T> and a model through the same history.
#pragma once
#include "sx.h"
#include "elem.h"
#include "model.h"
#include "containers/list.h"
template<class T> static T mk(int32_t v) { return T(v); }
static int32_t nextVal() { return symi<int32_t>("v"); }
static uint32_t ix(const char *n, uint32_t k) { return modelIndex(n, k); }
template<class T> struct ListRun {
  static const bool res = sizeof(T) > 4;
  List<T> *l = nullptr; Model m; int64_t extra = 0;
  void build(uint32_t maxN) {
    uint32_t n = sx_choice("n0", maxN + 1);
    if (sx_choice("ctor", 2)) { l = new List<T>(gMalloc); sx_cover("malloc"); } else { l = new List<T>(); sx_cover("default"); }
    fill(n);
    check();
  }
  void fill(uint32_t n) { for (uint32_t i = 0; i < n; ++i) { int32_t v = nextVal(); l->pushBack(mk<T>(v)); m.add(v); } }
  void check() {
    A(l->getLength() == m.n, "the length is the number of elements");
    const List<T> &c = *l;
    auto *k = c.getHead(); A((k == nullptr) == (m.n == 0) && (c.getTail() == nullptr) == (m.n == 0), "head and tail exist exactly when there are elements");
    uint32_t i = 0; const Link<T> *last = nullptr;
    for (; k; k = k->next, ++i) { A(i < m.n, "no more links than elements"); A(valOf(k->data) == m.v[i], "reading forwards gives the sequence"); A(k->prev == last, "backward links mirror forward links"); last = k; }
    A(i == m.n, "every element is linked"); A(c.getTail() == last, "the tail is the last link"); A(l->getHead() == c.getHead() && l->getTail() == c.getTail(), "const accessors agree");
    if (res) A(Obj::alive == (int64_t)m.n + extra, "exactly the contained elements are alive");
  }
  void iterate() {
    uint32_t i = 0; for (auto &x : *l) { A(i < m.n && valOf(x) == m.v[i], "iteration visits the elements in order"); ++i; } A(i == m.n, "iteration visits every element");
    const List<T> &c = *l; i = 0; for (auto it = c.begin(); it != c.end(); it++) { A(i < m.n && valOf(*it) == m.v[i], "const iteration visits the elements in order"); ++i; } A(i == m.n, "const iteration visits every element");
    if (m.n) { auto it = l->begin(); for (i = 1; i < m.n; ++i) ++it; for (i = m.n; i-- > 1; ) { A(valOf(*it) == m.v[i] && valOf(*(it.operator->())) == m.v[i], "iterating backwards visits the elements in reverse"); if (i & 1) --it; else it--; } A(it == l->begin(), "iterating backwards ends at the first element"); }
  }
  Link<T> *at(uint32_t i) { auto *k = l->getHead(); while (i--) k = k->next; return k; }
  void step() {
    switch (sx_choice("op", 14)) {
      case 0: { int32_t v = nextVal(); T &r = l->pushBack(mk<T>(v)); m.add(v); A(&r == &l->getTail()->data, "the inserted element is returned"); break; }
      case 1: { int32_t v = nextVal(); T &r = l->pushFront(mk<T>(v)); m.insert(0, v); A(&r == &l->getHead()->data, "the inserted element is returned"); break; }
      case 2: case 3: { bool back = sx_choice("back", 2); int32_t v = nextVal(), w = nextVal(); extra += 2; { T a = mk<T>(v); const T b = mk<T>(w); if (back) { l->pushBack(a, b); m.add(v); m.add(w); } else { l->pushFront(a, b); m.insert(0, v); m.insert(0, w); }
        A(valOf(a) == v && valOf(b) == w, "elements passed by lvalue are copied"); check(); } extra -= 2; break; }
      case 4: { bool back = sx_choice("back", 2); int32_t v = nextVal(); ++extra; { T a = mk<T>(v); if (back) { l->pushBack(a); m.add(v); } else { l->pushFront(a); m.insert(0, v); } A(valOf(a) == v, "an element passed by lvalue is copied"); check(); } --extra; break; }
      case 5: { int32_t v[3] = {nextVal(), nextVal(), nextVal()}; l->pushBack(mk<T>(v[0]), mk<T>(v[1]), mk<T>(v[2])); for (int32_t x : v) m.add(x); break; }
      case 6: { int32_t v[3] = {nextVal(), nextVal(), nextVal()}; l->pushFront(mk<T>(v[0]), mk<T>(v[1]), mk<T>(v[2])); for (int32_t x : v) m.insert(0, x); break; }
      case 7: { if (!m.n) break; uint32_t i = ix("i", m.n); l->remove(at(i)); m.remove(i); break; }
      case 8: { uint32_t i = ix("i", m.n + 1); auto it = l->begin(); for (uint32_t k = 0; k < i; ++k) ++it; l->remove(it); if (i < m.n) m.remove(i); break; }
      case 9: { A(l->removeBack() == (m.n > 0), "removal reports whether there was an element"); if (m.n) m.remove(m.n - 1); break; }
      case 10: { A(l->removeFront() == (m.n > 0), "removal reports whether there was an element"); if (m.n) m.remove(0); break; }
      case 11: { ++extra; { T out = mk<T>(0); bool r = l->popBack(out); A(r == (m.n > 0), "popping reports whether there was an element"); if (m.n) { A(valOf(out) == m.v[m.n - 1], "the popped element is handed out"); m.remove(m.n - 1); } else A(valOf(out) == 0, "nothing is handed out"); check(); } --extra; break; }
      case 12: { ++extra; { T out = mk<T>(0); bool r = l->popFront(out); A(r == (m.n > 0), "popping reports whether there was an element"); if (m.n) { A(valOf(out) == m.v[0], "the popped element is handed out"); m.remove(0); } else A(valOf(out) == 0, "nothing is handed out"); check(); } --extra; break; }
      default: l->empty(); m.clear();
    }
    check();
  }
  void probe() { if (m.n) { uint32_t j = sx_pick("j", m.n); A(valOf(at(j)->data) == m.v[j], "every position holds the element of the sequence"); } }
  void finish() { delete l; if (res) A(Obj::alive == extra, "every element is destroyed once"); A(sx_live() == 0, "nothing leaks"); }
};
