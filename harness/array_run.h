// Drives an Array<T> and a model through the same history.
#pragma once
#include "sx.h"
#include "elem.h"
#include "model.h"
#include "containers/array.h"
template<class T> static T mk(int32_t v) { return T(v); }
static int32_t nextVal() { return symi<int32_t>("v"); }
template<class T> struct ArrayRun {
  static const bool res = sizeof(T) > 4;
  Array<T> *a = nullptr; Model m; int64_t extra = 0; // extra: elements alive outside the array
  void build(uint32_t maxN) {
    switch (sx_choice("ctor", 6)) {
      case 0: a = new Array<T>(); fill(sx_choice("n0", maxN + 1)); sx_cover("default"); break;
      case 1: { uint32_t cap = 1 + sx_choice("cap", maxN); a = new Array<T>((uint64)cap); fill(sx_choice("n0", cap + 1)); sx_cover("capacity"); break; }
      case 2: { uint32_t c = sx_choice("n0", maxN + 1); a = new Array<T>((uint64)(c + sx_choice("slack", 2)), (uint64)c);
        for (uint32_t i = 0; i < c; ++i) { if (res) A(valOf((*a)[i]) == 0, "counted elements are default-constructed"); int32_t v = nextVal(); (*a)[i] = mk<T>(v); m.add(v); } sx_cover("counted"); break; }
      case 3: { T *src = (T *)malloc(sizeof(T) * 4); uint32_t c = sx_choice("n0", maxN + 1); for (uint32_t i = 0; i < 4; ++i) { int32_t v = nextVal(); new (src + i) T(v); if (i < c) m.add(v); }
        a = new Array<T>((const T *)src, (uint64)c, (uint64)sx_choice("slack", 2)); for (uint32_t i = 0; i < 4; ++i) { if (i < c) A(valOf(src[i]) == m.v[i], "the source is unchanged"); src[i].~T(); } ::free(src); sx_cover("buffer"); break; }
      case 4: { int32_t x = nextVal(), y = nextVal(); { StaticArray<T, 2> s(mk<T>(x), mk<T>(y)); a = new Array<T>(s); A(valOf(s[0]) == x && valOf(s[1]) == y, "the source is unchanged"); } m.add(x); m.add(y); sx_cover("static"); break; }
      default: a = new Array<T>(gMalloc); fill(sx_choice("n0", maxN + 1)); sx_cover("malloc");
    }
    check();
  }
  void fill(uint32_t n) { for (uint32_t i = 0; i < n; ++i) { int32_t v = nextVal(); a->add(mk<T>(v)); m.add(v); } }
  void check() {
    A(a->getCount() == m.n, "the count is the number of elements"); A(a->getSize() == m.n && a->getNum() == m.n, "the count aliases agree");
    A(a->isEmpty() == (m.n == 0), "empty exactly when there are no elements"); A(a->getBytes() == m.n * sizeof(T), "bytes are count times the element size");
    const Array<T> &c = *a;
    for (uint32_t i = 0; i < m.n; ++i) { A(valOf((*a)[i]) == m.v[i], "the elements are those of the list"); A(&c[i] == *c + i && c.getAt(i) == c[i], "accessors agree"); }
    if (res) A(Obj::alive == (int64_t)m.n + extra, "exactly the contained elements are alive");
  }
  void probe() { if (m.n) { uint32_t j = sx_pick("j", m.n); A(valOf((*a)[j]) == m.v[j], "every position holds the element of the list"); } }
  static uint32_t ix(const char *n, uint32_t k) { return modelIndex(n, k); } // S: the solver decides which indexes take which branch
  void iterate() {
    uint32_t i = 0;
    for (auto &x : *a) { A(i < m.n && valOf(x) == m.v[i], "iteration visits the elements in order"); ++i; }
    A(i == m.n, "iteration visits every element");
    const Array<T> &c = *a; i = 0;
    for (auto it = c.begin(); it != c.end(); it++) { A(valOf(*it) == m.v[i], "const iteration visits the elements in order"); A(c.begin() + i == it, "iterator arithmetic"); A(it < c.end() && c.end() > it && it <= it && !(it >= c.end()), "iterators are ordered"); ++i; }
    A(i == m.n, "const iteration visits every element");
    auto it = a->end(); while (i > 0) { --i; --it; A(valOf(*it) == m.v[i] && valOf(a->begin()[i]) == m.v[i], "backward iteration visits the elements in reverse"); }
    A(it == a->begin(), "backward iteration ends at the beginning");
  }
  void step() {
    switch (sx_choice("op", 18)) {
      case 0: { int32_t v = nextVal(); T &r = a->insertLast(mk<T>(v)); m.add(v); A(&r == &(*a)[m.n - 1], "the inserted element is returned"); break; }
      case 1: { int32_t v = nextVal(); ++extra; { const T x = mk<T>(v); a->add(x); m.add(v); A(valOf(x) == v, "an element passed by lvalue is copied"); check(); } --extra; break; }
      case 2: { int32_t v = nextVal(), w = nextVal(), x = nextVal(); a->insertLast(mk<T>(v), mk<T>(w), mk<T>(x)); m.add(v); m.add(w); m.add(x); break; }
      case 3: { int32_t v = nextVal(); T &r = a->insertFirst(mk<T>(v)); m.insert(0, v); A(&r == &(*a)[0], "the inserted element is returned"); break; }
      case 4: { int32_t v = nextVal(), w = nextVal(); a->insertFirst(mk<T>(v), mk<T>(w)); m.insert(0, w); m.insert(0, v); break; }
      case 5: { uint32_t i = ix("i", m.n + 3); int32_t v = nextVal(); gap(i, 1); T &r = a->insertAt(i, mk<T>(v)); put(i, &v, 1); A(&r == &(*a)[i], "the inserted element is returned"); break; }
      case 6: { uint32_t i = ix("i", m.n + 3); int32_t v[3] = {nextVal(), nextVal(), nextVal()}; a->insertAt(i, mk<T>(v[0]), mk<T>(v[1]), mk<T>(v[2])); put(i, v, 3); break; }
      case 7: { if (m.n == 0) break; uint32_t i = ix("i", m.n); a->removeAt(i); m.remove(i); break; }
      case 8: { uint32_t i = ix("i", m.n + 1), k = ix("k", m.n - i + 1); a->removeAt(i, k); m.remove(i, k); break; }
      case 9: { if (m.n == 0) break; a->removeFirst(); m.remove(0); break; }
      case 10: { if (m.n == 0) break; a->removeLast(); m.remove(m.n - 1); break; }
      case 11: { if (m.n == 0) break; ++extra; { T out = mk<T>(0); uint32_t i = ix("i", m.n); int32_t v = m.v[i]; a->popAt(i, out); m.remove(i); A(valOf(out) == v, "the popped element is handed out"); check(); } --extra; break; }
      case 12: { if (m.n == 0) break; ++extra; { T out = mk<T>(0); int32_t v = m.v[0]; a->popFirst(out); m.remove(0); A(valOf(out) == v, "the popped element is handed out"); check(); } --extra; break; }
      case 13: { if (m.n == 0) break; ++extra; { T out = mk<T>(0); int32_t v = m.v[m.n - 1]; a->popLast(out); m.remove(m.n - 1); A(valOf(out) == v, "the popped element is handed out"); check(); } --extra; break; }
      case 14: a->empty(); m.clear(); break;
      case 15: a->reset(); m.clear(); break;
      case 16: { uint32_t i = ix("i", m.n + 1); int32_t v = nextVal(); T &r = (*a)(i, mk<T>(v)); if (i == m.n) m.add(v); A(&r == &(*a)[i], "the element at the index is returned"); break; }
      default: { uint32_t i = ix("i", m.n + (res ? 0 : 3)); if (res && i >= m.n) break; T &r = (*a)(i); A(&r == &(*a)[i], "the element at the index is returned");
        if (i >= m.n) { uint32_t n0 = m.n; A(a->getCount() == i + 1, "the array grows to contain the index"); while (m.n <= i) m.add(0); for (uint32_t j = n0; j <= i; ++j) (*a)[j] = mk<T>(0); } }
    }
    check();
  }
  void self() { // operands that are elements of the array itself
    if (m.n == 0) return;
    uint32_t j = ix("j", m.n), k = sx_choice("k", 2) ? j : m.n - 1; const int32_t vj = m.v[j], vk = m.v[k];
    switch (sx_choice("self", 7)) {
      case 0: { T &r = a->add((*a)[j]); m.add(vj); A(&r == &(*a)[m.n - 1], "the inserted element is returned"); break; }
      case 1: { uint32_t i = ix("i", m.n + 2); const T &c = (*a)[j]; T &r = a->insertAt(i, c); put(i, &vj, 1); A(&r == &(*a)[i], "the inserted element is returned"); break; }
      case 2: { a->insertFirst((*a)[j]); m.insert(0, vj); break; }
      case 3: { int32_t x = nextVal(); a->insertLast((*a)[j], mk<T>(x), (*a)[k]); m.add(vj); m.add(x); m.add(vk); break; }
      case 4: { uint32_t i = ix("i", m.n + 2); int32_t x = nextVal(), v[3] = {x, vj, vk}; a->insertAt(i, mk<T>(x), (*a)[j], (*a)[k]); put(i, v, 3); break; }
      case 5: { int32_t x = nextVal(); a->insertFirst((*a)[j], mk<T>(x)); m.insert(0, x); m.insert(0, vj); break; }
      default: { (*a)(m.n, (*a)[j]); m.add(vj); }
    }
    check(); sx_cover("self");
  }
  void gap(uint32_t, uint32_t) {}
  void put(uint32_t i, const int32_t *v, uint32_t k) {
    if (i < m.n) { for (uint32_t j = 0; j < k; ++j) m.insert(i + j, v[j]); return; }
    A(a->getCount() == i + k, "inserting past the end grows the array to contain the elements");
    for (uint32_t j = m.n; j < i; ++j) { if (res) A(valOf((*a)[j]) == 0, "elements between are default-constructed"); else (*a)[j] = mk<T>(0); m.add(0); }
    for (uint32_t j = 0; j < k; ++j) m.add(v[j]);
  }
  void finish() { delete a; if (res) A(Obj::alive == extra, "every element is destroyed once"); A(sx_live() == 0, "nothing leaks"); }
};
