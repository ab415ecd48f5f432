// @src hal/memory_base.cpp hal/malloc_ansi.cpp
// @entry h_objects cover=create,copy,move,emplace,assign,reset,read quick:K=3 thorough:K=4
// @entry h_ints cover=create,copy,move,emplace,assign,reset,read quick:K=3 thorough:K=4
// @entry h_step cover=create,copy,move,emplace,assign,reset,read S=1 quick:K=2 thorough:K=3
// @entry h_compound cover=done
// @entry h_nested cover=done quick:K=3 thorough:K=4
// @bound every history of K operations (constructions, copies, moves, assignments of optionals and of values, self assignment, emplacement, reset, reads) over two optionals, whose initial contents are arbitrary, of integers and of resource-owning elements; multi-argument construction; optionals of lists
// @outside longer histories, reading an empty optional, assigning an optional to itself by move, constructors that throw
#include "sx.h"
#include "elem.h"
static uint32_t ix(const char *n, uint32_t k) { return sx_param("S", 0) ? sx_pick(n, k) : sx_choice(n, k); }
#include "containers/list.h"
#include "hal/malloc_ansi.h"
#include "templates/optional.h"
static bool gone(const Obj &o) { return o.moved(); }
static bool gone(int32_t) { return true; }
template<class T> struct Run {
  static const bool res = sizeof(T) > 4;
  struct St { bool on = false, known = true; int32_t v = 0; };   // known: the value was not moved away
  Optional<T> *o[2]; St m[2]; int64_t extra = 0;
  void check() {
    int64_t live = 0;
    for (int i = 0; i < 2; ++i) { const Optional<T> &c = *o[i];
      // An optional that was moved from may or may not keep the emptied value: it says which.
      if (!m[i].known) { m[i].on = c.hasValue(); if (!m[i].on) m[i].known = true; }
      A(c.hasValue() == m[i].on && (bool)c == m[i].on && (bool)*o[i] == m[i].on, "engaged exactly when it holds a value");
      if (m[i].on) { ++live; if (m[i].known) { A(valOf(*c) == m[i].v && valOf(**o[i]) == m[i].v, "the value most recently stored"); A(&*c == c.operator->() && &**o[i] == o[i]->operator->() && (const void *)&*c == (const void *)&**o[i], "all accessors give the contained object"); A((const char *)&*c >= (const char *)&c && (const char *)(&*c + 1) <= (const char *)(&c + 1), "the value lives inside the optional"); } } }
    if (res) A(Obj::alive == live + extra, "exactly the held objects are alive");
  }
  static T mk(int32_t v) { return T(v); }
  void fresh(int i, uint32_t how) {
    switch (how) {
      case 0: o[i] = new Optional<T>(); m[i] = St(); break;
      case 1: { int32_t v = symi<int32_t>("v"); o[i] = new Optional<T>(v); m[i] = St{true, true, v}; break; }
      case 2: { int32_t v = symi<int32_t>("v"); ++extra; { const T t = mk(v); o[i] = new Optional<T>(t); A(valOf(t) == v, "the source of a copy is unchanged"); } --extra; m[i] = St{true, true, v}; break; }
      case 3: { int32_t v = symi<int32_t>("v"); ++extra; { T t = mk(v); if (sx_choice("emplace", 2)) { o[i] = new Optional<T>(); o[i]->emplace(static_cast<T &&>(t)); } else o[i] = new Optional<T>(static_cast<T &&>(t)); A(gone(t), "an rvalue is moved"); } --extra; m[i] = St{true, true, v}; break; }
      case 4: { if (sx_choice("const", 2)) o[i] = new Optional<T>(*const_cast<const Optional<T> *>(o[1 - i])); else o[i] = new Optional<T>(*o[1 - i]); m[i] = m[1 - i]; sx_cover("copy"); break; }
      default: { o[i] = new Optional<T>(static_cast<Optional<T> &&>(*o[1 - i])); m[i] = m[1 - i]; m[1 - i].known = !m[1 - i].on || !res; if (!res && !o[1 - i]->hasValue()) m[1 - i].on = false; sx_cover("move"); }
    }
    sx_cover("create");
  }
  bool movedFrom(int i) { return m[i].on && !m[i].known; }
  void step() {
    int i = ix("i", 2), j = 1 - i;
    switch (ix("op", 9)) {
      case 0: { if (movedFrom(j)) return; delete o[i]; fresh(i, sx_choice("how", 6)); break; }
      case 1: if (movedFrom(j)) return; *o[i] = *const_cast<const Optional<T> *>(o[j]); m[i] = m[j]; sx_cover("copy"); break;
      case 2: if (movedFrom(j)) return; *o[i] = static_cast<Optional<T> &&>(*o[j]); m[i] = m[j]; m[j].known = !m[j].on || !res; if (!res && !o[j]->hasValue()) m[j].on = false; sx_cover("move"); break;
      case 3: if (movedFrom(i)) return; { Optional<T> &self = *o[i]; *o[i] = self; sx_cover("copy"); break; }
      case 4: { int32_t v = symi<int32_t>("v"); o[i]->emplace(v); m[i] = St{true, true, v}; sx_cover("emplace"); break; }
      case 5: { int32_t v = symi<int32_t>("v"); ++extra; { const T t = mk(v); Optional<T> &r = (*o[i] = t); A(&r == o[i], "assignment returns the optional"); A(valOf(t) == v, "the source of a copy is unchanged"); } --extra; m[i] = St{true, true, v}; sx_cover("assign"); break; }
      case 6: { int32_t v = symi<int32_t>("v"); ++extra; { T t = mk(v); Optional<T> &r = (*o[i] = static_cast<T &&>(t)); A(&r == o[i], "assignment returns the optional"); A(gone(t), "an rvalue is moved"); } --extra; m[i] = St{true, true, v}; sx_cover("assign"); break; }
      case 7: o[i]->reset(); m[i] = St(); A(!o[i]->hasValue(), "empty after a reset"); sx_cover("reset"); break;
      default: { if (!m[i].on || !m[i].known) return; int32_t v = symi<int32_t>("v");
        switch (sx_choice("how", 4)) {
          case 0: **o[i] = mk(v); m[i].v = v; break;
          case 1: *o[i]->operator->() = mk(v); m[i].v = v; break;
          case 2: { ++extra; { T t = *static_cast<Optional<T> &&>(*o[i]); A(valOf(t) == m[i].v, "the value is moved out"); } --extra; m[i].known = !res; break; }
          default: { ++extra; { T t = **const_cast<const Optional<T> *>(o[i]); A(valOf(t) == m[i].v, "the value is copied out"); } --extra; }
        }
        sx_cover("read"); }
    }
    check();
  }
  void run() {
    fresh(0, sx_choice("first", 4)); if (sx_choice("second", 2)) fresh(1, 1); else fresh(1, 0);
    check(); uint32_t K = sx_param("K", 3); for (uint32_t k = 0; k < K; ++k) step();
    delete o[0]; delete o[1]; A(Obj::alive == 0, "every object is destroyed exactly once"); A(sx_live() == 0, "nothing leaks");
  }
};
extern "C" void h_objects() { Run<Obj> r; r.run(); }
extern "C" void h_step() { Run<Obj> r; r.run(); }
extern "C" void h_ints() { Run<int32_t> r; r.run(); }
struct Two { Obj a; int64_t b; Two() : a{5}, b{6} {} Two(const Obj &x, int64_t y) : a{x}, b{y} {} Two(Obj &&x, int32_t *y) : a{static_cast<Obj &&>(x)}, b{++*y} {} };
extern "C" void h_compound() {
  { int32_t v = symi<int32_t>("v"); int64_t w = symi<int64_t>("w"); Obj x(v);
    Optional<Two> p(x, w); A(p.hasValue() && p->a.val() == v && p->b == w && x.val() == v && Obj::alive == 2, "constructed from its arguments, lvalues are copied");
    Optional<Two> q; A(!q.hasValue(), "a new optional is empty"); q.emplace(); A(q.hasValue() && q->a.val() == 5 && q->b == 6, "emplaced without arguments");
    int32_t k = symi<int32_t>("k"); sx_assume(k < INT32_MAX); int32_t k0 = k; q.emplace(static_cast<Obj &&>(x), &k); A(q->a.val() == v && q->b == (int64_t)k0 + 1 && k == k0 + 1, "rvalues are moved, pointers are passed through"); A(x.moved() && Obj::alive == 3, "rvalues are moved");
    q = p; A(q->a.val() == v && q->b == w && p->a.val() == v && p->b == w, "a copy has the value and leaves the source");
    const Optional<Two> r(q); A(r.hasValue() && r->a.val() == v && (*r).b == w, "reading through a constant optional");
    p.reset(); A(!p.hasValue() && q.hasValue() && r.hasValue() && Obj::alive == 3, "the copies are independent"); p.reset(); A(!p && Obj::alive == 3, "resetting again does nothing"); }
  A(Obj::alive == 0 && sx_live() == 0, "nothing leaks"); sx_cover("done");
}
extern "C" void h_nested() {
  uint32_t K = sx_param("K", 3); int32_t v[8]; uint32_t n = 0;
  { Optional<List<int32>> o, c; if (sx_choice("on", 2)) { o.emplace(); n = sx_choice("n", 3); for (uint32_t i = 0; i < n; ++i) { v[i] = symi<int32_t>("v"); o->pushBack(v[i]); } }
    for (uint32_t k = 0; k < K; ++k) switch (ix("op", 5)) {
      case 0: c = o; break; case 1: { Optional<List<int32>> t(o); c = t; break; }
      case 2: { c = o; Optional<List<int32>> t(static_cast<Optional<List<int32>> &&>(c)); A(t.hasValue() == o.hasValue(), "moved"); if (t) { A(t->getLength() == n, "the list moved along"); uint32_t i = 0; for (auto x : *t) A(x == v[i++], "the list moved along"); } c.reset(); break; }
      case 3: c.reset(); A(!c, "empty after a reset"); break;
      default: c = o; if (c) { c->pushBack(7); A(o->getLength() == n && c->getLength() == n + 1, "copies are independent"); } c.reset();
    }
    if (c) { A(o.hasValue() && c->getLength() == n, "the copy holds the list"); uint32_t i = 0; for (auto x : *c) A(x == v[i++], "the copy holds the list"); } }
  A(sx_live() == 0, "nothing leaks"); sx_cover("done");
}
