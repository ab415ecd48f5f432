// @src hal/memory_base.cpp hal/malloc_ansi.cpp
// @entry h_tuple cover=one,many,nested
// @entry h_tuple_objects cover=done
// @entry h_pair cover=done
// @entry h_pair_objects cover=done
// @entry h_static cover=list,buffer,make,default quick:N=7 thorough:N=8
// @entry h_static_objects cover=done
// @entry h_to_array cover=done
// @entry h_compare cover=ints,unsigned,objects,pointers
// @entry h_wide cover=done
// @bound tuples of 1 to 6 and of 9 items of mixed types (repeated types, pointers, references held as pointers, resource-owning items, nested tuples), pairs and static arrays of up to 300 elements with arbitrary values; copies, moves and assignments of each; every pair of keys and values for the comparisons
// @outside larger arities, floating-point NaN keys
#include "sx.h"
#include "elem.h"
#include "core_types.h"
#include "hal/malloc_ansi.h"
#include "containers/tuple.h"
#include "containers/pair.h"
#include "containers/array.h"
#include "templates/array.h"
#include "templates/functional.h"
template<class T> static T &&mv(T &t) { return static_cast<T &&>(t); }
extern "C" void h_tuple() {
  int32_t a = symi<int32_t>("a"); int64_t b = symi<int64_t>("b"); uint8_t c = symi<uint8_t>("c"); int16_t d = symi<int16_t>("d"); int32_t e = symi<int32_t>("e"); int32_t *p = &a;
  switch (sx_choice("kind", 3)) {
    case 0: { Tuple<int64_t> t(b); A(t.get<0>() == b && t.get<int64_t>() == b && t.getCount() == 1 && t.getLength() == 1 && t.getSize() == 1, "one item"); Tuple<int64_t> u(t), v; v = u; A(v.get<0>() == b, "copies hold the item"); u.get<0>() = e; A(t.get<0>() == b && u.get<int64_t>() == e && v.get<0>() == b, "copies are independent"); sx_cover("one"); break; }
    case 1: { Tuple<int32_t, int64_t, uint8_t, int16_t, int32_t *, int32_t> t(a, b, c, d, p, e);
      A(t.get<0>() == a && t.get<1>() == b && t.get<2>() == c && t.get<3>() == d && t.get<4>() == p && t.get<5>() == e, "every item is at its position");
      A(t.get<int32_t>() == a && t.get<int64_t>() == b && t.get<uint8_t>() == c && t.get<int16_t>() == d && t.get<int32_t *>() == p, "access by type gives the first item of that type");
      const auto u(t); A(u.get<0>() == a && u.get<1>() == b && u.get<2>() == c && u.get<3>() == d && u.get<4>() == p && u.get<5>() == e && u.get<int32_t>() == a && u.get<int64_t>() == b && u.get<int16_t>() == d, "a constant copy holds the same items");
      A(u.getCount() == 6 && u.getLength() == 6 && u.getSize() == 6, "the number of items");
      A(&t.get<0>() == &t.get<int32_t>() && &t.get<1>() == &t.get<int64_t>(), "both accesses give the item itself");
      int32_t x = symi<int32_t>("x"); t.get<5>() = x; A(t.get<0>() == a && t.get<1>() == b && t.get<2>() == c && t.get<3>() == d && t.get<4>() == p && t.get<5>() == x, "writing an item changes no other");
      t.get<int64_t>() = x; A(t.get<0>() == a && t.get<1>() == x && t.get<2>() == c && t.get<5>() == x, "writing an item changes no other");
      t = u; A(t.get<0>() == a && t.get<1>() == b && t.get<5>() == e && t.get<4>() == p, "assignment copies every item"); Tuple<int32_t, int64_t, uint8_t, int16_t, int32_t *, int32_t> w(mv(t)); A(w.get<0>() == a && w.get<1>() == b && w.get<2>() == c && w.get<3>() == d && w.get<4>() == p && w.get<5>() == e, "moving keeps every item"); sx_cover("many"); break; }
    default: { Tuple<int32_t, Tuple<uint8_t, int64_t>, Tuple<int16_t>> t(a, Tuple<uint8_t, int64_t>(c, b), Tuple<int16_t>(d)); A(t.get<0>() == a && t.get<1>().get<0>() == c && t.get<1>().get<1>() == b && t.get<2>().get<0>() == d && t.getCount() == 3 && t.get<1>().getCount() == 2, "nested tuples"); auto u = t; A(u.get<1>().get<1>() == b && u.get<2>().get<0>() == d && u.get<0>() == a, "nested tuples are copied"); sx_cover("nested"); }
  }
}
extern "C" void h_tuple_objects() {
  int32_t v = symi<int32_t>("v"), w = symi<int32_t>("w"), k = symi<int32_t>("k");
  { Obj a(v), b(w); Tuple<Obj, int32_t, Obj> t(a, k, mv(b)); A(a.val() == v && b.moved(), "lvalues are copied and rvalues moved"); A(t.get<0>().val() == v && t.get<1>() == k && t.get<2>().val() == w && Obj::alive == 4, "every item is at its position");
    const auto c(t); A(c.get<0>().val() == v && c.get<1>() == k && c.get<2>().val() == w && Obj::alive == 6, "copies hold equal items");
    t.get<0>() = Obj(k); A(c.get<0>().val() == v && t.get<0>().val() == k && t.get<Obj>().val() == k, "copies are independent");
    t = c; A(t.get<0>().val() == v && t.get<2>().val() == w && c.get<0>().val() == v && Obj::alive == 6, "assignment copies every item");
    Tuple<Obj, int32_t, Obj> m(mv(t)); A(m.get<0>().val() == v && m.get<1>() == k && m.get<2>().val() == w && t.get<0>().moved() && t.get<2>().moved(), "moving takes every item");
    t = mv(m); A(t.get<0>().val() == v && t.get<1>() == k && t.get<2>().val() == w, "move assignment takes every item"); Tuple<Obj, int32_t, Obj> d; A(d.get<0>().val() == 0 && d.get<2>().val() == 0, "default items"); }
  A(Obj::alive == 0 && sx_live() == 0, "nothing leaks"); sx_cover("done");
}
typedef Pair<int32_t, int64_t, ThreeWayCompare> P;
struct Far { int32_t operator()(uint8_t a, uint8_t b) const { return 2 * ((int32_t)a - b); } }; // not only 1 and -1
extern "C" void h_pair() {
  int32_t a = symi<int32_t>("a"), b = symi<int32_t>("b"); int64_t x = symi<int64_t>("x"), y = symi<int64_t>("y");
  P p(a, x), q(b, y); A(p.first == a && p.second == x && p.getKey() == a && p.getVal() == x, "a pair holds its key and value");
  const P r(p); A(r.getKey() == a && r.getVal() == x && &r.getVal() == &r.second && &r.getKey() == &r.first, "a copy holds the same key and value");
  A((p == q) == (a == b) && (p != q) == (a != b) && (p < q) == (a < b) && (p > q) == (a > b) && (p <= q) == (a <= b) && (p >= q) == (a >= b), "pairs compare by their keys");
  A(r == p && !(r != p) && !(r < p) && !(r > p) && r <= p && r >= p, "a copy compares equal");
  P::FindPair f; int32 s = f(p, q), t = f(p, b), u = f(a, q); int want = (a > b) - (a < b); A(s == want && t == want && u == want, "key comparison looks at keys only");
  p.getVal() = y; A(p.second == y && p.first == a && r.second == x, "writing the value"); p = q; A(p.first == b && p.second == y && q.first == b && q.second == y, "assignment copies key and value");
  Pair<uint8_t, int16_t, Far> m((uint8_t)a, (int16_t)x), n((uint8_t)b, (int16_t)y); A((m > n) == ((uint8_t)a > (uint8_t)b) && (m <= n) == ((uint8_t)a <= (uint8_t)b) && (m >= n) == ((uint8_t)a >= (uint8_t)b) && (m != n) == ((uint8_t)a != (uint8_t)b), "unsigned keys"); A((m < n) == ((uint8_t)a < (uint8_t)b) && (m == n) == ((uint8_t)a == (uint8_t)b), "unsigned keys"); A(m.getKey() == (uint8_t)a && m.getVal() == (int16_t)x, "a pair holds its key and value");
  Pair<int32_t, int32_t> z(a, b); A(z.first == a && z.second == b, "a pair without comparison"); sx_cover("done");
}
extern "C" void h_pair_objects() {
  int32_t v = symi<int32_t>("v"), w = symi<int32_t>("w"), k = symi<int32_t>("k");
  { typedef Pair<Obj, Obj, ThreeWayCompare> PO; Obj a(v), b(w); PO p(a, mv(b)); A(a.val() == v && b.moved() && p.getKey().val() == v && p.getVal().val() == w && Obj::alive == 4, "lvalues are copied and rvalues moved");
    PO q(p); q.getVal() = Obj(k); A(p.getVal().val() == w && q.getVal().val() == k && q.getKey().val() == v && p == q && p.getKey().val() == v, "copies are independent");
    PO r(mv(p)); A(r.first.val() == v && r.second.val() == w && p.first.moved() && p.second.moved(), "moving takes key and value"); p = r; A(p.first.val() == v && p.second.val() == w, "assignment copies key and value"); PO s{Obj(k), Obj(v)}; A((r < s) == (v < k) && (r == s) == (v == k) && (s < r) == (k < v) && (r <= s) == (v <= k), "pairs compare by their keys"); }
  A(Obj::alive == 0 && sx_live() == 0, "nothing leaks"); sx_cover("done");
}
template<uint64 n> static void staticArray() {
  typedef StaticArray<int32_t, n> S; int32_t v[n]; for (uint64 i = 0; i < n; ++i) v[i] = symi<int32_t>("v");
  auto holds = [&](const S &s, const int32_t *w) { A(s.getCount() == n, "the number of elements"); for (uint64 i = 0; i < n; ++i) A(s[i] == w[i] && (*s)[i] == w[i] && *s + i == &s[i], "every element is at its position"); };
  int32_t zero[n] = {};
  { S d; holds(d, zero); sx_cover("default"); }
  const int32_t *src = v; S s(src); holds(s, v); sx_cover("buffer");
  S t = makeStaticArray(v); holds(t, v); sx_cover("make");
  S u(s); holds(u, v); const S c(u); holds(c, v); S w(c); holds(w, v);
  uint32_t i = sx_pick("i", n); int32_t x = symi<int32_t>("x"); u[i] = x; int32_t m[n]; for (uint64 k = 0; k < n; ++k) m[k] = k == i ? x : v[k]; holds(u, m); holds(s, v);
  (*t)[i] = x; holds(t, m); s = u; holds(s, m); holds(u, m); S y(mv(u)); holds(y, m); w = mv(y); holds(w, m); holds(c, v);
}
extern "C" void h_static() {
  switch (sx_choice("n", 5)) { case 0: staticArray<1>(); break; case 1: staticArray<2>(); break; case 2: staticArray<3>(); break; case 3: staticArray<5>(); break; default: staticArray<8>(); }
  int32_t a = symi<int32_t>("a"), b = symi<int32_t>("b"), c = symi<int32_t>("c");
  StaticArray<int32_t, 3> s(a, b, c); A(s[0] == a && s[1] == b && s[2] == c, "the listed elements"); StaticArray<int32_t, 5> t(a, b); A(t[0] == a && t[1] == b && t[2] == 0 && t[4] == 0 && t.getCount() == 5, "elements not listed are zero"); StaticArray<int32_t, 1> u(a); A(u[0] == a, "a single element"); sx_cover("list");
}
extern "C" void h_static_objects() {
  int32_t v = symi<int32_t>("v"), w = symi<int32_t>("w");
  { Obj a(v), b(w); StaticArray<Obj, 3> s(a, mv(b)); A(a.val() == v && b.moved() && s[0].val() == v && s[1].val() == w && s[2].val() == 0 && Obj::alive == 5, "the listed elements"); StaticArray<Obj, 3> t(s); t[0] = Obj(w); A(s[0].val() == v && t[0].val() == w && t[1].val() == w && Obj::alive == 8, "copies are independent"); StaticArray<Obj, 3> u(mv(t)); A(u[0].val() == w && t[0].moved(), "moving takes every element"); s = u; A(s[0].val() == w && s[1].val() == w && u[0].val() == w, "assignment copies every element"); const Obj src[2] = {Obj(v), Obj(w)}; StaticArray<Obj, 2> x(src); A(x[0].val() == v && x[1].val() == w && src[0].val() == v, "copied from a buffer"); }
  A(Obj::alive == 0 && sx_live() == 0, "nothing leaks"); sx_cover("done");
}
extern "C" void h_to_array() {
  int32_t v[4]; for (int i = 0; i < 4; ++i) v[i] = symi<int32_t>("v");
  { StaticArray<int32_t, 4> s = makeStaticArray(v); Array<int32_t> a(s); A(a.getCount() == 4, "the length of the converted array"); for (int i = 0; i < 4; ++i) A(a[i] == v[i], "conversion keeps every element and its order"); a[1] = 0; A(s[1] == v[1], "the source is unchanged"); Array<int32_t> e(StaticArray<int32_t, 2>(v[2], v[3])); A(e.getCount() == 2 && e[0] == v[2] && e[1] == v[3], "conversion keeps every element and its order"); }
  A(sx_live() == 0, "nothing leaks"); sx_cover("done");
}
extern "C" void h_compare() {
  ThreeWayCompare c; NullCompare z;
  switch (sx_choice("kind", 4)) {
    case 0: { int64_t a = symi<int64_t>("a"), b = symi<int64_t>("b"); A(c(a, b) == (a > b ? 1 : a < b ? -1 : 0), "1 if greater, -1 if smaller, 0 otherwise"); A(c(a, 5) == (a > 5 ? 1 : a < 5 ? -1 : 0) && c(int8_t(b), a) == ((int8_t)b > a ? 1 : (int8_t)b < a ? -1 : 0), "of different types"); A(z(a, b) == 0, "the null comparison is always zero"); sx_cover("ints"); break; }
    case 1: { uint32_t a = symi<uint32_t>("a"), b = symi<uint32_t>("b"); const uint32_t x = a; A(c(x, b) == (a > b ? 1 : a < b ? -1 : 0) && c(b, x) == -c(a, b), "1 if greater, -1 if smaller, 0 otherwise"); sx_cover("unsigned"); break; }
    case 2: { int32_t v = symi<int32_t>("v"), w = symi<int32_t>("w"); { Obj a(v); const Obj b(w); A(c(a, b) == (v > w ? 1 : v < w ? -1 : 0) && c(b, a) == (w > v ? 1 : w < v ? -1 : 0) && c(a, a) == 0 && z(a, b) == 0, "1 if greater, -1 if smaller, 0 otherwise"); } A(sx_live() == 0, "nothing leaks"); sx_cover("objects"); break; }
    default: { int32_t v = symi<int32_t>("v"), w = symi<int32_t>("w"); const int32_t *p = &v, *q = &w; A(c(p, q) == (v > w ? 1 : v < w ? -1 : 0) && c(p, p) == 0 && z(p, q) == 0, "pointers to constants compare by what they point to"); sx_cover("pointers"); }
  }
}

template<uint64 n> static void wideArray() {
  typedef StaticArray<int32_t, n> S; int32_t v[n]; for (uint64 i = 0; i < n; ++i) v[i] = i % 16 ? (int32_t)(i * 37) : symi<int32_t>("v");
  auto holds = [&](const S &s) { A(s.getCount() == n, "the number of elements"); for (uint64 i = 0; i < n; ++i) A(s[i] == v[i] && (*s)[i] == v[i], "every element is at its position"); };
  const int32_t *src = v; S s(src); holds(s); S t = makeStaticArray(v); holds(t); S u(s), w; for (uint64 i = 0; i < n; ++i) A(w[i] == 0, "default elements are zero"); w = u; holds(u); holds(w); S x(mv(u)); holds(x); w = mv(x); holds(w);
  { Array<int32_t> a(w); A(a.getCount() == n, "the length of the converted array"); for (uint64 i = 0; i < n; ++i) A(a[i] == v[i], "conversion keeps every element and its order"); }
}
extern "C" void h_wide() {
  switch (sx_choice("kind", 6)) { case 0: wideArray<17>(); break; case 1: wideArray<64>(); break; case 2: wideArray<129>(); break; case 3: wideArray<257>(); break; case 4: wideArray<300>(); break;
    default: { int32_t v[9]; for (int i = 0; i < 9; ++i) v[i] = symi<int32_t>("v"); typedef Tuple<int32_t, int8_t, int32_t, int64_t, int16_t, int32_t, uint8_t, int32_t, int64_t> T; T t(v[0], (int8_t)v[1], v[2], (int64_t)v[3], (int16_t)v[4], v[5], (uint8_t)v[6], v[7], (int64_t)v[8]); T u(t), w; w = u; T x(mv(u));
      auto ok = [&](const T &t) { A(t.template get<0>() == v[0] && t.template get<1>() == (int8_t)v[1] && t.template get<2>() == v[2] && t.template get<3>() == v[3] && t.template get<4>() == (int16_t)v[4] && t.template get<5>() == v[5] && t.template get<6>() == (uint8_t)v[6] && t.template get<7>() == v[7] && t.template get<8>() == v[8] && t.getCount() == 9, "every item is at its position"); A(&t.template get<uint8_t>() == &t.template get<6>() && &t.template get<int64_t>() == &t.template get<3>(), "access by type gives the first item of that type"); }; ok(t); ok(w); ok(x); } }
  A(sx_live() == 0, "nothing leaks"); sx_cover("done");
}
