// @src hal/memory_base.cpp hal/malloc_ansi.cpp
// @entry h_algebra cover=union,intersection,difference quick:N=3,M=2 thorough:N=4,M=4
// @entry h_compare cover=subset,equal,incomparable quick:N=3,M=3 thorough:N=4,M=4
// @entry h_alias cover=done quick:N=3 thorough:N=5
// @entry h_concrete cover=union,intersection,difference quick:N=5 thorough:N=7
// @entry h_obj cover=done quick:N=3 thorough:N=4
// @entry h_items cover=union,intersection,difference quick:N=4 thorough:N=6
// @entry h_large cover=union,intersection,difference B=1 quick:Z=4 thorough:Z=6
// @bound any two sets of up to N and M arbitrary keys, the first filled in any order; every pair of subsets of 0..N-1 filled in two orders, under an order that also yields other numbers than 1 and -1; a set with itself; resource-owning keys; every pair of subsets of 0..N-1 as items that carry arbitrary other data; pairs of sets of up to 129 (thorough 300) keys in four patterns of overlap, filled in two orders
// @outside bigger sets, comparators that are not strict weak orders
#include "set_model.h"
typedef Set<int8_t> S;
static void fill(S &s, SM &m, uint32_t maxN, bool anyOrder) {
  uint32_t n = sx_choice("n", maxN + 1);
  for (uint32_t i = 0; i < n; ++i) { int8_t k = symi<int8_t>("k"); if (!anyOrder && m.n) sx_assume(k > m.k[m.n - 1]); s.set(k); m.put(k); }
}
static SM uni(const SM &a, const SM &b) { SM r = a; for (uint32_t i = 0; i < b.n; ++i) r.put(b.k[i]); return r; }
static SM inter(const SM &a, const SM &b) { SM r; for (uint32_t i = 0; i < a.n; ++i) if (b.has(a.k[i])) r.k[r.n++] = a.k[i]; return r; }
static SM diff(const SM &a, const SM &b) { SM r; for (uint32_t i = 0; i < a.n; ++i) if (!b.has(a.k[i])) r.k[r.n++] = a.k[i]; return r; }
template<class T, class C> static void algebra(Set<T, C> &a, SM ma, const Set<T, C> &b, const SM &mb) {
  uint32_t op = sx_choice("op", 6); SM r = op % 3 == 0 ? uni(ma, mb) : op % 3 == 1 ? inter(ma, mb) : diff(ma, mb);
  sx_cover(op % 3 == 0 ? "union" : op % 3 == 1 ? "intersection" : "difference");
  if (op < 3) {
    const Set<T, C> &ca = a;
    if (op == 0) same(ca + b, r, "union holds exactly the keys of either set"); else if (op == 1) same(ca * b, r, "intersection holds exactly the common keys"); else same(ca - b, r, "difference holds exactly the keys of the first set only");
    same(a, ma, "the operands are untouched");
  } else {
    Set<T, C> *p = op == 3 ? &(a += b) : op == 4 ? &(a *= b) : &(a -= b);
    A(p == &a, "in-place operators return the target"); same(a, r, op == 3 ? "in-place union" : op == 4 ? "in-place intersection" : "in-place difference");
  }
  same(b, mb, "the operands are untouched");
}
extern "C" void h_algebra() { S a, b; SM ma, mb; fill(a, ma, sx_param("N", 3), true); fill(b, mb, sx_param("M", 3), false); algebra(a, ma, b, mb); }
template<class S> static void cmp(const S &a, const SM &ma, const S &b, const SM &mb) {
  bool sub = diff(ma, mb).n == 0, sup = diff(mb, ma).n == 0;
  A((a == b) == (sub && sup), "equality is mathematical equality"); A((a != b) == !(sub && sup), "inequality is its negation");
  A((a <= b) == sub, "non-strict inclusion"); A((a >= b) == sup, "non-strict reverse inclusion"); A((a < b) == (sub && !sup), "strict inclusion"); A((a > b) == (sup && !sub), "strict reverse inclusion");
  sx_cover(sub && sup ? "equal" : sub || sup ? "subset" : "incomparable");
}
extern "C" void h_compare() { S a, b; SM ma, mb; fill(a, ma, sx_param("N", 3), false); fill(b, mb, sx_param("M", 3), false); cmp(a, ma, b, mb); }
extern "C" void h_alias() {
  S a; SM m, e; fill(a, m, sx_param("N", 3), true);
  switch (sx_choice("op", 4)) { case 0: a += a; same(a, m, "union with itself"); break; case 1: a *= a; same(a, m, "intersection with itself"); break; case 2: a -= a; same(a, e, "difference with itself is empty"); break;
    default: same(a + a, m, "union with itself"); same(a * a, m, "intersection with itself"); same(a - a, e, "difference with itself is empty"); cmp(a, m, a, m); same(a, m, "the operands are untouched"); }
  sx_cover("done");
}
extern "C" void h_concrete() {
  uint32_t N = sx_param("N", 5); Set<int8_t, Diff> a, b; SM ma, mb; bool rev = sx_choice("rev", 2);
  for (uint32_t i = 0; i < N; ++i) { uint32_t x = rev ? N - 1 - i : i; uint32_t w = sx_choice("in", 4); if (w & 1) { a.set((int8_t)x); ma.put(x); } if (w & 2) { b.set((int8_t)x); mb.put(x); } }
  cmp(a, ma, b, mb); algebra(a, ma, b, mb);
}
extern "C" void h_obj() {
  uint32_t N = sx_param("N", 3);
  { Set<Obj> a, b; SM ma, mb;
    for (uint32_t i = 0; i < N; ++i) { uint32_t w = sx_choice("in", 4); if (w & 1) { a.set(Obj((int32_t)i)); ma.put(i); } if (w & 2) { b.set(Obj((int32_t)i)); mb.put(i); } }
    algebra(a, ma, b, mb); A(Obj::alive == (int64_t)(a.getCount() + mb.n), "exactly the contained keys are alive"); }
  A(Obj::alive == 0 && sx_live() == 0, "nothing leaks"); sx_cover("done");
}
// Items that are equal as far as the order goes, and yet not the same: the first operand's stay.
struct Item { int8_t k; int32_t p; Item(int8_t a = 0, int32_t b = 0) : k(a), p(b) {} bool operator<(const Item &o) const { return k < o.k; } bool operator>(const Item &o) const { return k > o.k; } };
static void items(const Set<Item> &s, const bool *in, const int32_t *p, uint32_t N, const char *what) {
  uint32_t j = 0; for (auto it = s.begin(); it != s.end() && j < N; ++it, ++j) { while (j < N && !in[j]) ++j; A(j < N, what); if (j < N) A((*it).k == (int8_t)j && (*it).p == p[j], what); }
  while (j < N && !in[j]) ++j; A(j == N, what); uint32_t c = 0; for (uint32_t i = 0; i < N; ++i) c += in[i]; A(s.getCount() == c, what);
}
extern "C" void h_items() {
  const uint32_t N = sx_param("N", 4); Set<Item> a, b; bool ia[8] = {}, ib[8] = {}, ir[8] = {}; int32_t pa[8], pb[8], pr[8];
  for (uint32_t i = 0; i < N; ++i) { uint32_t w = sx_choice("in", 4); pa[i] = symi<int32_t>("pa"); pb[i] = symi<int32_t>("pb"); if (w & 1) { a.set(Item((int8_t)i, pa[i])); ia[i] = true; } if (w & 2) { b.set(Item((int8_t)i, pb[i])); ib[i] = true; } }
  uint32_t op = sx_choice("op", 3); sx_cover(op == 0 ? "union" : op == 1 ? "intersection" : "difference");
  for (uint32_t i = 0; i < N; ++i) { pr[i] = ia[i] ? pa[i] : pb[i]; ir[i] = op == 0 ? ia[i] || ib[i] : op == 1 ? ia[i] && ib[i] : ia[i] && !ib[i]; }
  const Set<Item> &ca = a, &cb = b;
  if (sx_choice("place", 2)) { if (op == 0) a += cb; else if (op == 1) a *= cb; else a -= cb; items(a, ir, pr, N, "the items of the first set stay, those only in the second are added as they are"); }
  else { items(op == 0 ? ca + cb : op == 1 ? ca * cb : ca - cb, ir, pr, N, "the items of the first set stay, those only in the second are added as they are"); items(a, ia, pa, N, "the operands are untouched"); }
  items(b, ib, pb, N, "the operands are untouched");
}
extern "C" void h_large() {
  Set<int32_t> a, b; SM ma, mb; uint32_t n = largeSize(), pat = sx_choice("pattern", 8); bool rev = sx_choice("rev", 2);
  for (uint32_t j = 0; j < n; ++j) { uint32_t i = rev ? n - 1 - j : j; uint32_t w = pat == 0 ? 1 + i % 3 : pat == 1 ? (i < n / 2 ? 1 : 2) : pat == 2 ? (i < n / 3 ? 1 : i < 2 * n / 3 ? 3 : 2) : pat == 3 ? (i == n - 1 ? 1 : 3) : pat == 4 ? (i == n - 1 ? 2 : 3) : pat == 5 ? (i * 7 % 11 < 5 ? 3 : 2) : pat == 6 ? (i == 0 ? 2 : 1) : 3;
    if (w & 1) { a.set((int32_t)i); ma.put(i); } if (w & 2) { b.set((int32_t)i); mb.put(i); } }
  cmp(a, ma, b, mb); algebra(a, ma, b, mb);
}
