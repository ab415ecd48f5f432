// @entry h_int cover=v2,v3,v4 MERGE=1
// @entry h_uint cover=v2,v3,v4 MERGE=1
// @entry h_long cover=v2,v3,v4 MERGE=1
// @entry h_byte cover=v2,v3,v4 MERGE=1
// @entry h_float cover=v2,v3,v4 MERGE=1
// @entry h_double cover=v2,v3,v4 MERGE=1
// @bound 2-, 3- and 4-component vectors; every value of uint8, int32, uint32, int64, float32 and float64 components (bit-precise, NaN and infinities included); all six masks and all six operators
// @outside other component types
#include "vec_run.h"
template<class T> static bool rel(uint32_t r, T a, T b) { switch (r) { case 0: return a == b; case 1: return a != b; case 2: return a < b; case 3: return a > b; case 4: return a <= b; default: return a >= b; } }
template<class V> static void cmp(const char *label) {
  using O = Of<V>; using T = typename O::T; const int N = O::N; T a[4], b[4];
  uint32_t r = sx_choice("relation", 6); bool same = sx_choice("same", 2);
  for (int i = 0; i < N; ++i) { a[i] = In<T>::get("a"); b[i] = same ? a[i] : In<T>::get("b"); }
  const V u = O::make(a), w0 = O::make(b); const V &w = same ? u : w0; int32 mask; bool all;
  switch (r) {
    case 0: mask = u.cmpeq(w); all = u == w; break; case 1: mask = u.cmpne(w); all = u != w; break; case 2: mask = u.cmplt(w); all = u < w; break;
    case 3: mask = u.cmpgt(w); all = u > w; break; case 4: mask = u.cmple(w); all = u <= w; break; default: mask = u.cmpge(w); all = u >= w;
  }
  int32 want = 0; uint32_t every = 1;
  for (int i = 0; i < N; ++i) { uint32_t t = rel<T>(r, a[i], b[i]); want |= (int32)(t << i); every &= t; }
  A(mask == want, "bit i of the mask tells whether the relation holds for component i");
  A((uint32_t)all == every, "a comparison holds exactly when it holds for every component");
  for (int i = 0; i < N; ++i) if (!IsFloat<T>::value) { A(O::at(u, i) == a[i], "operands are unchanged"); A(O::at(w, i) == b[i], "operands are unchanged"); }
  sx_cover(label);
}
template<class T> static void all() { switch (sx_choice("dim", 3)) { case 0: cmp<Vec2<T>>("v2"); break; case 1: cmp<Vec3<T>>("v3"); break; default: cmp<Vec4<T>>("v4"); } }
extern "C" void h_int() { all<int32>(); }
extern "C" void h_uint() { all<uint32>(); }
extern "C" void h_long() { all<int64>(); }
extern "C" void h_byte() { all<uint8>(); }
extern "C" void h_float() { all<float32>(); }
extern "C" void h_double() { all<float64>(); }
