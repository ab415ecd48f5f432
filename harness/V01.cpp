// @src math/math.cpp
// @entry h_int cover=v2,v3,v4
// @entry h_uint cover=v2,v3,v4
// @entry h_long cover=v2,v3,v4
// @entry h_float cover=v2,v3,v4
// @entry h_double cover=v2,v3,v4
// @entry h_convert cover=done
// @entry h_constants cover=done
// @bound 2-, 3- and 4-component vectors; every value of int32, uint32, int64, float32 and float64 components (bit-precise, NaN and infinities included); every operator in every form, with the operands distinct, equal, the same object and one of the components
// @outside components of 8 and 16 bits (their operators do not compile), integer division by zero and of the least value by -1, floats cast to integers that cannot hold them
// @assume results that are both NaN are equal whatever their payload
#include "vec_run.h"
template<class T> static T ap(uint32_t op, T a, T b) { switch (op) { case 0: return a + b; case 1: return a - b; case 2: return a * b; default: return a / b; } }
template<class T> static bool divides(T a, T b) { if (IsFloat<T>::value) return true; return b != 0 && !((T)-1 < (T)0 && b == (T)-1); }
template<class V> static void ops(const char *label) {
  using O = Of<V>; using T = typename O::T; const int N = O::N;
  uint32_t op = sx_choice("op", 4), form = sx_choice("form", 9);
  T a[4], b[4], s{};
  for (int i = 0; i < N; ++i) { a[i] = In<T>::get("a"); b[i] = a[i]; }
  bool scalar = form >= 2 && form < 5, self = form >= 5; uint32_t own = 0;
  if (form < 2) for (int i = 0; i < N; ++i) b[i] = In<T>::get("b");
  if (scalar) { s = In<T>::get("s"); for (int i = 0; i < N; ++i) b[i] = s; }
  if (form == 8) { own = sx_choice("own", N); s = a[own]; for (int i = 0; i < N; ++i) b[i] = s; }
  if (op == 3) for (int i = 0; i < N; ++i) sx_assume(form == 4 ? divides(b[i], a[i]) : divides(a[i], b[i]));
  const V u = O::make(a), w = O::make(b); V r, x = u; V *ret = nullptr;
  switch (form) {
    case 0: switch (op) { case 0: r = u + w; break; case 1: r = u - w; break; case 2: r = u * w; break; default: r = u / w; } break;
    case 1: switch (op) { case 0: ret = &(x += w); break; case 1: ret = &(x -= w); break; case 2: ret = &(x *= w); break; default: ret = &(x /= w); } break;
    case 2: switch (op) { case 0: r = u + s; break; case 1: r = u - s; break; case 2: r = u * s; break; default: r = u / s; } break;
    case 3: switch (op) { case 0: ret = &(x += s); break; case 1: ret = &(x -= s); break; case 2: ret = &(x *= s); break; default: ret = &(x /= s); } break;
    case 4: switch (op) { case 0: r = s + u; break; case 1: r = s - u; break; case 2: r = s * u; break; default: r = s / u; } break;
    case 5: switch (op) { case 0: r = u + u; break; case 1: r = u - u; break; case 2: r = u * u; break; default: r = u / u; } break;
    case 6: switch (op) { case 0: ret = &(x += x); break; case 1: ret = &(x -= x); break; case 2: ret = &(x *= x); break; default: ret = &(x /= x); } break;
    case 8: { T &c = x[(int32)own]; switch (op) { case 0: ret = &(x += c); break; case 1: ret = &(x -= c); break; case 2: ret = &(x *= c); break; default: ret = &(x /= c); } break; } // one of its own components
    default: r = -u;
  }
  if (ret) { A(ret == &x, "a compound operator returns the vector it changed"); r = x; }
  for (int i = 0; i < N; ++i) {
    if (form == 7) { same(O::at(r, i), (T)-a[i], "the opposite vector has the opposite components"); continue; }
    same(O::at(r, i), form == 4 ? ap<T>(op, s, a[i]) : ap<T>(op, a[i], b[i]), "every component is the operation applied to the operands' components");
    same(O::at(u, i), a[i], "the left operand is unchanged"); same(O::at(w, i), b[i], "the right operand is unchanged");
  }
  sx_cover(label);
}
template<class T> static void all() { switch (sx_choice("dim", 3)) { case 0: ops<Vec2<T>>("v2"); break; case 1: ops<Vec3<T>>("v3"); break; default: ops<Vec4<T>>("v4"); } }
extern "C" void h_int() { all<int32>(); }
extern "C" void h_uint() { all<uint32>(); }
extern "C" void h_long() { all<int64>(); }
extern "C" void h_float() { all<float32>(); }
extern "C" void h_double() { all<float64>(); }

template<class V> static void is(const V &v, const typename Of<V>::T *c, const char *m) {
  using O = Of<V>;
  for (int i = 0; i < O::N; ++i) { same(O::at(v, i), c[i], m); same(v[i], c[i], "indexing reads the component"); same(v.array[i], c[i], "the array holds the components"); }
}
template<class V, class W> static void casts() { // W: same size, other component type
  using O = Of<V>; using T = typename O::T; using U = typename Of<W>::T; T c[4]; U d[4];
  for (int i = 0; i < O::N; ++i) {
    c[i] = In<T>::get("c");
    if (IsFloat<T>::value && !IsFloat<U>::value) sx_assume(c[i] > (T)-1 && c[i] < (T)2147483000);
    d[i] = (U)c[i];
  }
  W w = O::make(c); is(w, d, "a cast converts every component");
}
template<class T> static void construct() {
  T c[4], z[4] = {}, s[4]; for (int i = 0; i < 4; ++i) { c[i] = In<T>::get("c"); s[i] = c[0]; }
  switch (sx_choice("ctor", 15)) {
    case 0: is(Vec2<T>{}, z, "a default vector is zero"); is(Vec3<T>{}, z, "a default vector is zero"); is(Vec4<T>{}, z, "a default vector is zero"); break;
    case 1: is(Vec2<T>{c[0], c[1]}, c, "components are placed in order"); break;
    case 2: is(Vec3<T>{c[0], c[1], c[2]}, c, "components are placed in order"); break;
    case 3: is(Vec4<T>{c[0], c[1], c[2], c[3]}, c, "components are placed in order"); break;
    case 4: is(Vec2<T>(c[0]), s, "a scalar fills the vector"); break;
    case 5: is(Vec3<T>(c[0]), s, "a scalar fills the vector"); break;
    case 6: is(Vec4<T>(c[0]), s, "a scalar fills the vector"); break;
    case 7: is(Vec3<T>(Vec2<T>{c[0], c[1]}, c[2]), c, "a component is appended"); break;
    case 8: is(Vec4<T>(Vec3<T>{c[0], c[1], c[2]}, c[3]), c, "a component is appended"); break;
    case 9: c[3] = T(0); is(Vec4<T>(Vec3<T>{c[0], c[1], c[2]}), c, "a widened vector ends in zero"); break;
    case 10: { Vec3<T> v = Vec4<T>{c[0], c[1], c[2], c[3]}; is(v, c, "the fourth component is dropped"); break; }
    case 11: { Vec2<T> v{c[0], c[1]}; same(v.u, c[0], "texture names"); same(v.v, c[1], "texture names"); break; }
    case 12: { Vec3<T> v{c[0], c[1], c[2]}; same(v.r, c[0], "colour names"); same(v.g, c[1], "colour names"); same(v.b, c[2], "colour names"); break; }
    case 13: { int k = sx_choice("k", 4), d = sx_choice("d", 3); T n = In<T>::get("n"); // writing one component through an index
      if (d == 0 && k < 2) { Vec2<T> v{c[0], c[1]}; v[k] = n; c[k] = n; is(v, c, "writing one component changes that one"); }
      if (d == 1 && k < 3) { Vec3<T> v{c[0], c[1], c[2]}; v[k] = n; c[k] = n; is(v, c, "writing one component changes that one"); }
      if (d == 2) { Vec4<T> v{c[0], c[1], c[2], c[3]}; v[k] = n; c[k] = n; is(v, c, "writing one component changes that one"); }
      break; }
    default: { Vec2<T> a{c[0], c[1]}, a2{a}; a = Vec2<T>{}; is(a2, c, "copies are independent"); Vec3<T> b{c[0], c[1], c[2]}, b2; b2 = b; b = Vec3<T>{}; is(b2, c, "copies are independent");
      Vec4<T> d{c[0], c[1], c[2], c[3]}, d2{d}; d = d2; d = Vec4<T>{}; is(d2, c, "copies are independent"); }
  }
}
extern "C" void h_convert() {
  switch (sx_choice("type", 12)) {
    case 0: construct<int32>(); break; case 1: construct<uint32>(); break; case 2: construct<int64>(); break; case 3: construct<float32>(); break; case 4: construct<float64>(); break;
    case 5: construct<uint8>(); break; case 6: construct<int16>(); break;
    case 7: casts<Vec2<float32>, Vec2<int32>>(); casts<Vec3<float32>, Vec3<uint32>>(); casts<Vec4<float32>, Vec4<int32>>(); break;
    case 8: casts<Vec2<int32>, Vec2<float32>>(); casts<Vec3<int32>, Vec3<float64>>(); casts<Vec4<uint32>, Vec4<float32>>(); break;
    case 9: casts<Vec2<int32>, Vec2<uint8>>(); casts<Vec3<int64>, Vec3<int32>>(); casts<Vec4<uint8>, Vec4<int32>>(); break;
    case 10: casts<Vec2<int32>, Vec2<int64>>(); casts<Vec3<int8>, Vec3<int64>>(); casts<Vec4<int64>, Vec4<int16>>(); break;
    default: casts<Vec2<float32>, Vec2<float64>>(); casts<Vec3<float64>, Vec3<float32>>(); casts<Vec4<float64>, Vec4<int32>>();
  }
  sx_cover("done");
}
extern "C" void h_constants() {
  using V = Vec3<float32>; const V *k[] = {&V::zero, &V::unit, &V::right, &V::left, &V::up, &V::down, &V::forward, &V::backward};
  const float32 x[8][3] = {{0, 0, 0}, {1, 1, 1}, {1, 0, 0}, {-1, 0, 0}, {0, 1, 0}, {0, -1, 0}, {0, 0, 1}, {0, 0, -1}};
  uint32_t i = sx_choice("constant", 8); is(*k[i], x[i], "a predefined vector has its named value"); sx_cover("done");
}
