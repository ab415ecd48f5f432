// @src math/math.cpp
// @entry h_int cover=v2,v3,v4
// @entry h_uint cover=v2,v3,v4
// @entry h_long cover=v2,v3,v4
// @entry h_size real cover=v2,v3,v4
// @entry h_cross real cover=v2,v3
// @entry h_float cover=done
// @bound 2-, 3- and 4-component vectors; dot, cross and squared length exactly for every value of int32, uint32 and int64 components (modulo the type's range); lengths, normalisation and the geometric laws for every real component of float vectors
// @outside rounding of float32 (the float entries treat components as real numbers), lengths of integer vectors (documented as unavailable)
// @assume float arithmetic is exact (real numbers), the square root of a non-negative x is the r >= 0 with r * r = x
#include "vec_run.h"
template<class V> static void ints(const char *label) {
  using O = Of<V>; using T = typename O::T; const int N = O::N; T a[4], b[4];
  for (int i = 0; i < N; ++i) { a[i] = In<T>::get("a"); b[i] = In<T>::get("b"); }
  const V u = O::make(a), w = O::make(b); T dot = 0, sq = 0;
  for (int i = 0; i < N; ++i) { dot += a[i] * b[i]; sq += a[i] * a[i]; }
  A((u & w) == dot, "the dot product is the sum of the products of components");
  A(u.getSquaredSize() == sq, "the squared length is the sum of the squares");
  if constexpr (N < 4) {
    Vec3<T> c = u ^ w; T x = 0, y = 0;
    if constexpr (N == 3) { x = a[1] * b[2] - a[2] * b[1]; y = a[2] * b[0] - a[0] * b[2]; }
    A(c.x == x, "x of the cross product"); A(c.y == y, "y of the cross product"); A(c.z == a[0] * b[1] - a[1] * b[0], "z of the cross product");
  }
  sx_cover(label);
}
template<class T> static void all() { switch (sx_choice("dim", 3)) { case 0: ints<Vec2<T>>("v2"); break; case 1: ints<Vec3<T>>("v3"); break; default: ints<Vec4<T>>("v4"); } }
extern "C" void h_int() { all<int32>(); }
extern "C" void h_uint() { all<uint32>(); }
extern "C" void h_long() { all<int64>(); }
template<class V> static void size(const char *label) {
  using O = Of<V>; const int N = O::N; float a[4], b[4]; float sq = 0, dot = 0, d2 = 0; bool zero = true;
  for (int i = 0; i < N; ++i) { a[i] = sx_symf("a"); b[i] = sx_symf("b"); sx_assume(a[i] >= -1000.f && a[i] <= 1000.f && b[i] >= -1000.f && b[i] <= 1000.f); sq += a[i] * a[i]; dot += a[i] * b[i]; }
  const V u = O::make(a), w = O::make(b);
  switch (sx_choice("law", 4)) {
    case 0: sx_feq(u & w, dot, "the dot product is the sum of the products of components"); sx_feq(w & u, dot, "the dot product is symmetric"); sx_feq(u.getSquaredSize(), sq, "the squared length is the dot product with itself"); break;
    case 1: { float l = u.getSize(); A(l >= 0.f, "a length is not negative"); sx_feq(l * l, sq, "the length is the square root of the squared length"); break; }
    case 2: { sx_assume(sq > 1e-12f); float l = u.getSize(); V n = u.getNormal(); sx_feq(n.getSquaredSize(), 1.f, "the normal has length one"); for (int i = 0; i < N; ++i) { sx_feq(O::at(n, i) * l, a[i], "the normal times the length is the vector"); sx_feq(O::at(u, i), a[i], "getNormal changes nothing"); } break; }
    default: { sx_assume(sq > 1e-12f); float l = u.getSize(); V n = u; V *r = &n.normalize(); A(r == &n, "normalize returns the vector itself"); sx_feq(n.getSquaredSize(), 1.f, "normalising gives length one"); for (int i = 0; i < N; ++i) sx_feq(O::at(n, i) * l, a[i], "normalising divides by the length"); }
  }
  sx_cover(label);
}
extern "C" void h_size() { switch (sx_choice("dim", 3)) { case 0: size<Vec2<float>>("v2"); break; case 1: size<Vec3<float>>("v3"); break; default: size<Vec4<float>>("v4"); } }
extern "C" void h_cross() {
  float a[3], b[3]; for (int i = 0; i < 3; ++i) { a[i] = sx_symf("a"); b[i] = sx_symf("b"); sx_assume(a[i] >= -100.f && a[i] <= 100.f && b[i] >= -100.f && b[i] <= 100.f); }
  if (sx_choice("dim", 2)) {
    Vec3<float> u{a[0], a[1], a[2]}, w{b[0], b[1], b[2]}, c = u ^ w, d = w ^ u;
    sx_feq(c & u, 0.f, "the cross product is orthogonal to its left factor"); sx_feq(c & w, 0.f, "the cross product is orthogonal to its right factor");
    for (int i = 0; i < 3; ++i) sx_feq(c[i], -d[i], "exchanging the factors reverses the cross product");
    sx_feq(c.x, a[1] * b[2] - a[2] * b[1], "x of the cross product"); sx_feq(c.y, a[2] * b[0] - a[0] * b[2], "y of the cross product"); sx_feq(c.z, a[0] * b[1] - a[1] * b[0], "z of the cross product");
    sx_feq(c.getSquaredSize(), u.getSquaredSize() * w.getSquaredSize() - (u & w) * (u & w), "the length of the cross product is the area spanned");
    if (sx_choice("basis", 2)) { Vec3<float> e = Vec3<float>::right ^ Vec3<float>::up; A(e == Vec3<float>::forward, "the orientation is right-handed: right x up is forward"); }
    sx_cover("v3");
  } else {
    Vec2<float> u{a[0], a[1]}, w{b[0], b[1]}; Vec3<float> c = u ^ w, d = w ^ u;
    sx_feq(c.x, 0.f, "the cross product of plane vectors is along z"); sx_feq(c.y, 0.f, "the cross product of plane vectors is along z"); sx_feq(c.z, a[0] * b[1] - a[1] * b[0], "z of the cross product"); sx_feq(c.z, -d.z, "exchanging the factors reverses the cross product");
    sx_cover("v2");
  }
}
// Bit-precise: near-zero test agrees with the squared length
extern "C" void h_float() {
  Vec3<float> v{sx_symf("x"), sx_symf("y"), sx_symf("z")};
  A(v.isNearlyZero() == (v.getSquaredSize() < 4 * 1.1920928955078125e-7f), "a vector is nearly zero exactly when its squared length is below four float epsilons");
  sx_cover("done");
}
