// @src math/math.cpp
// @entry h_hamilton real cover=done
// @entry h_rotate real cover=rotate,inverse,compose,length
// @entry h_axes real cover=done
// @entry h_build real cover=axis,vector,zero
// @entry h_extract real cover=done,identity query=60
// @bound every quaternion and vector with real components (unit quaternions where a rotation is meant), every angle; the quaternion algebra as polynomial identities
// @outside rounding of float32 and the accuracy of sine and cosine
// @assume float arithmetic is exact (real numbers); the square root of a non-negative x is the r >= 0 with r * r = x; sin(x)^2 + cos(x)^2 = 1, cos(acos(x)) = x and sin(acos(x)) >= 0 and nothing else about the trigonometric functions
#include "vec_run.h"
#include "math/quat.h"
using V = Vec3<float32>;
static float in(const char *n, float lim = 50.f) { float x = sx_symf(n); sx_assume(x >= -lim && x <= lim); return x; }
struct H { float x, y, z, w; };
// The Hamilton product as defined: i*j = k, j*k = i, k*i = j.
static H ham(const H &a, const H &b) {
  return H{a.w * b.x + a.x * b.w + a.y * b.z - a.z * b.y, a.w * b.y - a.x * b.z + a.y * b.w + a.z * b.x, a.w * b.z + a.x * b.y - a.y * b.x + a.z * b.w, a.w * b.w - a.x * b.x - a.y * b.y - a.z * b.z};
}
static void eq(const Quat &q, const H &h, const char *m) { sx_feq(q.x, h.x, m); sx_feq(q.y, h.y, m); sx_feq(q.z, h.z, m); sx_feq(q.w, h.w, m); }
static void eq(const V &a, float x, float y, float z, const char *m) { sx_feq(a.x, x, m); sx_feq(a.y, y, m); sx_feq(a.z, z, m); }
// q v q* for a unit quaternion
static H sandwich(const H &q, const V &v) { return ham(ham(q, H{v.x, v.y, v.z, 0}), H{-q.x, -q.y, -q.z, q.w}); }
static H any(const char *n, float lim = 50.f) { return H{in(n, lim), in(n, lim), in(n, lim), in(n, lim)}; }
static H unit(const char *n) { H q = any(n, 1.f); sx_assume(q.x * q.x + q.y * q.y + q.z * q.z + q.w * q.w == 1.f); return q; }
static Quat Q(const H &h) { return Quat{h.x, h.y, h.z, h.w}; }
extern "C" void h_hamilton() {
  H a = any("a"), b = any("b"); const Quat p = Q(a), q = Q(b);
  if (sx_choice("self", 2)) { Quat r = p * p; eq(r, ham(a, a), "the square of a quaternion"); }
  else { Quat r = p * q; eq(r, ham(a, b), "the product of quaternions is Hamilton's"); eq(p, a, "operands are unchanged"); eq(q, b, "operands are unchanged"); }
  Quat one; eq(one, H{0, 0, 0, 1}, "the default quaternion is the identity"); eq(one * p, a, "the identity times q is q"); eq(p * one, a, "q times the identity is q");
  sx_cover("done");
}
extern "C" void h_rotate() {
  H a; V v{in("v"), in("v"), in("v")};
  switch (sx_choice("law", 4)) {
    case 0: { a = unit("q"); H h = sandwich(a, v); const Quat q = Q(a); const V u = v; eq(q * u, h.x, h.y, h.z, "rotating a vector is conjugating it"); eq(u, v.x, v.y, v.z, "the operand is unchanged"); sx_cover("rotate"); break; }
    case 1: { a = unit("q"); Quat q = Q(a), i = -q; V r = q * v, b = i * r; eq(b, v.x, v.y, v.z, "the inverse undoes the rotation"); sx_cover("inverse"); break; }
    case 2: { a = any("p", 2.f); H b = any("q", 2.f); // as polynomials: |p|^2 and |q|^2 scale nothing because both are unit
      // p (q v) = (p q) v : conjugation composes because (p q)* = q* p*, and each rotation is a conjugation (law 0)
      Quat p = Q(a), q = Q(b), r = p * q; H rc = H{-r.x, -r.y, -r.z, r.w}, c = ham(H{-b.x, -b.y, -b.z, b.w}, H{-a.x, -a.y, -a.z, a.w}), s = ham(ham(H{r.x, r.y, r.z, r.w}, H{v.x, v.y, v.z, 0}), rc), t = ham(ham(a, ham(ham(b, H{v.x, v.y, v.z, 0}), H{-b.x, -b.y, -b.z, b.w})), H{-a.x, -a.y, -a.z, a.w});
      sx_feq(rc.x, c.x, "the conjugate of a product"); sx_feq(rc.y, c.y, "the conjugate of a product"); sx_feq(rc.z, c.z, "the conjugate of a product"); sx_feq(rc.w, c.w, "the conjugate of a product");
      sx_feq(s.x, t.x, "a product rotates by the right factor, then by the left one"); sx_feq(s.y, t.y, "a product rotates by the right factor, then by the left one"); sx_feq(s.z, t.z, "a product rotates by the right factor, then by the left one");
      sx_cover("compose"); break; }
    default: { a = unit("q"); V r = Q(a) * v; sx_feq(r.getSquaredSize(), v.getSquaredSize(), "a rotation preserves lengths"); sx_cover("length"); }
  }
}
extern "C" void h_axes() {
  H a = unit("q"); const Quat q = Q(a); V d; H h; const char *m = "a direction is the rotated basis vector";
  switch (sx_choice("direction", 7)) {
    case 0: d = q.getRight(); h = sandwich(a, V{1, 0, 0}); break; case 1: d = q.getLeft(); h = sandwich(a, V{-1, 0, 0}); break;
    case 2: d = q.getUp(); h = sandwich(a, V{0, 1, 0}); break; case 3: d = q.getDown(); h = sandwich(a, V{0, -1, 0}); break;
    case 4: d = q.getForward(); h = sandwich(a, V{0, 0, 1}); break; case 5: d = q.getBackward(); h = sandwich(a, V{0, 0, -1}); break;
    default: { auto ax = q.getAxes(); for (int i = 0; i < 3; ++i) { h = sandwich(a, V{i == 0 ? 1.f : 0.f, i == 1 ? 1.f : 0.f, i == 2 ? 1.f : 0.f}); eq(ax[i], h.x, h.y, h.z, "the axes are the rotated basis vectors"); } d = ax[2]; }
  }
  eq(d, h.x, h.y, h.z, m); sx_cover("done");
}
extern "C" void h_build() {
  float t = in("angle", 100.f); V n{in("n", 1.f), in("n", 1.f), in("n", 1.f)};
  switch (sx_choice("from", 3)) {
    case 0: { sx_assume(n.x * n.x + n.y * n.y + n.z * n.z == 1.f); Quat q(t, n); float s = PlatformMath::sin(t * 0.5f), c = PlatformMath::cos(t * 0.5f);
      eq(q, H{n.x * s, n.y * s, n.z * s, c}, "angle and axis give (axis sin(a/2), cos(a/2))"); sx_feq(q.getSquaredSize(), 1.f, "it is a unit quaternion"); sx_cover("axis"); break; }
    case 1: { n = V{in("r"), in("r"), in("r")}; float l = n.getSize(); sx_assume(l > 0.001f); Quat q(n); float s = PlatformMath::sin(l * 0.5f), c = PlatformMath::cos(l * 0.5f);
      sx_feq(q.x * l, n.x * s, "a rotation vector turns about itself"); sx_feq(q.y * l, n.y * s, "a rotation vector turns about itself"); sx_feq(q.z * l, n.z * s, "a rotation vector turns about itself"); sx_feq(q.w, c, "a rotation vector turns by its length"); sx_cover("vector"); break; }
    default: { Quat q(V{0.f, 0.f, 0.f}); sx_feq(q.x, 0.f, "no rotation"); sx_feq(q.y, 0.f, "no rotation"); sx_feq(q.z, 0.f, "no rotation"); sx_feq(q.w, PlatformMath::cos(0.f), "no rotation"); sx_cover("zero"); }
  }
}
extern "C" void h_extract() {
  H a = unit("q"); const Quat q = Q(a); float t; V n; sx_assume(a.w >= -1.f && a.w <= 1.f);
  if (sx_choice("identity", 2)) { a = H{0, 0, 0, 1}; Quat i; i.getAngleAndAxis(t, n); sx_feq(n.getSquaredSize(), 1.f, "the axis of the identity is a unit vector"); sx_cover("identity"); return; }
  sx_assume(a.w <= 0.99f && a.w >= -0.99f);
  q.getAngleAndAxis(t, n); sx_feq(q.getAngle(), t, "the angle is the same both ways");
  float s = PlatformMath::sin(t * 0.5f), c = PlatformMath::cos(t * 0.5f);
  sx_feq(c, a.w, "the angle is twice the arc cosine of w"); sx_feq(s, PlatformMath::sqrt(1.f - a.w * a.w), "the angle is at most a full turn"); sx_feq(n.x * s, a.x, "the axis is along the vector part"); sx_feq(n.y * s, a.y, "the axis is along the vector part"); sx_feq(n.z * s, a.z, "the axis is along the vector part");
  sx_feq(s * s, 1.f - a.w * a.w, "the sine of half the angle is not zero"); // n s = (x, y, z), so |n|^2 s^2 = x^2 + y^2 + z^2
  sx_feq(a.x * a.x + a.y * a.y + a.z * a.z, s * s, "the axis is a unit vector"); sx_cover("done");
}
