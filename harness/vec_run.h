// Uniform access to 2-, 3- and 4-component vectors of every component type.
#pragma once
#include "sx.h"
#include "math/vec2.h"
#include "math/vec3.h"
#include "math/vec4.h"
#include <string.h>
static inline float32 inF(const char *n) { return sx_symf(n); }
static inline float64 inD(const char *n) { uint64_t b = sx_sym(n, 64); float64 d; memcpy(&d, &b, 8); return d; }
template<class T> struct In { static T get(const char *n) { return symi<T>(n); } };
template<> struct In<float32> { static float32 get(const char *n) { return inF(n); } };
template<> struct In<float64> { static float64 get(const char *n) { return inD(n); } };
// Equal values; for floats, equal or both not a number.
template<class T> static inline void same(T a, T b, const char *m) { A(a == b, m); }
static inline void same(float32 a, float32 b, const char *m) { sx_feq(a, b, m); }
static inline void same(float64 a, float64 b, const char *m) { uint64_t x, y; memcpy(&x, &a, 8); memcpy(&y, &b, 8); if (x == y) return; A((a == b) | ((a != a) & (b != b)), m); }
template<class V> struct Of;
template<class U> struct Of<Vec2<U>> { static const int N = 2; using T = U; static Vec2<U> make(const U *c) { return Vec2<U>{c[0], c[1]}; } static U at(const Vec2<U> &v, int i) { return i ? v.y : v.x; } };
template<class U> struct Of<Vec3<U>> { static const int N = 3; using T = U; static Vec3<U> make(const U *c) { return Vec3<U>{c[0], c[1], c[2]}; } static U at(const Vec3<U> &v, int i) { return i == 0 ? v.x : i == 1 ? v.y : v.z; } };
template<class U> struct Of<Vec4<U>> { static const int N = 4; using T = U; static Vec4<U> make(const U *c) { return Vec4<U>{c[0], c[1], c[2], c[3]}; } static U at(const Vec4<U> &v, int i) { return i == 0 ? v.x : i == 1 ? v.y : i == 2 ? v.z : v.w; } };
template<class T> struct IsFloat { static const bool value = false; };
template<> struct IsFloat<float32> { static const bool value = true; };
template<> struct IsFloat<float64> { static const bool value = true; };
