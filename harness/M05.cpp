// @src hal/memory_base.cpp hal/malloc_ansi.cpp
// @entry h_obj cover=default,copyc,copya,destroy,move_left,move_right,move_same quick:N=4 thorough:N=8
// @entry h_int cover=copyc,copya,move_left,move_right,move_same,default,destroy quick:N=4 thorough:N=8
// @entry h_mixed cover=copyc quick:N=3 thorough:N=5
// @entry h_memcmp cover=equal,differ quick:N=6 thorough:N=12
// @entry h_memcpy cover=copied,moved quick:N=8 thorough:N=16
// @entry h_large cover=default,copyc,copya,destroy,move_left,move_right,move_same L=1 Z=6
// @entry h_bytes cover=done B=1 Z=6
// @bound ranges of 0..N elements with symbolic contents inside bigger arrays, every overlap distance, resource-owning, trivial and mixed (trivial default constructor, non-trivial copy) element types; memory blocks of up to N bytes; ranges of 17 to 300 elements, overlapping by one, by half and not at all, and blocks of as many bytes with one arbitrary byte
// @outside longer ranges (element counts above 2^32 in particular), element types with trivial copy construction but non-trivial assignment
#include "sx.h"
#include "elem.h"
#include "model.h"
#include "hal/platform_memory.h"
using M = PlatformMemory;
static uint32_t place(uint32_t n, bool large) { const uint32_t at[] = {0, 1, n / 2, n - 1}; return large ? at[sx_choice("place", 4)] : sx_choice("place", n); }
template<class T, bool LARGE = false> static void rangeTest(bool res) {
  const uint32_t CAP = LARGE ? 640 : 24;
  uint32_t N = sx_param("N", 4), n = LARGE ? largeSize() : sx_choice("n", N + 1), pre = sx_choice("pre", 2);
  uint32_t op = sx_choice("op", 5);
  alignas(T) unsigned char sb[CAP * sizeof(T)], db[CAP * sizeof(T)];
  T *src = (T *)sb, *dst = (T *)db;
  int32_t sv[CAP], dv[CAP];
  if (op == 0) {
    if (!res) { for (uint32_t i = 0; i < n + 2; ++i) new (dst + i) T(dv[i] = symi<int32_t>("d")); }
    M::constructDefaultElements(dst + pre, dst + pre + n);
    if (res) A(Obj::alive == n, "exactly n elements are default-constructed");
    for (uint32_t i = 0; i < n; ++i) if (res) A(valOf(dst[pre + i]) == 0, "each element is default-constructed");
    if (!res) for (uint32_t i = 0; i < n + 2; ++i) if (i < pre || i >= pre + n) A(valOf(dst[i]) == dv[i], "nothing else is touched");
    M::destroyElements(dst + pre, dst + pre + n);
    A(Obj::alive == 0, "exactly n elements are destroyed");
    sx_cover("default");
  } else if (op == 1) {
    for (uint32_t i = 0; i < n; ++i) new (src + i) T(sv[i] = symi<int32_t>("s"));
    if (!res) for (uint32_t i = 0; i < n + 2; ++i) new (dst + i) T(dv[i] = symi<int32_t>("d"));
    M::constructCopyElements(dst + pre, (const T *)src, n);
    if (res) A(Obj::alive == 2 * (int64_t)n, "exactly n elements are copy-constructed");
    for (uint32_t i = 0; i < n; ++i) { A(valOf(dst[pre + i]) == sv[i], "each element is a copy"); A(valOf(src[i]) == sv[i], "the source is unchanged"); }
    if (!res) for (uint32_t i = 0; i < n + 2; ++i) if (i < pre || i >= pre + n) A(valOf(dst[i]) == dv[i], "nothing else is touched");
    M::destroyElements(dst + pre, dst + pre + n); M::destroyElements(src, src + n);
    A(Obj::alive == 0, "exactly n elements are destroyed");
    sx_cover("copyc");
  } else if (op == 2) {
    for (uint32_t i = 0; i < n; ++i) new (src + i) T(sv[i] = symi<int32_t>("s"));
    for (uint32_t i = 0; i < n + 2; ++i) new (dst + i) T(dv[i] = symi<int32_t>("d"));
    M::copyElements(dst + pre, (const T *)src, n);
    for (uint32_t i = 0; i < n; ++i) { A(valOf(dst[pre + i]) == sv[i], "each element is copied"); A(valOf(src[i]) == sv[i], "the source is unchanged"); }
    for (uint32_t i = 0; i < n + 2; ++i) if (i < pre || i >= pre + n) A(valOf(dst[i]) == dv[i], "nothing else is touched");
    M::destroyElements(src, src + n); M::destroyElements(dst, dst + n + 2);
    A(Obj::alive == 0, "every element is destroyed once");
    sx_cover("copya");
  } else if (op == 3) {
    if (LARGE) N = n; uint32_t tot = 2 * N + 2, from = place(N + 2, LARGE), to = place(N + 2, LARGE);
    for (uint32_t i = 0; i < tot; ++i) new (src + i) T(sv[i] = symi<int32_t>("s"));
    M::moveElements(src + to, src + from, n);
    for (uint32_t i = 0; i < n; ++i) A(valOf(src[to + i]) == sv[from + i], "a moved range arrives whichever way it overlaps");
    for (uint32_t i = 0; i < tot; ++i) if ((i < to || i >= to + n) && (i < from || i >= from + n)) A(valOf(src[i]) == sv[i], "nothing else is touched");
    M::destroyElements(src, src + tot);
    A(Obj::alive == 0, "every element is destroyed once");
    sx_cover(to < from ? "move_left" : to > from ? "move_right" : "move_same");
  } else {
    uint32_t tot = n + 2;
    for (uint32_t i = 0; i < tot; ++i) new (src + i) T(sv[i] = symi<int32_t>("s"));
    M::destroyElements(src + pre, src + pre + n);
    if (res) A(Obj::alive == 2, "exactly n elements are destroyed");
    for (uint32_t i = 0; i < tot; ++i) if (i < pre || i >= pre + n) A(valOf(src[i]) == sv[i], "the others stay alive");
    for (uint32_t i = 0; i < tot; ++i) if (i < pre || i >= pre + n) src[i].~T();
    sx_cover("destroy");
  }
  A(sx_live() == 0, "nothing leaks");
}
extern "C" void h_obj() { rangeTest<Obj>(true); }
extern "C" void h_int() { rangeTest<int32_t>(false); }
struct Mixed { int32_t v; int32_t copies; Mixed() = default; Mixed(int32_t x) : v{x}, copies{0} {} Mixed(const Mixed &o) : v{o.v}, copies{o.copies + 1} {} Mixed &operator=(const Mixed &o) = default; };
extern "C" void h_mixed() {
  uint32_t n = sx_choice("n", sx_param("N", 3) + 1);
  Mixed s[8] = {1, 2, 3, 4, 5, 6, 7, 8}; int32_t v[8];
  for (int i = 0; i < 8; ++i) { v[i] = symi<int32_t>("s"); s[i] = Mixed(v[i]); }
  alignas(Mixed) unsigned char b[sizeof(Mixed) * 8]; Mixed *d = (Mixed *)b;
  M::constructCopyElements(d, (const Mixed *)s, n);
  for (uint32_t i = 0; i < n; ++i) A(d[i].v == v[i] && d[i].copies == 1, "the copy constructor is used for every element");
  sx_cover("copyc");
}
extern "C" void h_memcmp() {
  uint32_t N = sx_param("N", 6), n = sx_choice("n", N + 1);
  uint8_t *a = (uint8_t *)malloc(n ? n : 1), *b = (uint8_t *)malloc(n ? n : 1);
  bool eq = true; int sign = 0;
  for (uint32_t i = 0; i < n; ++i) { a[i] = symi<uint8_t>("a"); b[i] = symi<uint8_t>("b"); if (sign == 0) sign = a[i] < b[i] ? -1 : a[i] > b[i] ? 1 : 0; }
  eq = sign == 0;
  auto r = M::memcmp(a, b, n);
  A((r == 0) == eq, "zero exactly when all bytes are equal");
  if (sign > 0) A(r > 0, "positive when the first differing byte is greater in the first block");
  if (sign < 0) A(!(r > 0), "not positive when it is smaller");
  sx_cover(eq ? "equal" : "differ");
}
extern "C" void h_memcpy() {
  uint32_t N = sx_param("N", 8), n = sx_choice("n", N + 1);
  uint8_t a[40], v[40];
  for (int i = 0; i < 40; ++i) a[i] = v[i] = symi<uint8_t>("a");
  uint32_t from = sx_choice("from", N + 1), to = sx_choice("to", N + 1);
  if (sx_choice("kind", 2)) { to += from + n; A(M::memcpy(a + to, a + from, n) == a + to, "the destination is returned"); sx_cover("copied"); }
  else { A(M::memmov(a + to, a + from, n) == a + to, "the destination is returned"); sx_cover("moved"); }
  for (uint32_t i = 0; i < 40; ++i) A(a[i] == (i >= to && i < to + n ? v[from + i - to] : v[i]), "exactly the given bytes are copied");
}
extern "C" void h_large() { if (sx_choice("type", 2)) rangeTest<Obj, true>(true); else rangeTest<int32_t, true>(false); }
extern "C" void h_bytes() {
  uint32_t n = largeSize(), at = modelIndex("at", n), off = sx_choice("off", 3); static uint8_t a[640], b[640], v[640];
  for (uint32_t i = 0; i < 640; ++i) a[i] = b[i] = (uint8_t)(i * 7 + 1); a[off + at] = symi<uint8_t>("x"); b[off + at] = symi<uint8_t>("y"); uint8_t x = a[off + at], y = b[off + at];
  auto r = M::memcmp(a + off, b + off, n); A((r == 0) == (x == y), "zero exactly when all bytes are equal"); if (x > y) A(r > 0, "positive when the first differing byte is greater in the first block"); if (x < y) A(!(r > 0), "not positive when it is smaller"); A(M::memcmp(a + off, b + off, at) == 0, "only the given bytes are compared");
  for (uint32_t i = 0; i < 640; ++i) v[i] = a[i]; uint32_t to = off + (sx_choice("back", 2) ? 0 : sx_choice("by", 2) ? 3 : n / 2), from = to == off ? off + n / 2 : off;
  A(M::memmov(a + to, a + from, n) == a + to, "the destination is returned"); for (uint32_t i = 0; i < 640; ++i) A(a[i] == (i >= to && i < to + n ? v[from + i - to] : v[i]), "exactly the given bytes are copied");
  A(M::memcpy(b + off, v + off, n) == b + off, "the destination is returned"); for (uint32_t i = 0; i < 640; ++i) A(b[i] == (i >= off && i < off + n ? v[i] : (uint8_t)(i * 7 + 1)), "exactly the given bytes are copied");
  sx_cover("done");
}
