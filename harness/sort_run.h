// Buffers and comparators for the sorting harnesses.
#pragma once
#include "sx.h"
#include "elem.h"
#include "model.h"
#include "containers/list.h"
#include "hal/malloc_ansi.h"
#include "algorithm/sort.h"
#include "templates/functional.h"
struct Desc { template<class X, class Y> int32 operator()(const X &a, const Y &b) const { return static_cast<int32>(a < b) - static_cast<int32>(a > b); } };
// A strict weak order that does not tell all values apart: the lowest bit is ignored.
static inline int32_t keyOf(int32_t v) { return v >> 1; }
struct ByKey { int32 operator()(int8_t a, int8_t b) const { return keyOf(a) - keyOf(b); } int32 operator()(const Obj &a, const Obj &b) const { int32_t x = keyOf(a.val()), y = keyOf(b.val()); return x < y ? -7 : x > y ? 9 : 0; } };
// Counts its uses: must be passed on as the same object, not copied.
struct Counting { uint32_t calls = 0; Counting() = default; Counting(const Counting &) = delete; int32 operator()(int8_t a, int8_t b) { ++calls; return a < b ? -1 : b < a ? 1 : 0; } };
enum Kind { ASC, DESC, KEY, LAMBDA, COUNT, KINDS };
// What the order says: x may not stand before y.
static inline bool wrongOrder(Kind k, int32_t x, int32_t y) { return k == DESC ? x < y : k == KEY ? keyOf(x) > keyOf(y) : x > y; }
// The multiset of v[0..n) and w[0..n) agree: every value of one occurs equally often in both.
static inline void samePermutation(const int32_t *v, const int32_t *w, uint32_t n, const char *msg) {
  for (uint32_t i = 0; i < n; ++i) { uint32_t c = 0, d = 0; for (uint32_t j = 0; j < n; ++j) { c += v[j] == v[i]; d += w[j] == v[i]; } A(c == d, msg); }
}
struct KeyList { int32_t v[16]; uint32_t n; };
// Long ranges: ascending, descending, equal, rotated, alternating, few values, scrambled, organ pipe.
static const uint32_t PATTERNS = 8;
static inline int32_t patternAt(uint32_t p, uint32_t i, uint32_t n) { switch (p) { case 0: return i; case 1: return n - i; case 2: return 7; case 3: return (i + n / 3) % n; case 4: return i & 1 ? -(int32_t)i : (int32_t)i; case 5: return i * 7 % 5; case 6: return i * 211 % 307; default: return i < n / 2 ? i : n - i; } }
struct ByKey32 { template<class X, class Y> int32 operator()(const X &a, const Y &b) const { int32_t x = keyOf(valOf(a)), y = keyOf(valOf(b)); return x < y ? -7 : x > y ? 9 : 0; } };
