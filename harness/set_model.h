#pragma once
#include "sx.h"
#include "elem.h"
#include "model.h"
#include "containers/set.h"
struct SM { int32_t k[320]; uint32_t n = 0;
  uint32_t lower(int32_t x) const { uint32_t i = 0; while (i < n && k[i] < x) ++i; return i; }
  bool has(int32_t x) const { uint32_t i = lower(x); return i < n && k[i] == x; }
  bool put(int32_t x) { uint32_t i = lower(x); if (i < n && k[i] == x) return false; for (uint32_t j = n; j > i; --j) k[j] = k[j - 1]; k[i] = x; ++n; return true; }
  bool del(int32_t x) { uint32_t i = lower(x); if (!(i < n && k[i] == x)) return false; for (; i + 1 < n; ++i) k[i] = k[i + 1]; --n; return true; }
};
struct Diff { int32_t operator()(int8_t a, int8_t b) const { return (int32_t)a - b; } }; // not only 1 and -1
template<class T, class C> static void same(const Set<T, C> &s, const SM &m, const char *what) {
  A(s.getSize() == m.n && s.getCount() == m.n && s.getNumItems() == m.n, what);
  uint32_t i = 0; for (auto it = s.begin(); it != s.end(); ++it) { A(i < m.n && valOf(*it) == m.k[i < 320 ? i : 0], what); ++i; if (i > m.n) break; } A(i == m.n, what);
}
