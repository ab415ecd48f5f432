// A list of integers, the oracle for sequence containers.
#pragma once
#include <stdint.h>
#include "sx.h"
struct Model {
#ifndef MODEL_CAP
#define MODEL_CAP 48
#endif
  enum { CAP = MODEL_CAP };
  int32_t v[CAP]; uint32_t n = 0;
  void insert(uint32_t i, int32_t x) { for (uint32_t j = n; j > i; --j) v[j] = v[j - 1]; v[i] = x; ++n; }
  void add(int32_t x) { v[n++] = x; }
  void remove(uint32_t i, uint32_t k = 1) { for (uint32_t j = i; j + k < n; ++j) v[j] = v[j + k]; n -= k; }
  void clear() { n = 0; }
};
// An index below k: any, as a symbolic value (S), or one at the ends, in the middle and around the powers of two (B).
static inline uint32_t modelIndex(const char *name, uint32_t k) {
  if (sx_param("B", 0)) { const uint32_t at[] = {0, 1, k / 2, 127, 128, 255, 256, k - 2, k - 1}; uint32_t c[9], m = 0; for (uint32_t x : at) { bool ok = x < k; for (uint32_t j = 0; j < m; ++j) ok = ok && c[j] != x; if (ok) c[m++] = x; } return c[sx_choice(name, m)]; }
  return sx_param("S", 0) ? sx_pick(name, k) : sx_choice(name, k);
}
static inline uint32_t largeSize() { static const uint16_t n[] = {17, 33, 65, 129, 257, 300}; return n[sx_choice("large", (uint32_t)sx_param("Z", 6))]; }
