// Element types for container harnesses: every object checks that it is alive when used, owns a heap cell (so that a
// missed or doubled destruction shows as a leak or a double free), and is counted.
#pragma once
#include "sx.h"
#include <new>
#include <stdlib.h>
struct Obj {
  static int64_t alive;
  enum : uint32_t { LIVE = 0x600DF00D, DEAD = 0xDEADDEAD };
  uint32_t magic; int32_t *cell;
  static int32_t *cellOf(int32_t v) { int32_t *p = (int32_t *)malloc(sizeof(int32_t)); *p = v; return p; }
  void check() const { sx_assert(magic == LIVE, "an element is used only while it is alive"); }
  Obj() : magic{LIVE}, cell{cellOf(0)} { ++alive; }
  Obj(int32_t v) : magic{LIVE}, cell{cellOf(v)} { ++alive; }
  Obj(const Obj &o) : magic{LIVE} { o.check(); cell = o.cell ? cellOf(*o.cell) : nullptr; ++alive; }
  Obj(Obj &&o) : magic{LIVE} { o.check(); cell = o.cell; o.cell = nullptr; ++alive; }
  Obj &operator=(const Obj &o) { check(); o.check(); if (this != &o) { int32_t *n = o.cell ? cellOf(*o.cell) : nullptr; ::free(cell); cell = n; } return *this; }
  Obj &operator=(Obj &&o) { check(); o.check(); if (this != &o) { ::free(cell); cell = o.cell; o.cell = nullptr; } return *this; }
  ~Obj() { check(); magic = DEAD; ::free(cell); cell = nullptr; --alive; }
  int32_t val() const { check(); sx_assert(cell != nullptr, "a moved-from element is not read"); return *cell; }
  bool moved() const { check(); return cell == nullptr; }
  bool operator==(const Obj &o) const { return val() == o.val(); }
  bool operator!=(const Obj &o) const { return val() != o.val(); }
  bool operator<(const Obj &o) const { return val() < o.val(); }
  bool operator>(const Obj &o) const { return val() > o.val(); }
  bool operator<=(const Obj &o) const { return val() <= o.val(); }
  bool operator>=(const Obj &o) const { return val() >= o.val(); }
};
inline int64_t Obj::alive = 0;
static inline int32_t valOf(const Obj &o) { return o.val(); }
static inline int32_t valOf(int8_t v) { return v; }
static inline int32_t valOf(int32_t v) { return v; }
