// Strings against a plain character buffer with a length.
#pragma once
#include "sx.h"
#include "model.h"
#include <stdio.h>
#include <string.h>
#include "containers/string.h"
struct SMod {
  #ifndef SMOD_CAP
#define SMOD_CAP 64
#endif
  enum { CAP = SMOD_CAP }; char c[CAP]; uint32_t n = 0;
  void add(char x) { c[n++] = x; }
  void add(const SMod &o) { uint32_t k = o.n; for (uint32_t i = 0; i < k; ++i) c[n + i] = o.c[i]; n += k; }
  SMod sub(uint32_t len, uint32_t pos) const { SMod r; for (uint32_t i = 0; i < len; ++i) r.add(c[pos + i]); return r; }
  void splice(uint32_t pos, uint32_t len, const SMod &o) { SMod r = sub(pos, 0); r.add(o); for (uint32_t i = pos + len; i < n; ++i) r.add(c[i]); *this = r; }
};
static void same(const String &s, const SMod &m, const char *what) {
  A(s.getLength() == m.n, what); A(s.getSize() == m.n && s.getLen() == m.n, what);
  for (uint32_t i = 0; i < m.n; ++i) A(s[i] == m.c[i] && (*s)[i] == m.c[i], what);
  A((*s)[m.n] == '\0', "the buffer is terminated right after the characters");
}
static char anyCh() { return symi<char>("c"); }
static char nzCh() { char c = symi<char>("z"); sx_assume(c != '\0'); return c; }
// A terminated C string of n non-zero characters in a block of exactly n + 1 bytes.
struct CStr { char *p; uint32_t n; CStr(uint32_t k) : n(k) { p = (char *)malloc(k + 1); for (uint32_t i = 0; i < k; ++i) p[i] = nzCh(); p[k] = 0; } ~CStr() { ::free(p); }
  CStr(const CStr &) = delete; SMod mod() const { SMod m; for (uint32_t i = 0; i < n; ++i) m.add(p[i]); return m; } };
// n characters without a terminator, in a block of exactly n bytes
struct Buf { char *p; uint32_t n; Buf(uint32_t k) : n(k) { p = (char *)malloc(k ? k : 1); for (uint32_t i = 0; i < k; ++i) p[i] = anyCh(); } ~Buf() { ::free(p); }
  Buf(const Buf &) = delete; SMod mod() const { SMod m; for (uint32_t i = 0; i < n; ++i) m.add(p[i]); return m; } };
static void fillStr(String &s, SMod &m, uint32_t n) { for (uint32_t i = 0; i < n; ++i) { char x = anyCh(); s += x; m.add(x); } }
