// Patterns, and a reference matcher over them: a set of positions is a bit mask, and every construct maps the set of
// positions before it to the set of positions after it. The subject stays symbolic: no branch depends on it.
#pragma once
#include "sx.h"
#include <string.h>
#include "regex/regex.h"
struct Pat { char t[64]; uint32_t n = 0; Pat() { memset(t, 0, sizeof t); } void add(const char *s) { while (*s) t[n++] = *s++; t[n] = 0; } void add(char c) { t[n++] = c; t[n] = 0; } };
enum Kind { EMPTY, SET, BOL, EOL, WORDB, NWORDB, CAT, ALT, REP };
struct Node { Kind k; int a, b; int lo, hi; bool neg; int cls; int8_t from[8], to[8]; int nr; }; // cls: bits of class escapes
enum { C_D = 1, C_ND = 2, C_S = 4, C_NS = 8, C_W = 16, C_NW = 32 };
struct Ref {
  Node nd[64]; int nn = 0; const char *p; int root; uint32_t len; const int8_t *s;
  int mk(Kind k, int a = -1, int b = -1) { Node &n = nd[nn]; memset(&n, 0, sizeof n); n.k = k; n.a = a; n.b = b; return nn++; }
  void parse(const char *t) { p = t; root = alt(); }
  int alt() { int l = cat(); while (*p == '|') { ++p; int r = cat(); l = mk(ALT, l, r); } return l; }
  int cat() { int l = mk(EMPTY); while (*p && *p != '|' && *p != ')') { int r = rep(); l = mk(CAT, l, r); } return l; }
  int num() { int v = 0; while (*p >= '0' && *p <= '9') v = v * 10 + (*p++ - '0'); return v; }
  int rep() {
    int l = atom();
    for (;;) {
      int lo, hi;
      if (*p == '?') { lo = 0; hi = 1; ++p; } else if (*p == '*') { lo = 0; hi = -1; ++p; } else if (*p == '+') { lo = 1; hi = -1; ++p; }
      else if (*p == '{') { ++p; lo = num(); hi = lo; if (*p == ',') { ++p; hi = *p == '}' ? -1 : num(); } ++p; }
      else return l;
      l = mk(REP, l); nd[l].lo = lo; nd[l].hi = hi;
    }
  }
  static int escape(char c) { switch (c) { case 'd': return C_D; case 'D': return C_ND; case 's': return C_S; case 'S': return C_NS; case 'w': return C_W; case 'W': return C_NW; } return 0; }
  void range(Node &n, char a, char b) { n.from[n.nr] = a; n.to[n.nr++] = b; }
  int atom() {
    char c = *p++;
    if (c == '(') { int r = alt(); ++p; return r; }
    if (c == '^') return mk(BOL);
    if (c == '$') return mk(EOL);
    int k = mk(SET); Node &n = nd[k];
    if (c == '.') { n.neg = true; return k; }
    if (c == '\\') {
      c = *p++; if (c == 'b') { n.k = WORDB; return k; } if (c == 'B') { n.k = NWORDB; return k; }
      if (int e = escape(c)) n.cls = e; else range(n, c, c); return k;
    }
    if (c == '[') {
      if (*p == '^') { n.neg = true; ++p; }
      while (*p != ']') {
        if (*p == '\\') { if (int e = escape(p[1])) n.cls |= e; else range(n, p[1], p[1]); p += 2; }
        else if (p[1] == '-' && p[2] != ']') { int z = p[2] == '\\' ? 3 : 2; range(n, *p, p[z]); p += z + 1; }
        else { range(n, *p, *p); ++p; }
      }
      ++p; return k;
    }
    range(n, c, c); return k;
  }
  static uint32_t isD(int8_t c) { return (c >= '0') & (c <= '9'); }
  static uint32_t isS(int8_t c) { return (c == ' ') | ((c >= 9) & (c <= 13)); }
  static uint32_t isW(int8_t c) { return isD(c) | ((c >= 'a') & (c <= 'z')) | ((c >= 'A') & (c <= 'Z')) | (c == '_'); }
  uint32_t in(const Node &n, int8_t c) {
    uint32_t r = 0; for (int i = 0; i < n.nr; ++i) r |= (c >= n.from[i]) & (c <= n.to[i]);
    if (n.cls & C_D) r |= isD(c); if (n.cls & C_ND) r |= isD(c) ^ 1; if (n.cls & C_S) r |= isS(c); if (n.cls & C_NS) r |= isS(c) ^ 1; if (n.cls & C_W) r |= isW(c); if (n.cls & C_NW) r |= isW(c) ^ 1;
    return n.neg ? r ^ 1 : r;
  }
  uint32_t word(int i) { return i >= 0 && i < (int)len ? isW(s[i]) : 0; }
  uint32_t ends(int k, uint32_t m) {
    Node &n = nd[k]; uint32_t r = 0;
    switch (n.k) {
      case EMPTY: return m;
      case SET: for (uint32_t i = 0; i < len; ++i) r |= (((m >> i) & 1) & in(n, s[i])) << (i + 1); return r;
      case BOL: return m & 1;
      case EOL: return m & (1u << len);
      case WORDB: for (uint32_t i = 0; i <= len; ++i) r |= (((m >> i) & 1) & (word(i) ^ word((int)i - 1))) << i; return r;
      case NWORDB: for (uint32_t i = 0; i <= len; ++i) r |= (((m >> i) & 1) & (word(i) & word((int)i - 1))) << i; return r; // documented: between two word characters
      case CAT: return ends(n.b, ends(n.a, m));
      case ALT: return ends(n.a, m) | ends(n.b, m);
      default: {
        for (int i = 0; i < n.lo; ++i) m = ends(n.a, m);
        uint32_t times = n.hi < 0 ? len + 1 : (uint32_t)(n.hi - n.lo);
        for (uint32_t i = 0; i < times; ++i) m |= ends(n.a, m);
        return m;
      }
    }
  }
  uint32_t matches(const int8_t *t, uint32_t l) { s = t; len = l; return (ends(root, 1) >> l) & 1; }
};
// Well-formed: every group and class closed, every quantifier on exactly one item, ranges in order.
struct WellFormed {
  const char *p; bool ok = true;
  WellFormed(const char *t) : p(t) { alt(); ok = ok && !*p; }
  operator bool() const { return ok; }
  static bool special(char c) { return c == 'd' || c == 'D' || c == 's' || c == 'S' || c == 'w' || c == 'W'; }
  bool escaped(bool cls) { char c = *++p; if (!c) return false; ++p; bool alnum = (c >= '0' && c <= '9') || (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); return !alnum || special(c) || (!cls && (c == 'b' || c == 'B')); }
  bool digits(int &v) { if (*p < '0' || *p > '9') return false; v = 0; while (*p >= '0' && *p <= '9') v = v * 10 + (*p++ - '0'); return true; }
  void alt() { cat(); while (ok && *p == '|') { ++p; cat(); } }
  void cat() {
    while (ok && *p && *p != '|' && *p != ')') {
      atom(); if (!ok) return;
      if (*p == '?' || *p == '*' || *p == '+') ++p;
      else if (*p == '{') { int a, b; ++p; ok = digits(a); if (ok && *p == ',') { ++p; if (digits(b)) ok = a <= b; } ok = ok && *p == '}'; if (ok) ++p; }
    }
  }
  void atom() {
    char c = *p;
    if (c == '(') { ++p; if (*p == '?') { ok = false; return; } alt(); ok = ok && *p == ')'; if (ok) ++p; }
    else if (c == '\\') ok = escaped(false);
    else if (c == '?' || c == '*' || c == '+' || c == '{') ok = false;
    else if (c == '[') {
      ++p; if (*p == ']') { ok = false; return; }
      if (*p == '^') ++p;
      while (ok && *p != ']') {
        if (!*p) { ok = false; return; }
        if (*p == '\\') { ok = escaped(true); if (*p == '-' && p[1] != ']') ok = false; } // a range starting at an escape: outside
        else if (p[1] == '-' && p[2] && p[2] != ']') { char a = *p; p += 2; char b = *p; if (b == '\\') { b = p[1]; ok = !special(b) && escaped(true); } else ++p; ok = ok && a < b; }
        else ++p;
      }
      if (ok) ++p;
    } else ++p;
  }
};
// A subject of that length in a block of its own: reading past its end is caught.
static inline char *subject(uint32_t len) { char *s = (char *)malloc(len + 1); for (uint32_t i = 0; i < len; ++i) { s[i] = symi<int8_t>("s"); sx_assume(s[i] != 0); } s[len] = 0; return s; }
static inline void judge(const Re::Regex &r, Ref &ref, const char *s, uint32_t len) {
  int8_t c[16]; for (uint32_t i = 0; i < len; ++i) c[i] = s[i];
  bool got = r.accept(s);
  A((uint32_t)got == ref.matches(c, len), "a subject is accepted exactly when it is in the language of the pattern");
  sx_cover(got ? "yes" : "no");
}
static inline void check(const Pat &p, uint32_t len) {
  static Ref ref; ref.nn = 0; ref.parse(p.t);
  { Re::Regex r{String(p.t)}; char *s = subject(len); judge(r, ref, s, len); free(s); }
}
// Expand a template: X a literal, C an atom of any kind, Q a quantifier, R a counted quantifier.
static inline void expand(Pat &p, const char *t, uint32_t nx, uint32_t nq) {
  static const char *const X[] = {"a", "b", "."}, *const C[] = {"a", ".", "[ab]", "[^a]", "\\w"}, *const Q[] = {"", "*", "?", "+", "{2}", "{1,2}"}, *const R[] = {"{0}", "{1}", "{2}", "{3}", "{0,}", "{1,}", "{2,}", "{0,1}", "{0,2}", "{1,2}", "{1,3}", "{2,3}"};
  bool first = true;
  for (; *t; ++t) switch (*t) {
    case 'X': p.add(X[first && nx < 3 ? 0 : sx_choice("X", nx)]); first = false; break; // renaming a and b: the first letter is an a
    case 'C': p.add(C[sx_choice("C", 5)]); break;
    case 'Q': p.add(Q[sx_choice("Q", nq)]); break;
    case 'R': p.add(R[sx_choice("R", 12)]); break;
    default: p.add(*t);
  }
}
