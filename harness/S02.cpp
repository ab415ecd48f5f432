// @src hal/memory_base.cpp hal/malloc_ansi.cpp
// @entry h_findchar cover=found,absent quick:N=12 thorough:N=24
// @entry h_find cover=found,absent quick:N=7,M=4 thorough:N=9,M=6
// @entry h_findall cover=pattern,char quick:N=6,M=4 thorough:N=9,M=5
// @entry h_replace cover=done,alias quick:N=6,M=3,R=3 thorough:N=8,M=4,R=4 steps=300000
// @entry h_case cover=done quick:N=5 thorough:N=8
// @entry h_large cover=found,absent,all,replace,case B=1 quick:Z=4 thorough:Z=6
// @bound all texts of 0..N and patterns of 0..M characters (replacements of 0..R) with arbitrary characters, every start position up to two beyond the end; texts of 17 to 129 (thorough 300) characters with a short period and one arbitrary character, any character and patterns of up to 130 characters searched and replaced in them from every kind of position
// @outside longer texts and patterns; an empty pattern is found at every position and replaces nothing
#define SMOD_CAP 4200
#include "string_run.h"
static bool occurs(const SMod &t, const SMod &p, uint32_t at) { if (at + p.n > t.n) return false; bool r = true; for (uint32_t i = 0; i < p.n; ++i) r &= t.c[at + i] == p.c[i]; return r; }
static int64_t firstAt(const SMod &t, const SMod &p, uint32_t from) { for (uint32_t i = from; i + p.n <= t.n; ++i) if (occurs(t, p, i)) return i; return -1; }
extern "C" void h_findchar() {
  uint32_t n = sx_choice("n", sx_param("N", 6) + 1);
  { String s; SMod m; fillStr(s, m, n); char c = anyCh(); uint32_t from = sx_choice("from", n + 3); int64_t r = from || sx_choice("explicit", 2) ? s.findIndex(c, (sizet)from) : s.findIndex(c); int64_t e = -1; for (uint32_t i = from; i < n; ++i) if (m.c[i] == c) { e = i; break; }
    A(r == e, "the first position of the character, or its absence"); same(s, m, "searching changes nothing"); sx_cover(e < 0 ? "absent" : "found"); }
  A(sx_live() == 0, "nothing leaks");
}
extern "C" void h_find() {
  uint32_t n = sx_choice("n", sx_param("N", 5) + 1), k = sx_choice("k", sx_param("M", 3) + 1);
  { String s; SMod m; fillStr(s, m, n); uint32_t from = sx_choice("from", n + 3); SMod p; int64_t r;
    switch (sx_choice("how", 3)) {
      case 0: { CStr c(k); p = c.mod(); r = from ? s.findIndex((const char *)c.p, (sizet)from) : s.findIndex((const char *)c.p); break; }
      case 1: { sx_assume(k > 0); Buf b(k); p = b.mod(); r = s.findIndex((const char *)b.p, (sizet)from, (sizet)k); break; }
      default: { String q; fillStr(q, p, k); r = from ? s.findIndex(q, (sizet)from) : s.findIndex(q); same(q, p, "searching changes nothing"); } }
    int64_t e = firstAt(m, p, from); A(r == e, "the first position of the pattern, or its absence"); same(s, m, "searching changes nothing"); sx_cover(e < 0 ? "absent" : "found"); }
  A(sx_live() == 0, "nothing leaks");
}
extern "C" void h_findall() {
  uint32_t n = sx_choice("n", sx_param("N", 4) + 1);
  { String s; SMod m, p; fillStr(s, m, n); Array<sizet> r; uint32_t how = sx_choice("how", 3);
    if (how == 0) { char c = anyCh(); p.add(c); r = s.findAll(c); sx_cover("char"); }
    else { uint32_t k = sx_choice("k", sx_param("M", 3) + 1); CStr c(k); p = c.mod(); if (how == 1) r = s.findAll((const char *)c.p); else { String q((const char *)c.p); r = s.findAll(q); } sx_cover("pattern"); }
    uint32_t j = 0; for (uint32_t i = 0; i + p.n <= n; ++i) if (occurs(m, p, i)) { A(j < r.getCount() && r[j] == i, "every occurrence is listed in order"); ++j; }
    A(j == r.getCount(), "only occurrences are listed"); same(s, m, "searching changes nothing"); }
  A(sx_live() == 0, "nothing leaks");
}
static SMod replaced(const SMod &m, const SMod &p, const SMod &q) { SMod e; for (uint32_t i = 0; i < m.n; ) { if (p.n && occurs(m, p, i)) { e.add(q); i += p.n; } else e.add(m.c[i++]); } return e; }
extern "C" void h_replace() {
  uint32_t n = sx_choice("n", sx_param("N", 4) + 1);
  { String s; SMod m, p, q; fillStr(s, m, n); uint32_t how = sx_choice("how", 4);
    if (how < 2) { String a, b; fillStr(a, p, sx_choice("k", sx_param("M", 2) + 1)); fillStr(b, q, sx_choice("r", sx_param("R", 2) + 1)); if (how == 0) A(&s.replaceAll(a, b) == &s, "the string itself is returned"); else { s.replaceAll(a, b); A(s.getLength() == replaced(m, p, q).n, "the length after replacing"); } same(a, p, "the pattern is unchanged"); same(b, q, "the replacement is unchanged"); sx_cover("done"); }
    else if (how == 2) { String a; fillStr(a, p, sx_choice("k", sx_param("M", 2) + 1)); q = m; s.replaceAll(a, s); same(a, p, "the pattern is unchanged"); sx_cover("alias"); }
    else { String b; fillStr(b, q, sx_choice("r", sx_param("R", 2) + 1)); p = m; s.replaceAll(s, b); same(b, q, "the replacement is unchanged"); sx_cover("alias"); }
    same(s, replaced(m, p, q), "exactly the non-overlapping occurrences are replaced, left to right"); }
  A(sx_live() == 0, "nothing leaks");
}
extern "C" void h_case() {
  uint32_t n = sx_choice("n", sx_param("N", 3) + 1);
  { String s; SMod m; fillStr(s, m, n); String l = s.toLower(), u = s.toUpper(); A(l.getLength() == n && u.getLength() == n, "case conversion keeps the length");
    for (uint32_t i = 0; i < n; ++i) { char c = m.c[i]; bool up = (c >= 'A') & (c <= 'Z'), lo = (c >= 'a') & (c <= 'z'); A(l[i] == (char)(c + 32 * up), "lower case"); A(u[i] == (char)(c - 32 * lo), "upper case"); }
    A((*l)[n] == 0 && (*u)[n] == 0, "the copies are terminated"); same(s, m, "the string is unchanged"); }
  A(sx_live() == 0, "nothing leaks"); sx_cover("done");
}
// Long texts: "abaabaaba…" with any character at one place.
extern "C" void h_large() {
  uint32_t n = largeSize(), at = modelIndex("at", n);
  { String s; static SMod m; m.n = 0; for (uint32_t i = 0; i < n; ++i) { char c = i == at ? anyCh() : "aba"[i % 3]; s += c; m.add(c); }
    static const uint16_t LEN[] = {1, 2, 5, 16, 64, 130}; uint32_t what = sx_choice("what", 4);
    if (what == 0) { char c = "abx"[sx_choice("c", 3)]; uint32_t from = modelIndex("from", n + 2); int64_t e = -1; for (uint32_t i = from; i < n; ++i) if (m.c[i] == c) { e = i; break; } A(s.findIndex(c, (sizet)from) == e, "the first position of the character, or its absence"); if (e < 0) sx_cover("absent"); }
    else if (what == 3) { String l = s.toLower(), u = s.toUpper(); A(l.getLength() == n && u.getLength() == n, "case conversion keeps the length"); for (uint32_t i = 0; i < n; ++i) { char c = m.c[i]; bool up = (c >= 'A') & (c <= 'Z'), lo = (c >= 'a') & (c <= 'z'); A(l[i] == (char)(c + 32 * up), "lower case"); A(u[i] == (char)(c - 32 * lo), "upper case"); } sx_cover("case"); }
    else {
      uint32_t k = LEN[sx_choice("k", 6)], ph = sx_choice("phase", 3); bool odd = sx_choice("odd", 2); String q; static SMod p; p.n = 0; for (uint32_t i = 0; i < k; ++i) { char c = odd && i + 1 == k ? 'x' : "aba"[(i + ph) % 3]; q += c; p.add(c); }
      if (what == 1) { uint32_t from = modelIndex("from", n + 2); int64_t e = firstAt(m, p, from), r = sx_choice("form", 2) ? s.findIndex(q, (sizet)from) : s.findIndex(*q, (sizet)from); A(r == e, "the first position of the pattern, or its absence"); if (e >= 0) sx_cover("found");
        Array<sizet> f = s.findAll(q); uint32_t j = 0; for (uint32_t i = 0; i + p.n <= n; ++i) if (occurs(m, p, i)) { A(j < f.getCount() && f[j] == i, "every occurrence is listed in order"); ++j; } A(j == f.getCount(), "only occurrences are listed"); sx_cover("all"); }
      else { static const uint8_t R[] = {0, 1, 2, 30}; String w; static SMod r; r.n = 0; fillStr(w, r, R[sx_choice("r", 4)]); static SMod e; e.n = 0; for (uint32_t i = 0; i < n; ) { if (occurs(m, p, i)) { e.add(r); i += p.n; } else e.add(m.c[i++]); } s.replaceAll(q, w); same(s, e, "exactly the non-overlapping occurrences are replaced, left to right"); sx_cover("replace"); }
    } }
  A(sx_live() == 0, "nothing leaks");
}
