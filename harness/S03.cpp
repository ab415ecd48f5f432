// @src hal/memory_base.cpp hal/malloc_ansi.cpp
// @entry h_pair cover=less,equal,greater quick:N=7 thorough:N=16
// @entry h_cstr cover=less,equal,greater quick:N=7 thorough:N=16
// @entry h_triple cover=chain quick:N=3 thorough:N=6
// @entry h_icase cover=equal,different quick:N=3 thorough:N=5
// @entry h_window cover=equal,different quick:N=4 thorough:N=7
// @entry h_length cover=done quick:N=6 thorough:N=12
// @entry h_large cover=less,equal,greater B=1 quick:Z=6 thorough:Z=6
// @bound all pairs of strings of up to N characters and all triples of up to N characters, any non-zero characters; all windows; strings of 17 to 300 characters that agree except for one pair of arbitrary characters or their lengths
// @outside longer strings, strings that contain NUL, the sign of case-insensitive comparisons that are not zero
#define SMOD_CAP 320
#include "string_run.h"
struct Str { String *s; SMod m; Str(uint32_t n) { s = new String(); for (uint32_t i = 0; i < n; ++i) { char c = nzCh(); *s += c; m.add(c); } } ~Str() { delete s; } Str(const Str &) = delete; };
// -1, 0, 1: the shorter of two strings that agree comes first, otherwise the first different characters decide
static int order(const SMod &a, const SMod &b) { for (uint32_t i = 0; i < a.n || i < b.n; ++i) { if (i >= a.n) return -1; if (i >= b.n) return 1; if (a.c[i] != b.c[i]) return (unsigned char)a.c[i] < (unsigned char)b.c[i] ? -1 : 1; } return 0; }
static int sign(int v) { return (v > 0) - (v < 0); }
static uint32_t len() { return sx_choice("n", sx_param("N", 4) + 1); }
static const char *name(int o) { return o < 0 ? "less" : o > 0 ? "greater" : "equal"; }
extern "C" void h_pair() {
  { Str a(len()), b(len()); const String &x = *a.s, &y = *b.s; int o = order(a.m, b.m);
    int32 c = x.cmp(y); A(sign(c) == o, "comparison is lexicographic"); A(sign(y.cmp(x)) == -o, "comparison is antisymmetric");
    if (o) { uint32_t i = 0; while (i < a.m.n && i < b.m.n && a.m.c[i] == b.m.c[i]) ++i; int d = (i < a.m.n ? (unsigned char)a.m.c[i] : 0) - (i < b.m.n ? (unsigned char)b.m.c[i] : 0); A(c == d, "the difference of the first different characters"); }
    A((x == y) == (o == 0), "equality"); A((x != y) == (o != 0), "inequality"); A((x < y) == (o < 0), "less"); A((x > y) == (o > 0), "greater"); A((x <= y) == (o <= 0), "less or equal"); A((x >= y) == (o >= 0), "greater or equal");
    A(x.cmp(x) == 0 && x == x && x <= x && !(x < x), "a string equals itself"); same(x, a.m, "comparing changes nothing"); sx_cover(name(o)); }
  A(sx_live() == 0, "nothing leaks");
}
extern "C" void h_cstr() {
  { Str a(len()); CStr b(len()); SMod m = b.mod(); const String &x = *a.s; const char *y = b.p; int o = order(a.m, m);
    A(sign(x.cmp(y)) == o, "comparison is lexicographic"); A((x == y) == (o == 0), "equality"); A((x != y) == (o != 0), "inequality"); A((x < y) == (o < 0), "less"); A((x > y) == (o > 0), "greater"); A((x <= y) == (o <= 0), "less or equal"); A((x >= y) == (o >= 0), "greater or equal");
    A(sign(PlatformStrings::cmp(*x, y)) == o && sign(PlatformStrings::cmp(y, *x)) == -o, "comparison is lexicographic"); sx_cover(name(o)); }
  A(sx_live() == 0, "nothing leaks");
}
extern "C" void h_triple() {
  { Str a(len()), b(len()), c(len()); const String &x = *a.s, &y = *b.s, &z = *c.s;
    if (x <= y && y <= z) { A(x <= z, "the order is transitive"); A((x == z) == (x == y && y == z), "the order is antisymmetric"); A((x < z) == !(x == z), "strict and non-strict order agree"); sx_cover("chain"); }
    A((x < y) + (x == y) + (x > y) == 1, "exactly one of less, equal and greater holds"); }
}
static char low(char c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
static bool sameCase(const char *p, const char *q, uint32_t n, uint32_t from) { for (uint32_t i = from; i < from + n; ++i) if (low(p[i]) != low(q[i])) return false; return true; }
extern "C" void h_icase() {
  { Str a(len()), b(len()); const String &x = *a.s, &y = *b.s; bool e = a.m.n == b.m.n && sameCase(a.m.c, b.m.c, a.m.n, 0);
    A((x.icmp(y) == 0) == e, "equal up to ASCII case"); A((x.icmp(*y) == 0) == e && (PlatformStrings::icmp(*y, *x) == 0) == e, "equal up to ASCII case"); A(x.icmp(x.toUpper()) == 0 && x.toLower().icmp(x) == 0, "case conversion does not matter"); sx_cover(e ? "equal" : "different"); }
}
extern "C" void h_window() {
  uint32_t n = len(), from = sx_choice("from", n + 1), k = sx_choice("k", n - from + 1);
  // only the window of the two blocks may be read
  Buf a(from + k), b(from + k); int o = 0; for (uint32_t i = from; i < from + k; ++i) if (a.p[i] != b.p[i]) { o = (unsigned char)a.p[i] < (unsigned char)b.p[i] ? -1 : 1; break; }
  int32 c = from || sx_choice("explicit", 2) ? PlatformStrings::cmpn(a.p, b.p, k, from) : PlatformStrings::cmpn(a.p, b.p, k), ic = PlatformStrings::icmpn(a.p, b.p, k, from);
  A(sign(c) == o, "exactly the window is compared"); A((ic == 0) == sameCase(a.p, b.p, k, from), "exactly the window is compared up to case"); sx_cover(o ? "different" : "equal");
}
extern "C" void h_length() { CStr c(len()); A(PlatformStrings::getLength(c.p) == c.n, "the length is the number of characters before the terminator"); sx_cover("done"); }
extern "C" void h_large() {
  uint32_t n = largeSize(), at = modelIndex("at", n), cut = sx_choice("cut", 3), m = n - cut; if (at >= m) at = m - 1; char *a = (char *)malloc(n + 1), *b = (char *)malloc(m + 1);
  for (uint32_t i = 0; i < n; ++i) a[i] = 'a' + i % 26; a[n] = 0; for (uint32_t i = 0; i < m; ++i) b[i] = a[i]; b[m] = 0; a[at] = nzCh(); b[at] = nzCh();
  { String x((const char *)a), y((const char *)b); A(x.getLength() == n && y.getLength() == m, "the length is the number of characters before the terminator");
    int o = a[at] != b[at] ? ((unsigned char)a[at] < (unsigned char)b[at] ? -1 : 1) : n > m; A(sign(x.cmp(y)) == o && sign(y.cmp(x)) == -o && sign(x.cmp((const char *)b)) == o, "comparison is lexicographic"); A((x == y) == (o == 0) && (x != y) == (o != 0) && (x < y) == (o < 0) && (y <= x) == (o >= 0), "the relations agree with the comparison"); sx_cover(name(o));
    bool e = low(a[at]) == low(b[at]); A((x.icmp(y) == 0) == (e && n == m), "equal up to ASCII case");
    uint32_t from = at > 3 ? at - 3 : 0; A((PlatformStrings::cmpn(a, b, at - from, from) == 0), "exactly the window is compared"); A((PlatformStrings::cmpn(a, b, m - from, from) == 0) == (a[at] == b[at]), "exactly the window is compared"); A((PlatformStrings::icmpn(a, b, m, 0) == 0) == e, "exactly the window is compared up to case"); A(PlatformStrings::cmpn(a, b, m - at - 1, at + 1) == 0, "exactly the window is compared"); }
  free(a); free(b); A(sx_live() == 0, "nothing leaks");
}
