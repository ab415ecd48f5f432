// @src hal/memory_base.cpp hal/malloc_ansi.cpp
// @flags -Wno-format
// @entry h_number cover=append,plus,print quick:N=2 thorough:N=4
// @entry h_float cover=append,plus,print quick:N=2 thorough:N=4
// @entry h_longfloat cover=append,plus,print N=0 quick:M=31 thorough:M=0
// @entry h_digits cover=done quick:D=999 thorough:D=99999
// @entry h_format cover=done quick:N=3 thorough:N=6
// @entry h_long cover=short,long quick:W=3 thorough:W=40
// @entry h_object cover=append,print quick:N=3 thorough:N=6
// @entry h_array cover=done quick:N=3 thorough:N=6
// @bound integers of every type and value, and floating-point numbers below 1e9, appended to, added to and printed over strings of 0..N arbitrary characters; every double (quick: every 32nd binary exponent up to the largest) on empty strings; formats with text, %s, %c, %d and field widths, with outputs around the size of the internal buffer (1024) and beyond; objects with their own text; arrays of up to N numbers
// @outside floating-point digits (decided up to the conversion that the C library is asked for), infinities and NaN, other conversions than d i u x o s c f, formats whose output contains a NUL
// @assume snprintf behaves as in harness/rt.c (floating-point conversions are opaque and injective)
#include "string_run.h"
static void isText(const String &s, const SMod &pre, const char *text, uint32_t len, const char *what) {
  SMod m = pre; A(s.getLength() == pre.n + len, what);
  for (uint32_t i = 0; i < pre.n; ++i) A(s[i] == pre.c[i], "the earlier characters stay");
  for (uint32_t i = 0; i < len && i < s.getLength() - pre.n; ++i) A(s[pre.n + i] == text[i], what);
  A((*s)[s.getLength()] == '\0', "the buffer is terminated right after the characters");
}
template<class T> static void number(T v, const char *f) { // every length of text, up to 317 characters
  char ref[512]; int len = snprintf(ref, sizeof ref, f, v);
  { String s; SMod m, none; fillStr(s, m, sx_choice("n", sx_param("N", 2) + 1));
    switch (sx_choice("how", 3)) {
      case 0: A(&(s += v) == &s, "the string itself is returned"); isText(s, m, ref, len, "appending a number appends its digits"); sx_cover("append"); break;
      case 1: { String t = s + v; isText(t, m, ref, len, "adding a number appends its digits to a copy"); same(s, m, "the operand is unchanged"); sx_cover("plus"); break; }
      default: { uint32_t long_ = sx_choice("long", 2); for (uint32_t i = 0; i < long_ * 40; ++i) s += '#'; A(&(s <<= v) == &s, "the string itself is returned"); isText(s, none, ref, len, "printing a number replaces the text"); s += 'x'; A(s.getLength() == (uint32_t)len + 1 && s[len] == 'x', "a printed string can be extended"); sx_cover("print"); } } }
  A(sx_live() == 0, "nothing leaks");
}
extern "C" void h_number() {
  switch (sx_choice("type", 4)) {
    case 0: { int32_t v = symi<int32_t>("v"); number<int32>(v, "%d"); break; }
    case 1: { int64_t v = symi<int64_t>("v"); number<int64>(v, "%ld"); break; }
    case 2: { uint32_t v = symi<uint32_t>("v"); number<uint32>(v, "%u"); break; }
    default: { uint64_t v = symi<uint64_t>("v"); number<uint64>(v, "%lu"); } }
}
extern "C" void h_longfloat() { union { uint64_t u; double d; } x; uint32_t M = sx_param("M", 31); uint64_t e = 2046 - (M + 1) * sx_choice("e", 2046 / (M + 1) + 1); x.u = symi<uint64_t>("v"); x.u = (x.u & 0x800fffffffffffffull) | e << 52; number<float64>(x.d, "%f"); }
extern "C" void h_float() { if (sx_choice("type", 2)) { float v = sx_symf("v"); sx_assume(v > -1e9f && v < 1e9f); number<float32>(v, "%f"); } else { double v = (double)sx_symf("v"); sx_assume(v > -1e9 && v < 1e9); number<float64>(v, "%f"); } }
// The digits themselves: the text of v reads back as v.
extern "C" void h_digits() {
  int32_t v = symi<int32_t>("v"), D = (int32_t)sx_param("D", 999); sx_assume(v >= -D && v <= D);
  { String s; s <<= v; uint32_t i = 0; bool neg = v < 0; if (neg) { A(s[0] == '-', "a negative number starts with a minus sign"); ++i; }
    A(s.getLength() > i, "there is a digit"); A(s[i] != '0' || (v == 0 && s.getLength() == 1), "there are no leading zeroes");
    int32_t r = 0; for (; i < s.getLength(); ++i) { A(s[i] >= '0' && s[i] <= '9', "digits only"); r = r * 10 + (s[i] - '0'); }
    A(r == (neg ? -v : v), "the digits denote the number"); }
  sx_cover("done");
}
extern "C" void h_format() {
  uint32_t N = sx_param("N", 3); char ref[128]; int len;
  { CStr a(sx_choice("a", N + 1)); for (uint32_t i = 0; i < a.n; ++i) sx_assume(a.p[i] != '%'); SMod none;
    String s;
    switch (sx_choice("kind", 4)) {
      case 0: s = String::format(a.p); len = snprintf(ref, sizeof ref, "%s", a.p); break;
      case 1: { CStr b(sx_choice("b", N + 1)); char c = nzCh(); s = String::format("<%s|%c%s>", b.p, c, a.p); len = snprintf(ref, sizeof ref, "<%s|%c%s>", b.p, c, a.p); break; }
      case 2: { int32_t v = symi<int32_t>("v"); s = String::format("%d:%04x%s", v, v, a.p); len = snprintf(ref, sizeof ref, "%d:%04x%s", v, v, a.p); break; }
      default: { int32_t w = (int32_t)sx_choice("w", 7); s = String::format("%*s%%", w, a.p); len = snprintf(ref, sizeof ref, "%*s%%", w, a.p); } }
    isText(s, none, ref, len, "the text is what the format denotes"); s += 'x'; A(s.getLength() == (uint32_t)len + 1 && s[len] == 'x', "a formatted string can be extended"); }
  A(sx_live() == 0, "nothing leaks"); sx_cover("done");
}
extern "C" void h_long() { // outputs around the size of the internal buffer
  uint32_t w = sx_choice("base", 2) ? 1024 + sx_choice("w", 2 * sx_param("W", 3) + 1) - sx_param("W", 3) : 1 + 700 * sx_choice("w", 4); CStr a(1);
  { String s = String::format("%*s", (int)w, a.p); A(s.getLength() == w, "the text has the length the format denotes");
    for (uint32_t i = 0; i + 1 < w && i + 1 < s.getLength(); ++i) A(s[i] == ' ', "the text is what the format denotes"); A(s[w - 1] == a.p[0], "the text is what the format denotes"); A((*s)[w] == '\0', "the buffer is terminated right after the characters"); }
  A(sx_live() == 1, "nothing leaks"); sx_cover(w > 1024 ? "long" : "short");
}
struct Thing { const char *p; uint32_t n; String toString() const { return String(p, (sizet)n); } };
extern "C" void h_object() {
  uint32_t N = sx_param("N", 3);
  { Buf b(sx_choice("b", N + 1)); Thing t{b.p, b.n}; String s; SMod m; fillStr(s, m, sx_choice("n", N + 1));
    if (sx_choice("how", 2)) { String u = s + t; SMod r = m; r.add(b.mod()); same(u, r, "an object adds its text"); A(&(s += t) == &s, "the string itself is returned"); same(s, r, "an object appends its text"); sx_cover("append"); }
    else { A(&(s <<= t) == &s, "the string itself is returned"); same(s, b.mod(), "an object replaces the text"); sx_cover("print"); }
    A(t.p == b.p && t.n == b.n, "the object is unchanged"); }
  A(sx_live() == 0, "nothing leaks");
}
extern "C" void h_array() {
  uint32_t n = sx_choice("n", sx_param("N", 3) + 1); char ref[256]; uint32_t len = 0; ref[len++] = '[';
  { Array<int32> a; for (uint32_t i = 0; i < n; ++i) { int32_t v = symi<int8_t>("v"); a.add(v); len += snprintf(ref + len, 16, i ? ", %d" : "%d", v); } ref[len++] = ']';
    String s = a.toString(); SMod none; isText(s, none, ref, len, "an array prints its elements in order"); A(a.getCount() == n, "the array is unchanged"); }
  A(sx_live() == 0, "nothing leaks"); sx_cover("done");
}
