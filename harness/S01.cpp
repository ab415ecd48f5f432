// @src hal/memory_base.cpp hal/malloc_ansi.cpp
// @entry h_construct cover=default,cstr,buffer,fill,capacity,name,copy,literal quick:N=5 thorough:N=9
// @entry h_history cover=char,cstr,string,self,plus,substr,splice,write,assign quick:N=2,M=2,K=2 thorough:N=3,M=2,K=3
// @entry h_step cover=char,cstr,string,self,plus,substr,splice,write,assign S=1 quick:N=4,M=4,K=1 thorough:N=8,M=6,K=1
// @entry h_alias cover=done quick:N=5 thorough:N=9
// @entry h_large cover=char,cstr,string,self,plus,substr,splice,write,assign B=1 quick:Z=6,K=1 thorough:Z=6,K=2
// @entry h_grow cover=done N=300
// @bound strings of 0..N arbitrary characters from every constructor; every history of K edits with operands of 0..M characters at every position; edits of a string of up to N characters with every part of itself; K edits of strings of 17 to 300 characters at the ends, in the middle and around the 128th and 256th character, with operands of up to 300 characters; a string built character by character up to 300
// @outside longer strings and histories, start positions or lengths beyond the end of the text, using a string after it was moved from
#define SMOD_CAP 1600
#include "string_run.h"
static uint32_t ix(const char *n, uint32_t k) { return modelIndex(n, k); }
static uint32_t opnd(uint32_t M) { if (sx_param("B", 0)) { static const uint16_t k[] = {0, 1, 40, 130, 300}; return k[sx_choice("k", 5)]; } return sx_choice("k", M + 1); }
extern "C" void h_construct() {
  uint32_t N = sx_param("N", 5), n = sx_choice("n", N + 1);
  { switch (sx_choice("ctor", 8)) {
      case 0: { String s; same(s, SMod(), "a new string is empty"); sx_cover("default"); break; }
      case 1: { CStr c(n); SMod m = c.mod(); String s(c.p); same(s, m, "the characters of the C string"); for (uint32_t i = 0; i <= n; ++i) A(c.p[i] == (i < n ? m.c[i] : 0), "the source is unchanged"); sx_cover("cstr"); break; }
      case 2: { Buf b(n); String s((const char *)b.p, (sizet)n); same(s, b.mod(), "the characters of the buffer"); sx_cover("buffer"); break; }
      case 3: { char x = anyCh(); String s((sizet)n, x); SMod m; for (uint32_t i = 0; i < n; ++i) m.add(x); same(s, m, "the character repeated"); sx_cover("fill"); break; }
      case 4: { String s((sizet)n); same(s, SMod(), "a string of some capacity is empty"); SMod m; fillStr(s, m, n); same(s, m, "the appended characters"); sx_cover("capacity"); break; }
      case 5: { Buf b(n); Name nm(b.p, n); String s(nm); same(s, b.mod(), "the characters of the name"); sx_cover("name"); break; }
      case 6: { String a; SMod m; fillStr(a, m, n); String b(a); same(b, m, "the characters of the copy"); a += 'x'; if (n) a[0] = 'y'; same(b, m, "a copy is independent"); String d(static_cast<String &&>(b)); same(d, m, "the characters of the moved string"); sx_cover("copy"); break; }
      default: { Name nm = "abc"; String a(nm), b = "abc"; SMod m; m.add('a'); m.add('b'); m.add('c'); same(a, m, "the literal"); same(b, m, "the literal"); sx_cover("literal"); } } }
  A(sx_live() == 0, "nothing leaks");
}
static void step(String &s, SMod &m, uint32_t M) {
  switch (sx_choice("op", 10)) {
    case 0: { char x = anyCh(); A(&(s += x) == &s, "the string itself is returned"); m.add(x); sx_cover("char"); break; }
    case 1: { CStr c(opnd(M)); A(&(s += (const char *)c.p) == &s, "the string itself is returned"); m.add(c.mod()); sx_cover("cstr"); break; }
    case 2: { String o; SMod mo; fillStr(o, mo, opnd(M)); A(&(s += o) == &s, "the string itself is returned"); m.add(mo); same(o, mo, "the operand is unchanged"); sx_cover("string"); break; }
    case 3: { s += s; SMod t = m; m.add(t); sx_cover("self"); break; }
    case 4: { uint32_t k = opnd(M); SMod r = m; if (sx_choice("kind", 2)) { CStr c(k); String t = s + (const char *)c.p; r.add(c.mod()); same(t, r, "concatenation"); } else { String o; SMod mo; fillStr(o, mo, k); String t = s + o; r.add(mo); same(t, r, "concatenation"); same(o, mo, "the operand is unchanged"); String u = s + s, v = s + 'x'; SMod w = m; w.add(m); same(u, w, "concatenation with itself"); w = m; w.add('x'); same(v, w, "concatenation with a character"); } sx_cover("plus"); break; }
    case 5: { uint32_t pos = ix("pos", m.n + 1), len = ix("len", m.n - pos + 1); String t = s.substr(len, pos); same(t, m.sub(len, pos), "the substring"); if (pos == 0) { String u = s.substr(len); same(u, m.sub(len, 0), "the prefix"); } t += 'x'; sx_cover("substr"); break; }
    case 6: { uint32_t pos = ix("pos", m.n + 1), len = ix("len", m.n - pos + 1); String o; SMod mo; fillStr(o, mo, opnd(M)); A(&s.splice(pos, len, o) == &s, "the string itself is returned"); m.splice(pos, len, mo); same(o, mo, "the operand is unchanged"); sx_cover("splice"); break; }
    case 7: { uint32_t pos = ix("pos", m.n + 1), len = ix("len", m.n - pos + 1); CStr c(opnd(M)); if (c.n == 0 && sx_choice("dflt", 2)) s.splice(pos, len); else s.splice(pos, len, (const char *)c.p); m.splice(pos, len, c.mod()); sx_cover("splice"); break; }
    case 8: { if (!m.n) break; uint32_t i = ix("i", m.n); char x = anyCh(); if (sx_choice("how", 2)) s[i] = x; else (*s)[i] = x; m.c[i] = x; sx_cover("write"); break; }
    default: { String o; SMod mo; fillStr(o, mo, opnd(M)); switch (sx_choice("how", 3)) { case 0: s = o; m = mo; break; case 1: s = static_cast<String &&>(o); m = mo; break; default: { CStr c(opnd(M)); s = (const char *)c.p; m = c.mod(); } } sx_cover("assign"); }
  }
  same(s, m, "the string holds exactly the characters the edit defines");
}
static void history() {
  uint32_t N = sx_param("N", 3), M = sx_param("M", 2), K = sx_param("K", 2);
  { String s; SMod m; fillStr(s, m, sx_choice("n0", N + 1)); for (uint32_t i = 0; i < K; ++i) step(s, m, M); }
  A(sx_live() == 0, "nothing leaks");
}
extern "C" void h_history() { history(); }
extern "C" void h_step() { history(); }
extern "C" void h_alias() {
  uint32_t n = sx_choice("n", sx_param("N", 5) + 1);
  { Buf b(n); for (uint32_t i = 0; i < n; ++i) sx_assume(b.p[i] != 0); SMod m = b.mod(); String s((const char *)b.p, (sizet)n); uint32_t o = sx_choice("o", n + 1); SMod tail = m.sub(n - o, o);
    switch (sx_choice("op", 4)) {
      case 0: s += (const char *)(*s + o); m.add(tail); break;
      case 1: { uint32_t pos = sx_choice("pos", n + 1), len = sx_choice("len", n - pos + 1); s.splice(pos, len, (const char *)(*s + o)); m.splice(pos, len, tail); break; }
      case 2: { uint32_t pos = sx_choice("pos", n + 1), len = sx_choice("len", n - pos + 1); SMod t = m; s.splice(pos, len, s); m.splice(pos, len, t); break; }
      default: s = (const char *)(*s + o); m = tail;
    }
    same(s, m, "combining a string with itself"); }
  A(sx_live() == 0, "nothing leaks"); sx_cover("done");
}
extern "C" void h_large() {
  { String s; SMod m; fillStr(s, m, largeSize()); for (uint32_t i = 0; i < sx_param("K", 1); ++i) step(s, m, 0); String t(s), u((const char *)*s, (sizet)m.n); same(t, m, "the characters of the copy"); same(u, m, "the characters of the buffer"); }
  A(sx_live() == 0, "nothing leaks");
}
extern "C" void h_grow() {
  uint32_t n = sx_param("N", 300), how = sx_choice("how", 4);
  { String s; SMod m, p; if (how == 3) fillStr(s, m, 40); String o; fillStr(o, p, 3); o += 'x'; p.add('x');
    while (m.n < n) { if (how == 0 || how == 3) { char x = anyCh(); s += x; m.add(x); } else if (how == 1) { s += o; m.add(p); } else { s += "ab"; m.add('a'); m.add('b'); } A(s.getLength() == m.n && (*s)[m.n] == 0 && s[m.n - 1] == m.c[m.n - 1], "the string holds exactly the characters added"); if (m.n % 16 < 4) same(s, m, "the string holds exactly the characters added"); } }
  A(sx_live() == 0, "nothing leaks"); sx_cover("done");
}
