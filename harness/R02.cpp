// @src hal/memory_base.cpp hal/malloc_ansi.cpp regex/regex.cpp
// @entry h_all cover=done quick:N=3,L=2 thorough:N=4
// @entry h_loops cover=done quick:L=3 thorough:L=3
// @entry h_ends cover=done quick:L=2 thorough:L=3
// @entry h_chars cover=done quick:L=2 thorough:L=4
// @entry h_print cover=done
// @bound all well-formed patterns of up to 3 (thorough 4) characters over 20 characters, 25 shapes of loops around parts that may match nothing with every quantifier, 30 patterns that look past the current character, each with every subject of up to 2 (thorough 3-4) characters in a block of exactly that size; 4 million instructions per run; every memory access checked
// @outside malformed patterns other than an unclosed class; more than 124 groups; subjects without a terminator
#include "regex_run.h"
#define PICK(T) T[sx_choice("shape", sizeof T / sizeof *T)]
// Every access is checked by the engine, and a run that does not end is reported.
static void runs(const Pat &p, uint32_t len) {
  char *pat = (char *)malloc(p.n + 1); memcpy(pat, p.t, p.n + 1);
  { Re::Regex r{String(pat)}; free(pat); char *s = subject(len); bool a = r.accept(s); A(r.accept(s) == a, "matching ends with one answer"); free(s); }
  sx_cover("done");
}
extern "C" void h_all() {
  Pat p; const uint32_t n = sx_choice("n", sx_param("N", 3) + 1);
  for (uint32_t i = 0; i < n; ++i) p.add("ab()[]{}|?+*.^$\\d2,-"[sx_choice("c", 20)]);
  sx_assume(WellFormed(p.t));
  runs(p, sx_choice("len", sx_param("L", 2) + 1));
}
extern "C" void h_loops() {
  static const char *const T[] = {"()V", "(a*)V", "(a?)V", "(a{0,2})V", "((a*)V)V", "((aV)*bV)V", "(|a)V", "(a|)V", "(^)V", "($)V", "(\\b)V", "(\\B)V", "(^*)V", "(a*|b*)V", "(a*b*)V", "((a*)V(b*)V)V", "(a*)VbV", "((|a)V|b)V", "((a|b*)V)V(aV)V", "(()V()V)V", "([^a]*)V", "(.*)V(.*)V", "((\\bV)*a)V", "(a+)Vb", "((a+)V)V"};
  static const char *const V[] = {"*", "+", "?", "{0,}", "{2,}", "{0,3}", "{3}"};
  const char *v[4]; uint32_t nv = 0; for (; nv < 2; ++nv) v[nv] = V[sx_choice("v", 7)];
  Pat p; uint32_t k = 0; for (const char *t = PICK(T); *t; ++t) if (*t == 'V') p.add(v[k++ % nv]); else p.add(*t);
  runs(p, sx_choice("len", sx_param("L", 2) + 1));
}
extern "C" void h_ends() {
  static const char *const T[] = {"\\D", "\\S", "\\W", "\\D\\D", "\\W*", "\\S+", "\\D?\\W", ".\\D", "[^a]", "[^a]*", "[^\\d]+", ".[^a]", "[^a-c][^b]", "\\b", "\\B", "a\\b", "a\\B", "$", "$a", "a$b", "^\\W$", ".", "..", ".*", ".*.", "[^]", "[", "[a", "a[", "[\\]", "[\\"};
  Pat p; p.add(PICK(T)); runs(p, sx_choice("len", sx_param("L", 2) + 1));
}
// Escapes match exactly the characters they stand for, and never the end of the text.
extern "C" void h_chars() {
  static const char *const T[] = {"\\d", "\\D", "\\s", "\\S", "\\w", "\\W", "[^a]", "[^\\d]", ".", "[^]"}; Pat p; p.add(PICK(T));
  Re::Regex r{String(p.t)};
  uint32_t len = sx_choice("len", sx_param("L", 2) + 1); char *s = subject(len); bool got = r.accept(s);
  if (len != 1) A(!got, "an item for one character accepts only subjects of one character");
  free(s); sx_cover("done");
}
extern "C" void h_print() {
  static const char *const T[] = {"", "a", "a*", "(a|b)+c", "[a-c]?", "[^x]", "\\d\\b", "a{2}"}; Pat p; p.add(PICK(T));
  Re::Regex r{String(p.t)}; String t = r.getAutomaton().toString(); A(t.getLength() > 0, "an automaton prints as some text"); sx_cover("done");
}
