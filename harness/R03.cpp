// @src hal/memory_base.cpp hal/malloc_ansi.cpp regex/regex.cpp
// @entry h_uses cover=done quick:L=2,Q=4 thorough:L=3
// @entry h_classes cover=done
// @entry h_executors cover=done quick:L=2 thorough:L=3
// @entry h_copy known=memory
// @bound 14 shapes of patterns with every choice of quantifiers and 40 classes and escapes; up to 3 uses of an expression on every subject of up to 2 (thorough 3) characters; executors abandoned, restarted and copied at any of the first 4 steps; block counts compared exactly
// @outside malformed patterns
#include "regex_run.h"
#define PICK(T) T[sx_choice("shape", sizeof T / sizeof *T)]
static const char *const T[] = {"", "XQ", "XQXQ", "XQ|XQ", "(XQ)Q", "(XQ|XQ)Q", "XR", "(XQ)R", "((XQ)QX)Q", "()Q", "(|X)Q", "\\bXQ", "^XQ$", "[^X]Q[XX]Q"};
extern "C" void h_uses() {
  Pat p; expand(p, PICK(T), 2, sx_param("Q", 4)); const uint32_t len = sx_choice("len", sx_param("L", 2) + 1); char *s = subject(len);
  const uint64_t before = sx_live();
  {
    Re::Regex r{String(p.t)}; const uint64_t compiled = sx_live();
    bool a = false; for (uint32_t i = sx_choice("uses", 4); i; --i) { a = r.accept(s); A(sx_live() == compiled, "matching leaves nothing behind"); }
    String t = r.getAutomaton().toString();
  }
  A(sx_live() == before, "a destroyed expression has released everything"); sx_cover("done"); free(s);
}
extern "C" void h_classes() {
  static const char *const C[] = {"[a]", "[ab]", "[^a]", "[^ab]", "[a-c]", "[^a-cx]", "[\\d]", "[^\\w]", "[\\]]", "[a-]", "[^]", "[", "[]", "\\d", "\\D", "\\s", "\\S", "\\w", "\\W", "\\b", "\\B", "\\.", ".", "^", "$", "[^a]*", "[^a]{2}", "([^a]|[^b])+", "([^a]*)*", "(\\w[^\\d]?)+"};
  Pat p; p.add(C[sx_choice("c", sizeof C / sizeof *C)]); char *s = subject(sx_choice("len", 3)); const uint64_t before = sx_live();
  { Re::Regex r{String(p.t)}, q{String(p.t)}; r.accept(s); q.accept(String(s)); Re::accept(String(p.t), String(s)); }
  A(sx_live() == before, "destroyed expressions have released everything"); sx_cover("done"); free(s);
}
extern "C" void h_executors() {
  static const char *const E[] = {"a*b", "(a|ab)*", "[^a]b?", "\\b.(a|b)+"}; Pat p; p.add(PICK(E));
  char *s = subject(sx_choice("len", sx_param("L", 2) + 1)), *t = subject(1); const uint64_t before = sx_live();
  {
    const Re::Regex r{String(p.t)}; const uint64_t compiled = sx_live();
    {
      auto ex = r.getAutomaton().createExecutor(s); bool acc = false, end = false;
      for (uint32_t i = sx_choice("steps", 5); i && !end; --i) end = ex.step(acc);
      switch (sx_choice("then", 4)) {
        case 0: break; // abandoned
        case 1: ex.reset(); ex.step(acc); break;
        case 2: ex.reset(t); ex.step(acc); break;
        case 3: { auto copy = ex; if (!end) copy.step(acc); copy.reset(t); ex.reset(s); break; }
      }
    }
    A(sx_live() == compiled, "an executor leaves nothing behind");
    A(r.accept("ab") == Re::accept(String(p.t), "ab"), "the expression is unaffected by its executors");
  }
  A(sx_live() == before, "a destroyed expression has released everything"); sx_cover("done"); free(s); free(t);
}
// Known: a copied expression shares its states with the original, both release them.
extern "C" void h_copy() {
  const uint64_t before = sx_live();
  { Re::Regex r{String("ab*")}; Re::Regex c{r}; A(c.accept("abb") && r.accept("a"), "a copy accepts what the original accepts"); }
  A(sx_live() == before, "both have released everything");
}
