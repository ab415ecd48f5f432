// @src hal/memory_base.cpp hal/malloc_ansi.cpp regex/regex.cpp
// @entry h_shapes cover=yes,no quick:L=3,Q=4 thorough:L=4
// @entry h_counted cover=yes,no quick:L=4 thorough:L=6
// @entry h_classes cover=yes,no quick:L=2 thorough:L=3
// @entry h_escapes cover=yes,no quick:L=3,N=2 thorough:N=3
// @entry h_all cover=yes,no quick:N=4,L=2,K=14 thorough:N=4,K=20
// @entry h_executor cover=yes,no quick:L=2 thorough:L=3
// @entry h_symbolic cover=yes,no quick:L=2 thorough:L=3
// @entry h_nested cover=yes,no quick:L=3,Q=4 thorough:L=4,Q=6
// @entry h_long cover=yes,no quick:L=4 thorough:L=5
// @entry h_reuse cover=yes,no quick:L=2,Q=4 thorough:L=3
// @entry h_large steps=60000000 cover=yes,no quick:Z=5 thorough:Z=6
// @bound every subject of up to 2-4 characters (thorough 3-6), each any non-zero char; patterns: 20 shapes of literals, alternation and groups with every choice of ? * + none per place, 14 shapes with each of 12 counted repetitions, 40 character classes in 6 contexts, all sequences of up to two (thorough three) of 17 escapes and anchors and each between other characters, all well-formed patterns of up to 4 characters over 14 (thorough 20) characters, patterns whose literal, escaped character or range ends are any characters, groups nested three deep, patterns with concrete prefixes of up to 10 characters; patterns and subjects of up to 130 (thorough 300) characters whose language is known: literals, repetition counts, alternatives, sequences of and nested groups, and loops, with arbitrary characters at the end and elsewhere
// @outside malformed patterns; several quantifiers on one item; (?:...), back-references and the other constructs the source marks as not implemented; ranges starting at an escape; more than 124 groups
#include "model.h"
#include "regex_run.h"
static const char *const SHAPES[] = {"", "XQ", "XQXQ", "XQ|XQ", "(XQ)Q", "(XQXQ)Q", "(XQ|XQ)Q", "(XQ)QXQ", "XQ(XQ)Q", "(XQ|)QXQ", "(|XQ)Q", "XQ|XQXQ", "(XQ|X)QX", "((XQ)QX)Q", "((XQ)Q|X)Q", "(XQ|XXQ)Q", "(XQX|X)Q", "()Q", "XQXQXQ", "X|X|XQ"};
#define PICK(T) T[sx_choice("shape", sizeof T / sizeof *T)]
extern "C" void h_shapes() {
  Pat p; expand(p, PICK(SHAPES), 2, sx_param("Q", 4));
  check(p, sx_choice("len", sx_param("L", 3) + 1));
}
static const char *const COUNTED[] = {"XR", "XRX", "(XX)R", "(X|XX)R", "XRXR", "(XR)R", "(XRX)R", "(XQ)R", "(XQXQ)R", "X|XR", "(X|)RX", "((X)RX)R", ".R", "[ab]RX"};
extern "C" void h_counted() {
  Pat p; expand(p, PICK(COUNTED), 2, 4);
  check(p, sx_choice("len", sx_param("L", 4) + 1));
}
static const char *const CLASS[] = {"[a]", "[ab]", "[abc]", "[^a]", "[^ab]", "[a-c]", "[^a-c]", "[a-cx]", "[xa-c]", "[a-cx-z]", "[^a-cx-z]", "[a-c0-9_]", "[a-]", "[-a]", "[^a-]", "[^-a]", "[a^]", "[.]", "[*+?]", "[(|)]", "[{}]", "[$]", "[\\d]", "[\\w-]", "[\\s\\d]", "[^\\d]", "[^\\w\\s]", "[\\D]", "[^\\D]", "[\\]]", "[^\\]]", "[a\\]b]", "[\\\\]", "[a\\\\]", "[\\^a]", "[\\-a]", "[+-\\]]", "[+-\\\\]", "[!-~]", "[^]"};
static const char *const AROUND[] = {"C", "Ca", "aC", "CQ", "(C|b)Q", "aCb", "CC"};
extern "C" void h_classes() {
  const char *c = CLASS[sx_choice("class", sizeof CLASS / sizeof *CLASS)]; Pat p;
  for (const char *t = PICK(AROUND); *t; ++t) if (*t == 'C') p.add(c); else if (*t == 'Q') p.add("*\0?\0+\0{2}\0" + 2 * sx_choice("Q", 4)); else p.add(*t);
  check(p, sx_choice("len", sx_param("L", 2) + 1));
}
extern "C" void h_escapes() {
  static const char *const E[] = {"\\d", "\\D", "\\s", "\\S", "\\w", "\\W", "\\b", "\\B", "^", "$", "\\.", "\\*", "\\\\", "\\(", "\\[", "a", "."};
  const uint32_t all = sizeof E / sizeof *E; Pat p;
  if (sx_choice("mid", 2)) { // something on both sides of anything
    static const char *const S[] = {"a", ".", "\\W", "a?"};
    p.add(S[sx_choice("s", 4)]); p.add(E[sx_choice("e", all)]); p.add(S[sx_choice("s", 4)]);
  } else {
    uint32_t n = 1 + sx_choice("n", sx_param("N", 2));
    for (uint32_t i = 0; i < n; ++i) p.add(E[sx_choice("e", all)]);
    if (sx_choice("q", 2)) p.add(sx_choice("plus", 2) ? "+" : "?");
  }
  check(p, sx_choice("len", sx_param("L", 3) + 1));
}
static bool plain(char c) { return c > 0 && c != '\\' && c != '(' && c != ')' && c != '[' && c != ']' && c != '{' && c != '}' && c != '|' && c != '?' && c != '+' && c != '*' && c != '.' && c != '^' && c != '$' && c != '-'; }
// Every well-formed pattern of up to N characters over this alphabet.
extern "C" void h_all() {
  Pat p; const uint32_t n = sx_choice("n", sx_param("N", 4) + 1);
  for (uint32_t i = 0; i < n; ++i) p.add("a()[]|*^\\{2}-.+?$db,"[sx_choice("c", sx_param("K", 14))]);
  sx_assume(WellFormed(p.t));
  check(p, sx_choice("len", sx_param("L", 2) + 1));
}
// Stepping an executor by hand, and starting over on the same or another input.
extern "C" void h_executor() {
  static const char *const T[] = {"XQX", "(X|XX)Q", "\\bXQ", "^XQ$", "[^X]Q"}; Pat p; expand(p, PICK(T), 2, 4);
  static Ref ref; ref.nn = 0; ref.parse(p.t); const Re::Regex re{String(p.t)};
  uint32_t n1 = sx_choice("len", sx_param("L", 2) + 1), n2 = sx_choice("len", sx_param("L", 2) + 1);
  char *s = subject(n1), *t = subject(n2);
  auto ex = re.getAutomaton().createExecutor(s); bool acc = false; int8_t c[16];
  for (uint32_t i = sx_choice("steps", 4); i; --i) if (ex.step(acc)) break; // abandoned half way
  bool other = sx_choice("other", 2); const char *in = other ? t : s; uint32_t n = other ? n2 : n1;
  if (other) ex.reset(t); else ex.reset();
  A(ex.getCurrentState() == re.getAutomaton().getStartState() && ex.getCurrentInput() == in && ex.getNumRead() == 0, "a reset executor is at the start of its input");
  A(ex.isAcceptedState() == false && ex.isAcceptedState(re.getAutomaton().getAcceptedState()), "the start state is not the accepted state");
  uint32_t steps = 0; while (!ex.step(acc)) if (++steps > 400) sx_fail("stepping ends");
  for (uint32_t i = 0; i < n; ++i) c[i] = in[i];
  A((uint32_t)acc == ref.matches(c, n), "stepping until the end after a reset decides the language"); sx_cover(acc ? "yes" : "no");
  free(s); free(t);
}
// Letters q and r stand for characters that stay symbolic in the pattern.
extern "C" void h_symbolic() {
  static const char *const T[] = {"q", "qr", "q*r", "q|r", "(qr)+", "\\q", "\\q?r", "[qr]", "[^qr]", "[q-r]", "[^q-r]", "[q-r]+", "[aq-r]", "[!-\\q]", "q{2}", "q{1,2}r"};
  uint32_t t = sx_choice("t", sizeof T / sizeof *T); Pat p; p.add(T[t]);
  char q = symi<int8_t>("q"), r = symi<int8_t>("r");
  bool range = strchr(T[t], '-') != nullptr, esc = T[t][0] == '\\' || strchr(T[t], '\\');
  if (esc) { sx_assume(q > 0); sx_assume(!((q >= '0') & (q <= '9'))); sx_assume(!((q >= 'a') & (q <= 'z'))); sx_assume(!((q >= 'A') & (q <= 'Z'))); }
  else sx_assume(plain(q));
  sx_assume(plain(r));
  if (range) { if (esc) sx_assume(q > '!'); else sx_assume(q < r); }
  Ref ref; ref.nn = 0; ref.parse(p.t);
  for (int i = 0; i < ref.nn; ++i) for (int j = 0; j < ref.nd[i].nr; ++j) for (int z = 0; z < 2; ++z) { int8_t *c = z ? &ref.nd[i].to[j] : &ref.nd[i].from[j]; if (*c == 'q') *c = q; else if (*c == 'r') *c = r; }
  for (uint32_t i = 0; i < p.n; ++i) if (p.t[i] == 'q') p.t[i] = q; else if (p.t[i] == 'r') p.t[i] = r;
  Re::Regex re{String(p.t)};
  uint32_t len = sx_choice("len", sx_param("L", 2) + 1); char *s = subject(len); judge(re, ref, s, len); free(s);
}
static const char *const NESTED[] = {"((X)Q(X)Q)Q", "(((X)Q)QX)Q", "((X|X)QX|X)Q", "(X(X(X)Q)Q)Q", "((XQ|XQ)X)Q", "(X|(X|X)Q)QX", "((X)Q|(X)Q)QX", "(X)Q(X)Q(X)Q", "((|X)QX)Q", "(((X)Q)Q)Q"};
extern "C" void h_nested() {
  Pat p; expand(p, PICK(NESTED), 2, sx_param("Q", 4));
  check(p, sx_choice("len", sx_param("L", 3) + 1));
}
// Longer patterns on subjects with a concrete beginning.
extern "C" void h_long() {
  static const char *const P[][2] = {{"https?://\\w+(\\.\\w+)+[/\\w+]*", "http://a."}, {"https?://\\w+(\\.\\w+)+[/\\w+]*", "https:/"}, {"[a-z]+\\d*(_[a-z]+\\d*)*", "ab1_"}, {"\\d+(\\.\\d+)?(e-?\\d+)?", "12"}, {"(a|b)*abb", "abab"}, {"(Hello|Bye), \\w+!?", "Hello, w"}, {"\\s*(\\w+)\\s*=\\s*(\\d+|\"[^\"]*\")\\s*", " x= "}, {"-?(0|[1-9]\\d*)", ""}, {"#([0-9a-f]{3}){1,2}", "#0a"}};
  uint32_t k = sx_choice("k", sizeof P / sizeof *P); Pat p; p.add(P[k][0]);
  static Ref ref; ref.nn = 0; ref.parse(p.t); Re::Regex re{String(p.t)};
  uint32_t pre = strlen(P[k][1]), n = pre + sx_choice("len", sx_param("L", 3) + 1);
  char *s = subject(n); for (uint32_t i = 0; i < pre; ++i) s[i] = P[k][1][i];
  judge(re, ref, s, n); free(s);
}
// One expression for several subjects, the same pattern compiled twice, and the free function.
extern "C" void h_reuse() {
  static const char *const T[] = {"XQ(X)Q", "(X|XX)Q", "[^X]QX", "\\w+X"};
  Pat p; expand(p, PICK(T), 2, sx_param("Q", 4));
  static Ref ref; ref.nn = 0; ref.parse(p.t);
  Re::Regex a{String(p.t)}, b{String(p.t)};
  uint32_t n1 = sx_choice("len", sx_param("L", 2) + 1), n2 = sx_choice("len", sx_param("L", 2) + 1);
  char *s = subject(n1), *t = subject(n2);
  judge(a, ref, s, n1); judge(a, ref, t, n2);
  int8_t c[16]; for (uint32_t i = 0; i < n1; ++i) c[i] = s[i];
  bool want = ref.matches(c, n1), again = a.accept(String(s)), other = b.accept(s), fre = Re::accept(String(p.t), String(s));
  A(again == want, "asking again gives the same answer"); A(other == want, "the same pattern compiled twice accepts the same subjects"); A(fre == want, "the free function agrees");
  free(s); free(t);
}

// Long patterns and subjects whose language is known.
extern "C" void h_large() {
  static const uint16_t SIZE[] = {9, 17, 33, 65, 130, 300}; uint32_t n = SIZE[sx_choice("size", sx_param("Z", 5))], what = sx_choice("what", 11), at = sx_choice("at", 3) * (n - 1) / 2; if (what == 3 || what == 4) { if (n > 65) n = 65; } else if (what == 2 || what >= 8) if (n > 33) n = 33; if (at >= n) at = n / 2;
  static char pt[2048], s[640]; uint32_t m = 0, k = n; auto put = [&](const char *t) { while (*t) pt[m++] = *t++; pt[m] = 0; }; auto num = [&](uint32_t v) { char b[8]; uint32_t j = 7; b[j] = 0; do b[--j] = '0' + v % 10; while (v /= 10); put(b + j); };
  bool want = false; m = 0; pt[0] = 0; if (at >= n) at = n - 1;
  auto any = [&](uint32_t i) { s[i] = symi<int8_t>("s"); sx_assume(s[i] != 0); };
  switch (what) {
    case 0: { for (uint32_t i = 0; i < n; ++i) { char c[2] = {(char)('a' + i % 26), 0}; put(c); s[i] = c[0]; } char c = s[at]; any(at); want = s[at] == c; break; } // a literal
    case 1: put("a{"); num(n); put("}"); k = n - 1 + sx_choice("len", 3); for (uint32_t i = 0; i < k; ++i) s[i] = 'a'; any(k - 1); want = k == n && s[k - 1] == 'a'; break;
    case 2: put("a{"); num(n / 2); put(","); num(n); put("}"); { static const int8_t D[] = {-1, 0, 1}; k = (sx_choice("upper", 2) ? n : n / 2) + D[sx_choice("len", 3)]; } for (uint32_t i = 0; i < k; ++i) s[i] = 'a'; any(k - 1); want = k >= n / 2 && k <= n && s[k - 1] == 'a'; break;
    case 3: for (uint32_t i = 0; i < n; ++i) { char c[4] = {i ? '|' : '\0', 0, 0, 0}; if (i) put(c); char d[3] = {(char)('a' + i % 26), (char)('a' + i / 26), 0}; put(d); } s[0] = (char)('a' + at % 26); any(1); k = 2; want = s[1] >= 'a' && (uint32_t)(s[1] - 'a') * 26 + at % 26 < n; break; // alternatives
    case 4: for (uint32_t i = 0; i < n; ++i) put("("); put("a"); for (uint32_t i = 0; i < n; ++i) put(")"); k = sx_choice("len", 3); for (uint32_t i = 0; i < k; ++i) any(i); want = k == 1 && s[0] == 'a'; break; // nested groups
    case 5: { uint32_t g = n > 60 ? 60 : n; for (uint32_t i = 0; i < g; ++i) { char c[4] = {'(', (char)('a' + i % 26), ')', 0}; put(c); s[i] = c[1]; } k = g; if (at >= g) at = g - 1; char c = s[at]; any(at); want = s[at] == c; break; } // a sequence of groups
    case 6: put(sx_choice("dot", 2) ? ".*z" : "[a-y]*z"); for (uint32_t i = 0; i < n; ++i) s[i] = (char)('a' + i % 25); any(n - 1); want = s[n - 1] == 'z'; break;
    case 7: put("(ab|c)+"); for (uint32_t i = 0; i < n; ++i) s[i] = n % 2 == i % 2 ? 'a' : 'b'; if (n % 2) s[0] = 'c'; any(n - 1); want = s[n - 1] == 'b'; break; // c(ab)(ab)…
    case 8: put("["); for (uint32_t i = 0; i < 26 && i < n; ++i) { char c[4] = {(char)('a' + i), (char)('A' + i), 0, 0}; put(c); } put("]+"); for (uint32_t i = 0; i < n; ++i) s[i] = i % 2 ? 'a' : 'A'; any(at); { uint32_t l = n < 26 ? n : 26; want = (s[at] >= 'a' && s[at] < (int)('a' + l)) || (s[at] >= 'A' && s[at] < (int)('A' + l)); } break;
    case 9: put("(ab){"); num(n / 2); put(",}"); k = n / 2 * 2 + 2 * sx_choice("more", 3) - 2; for (uint32_t i = 0; i < k; ++i) s[i] = i % 2 ? 'b' : 'a'; any(k - 1); want = k >= n / 2 * 2 && s[k - 1] == 'b'; break;
    default: for (uint32_t i = 0; i < n; ++i) put("a?"); k = n - 1 + sx_choice("len", 3); for (uint32_t i = 0; i < k; ++i) s[i] = 'a'; if (k) any(k - 1); want = k <= n && (!k || s[k - 1] == 'a'); // optional parts
  }
  s[k] = 0; { Re::Regex r{String((const char *)pt)}; char *t = (char *)malloc(k + 1); for (uint32_t i = 0; i <= k; ++i) t[i] = s[i]; bool got = r.accept((const char *)t); A(got == want, "a subject is accepted exactly when it is in the language of the pattern"); sx_cover(got ? "yes" : "no"); free(t); }
  A(sx_live() == 0, "nothing leaks");
}
