// @src hal/memory_base.cpp hal/malloc_ansi.cpp
// @entry h_history cover=free,small,large,counter,copy,move,assign,moveassign,call quick:K=3 thorough:K=3
// @entry h_step cover=free,small,large,counter,copy,move,assign,moveassign,call S=1 quick:K=1 thorough:K=2
// @entry h_targets cover=done
// @entry h_arguments cover=value,reference,rvalue,void,pointer
// @entry h_lifetime cover=lvalue,rvalue,const,moveonly
// @entry h_aligned cover=done
// @entry h_sizes cover=done
// @bound every history of K operations (copy and move construction, copy and move assignment, self assignment, destruction, calls) over three function objects, two of them bound to any of a free function, a small, a large and a self-modifying closure with arbitrary captured values and call arguments; arguments and results by value, by reference, as rvalues and of class type; functors given as lvalue, constant, rvalue and move-only; over-aligned captures; closures of 1 to 24, 31 to 33, 40, 48, 63 to 65, 72, 128, 200, 256, 264 and 1024 bytes copied, moved, assigned over each other and called
// @outside longer histories, calling an unbound function, copying a function whose target cannot be copied, functors that throw
#include "sx.h"
#include "elem.h"
static uint32_t ix(const char *n, uint32_t k) { return sx_param("S", 0) ? sx_pick(n, k) : sx_choice(n, k); }
#include "core_types.h"
#include "hal/malloc_ansi.h"
#include "templates/function.h"
typedef Function<int32(int32)> Fn;
static int32 freeFn(int32 x) { return x ^ 0x55; }
static int32 otherFn(int32 x) { return x - 3; }
struct Large { Obj a, b; int64_t pad[6]; int32_t c; int32 operator()(int32 x) const { return a.val() + 3 * b.val() + c + x + (int32)pad[5]; } };
struct Counter { Obj n; Counter(int32_t v) : n{v} {} int32 operator()(int32 x) { n = Obj((int32_t)((uint32_t)n.val() + 1)); return (int32)((uint32_t)n.val() ^ (uint32_t)x); } };
enum Kind { NONE, FREE, SMALL, LARGE, COUNTER };
struct M { Kind k = NONE; uint32_t v = 0; bool known = true; int objs() const { return k == SMALL || k == COUNTER ? 1 : k == LARGE ? 2 : 0; }
  int32_t call(uint32_t x) { switch (k) { case FREE: return (int32_t)(x ^ 0x55); case SMALL: return (int32_t)(v * 2 + x); case LARGE: return (int32_t)(v + 3 * (v + 1) + (v ^ 9) + x + 6); default: ++v; return (int32_t)(v ^ x); } } };
struct Run {
  Fn *f[3]; M m[3];
  void make(int i, Kind k) {
    uint32_t v = symi<uint32_t>("v"); m[i] = M{k, v, true};
    switch (k) {
      case NONE: f[i] = new Fn(); break;
      case FREE: if (sx_choice("ref", 2)) f[i] = new Fn(freeFn); else f[i] = new Fn(&freeFn); sx_cover("free"); break;
      case SMALL: { Obj o((int32_t)v); f[i] = new Fn([o](int32 x) { return (int32)((uint32_t)o.val() * 2 + (uint32_t)x); }); sx_cover("small"); break; }
      case LARGE: { Obj a((int32_t)v), b((int32_t)(v + 1)); int64_t p[6] = {1, 2, 3, 4, 5, 6}; int32_t c = (int32_t)(v ^ 9); auto l = [a, b, p, c](int32 x) { return (int32)((uint32_t)a.val() + 3u * (uint32_t)b.val() + (uint32_t)c + (uint32_t)x + (uint32_t)p[5]); }; f[i] = new Fn(l); sx_cover("large"); break; }
      default: f[i] = new Fn(Counter((int32_t)v)); sx_cover("counter");
    }
  }
  void check() {
    int64_t live = 0; bool exact = true;
    for (int i = 0; i < 3; ++i) { if (!m[i].known) { exact = false; continue; } A((bool)*const_cast<const Fn *>(f[i]) == (m[i].k != NONE), "bound exactly when it has a target"); live += m[i].objs(); }
    if (exact) A(Obj::alive == live, "exactly the captured objects of the bound functions are alive");
  }
  void call(int i) {
    if (m[i].k == NONE || !m[i].known) return;
    uint32_t x = symi<uint32_t>("x"); int32_t want = m[i].call(x);
    int32_t got = sx_choice("const", 2) ? (*const_cast<const Fn *>(f[i]))((int32)x) : (*f[i])((int32)x);
    A(got == want, "the call reaches the target with its captured state"); sx_cover("call");
  }
  void step() {
    switch (ix("op", 7)) {
      case 0: { int i = ix("i", 3), j = (i + 1 + ix("j", 2)) % 3; if (!m[j].known) return; delete f[i]; if (sx_choice("const", 2)) f[i] = new Fn(*const_cast<const Fn *>(f[j])); else f[i] = new Fn(*f[j]); m[i] = m[j]; sx_cover("copy"); break; }
      case 1: { int i = ix("i", 3), j = (i + 1 + ix("j", 2)) % 3; if (!m[j].known) return; delete f[i]; f[i] = new Fn(static_cast<Fn &&>(*f[j])); m[i] = m[j]; m[j] = M(); sx_cover("move"); break; }
      case 2: { int i = ix("i", 3), j = (i + 1 + ix("j", 2)) % 3; if (!m[j].known) return; Fn &r = (*f[i] = *const_cast<const Fn *>(f[j])); A(&r == f[i], "assignment returns the function"); m[i] = m[j]; sx_cover("assign"); break; }
      case 3: { int i = ix("i", 3), j = (i + 1 + ix("j", 2)) % 3; if (!m[j].known) return; Fn &r = (*f[i] = static_cast<Fn &&>(*f[j])); A(&r == f[i], "assignment returns the function"); m[i] = m[j]; m[j] = M(); m[j].known = false; sx_cover("moveassign"); break; }   // what the source holds afterwards is left open
      case 4: { int i = ix("i", 3); if (!m[i].known) return; Fn &self = *f[i]; *f[i] = self; break; }
      case 5: { int i = ix("i", 3); delete f[i]; f[i] = new Fn(); m[i] = M(); break; }
      default: call(ix("i", 3));
    }
    check();
  }
  void run() {
    make(0, (Kind)(1 + sx_choice("kind", 4))); make(1, (Kind)sx_choice("kind", 5)); make(2, NONE); check();
    uint32_t K = sx_param("K", 4); for (uint32_t k = 0; k < K; ++k) step();
    for (int i = 0; i < 3; ++i) call(i);
    for (int i = 0; i < 3; ++i) delete f[i];
    A(Obj::alive == 0, "captured objects are destroyed exactly once"); A(sx_live() == 0, "nothing leaks");
  }
};
extern "C" void h_history() { Run r; r.run(); }
extern "C" void h_step() { Run r; r.run(); }
// Which of several targets is called, seen through one type.
struct Both { int32 k; int32 operator()(int32 x) { return k + x; } int32 operator()(int32 x) const { return k + x; } };
extern "C" void h_targets() {
  int32_t a = symi<int32_t>("a"), x = symi<int32_t>("x"); sx_assume(a > -1000000 && a < 1000000 && x > -1000000 && x < 1000000);
  { Fn f[6] = {Fn(freeFn), Fn(&otherFn), Fn([a](int32 y) { return a - y; }), Fn(Both{a}), Fn([&a](int32 y) { a += y; return a; }), Fn([](int32 y) { return 2 * y; })};
    A(f[0](x) == (x ^ 0x55) && f[1](x) == x - 3 && f[2](x) == a - x && f[3](x) == a + x && f[5](x) == 2 * x, "each function calls its own target");
    int32_t a0 = a; A(f[4](x) == a0 + x && a == a0 + x, "captured references refer to the original variable");
    Fn g(f[4]); a0 = a; A(g(x) == a0 + x && a == a0 + x, "also through a copy");
    for (int i = 0; i < 6; ++i) A((bool)f[i], "bound");
    A(f[2](x) == a - x - 2 * x, "captured values keep the value at the time of binding"); }
  A(sx_live() == 0, "nothing leaks"); sx_cover("done");
}
static int64_t many(int8_t a, uint16_t b, int32_t c, int64_t d, const char *e, bool f, uint8_t g) { return a + 2 * (int64_t)b + 3 * (int64_t)c + (d ^ e[1]) + (f ? 5 : 6) + g; }
extern "C" void h_arguments() {
  int32_t v = symi<int32_t>("v"), w = symi<int32_t>("w");
  { switch (sx_choice("kind", 5)) {
      case 0: { Function<Obj(Obj, Obj)> f([](Obj a, Obj b) { return Obj((int32_t)((uint32_t)a.val() - (uint32_t)b.val())); }); Obj a(v), b(w); Obj r = f(a, Obj(w)); A(r.val() == (int32_t)((uint32_t)v - (uint32_t)w) && a.val() == v && b.val() == w, "arguments and results by value"); A(Obj::alive == 3, "arguments are destroyed"); sx_cover("value"); break; }
      case 1: { Function<Obj &(Obj &, const Obj &)> f([](Obj &a, const Obj &b) -> Obj & { a = b; return a; }); Obj a(v), b(w); Obj &r = f(a, b); A(&r == &a && a.val() == w && b.val() == w && Obj::alive == 2, "references are passed through"); sx_cover("reference"); break; }
      case 2: { Function<int32(Obj &&, int32)> f([](Obj &&a, int32 k) { Obj b(static_cast<Obj &&>(a)); return (int32)((uint32_t)b.val() + (uint32_t)k); }); Obj a(v); A(f(static_cast<Obj &&>(a), w) == (int32_t)((uint32_t)v + (uint32_t)w) && a.moved() && Obj::alive == 1, "rvalues are passed as rvalues"); sx_cover("rvalue"); break; }
      case 3: { int32_t seen = 0; Function<void(int32, int32 &)> f([&seen](int32 a, int32 &b) { seen = a; b ^= 1; }); int32_t k = w; f(v, k); A(seen == v && k == (w ^ 1), "functions without a result"); Function<void()> g([&seen]() { ++seen; }); seen = 0; g(); g(); A(seen == 2, "functions without arguments"); sx_cover("void"); break; }
      default: { Function<int64_t(int8_t, uint16_t, int32_t, int64_t, const char *, bool, uint8_t)> f(many); int8_t a = symi<int8_t>("a"); uint16_t b = symi<uint16_t>("b"); int64_t d = symi<int64_t>("d"); char s[2] = {1, symi<char>("s")}; bool t = symi<uint8_t>("t") & 1; uint8_t g = symi<uint8_t>("g"); sx_assume(d < (1LL << 60) && d > -(1LL << 60)); A(f(a, b, v, d, s, t, g) == many(a, b, v, d, s, t, g), "all arguments arrive in order"); sx_cover("pointer"); }
    } }
  A(Obj::alive == 0 && sx_live() == 0, "nothing leaks");
}
struct MoveOnly { Obj o; MoveOnly(int32_t v) : o{v} {} MoveOnly(MoveOnly &&m) : o{static_cast<Obj &&>(m.o)} {} MoveOnly(const MoveOnly &) = delete; int32 operator()(int32 x) { return o.val() ^ x; } };
struct Stateful { Obj o; Stateful(int32_t v) : o{v} {} int32 operator()(int32 x) const { return o.val() ^ x; } };
extern "C" void h_lifetime() {
  int32_t v = symi<int32_t>("v"), w = symi<int32_t>("w"), x = symi<int32_t>("x");
  { Fn f; switch (sx_choice("kind", 4)) {
      case 0: { Stateful s(v); Fn g(s); A(Obj::alive == 2 && s.o.val() == v, "an lvalue functor is copied"); s.o = Obj(w); A(g(x) == (v ^ x), "the function has its own captured state"); f = g; sx_cover("lvalue"); break; }
      case 1: { Stateful s(v); Fn g(static_cast<Stateful &&>(s)); f = static_cast<Fn &&>(g); sx_cover("rvalue"); break; }
      case 2: { const Stateful s(v); Fn g(s); f = g; A(s.o.val() == v, "the source is unchanged"); sx_cover("const"); break; }
      default: { Fn g{MoveOnly(v)}; A(g(x) == (v ^ x), "a functor that can only be moved"); Fn h(static_cast<Fn &&>(g)); A(!(bool)g, "unbound after being moved from"); f = static_cast<Fn &&>(h); sx_cover("moveonly"); }
    }
    A((bool)f && f(x) == (v ^ x) && Obj::alive == 1, "the function outlives the functor it was built from");
    Fn e; f = e; A(!(bool)f && Obj::alive == 0, "assigning an unbound function releases the target"); }
  A(Obj::alive == 0 && sx_live() == 0, "nothing leaks");
}
struct alignas(64) Wide { int32_t v[16]; bool ok() const { return ((uintptr_t)this & 63) == 0; } int32 operator()(int32 i) const { return ok() ? v[i & 15] : -1; } };
extern "C" void h_aligned() {
  uint32_t i = ix("i", 16); Wide w; for (uint32_t k = 0; k < 16; ++k) w.v[k] = symi<int32_t>("w") & 0xffff;
  { Fn f(w); Fn g(f); Fn h; h = g; A(f((int32)i) == w.v[i] && g((int32)i) == w.v[i] && h((int32)i) == w.v[i], "captured state is aligned and complete"); }
  A(sx_live() == 0, "nothing leaks"); sx_cover("done");
}

// Targets of every size: each byte of the captured state arrives.
template<uint32_t N> struct Bytes { uint8_t b[N]; int32 operator()(int32 i) const { return (int32)b[(uint32_t)i % N] + 256 * (int32)N; } };
template<uint32_t N> static void sized() {
  Bytes<N> t; for (uint32_t i = 0; i < N; ++i) t.b[i] = (uint8_t)(i * 31 + 7); uint8_t x = symi<uint8_t>("x"), y = symi<uint8_t>("y"); t.b[N / 2] = x; t.b[N - 1] = y;
  auto ok = [&](const Fn &f) { for (uint32_t i = 0; i < N; ++i) A(f((int32)i) == (int32)(i == N - 1 ? y : i == N / 2 ? x : (uint8_t)(i * 31 + 7)) + 256 * (int32)N, "the call reaches the target with its captured state"); };
  { Fn f(t); Bytes<5> five = {{1, 2, 3, 4, 5}}; Bytes<300> three; for (uint32_t i = 0; i < 300; ++i) three.b[i] = (uint8_t)i; ok(f); t.b[0] ^= 1; ok(f); Fn g(f); ok(g); ok(f);
    Fn h(five), k(three), e; h = f; k = g; e = f; ok(h); ok(k); ok(e); Fn m(static_cast<Fn &&>(g)); ok(m); Fn n(five), o(three); n = static_cast<Fn &&>(h); o = static_cast<Fn &&>(k); ok(n); ok(o); Fn p(f), q(five), r(three); p = q; A(p(1) == 2 + 256 * 5, "assignment replaces the target"); p = r; A(p(299) == (uint8_t)299 + 256 * 300, "assignment replaces the target"); ok(f); }
  A(sx_live() == 0, "nothing leaks"); sx_cover("done");
}
extern "C" void h_sizes() {
  switch (sx_choice("size", 38)) {
#define C(i, n) case i: sized<n>(); break;
    C(0, 1) C(1, 2) C(2, 3) C(3, 4) C(4, 5) C(5, 6) C(6, 7) C(7, 8) C(8, 9) C(9, 10) C(10, 11) C(11, 12) C(12, 13) C(13, 14) C(14, 15) C(15, 16) C(16, 17) C(17, 18) C(18, 19) C(19, 20) C(20, 21) C(21, 22) C(22, 23) C(23, 24) C(24, 31) C(25, 32) C(26, 33) C(27, 40) C(28, 48) C(29, 63) C(30, 64) C(31, 65) C(32, 72) C(33, 128) C(34, 200) C(35, 256) C(36, 264) C(37, 1024)
    default: break;
  }
}
