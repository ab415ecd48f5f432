// @src hal/memory_base.cpp hal/malloc_ansi.cpp
// @entry h_single cover=int8,uint16,uint32,uint64,bool
// @entry h_pointer cover=done
// @entry h_platform cover=done
// @entry h_two threads cover=inc,postinc,dec,postdec,add,sub,assign,store,load quick:NA=2,NB=2 thorough:NA=3,NB=2
// @entry h_wide threads cover=inc,postinc,dec,postdec,add,sub,assign,store,load quick:NA=2,NB=1 thorough:NA=2,NB=2
// @entry h_narrow threads cover=inc,postinc,dec,postdec,add,sub,assign,store,load quick:NA=2,NB=1 thorough:NA=2,NB=2
// @entry h_ptr threads cover=inc,postinc,dec,postdec,add,sub,assign,store,load quick:NA=2,NB=1 thorough:NA=2,NB=2
// @entry h_raw threads cover=add,sub,exchange,store,read quick:NA=2,NB=2 thorough:NA=3,NB=2
// @entry h_three threads cover=done quick:K=3 thorough:K=4
// @entry h_three1 threads cover=done K=1
// @entry h_neighbours threads cover=done
// @entry h_order threads TSO=1 cover=store,assign,inc,add,platform
// @entry h_publish threads TSO=1 cover=done
// @bound every interleaving of the memory accesses of two threads with NA and NB operations each (nine kinds) on one atomic of 8, 32 or 64 bits or a pointer, of three threads with K increments, decrements or additions each, and of two threads on neighbouring atomics, with arbitrary initial values and operands; every single operation for atomics of 8 to 64 bits, of pointers, and of the platform layer
// @outside more threads or operations, memory models weaker than total store order (which h_order and h_publish use; the other entries interleave atomically), overflow of signed arithmetic, atomics left uninitialized
#include "sx.h"
#include "core_types.h"
#include "hal/malloc_ansi.h"
#include "templates/atomic.h"
enum { INC, POSTINC, DEC, POSTDEC, ADD, SUB, ASSIGN, STORE, LOAD, OPS };
static const char *opName[OPS] = {"inc", "postinc", "dec", "postdec", "add", "sub", "assign", "store", "load"};
template<class T> struct Arith { typedef T Amount; static T add(T a, T b) { return (T)((uint64_t)a + (uint64_t)b); } static T sub(T a, T b) { return (T)((uint64_t)a - (uint64_t)b); } static T one() { return (T)1; } };
template<class T> struct Arith<T *> { typedef intp Amount; static T *add(T *a, intp b) { return a + b; } static T *sub(T *a, intp b) { return a - b; } static intp one() { return 1; } };
template<class T> struct OpT { uint32_t k; T v; typename Arith<T>::Amount n; T ret; };
template<class T> static void apply(Atomic<T> &a, OpT<T> &o) {
  switch (o.k) {
    case INC: o.ret = ++a; break; case POSTINC: o.ret = a++; break; case DEC: o.ret = --a; break; case POSTDEC: o.ret = a--; break;
    case ADD: o.ret = (a += o.n); break; case SUB: o.ret = (a -= o.n); break; case ASSIGN: o.ret = (a = o.v); break;
    case STORE: a.store(o.v); o.ret = o.v; break; default: o.ret = a.load();
  }
}
// What the operation does to the value m on its own, and the result it gives.
template<class T> static T model(T &m, const OpT<T> &o) {
  typedef Arith<T> X; T old = m;
  switch (o.k) {
    case INC: return m = X::add(m, X::one()); case POSTINC: m = X::add(m, X::one()); return old; case DEC: return m = X::sub(m, X::one()); case POSTDEC: m = X::sub(m, X::one()); return old;
    case ADD: return m = X::add(m, o.n); case SUB: return m = X::sub(m, o.n); case ASSIGN: return m = o.v; case STORE: return m = o.v; default: return m;
  }
}
template<class T> static T anyVal(const char *n) { return symi<T>(n); }
static int32_t gCells[16];
template<> int32_t *anyVal<int32_t *>(const char *n) { return gCells + 4 + sx_choice(n, 4); }
template<class T> static typename Arith<T>::Amount anyAmount() { return symi<T>("n"); }
template<> intp anyAmount<int32_t *>() { return (intp)sx_choice("n", 3) - 1; }
template<class T> static void fill(OpT<T> &o) { o.k = sx_choice("op", OPS); o.v = T(); o.n = 0; if (o.k == ADD || o.k == SUB) o.n = anyAmount<T>(); if (o.k == ASSIGN || o.k == STORE) o.v = anyVal<T>("v"); }
// Is there an order of the operations of both threads, each in its own order, that gives all results and the final value?
template<class T> static int explained(T m, T fin, const OpT<T> *a, uint32_t na, const OpT<T> *b, uint32_t nb) {
  if (!na && !nb) return m == fin;
  int ok = 0;
  if (na) { T x = m; T r = model(x, *a); ok |= (r == a->ret) & explained(x, fin, a + 1, na - 1, b, nb); }
  if (nb) { T x = m; T r = model(x, *b); ok |= (r == b->ret) & explained(x, fin, a, na, b + 1, nb - 1); }
  return ok;
}
template<class T> struct Job { Atomic<T> *a; OpT<T> *o; uint32_t n; static void run(void *p) { Job *j = (Job *)p; for (uint32_t i = 0; i < j->n; ++i) apply(*j->a, j->o[i]); } };
template<class T> static void two() {
  uint32_t na = sx_param("NA", 1), nb = sx_param("NB", 1); T init = anyVal<T>("init"); Atomic<T> a(init); OpT<T> p[3], q[3];
  for (uint32_t i = 0; i < na; ++i) fill(p[i]);
  for (uint32_t i = 0; i < nb; ++i) fill(q[i]);
  Job<T> ja{&a, p, na}, jb{&a, q, nb}; sx_private(p); sx_private(q); sx_private(&ja); sx_private(&jb);
  sx_thread(Job<T>::run, &ja); sx_thread(Job<T>::run, &jb); sx_join();
  A(explained(init, a.load(), p, na, q, nb), "results and final value are those of some order of the operations");
  sx_cover(opName[p[0].k]);
}
extern "C" void h_two() { two<uint32_t>(); }
extern "C" void h_wide() { two<uint64>(); }
extern "C" void h_narrow() { two<uint8_t>(); }
extern "C" void h_ptr() { two<int32_t *>(); }
template<class T> static void single() {
  T v = symi<T>("v"), n = symi<T>("n"), m = v; Atomic<T> a(v); A(a.load() == v && a.load(PlatformAtomics::AtomicOrder::Relaxed) == v && (T)a == v, "loading gives the value");
  OpT<T> o; o.v = n; o.n = n; o.k = sx_choice("op", OPS); if (o.k == ASSIGN || o.k == STORE) o.n = 0;
  apply(a, o); T r = model(m, o); A(o.ret == r, "the result of a single operation"); A(a.load() == m, "the value after a single operation");
  a.store(v, PlatformAtomics::AtomicOrder::Relaxed); A(a.load() == v, "a relaxed store stores"); a = n; const Atomic<T> &c = a; A((T)c == n && c.load() == n, "an assigned value is loaded");
}
extern "C" void h_single() {
  switch (sx_choice("type", 5)) {
    case 0: single<int8_t>(); sx_cover("int8"); break; case 1: single<uint16_t>(); sx_cover("uint16"); break; case 2: single<uint32_t>(); sx_cover("uint32"); break; case 3: single<uint64>(); sx_cover("uint64"); break;
    default: { int32_t v = symi<int32_t>("v"), n = symi<int32_t>("n"); sx_assume(v > -(1 << 30) && v < (1 << 30) && n > -(1 << 30) && n < (1 << 30)); Atomic<int32_t> a(v); A(++a == v + 1 && a++ == v + 1 && a.load() == v + 2 && --a == v + 1 && a-- == v + 1 && a.load() == v, "increments and decrements"); A((a += n) == v + n && (a -= n) == v && a.load() == v, "additions and subtractions"); sx_cover("bool"); }
  }
}
struct Big { int64_t x[5]; };
extern "C" void h_pointer() {
  Big b[16]; uint32_t i = sx_pick("i", 8) + 4; int32_t d = (int32_t)sx_choice("d", 7) - 3;
  Atomic<Big *> a(b + i); A(a.load() == b + i, "the initial pointer");
  switch (sx_choice("op", 8)) {
    case 0: A(++a == b + i + 1 && a.load() == b + i + 1, "moves to the next element"); break; case 1: A(a++ == b + i && a.load() == b + i + 1, "moves to the next element"); break;
    case 2: A(--a == b + i - 1 && a.load() == b + i - 1, "moves to the previous element"); break; case 3: A(a-- == b + i && a.load() == b + i - 1, "moves to the previous element"); break;
    case 4: A((a += d) == b + i + d && a.load() == b + i + d, "moves by whole elements"); break; case 5: A((a -= d) == b + i - d && a.load() == b + i - d, "moves by whole elements"); break;
    case 6: a.store(b); A(a.load() == b, "a stored pointer"); break; default: A((a = b + 2) == b + 2 && (Big *)a == b + 2, "an assigned pointer");
  }
  const char *s = "abcdef"; Atomic<const char *> c(s); A(++c == s + 1 && *c.load() == 'b' && (c += 3) == s + 4 && *(const char *)c == 'e', "bytes move by one"); sx_cover("done");
}
extern "C" void h_platform() {
  typedef PlatformAtomics PA; volatile uint32_t v; uint32_t x = symi<uint32_t>("x"), y = symi<uint32_t>("y"); v = x;
  switch (sx_choice("op", 5)) {
    case 0: A(PA::add(&v, y) == x && v == x + y, "adding returns the value before"); break; case 1: A(PA::sub(&v, y) == x && v == x - y, "subtracting returns the value before"); break;
    case 2: A(PA::exchange(&v, y) == x && v == y, "exchanging returns the value before"); break;
    case 3: PA::store(&v, y); A(v == y && PA::read(&v) == y, "storing and reading"); break; default: PA::store<PA::AtomicOrder::Relaxed>(&v, y); A(v == y && PA::read<PA::AtomicOrder::Relaxed>(&v) == y, "storing and reading"); }
  volatile int64_t w = (int64_t)symi<uint32_t>("w"); int64_t w0 = w; A(PA::add(&w, 1) == w0 && w == w0 + 1 && PA::sub(&w, 2) == w0 + 1 && w == w0 - 1 && PA::exchange(&w, 0) == w0 - 1 && w == 0, "operands of another type"); sx_cover("done");
}
// The platform layer: fetch-style operations on a plain volatile word.
enum { RADD, RSUB, REXCH, RSTORE, RREAD, ROPS };
struct Raw { uint32_t k, n, ret; };
static uint32_t rawModel(uint32_t &m, const Raw &o) { uint32_t old = m; switch (o.k) { case RADD: m += o.n; return old; case RSUB: m -= o.n; return old; case REXCH: m = o.n; return old; case RSTORE: m = o.n; return 0; default: return m; } }
static int rawExplained(uint32_t m, uint32_t fin, const Raw *a, uint32_t na, const Raw *b, uint32_t nb) {
  if (!na && !nb) return m == fin;
  int ok = 0;
  if (na) { uint32_t x = m, r = rawModel(x, *a); ok |= (r == a->ret) & rawExplained(x, fin, a + 1, na - 1, b, nb); }
  if (nb) { uint32_t x = m, r = rawModel(x, *b); ok |= (r == b->ret) & rawExplained(x, fin, a, na, b + 1, nb - 1); }
  return ok;
}
struct RawJob { volatile uint32_t *v; Raw *o; uint32_t n; static void run(void *p) { RawJob *j = (RawJob *)p; typedef PlatformAtomics PA; for (uint32_t i = 0; i < j->n; ++i) { Raw &o = j->o[i]; switch (o.k) { case RADD: o.ret = PA::add(j->v, o.n); break; case RSUB: o.ret = PA::sub(j->v, o.n); break; case REXCH: o.ret = PA::exchange(j->v, o.n); break; case RSTORE: PA::store(j->v, o.n); o.ret = 0; break; default: o.ret = PA::read(j->v); } } } };
extern "C" void h_raw() {
  uint32_t na = sx_param("NA", 1), nb = sx_param("NB", 1); volatile uint32_t v; uint32_t init = symi<uint32_t>("init"); v = init; Raw p[3], q[3];
  for (uint32_t i = 0; i < na; ++i) { p[i].k = sx_choice("op", ROPS); p[i].n = symi<uint32_t>("n"); }
  for (uint32_t i = 0; i < nb; ++i) { q[i].k = sx_choice("op", ROPS); q[i].n = symi<uint32_t>("n"); }
  RawJob ja{&v, p, na}, jb{&v, q, nb}; sx_private(p); sx_private(q); sx_private(&ja); sx_private(&jb); sx_thread(RawJob::run, &ja); sx_thread(RawJob::run, &jb); sx_join();
  A(rawExplained(init, v, p, na, q, nb), "results and final value are those of some order of the operations");
  static const char *n[ROPS] = {"add", "sub", "exchange", "store", "read"}; sx_cover(n[p[0].k]);
}
struct Three { Atomic<uint32_t> *a; uint32_t k, n, d; static void run(void *p) { Three *t = (Three *)p; for (uint32_t i = 0; i < t->n; ++i) switch (t->k) { case 0: ++*t->a; break; case 1: (*t->a)--; break; default: *t->a += t->d; } } };
extern "C" void h_three() {
  uint32_t K = sx_param("K", 1), init = symi<uint32_t>("init"), want = init; Atomic<uint32_t> a(init); Three t[3]; static const uint32_t by[3] = {7, 0x10000, 0xfff00000};
  for (int i = 0; i < 3; ++i) { t[i] = Three{&a, sx_choice("op", 3), K, K == 1 ? symi<uint32_t>("d") : by[i]}; want += K * (t[i].k == 0 ? 1 : t[i].k == 1 ? ~0u : t[i].d); }
  sx_private(t); for (int i = 0; i < 3; ++i) sx_thread(Three::run, t + i);
  sx_join(); A(a.load() == want, "no update is lost"); sx_cover("done");
}
extern "C" void h_three1() { h_three(); }
struct Pack { Atomic<uint8_t> a, b; Atomic<uint16_t> c; };
struct Nb { Pack *p; int which; uint8_t n; static void run(void *q) { Nb *j = (Nb *)q; if (j->which == 0) { j->p->a += j->n; ++j->p->a; } else if (j->which == 1) { j->p->b -= j->n; j->p->b--; } else { j->p->c = j->n; j->p->c++; } } };
extern "C" void h_neighbours() {
  Pack p; uint8_t a = symi<uint8_t>("a"), b = symi<uint8_t>("b"), n = symi<uint8_t>("n"), m = symi<uint8_t>("m"); p.a = a; p.b = b; p.c = 7; int x = sx_choice("x", 3), y = (x + 1 + sx_choice("y", 2)) % 3;
  Nb i{&p, x, n}, j{&p, y, m}; sx_private(&i); sx_private(&j); sx_thread(Nb::run, &i); sx_thread(Nb::run, &j); sx_join();
  uint8_t d[3] = {x == 0 ? n : m, x == 1 ? n : m, x == 2 ? n : m}; bool on[3]; for (int k = 0; k < 3; ++k) on[k] = k == x || k == y;
  A(p.a.load() == (uint8_t)(on[0] ? a + d[0] + 1 : a) && p.b.load() == (uint8_t)(on[1] ? b - d[1] - 1 : b) && p.c.load() == (on[2] ? d[2] + 1 : 7), "operations on one atomic do not disturb its neighbours"); sx_cover("done");
}
// Two threads each store to one atomic and then load the other one: in a sequential order at least one of them sees the
// other's store. The stores of a thread become visible to the other one only later, unless the operation says otherwise.
struct Sb { Atomic<uint32_t> *mine, *other; uint32_t how, rd, v, r; static void run(void *p) { Sb *s = (Sb *)p;
  switch (s->how) { case 0: s->mine->store(s->v); break; case 1: *s->mine = s->v; break; case 2: ++*s->mine; break; case 3: *s->mine += s->v; break; default: s->mine->store(s->v, PlatformAtomics::AtomicOrder::Sequential); }
  switch (s->rd) { case 0: s->r = s->other->load(); break; case 1: s->r = *s->other; break; default: s->r = (*s->other)++; } } };
extern "C" void h_order() {
  Atomic<uint32_t> x(0), y(0); Sb a{&x, &y, sx_choice("how", 5), sx_choice("read", 3), symi<uint32_t>("v"), 9}, b{&y, &x, sx_choice("how", 5), sx_choice("read", 3), symi<uint32_t>("w"), 9};
  sx_assume(a.v != 0 && b.v != 0); sx_private(&a); sx_private(&b);
  sx_thread(Sb::run, &a); sx_thread(Sb::run, &b); sx_join();
  A(a.r != 0 || b.r != 0, "stores and loads of all threads fall into one order");
  static const char *n[5] = {"store", "assign", "inc", "add", "platform"}; sx_cover(n[a.how]);
}
// What a thread writes before publishing is there for a thread that sees the publication.
struct Pub { volatile uint32_t *data; Atomic<uint32_t> *flag; uint32_t how, v, seen, got; static void write(void *p) { Pub *q = (Pub *)p; *q->data = q->v; switch (q->how) { case 0: q->flag->store(1); break; case 1: *q->flag = 1; break; default: ++*q->flag; } } static void read(void *p) { Pub *q = (Pub *)p; q->seen = q->flag->load(); q->got = *q->data; } };
extern "C" void h_publish() {
  volatile uint32_t data = 0; Atomic<uint32_t> flag(0); Pub w{&data, &flag, sx_choice("how", 3), symi<uint32_t>("v"), 0, 0}, r{&data, &flag, 0, 0, 0, 0}; sx_private(&w); sx_private(&r);
  sx_thread(Pub::write, &w); sx_thread(Pub::read, &r); sx_join();
  A(r.seen == 0 || r.got == w.v, "published data is complete"); sx_cover("done");
}
