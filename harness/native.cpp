// Native runtime for harnesses: replays solver models and samples against the real code, built with the real
// compiler and sanitizers. Heap blocks come from an arena with the same layout rules as the engine's memory model.
#include <cmath>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <map>
#include <new>
#include <pthread.h>
#include <string>
#include <sys/mman.h>
#include <unistd.h>
#include <vector>
#if defined(__SANITIZE_ADDRESS__)
#include <sanitizer/asan_interface.h>
#define POISON(p, n) __asan_poison_memory_region(p, n)
#define UNPOISON(p, n) __asan_unpoison_memory_region(p, n)
#else
#define POISON(p, n) (void)0
#define UNPOISON(p, n) (void)0
#endif
extern "C" { void *__real_malloc(size_t); void __real_free(void *); void *__real_realloc(void *, size_t); void *__real_calloc(size_t, size_t); }
static std::vector<std::pair<std::string, uint64_t>> gIn;
static size_t gPos = 0;
static std::map<std::string, uint64_t> gParam;
static unsigned char gFill = 0xAA;
static bool gRealMode = false, gStress = false;
[[noreturn]] static void die(int rc, const char *what, const char *m) { fprintf(stdout, "%s: %s\n", what, m); fflush(stdout); _exit(rc); }

// ---- heap
static const size_t ARENA = (size_t)1 << 30;
static char *gBase = nullptr; static size_t gUp = 0, gDown = ARENA; static int gDir = 0;
struct Blk { size_t n; bool live; };
static std::map<uintptr_t, Blk> *gBlk;
static uint64_t gLive = 0;
static bool inHook = false;
static void init() {
  if (gBase) return;
  inHook = true;
  gBase = (char *)mmap(nullptr, ARENA, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  gBlk = new std::map<uintptr_t, Blk>;
  POISON(gBase, ARENA);
  inHook = false;
}
static pthread_mutex_t gMx = PTHREAD_MUTEX_INITIALIZER;
static void *take(size_t n, size_t al) {
  init();
  pthread_mutex_lock(&gMx);
  if (al < 16 && al != 8) al = 16;
  size_t span = n + 4096 + 4 * al; span = (span + 4095) & ~(size_t)4095;
  if (gUp + span > gDown) die(4, "arena", "exhausted");
  char *p;
  if (gDir == 0) { p = gBase + gUp; gUp += span; } else { gDown -= span; p = gBase + gDown; }
  uintptr_t a = ((uintptr_t)p + 1024 + 2 * al - 1) / (2 * al) * (2 * al) + al; // aligned to exactly al
  UNPOISON((void *)a, n);
  memset((void *)a, gFill, n);
  inHook = true; (*gBlk)[a] = {n, true}; inHook = false;
  ++gLive;
  pthread_mutex_unlock(&gMx);
  return (void *)a;
}
static bool ours(void *p) { return gBase && (char *)p >= gBase && (char *)p < gBase + ARENA; }
static void give(void *p) {
  if (!p) return;
  if (!ours(p)) { fprintf(stdout, "invalid free of %p\n", p); die(1, "memory", "invalid free"); }
  pthread_mutex_lock(&gMx);
  auto it = gBlk->find((uintptr_t)p);
  if (it == gBlk->end()) die(1, "memory", "free of an address that is not the start of a block");
  if (!it->second.live) die(1, "memory", "double free");
  it->second.live = false; --gLive;
  POISON(p, it->second.n);
  pthread_mutex_unlock(&gMx);
}
extern "C" {
void *__wrap_malloc(size_t n) { return take(n, 16); }
void __wrap_free(void *p) { give(p); }
void *__wrap_calloc(size_t a, size_t b) { void *p = take(a * b, 16); memset(p, 0, a * b); return p; }
void *__wrap_realloc(void *p, size_t n) {
  if (!p) return take(n, 16);
  auto it = gBlk->find((uintptr_t)p);
  if (it == gBlk->end() || !it->second.live) die(1, "memory", "realloc of an invalid pointer");
  if (!n) { give(p); return nullptr; }
  void *q = take(n, 16); memcpy(q, p, n < it->second.n ? n : it->second.n); give(p); return q;
}
int __wrap_posix_memalign(void **o, size_t al, size_t n) { if (al < 8 || (al & (al - 1))) return 22; *o = take(n, al); return 0; }
void *__wrap_aligned_alloc(size_t al, size_t n) { return take(n, al); }
void *__wrap_memalign(size_t al, size_t n) { return take(n, al); }
size_t __wrap_malloc_usable_size(void *p) { if (!p) return 0; auto it = gBlk->find((uintptr_t)p); if (it == gBlk->end() || !it->second.live) die(1, "memory", "malloc_usable_size of an invalid pointer"); return it->second.n; }
}
void *operator new(size_t n) { return inHook ? __real_malloc(n) : take(n, 16); }
void *operator new[](size_t n) { return operator new(n); }
void *operator new(size_t n, std::align_val_t a) { return take(n, (size_t)a < 16 ? 16 : (size_t)a); }
void *operator new[](size_t n, std::align_val_t a) { return take(n, (size_t)a < 16 ? 16 : (size_t)a); }
void operator delete(void *p) noexcept { if (p && !ours(p) && inHook) __real_free(p); else give(p); }
void operator delete(void *p, size_t) noexcept { operator delete(p); }
void operator delete[](void *p) noexcept { operator delete(p); }
void operator delete[](void *p, size_t) noexcept { operator delete(p); }
void operator delete(void *p, std::align_val_t) noexcept { operator delete(p); }
void operator delete(void *p, size_t, std::align_val_t) noexcept { operator delete(p); }
void operator delete[](void *p, std::align_val_t) noexcept { operator delete(p); }

// ---- harness interface
static uint64_t next(const char *name) {
  while (gPos < gIn.size() && gIn[gPos].first == "sched") ++gPos;
  if (gPos >= gIn.size()) return 0;
  if (gIn[gPos].first != name) { fprintf(stdout, "input %zu is %s, harness asked for %s\n", gPos, gIn[gPos].first.c_str(), name); die(3, "diverged", name); }
  return gIn[gPos++].second;
}
extern "C" {
uint64_t sx_sym(const char *n, int bits) { inHook = true; uint64_t v = next(n); inHook = false; return bits >= 64 ? v : v & (((uint64_t)1 << bits) - 1); }
float sx_symf(const char *n) { inHook = true; uint32_t v = (uint32_t)next(n); inHook = false; float f; memcpy(&f, &v, 4); return f; }
uint32_t sx_choice(const char *n, uint32_t k) { inHook = true; uint32_t v = (uint32_t)next(n); inHook = false; return v < k ? v : 0; }
void sx_assume(int c) { if (!c) die(3, "assumption", "not satisfied"); }
void sx_assert(int c, const char *m) { if (!c) die(1, "assertion failed", m); }
void sx_feq(float a, float b, const char *m) {
  if (a == b || (a != a && b != b)) return;
  if (gRealMode && fabsf(a - b) <= 1e-3f * (1 + fabsf(a) + fabsf(b))) return;
  fprintf(stdout, "%.9g vs %.9g\n", a, b);
  die(1, "assertion failed", m);
}
void sx_fail(const char *m) { die(1, "assertion failed", m); }
void sx_cover(const char *) {}
uint64_t sx_live() { return gLive; }
void sx_order(int d) { gDir = d; }
uint64_t sx_param(const char *n, uint64_t d) { inHook = true; auto it = gParam.find(n); uint64_t r = it == gParam.end() ? d : it->second; inHook = false; return r; }
uint64_t sx_concrete(uint64_t v) { return v; }
int sx_accessible(const void *p, uint64_t n) {
  if (!ours((void *)p)) return 1;
  auto it = gBlk->upper_bound((uintptr_t)p); if (it == gBlk->begin()) return 0; --it;
  return it->second.live && (uintptr_t)p + n <= it->first + it->second.n;
}
uint64_t sx_blocksize(const void *p) {
  if (!gBlk) return 0;
  auto it = gBlk->upper_bound((uintptr_t)p); if (it == gBlk->begin()) return 0; --it;
  return it->second.live && (uintptr_t)p <= it->first + it->second.n ? it->first + it->second.n - (uintptr_t)p : 0;
}
int sx_native() { return 1; }
void sx_private(void *) {}
void sx_trace(const char *, uint64_t) {}
}
// threads: started together behind a spinning gate
struct Th { void (*f)(void *); void *a; pthread_t t; };
static std::vector<Th *> gTh;
static volatile int gGate = 0, gReady = 0;
static void *thMain(void *p) { Th *t = (Th *)p; __sync_fetch_and_add(&gReady, 1); while (!gGate) ; t->f(t->a); return nullptr; }
extern "C" {
void sx_thread(void (*f)(void *), void *a) {
  inHook = true; if (gTh.empty()) { gGate = 0; gReady = 0; }
  Th *t = new Th{f, a, 0}; gTh.push_back(t); pthread_create(&t->t, nullptr, thMain, t); inHook = false;
}
void sx_join() {
  while (gReady < (int)gTh.size()) ;
  gGate = 1;
  for (Th *t : gTh) pthread_join(t->t, nullptr);
  inHook = true; for (Th *t : gTh) delete t; gTh.clear(); inHook = false;
}
}
int main(int argc, char **argv) {
  inHook = true;
  std::string entry; double stress = 0;
  FILE *f = fopen(argv[1], "r");
  if (!f) return 4;
  char line[4096];
  while (fgets(line, sizeof line, f)) {
    char k[32], n[256]; unsigned long long v;
    if (sscanf(line, "%31s %255s %llu", k, n, &v) == 3) { if (!strcmp(k, "in")) gIn.push_back({n, v}); else if (!strcmp(k, "param")) gParam[n] = v; }
    else if (sscanf(line, "%31s %255s", k, n) == 2) { if (!strcmp(k, "entry")) entry = n; else if (!strcmp(k, "mode") && !strcmp(n, "real")) gRealMode = true; }
  }
  fclose(f);
  if (const char *e = getenv("SX_FILL")) gFill = (unsigned char)strtol(e, nullptr, 0);
  if (const char *e = getenv("SX_STRESS")) stress = atof(e);
  void (*fn)() = (void (*)())dlsym(RTLD_DEFAULT, entry.c_str());
  if (!fn) die(4, "no entry", entry.c_str());
  setvbuf(stdout, nullptr, _IONBF, 0);
  init();
  inHook = false;
  gLive = 0;
  if (stress > 0) {
    struct timespec a, b; clock_gettime(CLOCK_MONOTONIC, &a);
    for (;;) { gPos = 0; fn(); clock_gettime(CLOCK_MONOTONIC, &b); if (b.tv_sec - a.tv_sec > stress) break; }
  } else fn();
  printf("ok\n");
  fflush(stdout); _exit(0);
}
