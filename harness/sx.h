// Interface between a harness and the symbolic engine (engine/) or the native replay runtime (native.cpp).
#pragma once
#include <stdint.h>
#include <stddef.h>
extern "C" {
uint64_t sx_sym(const char *name, int bits);      // any value of that many bits
float sx_symf(const char *name);                  // any float
uint32_t sx_choice(const char *name, uint32_t n); // any value below n, one path per value
void sx_assume(int c);
void sx_assert(int c, const char *msg);
void sx_feq(float a, float b, const char *msg);   // equality of floats (of real terms in real mode)
void sx_fail(const char *msg);
void sx_cover(const char *label);
uint64_t sx_live();                               // number of live heap blocks
void sx_order(int dir);                           // 0: heap addresses ascend, 1: they descend
void sx_thread(void (*fn)(void *), void *arg);
void sx_join();
void sx_private(void *p);                         // the object at p belongs to one thread: using it is no scheduling point
uint64_t sx_param(const char *name, uint64_t dflt);
uint64_t sx_concrete(uint64_t v);                 // one path per feasible value
int sx_accessible(const void *p, uint64_t n);     // is [p, p+n) inside one live object
uint64_t sx_blocksize(const void *p);             // bytes from p to the end of its heap block (0: none)
int sx_native();
}
#define A(c, m) sx_assert((int)(bool)(c), m)
template<class T> static inline T symi(const char *n) { return (T)sx_sym(n, sizeof(T) * 8); }
// A value below n that stays symbolic: the code under test and the oracle branch on it.
static inline uint32_t sx_pick(const char *name, uint32_t n) { uint32_t v = (uint32_t)sx_sym(name, 32); sx_assume(v < n); return v; }
