// @src hal/memory_base.cpp hal/malloc_ansi.cpp
// @entry h_build cover=list,prefix,scalar,buffer,copy
// @entry h_access cover=read,write
// @entry h_compare cover=done MERGE=1
// @entry h_transpose cover=done
// @bound every value of every entry; entries of 8, 32 and 64 bits and float32/float64 (bit-precise, NaN and infinities included); every row and column
// @outside rows and columns out of range, entries of class types
// @assume none
#include "vec_run.h"
#include "math/mat4.h"
template<class T> static void bits(const T &a, const T &b, const char *m) { uint64_t x = 0, y = 0; memcpy(&x, &a, sizeof(T)); memcpy(&y, &b, sizeof(T)); A(x == y, m); }
template<class T> static void fill(T *c) { for (int i = 0; i < 16; ++i) c[i] = In<T>::get("c"); }
template<class T> static Mat4<T> make(const T *c) { return Mat4<T>(c[0], c[1], c[2], c[3], c[4], c[5], c[6], c[7], c[8], c[9], c[10], c[11], c[12], c[13], c[14], c[15]); }
template<class T> static void is(const Mat4<T> &m, const T *c, const char *msg) {
  for (int i = 0; i < 16; ++i) bits(m(i), c[i], msg);
}
template<class T> static void build() {
  T c[17], z[16] = {}; fill(c); c[16] = In<T>::get("c");
  switch (sx_choice("from", 5)) {
    case 0: is(make(c), c, "entries are given row by row"); sx_cover("list"); break;
    case 1: { Mat4<T> m(c[0], c[1], c[2], c[3], c[4]); for (int i = 0; i < 5; ++i) z[i] = c[i]; is(m, z, "entries not given are zero"); Mat4<T> n(c[0], c[1]); for (int i = 2; i < 5; ++i) z[i] = T(); is(n, z, "entries not given are zero"); sx_cover("prefix"); break; }
    case 2: { Mat4<T> m(c[3]); for (int i = 0; i < 16; ++i) z[i] = c[3]; is(m, z, "a scalar fills the matrix"); sx_cover("scalar"); break; }
    case 3: { T *b = (T *)malloc(sizeof(T) * 16); for (int i = 0; i < 16; ++i) b[i] = c[i]; const T *k = b; Mat4<T> m(k); is(m, c, "a buffer is copied row by row"); for (int i = 0; i < 16; ++i) bits(b[i], c[i], "the buffer is unchanged"); b[5] = c[16]; bits(m(5), c[5], "the matrix does not refer to the buffer"); free(b); sx_cover("buffer"); break; }
    default: { Mat4<T> m = make(c), n(m), o(c[16]); o = m; m(7) = c[16]; is(n, c, "copies are independent"); is(o, c, "copies are independent"); sx_cover("copy"); }
  }
}
template<class T> static void access() {
  T c[16]; fill(c); Mat4<T> m = make(c); const Mat4<T> &k = m; uint32_t i = sx_choice("i", 4), j = sx_choice("j", 4);
  bits(k[i][j], c[4 * i + j], "row then column"); bits(m[i][j], c[4 * i + j], "row then column"); bits(k(i, j), c[4 * i + j], "(row, column)"); bits(m(i, j), c[4 * i + j], "(row, column)");
  bits(k(4 * i + j), c[4 * i + j], "flat index in row order"); bits((*k)[4 * i + j], c[4 * i + j], "flat data in row order"); bits((*m)[4 * i + j], c[4 * i + j], "flat data in row order"); sx_cover("read");
  bits(m.a, c[0], "named entries"); bits(m.b, c[1], "named entries"); bits(m.e, c[4], "named entries"); bits(m.l, c[11], "named entries"); bits(m.m, c[12], "named entries"); bits(m.p, c[15], "named entries");
  uint32_t how = sx_choice("how", 4); T n = In<T>::get("n");
  switch (how) { case 0: m[i][j] = n; break; case 1: m(i, j) = n; break; case 2: m(4 * i + j) = n; break; default: (*m)[4 * i + j] = n; }
  c[4 * i + j] = n; is(m, c, "writing an entry changes that entry only"); sx_cover("write");
}
template<class T> static void compare() {
  T c[16], d[16]; fill(c); uint32_t k = sx_choice("differs", 18); // one entry differs, all may differ, or none does
  for (int i = 0; i < 16; ++i) d[i] = k == 16 || (uint32_t)i == k ? In<T>::get("d") : c[i];
  const Mat4<T> m = make(c), n = make(d); uint32_t want = 0;
  for (int i = 0; i < 16; ++i) want |= (uint32_t)(c[i] == d[i]) << (15 - i);
  A(m.cmp(n) == want, "bit 15 - i tells whether entry i is equal");
  A((m == n) == (want == 0xffff), "matrices are equal exactly when all entries are");
  A((m != n) == (want != 0xffff), "inequality is the negation of equality");
  if (!IsFloat<T>::value) A(m == m && !(m != m), "a matrix equals itself");
  sx_cover("done");
}
template<class T> static void transpose() {
  T c[16]; fill(c); Mat4<T> m = make(c); Mat4<T> *r = &m.transpose(); A(r == &m, "transpose returns the matrix itself");
  for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) bits(m(i, j), c[4 * j + i], "rows and columns are exchanged");
  m.transpose(); is(m, c, "transposing twice changes nothing"); sx_cover("done");
}
#define FOR(name, f) extern "C" void name() { switch (sx_choice("type", 5)) { case 0: f<int32>(); break; case 1: f<float32>(); break; case 2: f<float64>(); break; case 3: f<uint8>(); break; default: f<int64>(); } }
FOR(h_build, build)
FOR(h_access, access)
FOR(h_compare, compare)
FOR(h_transpose, transpose)
