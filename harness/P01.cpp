// @entry h_align cover=u8,u16,u32,u64,i32,i64
// @entry h_log2 cover=done
// @entry h_pow cover=done quick:E=12 thorough:E=40
// @entry h_extrema cover=done quick:N=4 thorough:N=5
// @entry h_fextrema cover=done quick:N=4 thorough:N=5
// @entry h_abs cover=done
// @entry h_bigpow cover=done
// @bound every value of every 8- to 64-bit integer type and every power-of-two alignment; powers with exponents 0..E for every base, and 0..255 for six bases of 32 and 64 bits; extrema of 2..N values (N = 4 quick, 5 thorough); floats for all non-NaN values
// @outside exponents above E, negative exponents and logarithms of negative numbers, NaN, extrema of mixed types
#include "sx.h"
#include "hal/platform_math.h"
using P = PlatformMath;
template<class T> static void align(const char *label) {
  const int W = sizeof(T) * 8; const bool sg = (T)-1 < (T)0;
  T n = symi<T>("n"); uint32_t k = sx_choice("log2align", W - (sg ? 1 : 0));
  uint64_t al = (uint64_t)1 << k;
  typedef __int128 I;
  int64_t nn = sg ? (int64_t)n : 0; uint64_t un = (uint64_t)n;
  T d = P::align2Down(n, al);
  A(d <= n, "aligned down is not above the value");
  A(((uint64_t)d & (al - 1)) == 0, "aligned down is a multiple");
  A((uint64_t)n - (uint64_t)d < al, "aligned down is the greatest such multiple");
  // the least multiple strictly above, when it is representable
  T top = sg ? (T)(((uint64_t)1 << (W - 1)) - 1) : (T)-1;
  if ((uint64_t)top - (uint64_t)d >= al) {
    T u = P::align2Up(n, al);
    A(u > n && ((uint64_t)u & (al - 1)) == 0, "aligned up is a multiple strictly above");
    A((uint64_t)u - (uint64_t)d == al, "aligned up is the least such multiple");
    sx_cover(label);
  }
}
extern "C" void h_align() {
  switch (sx_choice("type", 6)) { case 0: align<uint8>("u8"); break; case 1: align<uint16>("u16"); break; case 2: align<uint32>("u32"); break; case 3: align<uint64>("u64"); break; case 4: align<int32>("i32"); break; default: align<int64>("i64"); }
}
template<class T> static void lg() {
  T n = symi<T>("n"); sx_assume(n >= 0);
  T r = P::log2(n);
  if (n == 0) { A(r == 0, "logarithm of zero is zero"); return; }
  A(r >= 0 && (uint64_t)r < sizeof(T) * 8, "logarithm in range");
  A(((uint64_t)n >> r) == 1, "logarithm is the floor of the base-2 logarithm");
  sx_cover("done");
}
extern "C" void h_log2() {
  switch (sx_choice("type", 8)) { case 0: lg<uint8>(); break; case 1: lg<uint16>(); break; case 2: lg<uint32>(); break; case 3: lg<uint64>(); break; case 4: lg<int8>(); break; case 5: lg<int16>(); break; case 6: lg<int32>(); break; default: lg<int64>(); }
}
template<class T, class U> static void pw() {
  T x = symi<T>("x"); U e = (U)sx_choice("e", sx_param("E", 12) + 1);
  T want = 1; for (U i = 0; i < e; ++i) want = (T)(want * x);
  A(P::pow(x, e) == want, "integer power is repeated multiplication");
  sx_cover("done");
}
extern "C" void h_pow() { switch (sx_choice("type", 4)) { case 0: pw<uint32, uint32>(); break; case 1: pw<uint64, int32>(); break; case 2: pw<uint32, uint64>(); break; default: pw<uint64, uint8>(); } }
template<class T> static void extrema(T a, T b, T c, T d, T e) {
  T v[5] = {a, b, c, d, e}; uint32_t n = 2 + sx_choice("n", sx_param("N", 5) - 1);
  T lo = n == 2 ? P::min(a, b) : n == 3 ? P::min(a, b, c) : n == 4 ? P::min(a, b, c, d) : P::min(a, b, c, d, e);
  T hi = n == 2 ? P::max(a, b) : n == 3 ? P::max(a, b, c) : n == 4 ? P::max(a, b, c, d) : P::max(a, b, c, d, e);
  bool inl = false, inh = false, lel = true, geh = true;
  for (uint32_t i = 0; i < n; ++i) { inl |= lo == v[i]; inh |= hi == v[i]; lel &= lo <= v[i]; geh &= hi >= v[i]; }
  A(inl & lel, "the minimum is the least of the arguments"); A(inh & geh, "the maximum is the greatest of the arguments");
  sx_cover("done");
}
template<class T> static void ex() { T a = symi<T>("a"), b = symi<T>("b"), c = symi<T>("c"), d = symi<T>("d"), e = symi<T>("e"); extrema<T>(a, b, c, d, e); }
extern "C" void h_extrema() { switch (sx_choice("type", 4)) { case 0: ex<int32>(); break; case 1: ex<uint64>(); break; case 2: ex<uint8>(); break; default: ex<int64>(); } }
extern "C" void h_fextrema() {
  float a = sx_symf("a"), b = sx_symf("b"), c = sx_symf("c"), d = sx_symf("d"), e = sx_symf("e");
  sx_assume((a == a) & (b == b) & (c == c) & (d == d) & (e == e));
  extrema<float>(a, b, c, d, e);
}
template<class T> static void ab() { T v = symi<T>("v"); T lim = (T)((uint64_t)1 << (sizeof(T) * 8 - 1)); sx_assume(v != lim); T r = P::abs(v); A(r >= 0 && (r == v || r == (T)-v), "absolute value is the magnitude"); sx_cover("done"); }
extern "C" void h_abs() {
  switch (sx_choice("type", 5)) { case 0: ab<int8>(); break; case 1: ab<int16>(); break; case 2: ab<int32>(); break; case 3: ab<int64>(); break;
    default: { float v = sx_symf("v"); sx_assume(v == v); float r = P::abs(v); A(r >= 0 && (r == v || r == -v), "absolute value is the magnitude"); uint32_t u = symi<uint32_t>("u"); A(P::abs(u) == u, "unsigned magnitude"); sx_cover("done"); } }
}

template<class T, class U> static void bigpow(T x) { T want = 1; for (uint32_t e = 0; e < 256; ++e, want = (T)(want * x)) A(P::pow(x, (U)e) == want, "integer power is repeated multiplication"); }
extern "C" void h_bigpow() {
  static const uint32_t X[] = {0, 1, 2, 3, 10, 0xffffffff}; uint32_t x = X[sx_choice("x", 6)];
  switch (sx_choice("type", 4)) { case 0: bigpow<uint32, uint32>(x); break; case 1: bigpow<uint64, int32>(x); break; case 2: bigpow<uint32, uint8>(x); break; default: bigpow<uint64, uint64>((uint64)x); }
  sx_cover("done");
}
