// @src math/math.cpp
// @flags -mavx2
// @entry h_move cover=done
// @entry h_arith cover=done
// @entry h_masked cover=done
// @bound every value of the four float32 lanes (bit-precise, NaN and infinities included); aligned and unaligned addresses (every offset of 4 bytes); all 16 masks; the destination of a store the same memory as the operand's source or another
// @outside memory below the alignment the documentation asks for, vectors of other component types (there are none)
// @assume results that are both NaN are equal whatever their payload
#include "vec_run.h"
#include "math/simd.h"
using S = Vector4<float32>; using V = S::Type;
struct alignas(16) Mem { float32 f[12]; };
static Mem m;
static float32 in[4];
static V fill() { for (int i = 0; i < 4; ++i) in[i] = sx_symf("in"); return S::loadu(in); }
static void is(const V &v, const float32 *c, const char *msg) { float32 o[4]; memcpy(o, &v, 16); for (int i = 0; i < 4; ++i) same(o[i], c[i], msg); }
static void surroundings(uint32_t from, uint32_t mask, const float32 *c, const Mem &old, const char *msg) {
  for (uint32_t i = 0; i < 12; ++i) same(m.f[i], i >= from && i < from + 4 && (mask >> (i - from) & 1) ? c[i - from] : old.f[i], msg);
}
extern "C" void h_move() {
  for (int i = 0; i < 12; ++i) m.f[i] = sx_symf("m");
  Mem old = m; uint32_t from = sx_choice("from", 9); float32 c[4];
  switch (sx_choice("how", 6)) {
    case 0: if (from & 3) break; is(S::load(m.f + from), old.f + from, "an aligned load reads the four floats at the address, in order"); break;
    case 1: is(S::loadu(m.f + from), old.f + from, "an unaligned load reads the four floats at the address, in order"); break;
    case 2: for (int i = 0; i < 4; ++i) c[i] = sx_symf("c"); is(S::load(c[0], c[1], c[2], c[3]), c, "a vector made of four components holds them in order"); break;
    case 3: c[0] = c[1] = c[2] = c[3] = sx_symf("s"); is(S::load(c[0]), c, "a vector made of a scalar holds it four times"); break;
    case 4: { V v = fill(); is(v, in, "an unaligned load reads the four floats at the address, in order"); S::store(m.f + from, v); surroundings(from, 0xf, in, old, "a store writes the four components, in order, and nothing else"); return sx_cover("done"); }
    default: { uint32_t src = sx_choice("src", 9); V v = S::loadu(m.f + src); S::store(m.f + from, v); surroundings(from, 0xf, old.f + src, old, "moving four floats over each other through a vector keeps them"); return sx_cover("done"); }
  }
  surroundings(0, 0, old.f, old, "a load writes nothing");
}
extern "C" void h_arith() {
  float32 a[4], b[4], r[4]; V v = fill(); memcpy(a, in, 16); V w = sx_choice("alias", 2) ? v : fill(); memcpy(b, in, 16); V x;
  switch (sx_choice("op", 4)) {
    case 0: x = S::add(v, w); for (int i = 0; i < 4; ++i) r[i] = a[i] + b[i]; break;
    case 1: x = S::sub(v, w); for (int i = 0; i < 4; ++i) r[i] = a[i] - b[i]; break;
    case 2: x = S::mul(v, w); for (int i = 0; i < 4; ++i) r[i] = a[i] * b[i]; break;
    default: x = S::div(v, w); for (int i = 0; i < 4; ++i) r[i] = a[i] / b[i];
  }
  is(x, r, "every component is the operation applied to the operands' components");
  is(v, a, "the left operand is unchanged"); is(w, b, "the right operand is unchanged");
  sx_cover("done");
}
template<uint8 M> static void masked(uint32_t from) {
  Mem old = m; V v = fill(); S::store<M>(m.f + from, v);
  surroundings(from, M, in, old, "a masked store writes the components whose bit is set, the lowest bit standing for the first, and nothing else");
}
extern "C" void h_masked() {
  for (int i = 0; i < 12; ++i) m.f[i] = sx_symf("m");
  uint32_t from = 4 * sx_choice("from", 3);
  switch (sx_choice("mask", 16)) {
    case 0: masked<0>(from); break; case 1: masked<1>(from); break; case 2: masked<2>(from); break; case 3: masked<3>(from); break;
    case 4: masked<4>(from); break; case 5: masked<5>(from); break; case 6: masked<6>(from); break; case 7: masked<7>(from); break;
    case 8: masked<8>(from); break; case 9: masked<9>(from); break; case 10: masked<10>(from); break; case 11: masked<11>(from); break;
    case 12: masked<12>(from); break; case 13: masked<13>(from); break; case 14: masked<14>(from); break; default: masked<15>(from);
  }
  sx_cover("done");
}
