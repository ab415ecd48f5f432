// @src hal/memory_base.cpp hal/malloc_ansi.cpp
// @entry h_swap cover=ints,self,objects,arrays,elements
// @entry h_forward cover=lvalue,constant,rvalue,arguments
// @entry h_name cover=literal,buffer,static,types
// @entry h_traits cover=done
// @bound every pair of values of integers, floats and resource-owning objects, every pair of small arrays and every pair of positions of an array; arguments of every value category; names of up to N characters (N = 8) with arbitrary contents, read at every position; the type queries for the built-in types, pointers, references, qualified types, arrays and functions
// @outside compile-time concatenation of names (the nested class is not accepted by clang and is compiled out), longer names, other types
#include "sx.h"
#include "elem.h"
#include "core_types.h"
#include "hal/malloc_ansi.h"
#include "containers/array.h"
#include "templates/types.h"
#include "templates/name.h"
#include "templates/type_info.h"
#include "templates/utility.h"
template<class T> static void sw() {
  T a = symi<T>("a"), b = symi<T>("b"); const T a0 = a, b0 = b;
  ::swap(a, b); A(a == b0 && b == a0, "the two values are exchanged"); ::swap(a, b); A(a == a0 && b == b0, "exchanging twice changes nothing");
  sx_cover("ints"); ::swap(a, a); A(a == a0, "a value exchanged with itself keeps its value"); sx_cover("self");
}
extern "C" void h_swap() {
  switch (sx_choice("kind", 6)) {
    case 0: sw<uint8_t>(); break; case 1: sw<int32_t>(); break; case 2: sw<int64_t>(); break;
    case 3: { int32_t v = symi<int32_t>("v"), w = symi<int32_t>("w"); { Obj a(v), b(w); ::swap(a, b); A(a.val() == w && b.val() == v && Obj::alive == 2, "the two objects are exchanged"); ::swap(b, a); A(a.val() == v && b.val() == w && Obj::alive == 2, "exchanging twice changes nothing"); } A(Obj::alive == 0, "every object is destroyed once"); sx_cover("objects"); break; }
    case 4: { Array<int32_t> a, b; uint32_t n = sx_choice("n", 3), m = sx_choice("m", 3); int32_t v[2], w[2]; for (uint32_t i = 0; i < n; ++i) a.add(v[i] = symi<int32_t>("v")); for (uint32_t i = 0; i < m; ++i) b.add(w[i] = symi<int32_t>("w")); ::swap(a, b); A(a.getCount() == m && b.getCount() == n, "the contents are exchanged"); for (uint32_t i = 0; i < m; ++i) A(a[i] == w[i], "the contents are exchanged"); for (uint32_t i = 0; i < n; ++i) A(b[i] == v[i], "the contents are exchanged"); a.add(7); b.add(8); A(a[m] == 7 && b[n] == 8, "both can be used again"); sx_cover("arrays"); break; }
    default: { int16_t x[4], y[4]; for (int i = 0; i < 4; ++i) x[i] = y[i] = symi<int16_t>("x"); uint32_t i = sx_pick("i", 4), j = sx_pick("j", 4); ::swap(x[i], x[j]); for (uint32_t k = 0; k < 4; ++k) A(x[k] == (k == i ? y[j] : k == j ? y[i] : y[k]), "only the two elements change"); sx_cover("elements"); }
  }
}
static int kind(int32_t &) { return 1; } static int kind(const int32_t &) { return 2; } static int kind(int32_t &&) { return 3; }
template<class T> static int pass(T &&t) { return kind(::forward<T>(t)); }
template<class T> static T *addr(T &t) { return &t; } template<class T> static int32_t *addr2(T &&t) { return &static_cast<int32_t &>(t); }
struct Sink { int32_t a, b; Obj o; template<class X, class Y, class Z> Sink(X &&x, Y &&y, Z &&z) : a(::forward<X>(x)), b(::forward<Y>(y)), o(::forward<Z>(z)) {} };
template<class... T> static Sink build(T &&...t) { return Sink(::forward<T>(t)...); }
extern "C" void h_forward() {
  int32_t v = symi<int32_t>("v"), w = symi<int32_t>("w"); const int32_t c = v;
  switch (sx_choice("kind", 4)) {
    case 0: A(pass(v) == 1, "an lvalue is passed as an lvalue"); A(addr2(::forward<int32_t &>(v)) == &v, "the very object is passed"); sx_cover("lvalue"); break;
    case 1: A(pass(c) == 2, "a constant is passed as a constant"); sx_cover("constant"); break;
    case 2: A(pass(int32_t(w)) == 3 && pass(::move(v)) == 3, "an rvalue is passed as an rvalue"); A(&static_cast<const int32_t &>(::move(v)) == &v && v == c, "moving an object only names it"); A(kind(::move(v)) == 3 && kind(::forward<int32_t>(v)) == 3, "moving makes an rvalue"); sx_cover("rvalue"); break;
    default: { Obj o(w); Sink s = build(v, int32_t(w), o); A(s.a == v && s.b == w && s.o.val() == w && o.val() == w, "arguments arrive in order, lvalues copied"); Sink t = build(int32_t(w), v, ::move(o)); A(t.a == w && t.b == v && t.o.val() == w && o.moved(), "rvalues are moved"); sx_cover("arguments"); }
  }
}
template<class N> static void name(const N &n, const char *s, uint64_t len) {
  A(n.getLength() == len, "the length of the text"); A(*n == s, "the name refers to the text");
  for (uint64_t i = 0; i < len; ++i) A(n[i] == s[i], "every character");
  if (len) { uint64_t k = sx_pick("k", (uint32_t)len); A(n[k] == s[k] && &n[k] == s + k, "every character"); }
  Name m(n); A(m.getLength() == len && *m == s, "a copy names the same text");
}
static bool eq(const Name &n, const char *s) { uint64_t i = 0; for (; s[i]; ++i) if (i >= n.getLength() || n[i] != s[i]) return false; return i == n.getLength(); }
extern "C" void h_name() {
  static const char lit[] = "korin::Name"; static const char none[] = "";
  switch (sx_choice("kind", 5)) {
    case 0: name(Name(lit), lit, 11); name(Name(none), none, 0); sx_cover("literal"); break;
    case 1: { uint32_t n = sx_choice("n", 9); char *b = (char *)malloc(n + 1); for (uint32_t i = 0; i < n; ++i) b[i] = symi<char>("c"); b[n] = 0; name(Name(b, n), b, n); uint32_t l = n ? sx_choice("l", n) : 0; name(Name(b, l), b, l); free(b); sx_cover("buffer"); break; }
    case 2: { StaticArray<ansichar, 6> a; for (uint32_t i = 0; i < 6; ++i) a[i] = symi<char>("c"); const StaticArray<ansichar, 6> &c = a; Name n(c); name(n, *c, 5); sx_cover("static"); break; }
    case 3: A(eq(TypeDebugInfo<int8>::debugName, "int8") && eq(TypeDebugInfo<int16>::debugName, "int16") && eq(TypeDebugInfo<int32>::debugName, "int32") && eq(TypeDebugInfo<int64>::debugName, "int64"), "the name of a type"); sx_cover("types"); break;
    default: A(eq(TypeDebugInfo<uint8>::debugName, "uint8") && eq(TypeDebugInfo<uint16>::debugName, "uint16") && eq(TypeDebugInfo<uint32>::debugName, "uint32") && eq(TypeDebugInfo<uint64>::debugName, "uint64") && eq(TypeDebugInfo<void>::debugName, "void") && eq(TypeDebugInfo<void>::getDebugName(), "void"), "the name of a type"); sx_cover("types");
  }
}
template<class T, class U> static bool is() { return IsSameType<T, U>::value && !IsSameType<T, U *>::value; }
struct Base { int x; }; struct Derived : Base {}; struct Owner { Owner(); Owner(const Owner &); Owner &operator=(const Owner &); ~Owner(); };
extern "C" void h_traits() {
  A((IsIntegral<int8>::value && IsIntegral<int16>::value && IsIntegral<int32>::value && IsIntegral<int64>::value && IsIntegral<uint8>::value && IsIntegral<uint16>::value && IsIntegral<uint32>::value && IsIntegral<uint64>::value && IsIntegral<bool>::value && IsIntegral<char>::value && IsIntegral<ansichar>::value && IsIntegral<widechar>::value), "integral types");
  A((!IsIntegral<float>::value && !IsIntegral<double>::value && !IsIntegral<int *>::value && !IsIntegral<Base>::value && !IsIntegral<void>::value), "other types are not integral");
  A((IsPointer<int *>::value && IsPointer<const int *>::value && IsPointer<void **>::value && !IsPointer<int>::value && !IsPointer<int &>::value && !IsPointer<Base>::value), "pointers");
  A((IsPointerOf<int *, int>::value && IsPointerOf<const int *, int>::value && IsPointerOf<volatile int *, int>::value && IsPointerOf<const volatile int *, int>::value && !IsPointerOf<long *, int>::value && !IsPointerOf<int, int>::value && IsVoidPointer<void *>::value && IsVoidPointer<const void *>::value && !IsVoidPointer<int *>::value), "pointers to a type");
  A((IsReference<int &>::value && IsReference<int &&>::value && IsReference<const int &>::value && !IsReference<int>::value && !IsReference<int *>::value), "references");
  A((IsVolatile<volatile int>::value && !IsVolatile<int>::value && !IsVolatile<const int>::value), "volatile types");
  A((IsArray<int[3]>::value && IsArray<int[]>::value && !IsArray<int *>::value && !IsArray<int>::value), "arrays");
  A((IsCFunction<int(int)>::value && IsCFunction<void()>::value && !IsCFunction<int>::value && !IsCFunction<int (*)(int)>::value), "functions");
  A((IsVoid<void>::value && !IsVoid<int>::value && IsSameType<int, int>::value && !IsSameType<int, const int>::value && !IsSameType<int, long>::value), "same types");
  A((IsTrivial<int>::value && IsTrivial<Base>::value && !IsTrivial<Owner>::value && IsPOD<Base>::value && !IsPOD<Owner>::value), "trivial types");
  A((IsTriviallyConstructible<int>::value && !IsTriviallyConstructible<Owner>::value && IsTriviallyDestructible<Base>::value && !IsTriviallyDestructible<Owner>::value && IsTriviallyCopyable<Base>::value && !IsTriviallyCopyable<Owner>::value && IsTriviallyAssignable<Base>::value && !IsTriviallyAssignable<Owner>::value), "trivial operations");
  A((IsBaseOf<Base, Derived>::value && !IsBaseOf<Derived, Base>::value && IsBaseOf<Base, Base>::value && !IsBaseOf<Base, Owner>::value), "base classes");
  A((is<RemovePointer<int *>::Type, int>() && is<RemovePointer<int **>::Type, int *>() && is<RemovePointer<int *const>::Type, int>() && is<RemovePointer<int *volatile>::Type, int>() && is<RemovePointer<int>::Type, int>() && is<RemovePointer<const int *>::Type, const int>() && is<RemoveAllPointers<int ***>::Type, int>() && is<RemoveAllPointers<int>::Type, int>()), "pointers removed");
  A((is<RemoveReference<int &>::Type, int>() && is<RemoveReference<int &&>::Type, int>() && is<RemoveReference<const int &>::Type, const int>() && is<RemoveReference<int>::Type, int>()), "references removed");
  A((is<RemoveConst<const int>::Type, int>() && is<RemoveConst<int>::Type, int>() && is<RemoveVolatile<volatile int>::Type, int>() && is<RemoveConstVolatile<const volatile int>::Type, int>() && is<RemoveConstVolatile<const int>::Type, int>() && is<RemoveConstVolatile<volatile int>::Type, int>() && is<RemoveConst<const int *>::Type, const int *>()), "qualifiers removed");
  A((is<RemoveArray<int[4]>::Type, int>() && is<RemoveArray<int[]>::Type, int>() && is<RemoveArray<int>::Type, int>()), "extents removed");
  A((is<AddPointer<int>::Type, int *>() && is<AddPointer<int &>::Type, int *>() && is<AddPointer<int *>::Type, int **>()), "pointers added");
  A((is<DecayType<const int &>::Type, int>() && is<DecayType<int[3]>::Type, int>() && is<DecayType<int>::Type, int>() && is<DecayType<int(int)>::Type, int (*)(int)>() && is<DecayType<volatile int &&>::Type, int>() && is<DecayType<int *>::Type, int *>()), "decayed types");
  A((is<NakedType<const int &>::Type, int>() && is<NakedType<int &&>::Type, int>() && is<NakedType<int *>::Type, int *>()), "unqualified types");
  A((is<ChooseType<true, int, long>::Type, int>() && is<ChooseType<false, int, long>::Type, long>()), "chosen types");
  sx_cover("done");
}
