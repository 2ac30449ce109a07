// C07: floating point type information and half-to-single conversion, for every bit pattern.
#include <cstring>
#include "vp.h"
#include "mpact/sim/generic/type_helpers.h"
using namespace mpact::sim::generic;
template <class T, class U> static inline T As(U u) { T t; __builtin_memcpy(&t, &u, sizeof(T)); return t; }
// IEEE 754 interchange formats by width: exponent bits E, fraction bits F (sign 1)
template <class T, class U, int E, int F, int Bias> static void classify() {
  using I = FPTypeInfo<T>;
  static_assert(sizeof(T) == sizeof(U) && 1 + E + F == 8 * sizeof(U), "format");
  U u = vp_any<U>("u");
  U frac = u & (U)((U(1) << F) - 1);
  U exp = (U)(u >> F) & (U)((U(1) << E) - 1);
  bool sign = (u >> (E + F)) & 1;
  const U maxe = (U)((U(1) << E) - 1);
  T v = As<T>(u);
  vp_assert(I::kBitSize == 1 + E + F && I::kExpSize == E && I::kSigSize == F && I::kExpBias == Bias, "sizes and bias of the format");
  vp_assert((U)I::kSigMask == (U)((U(1) << F) - 1) && (U)I::kExpMask == (U)(maxe << F), "masks select the fraction and exponent fields");
  vp_assert(((U)I::kInfMask & u) == (U)(u & ~(U(1) << (E + F))), "kInfMask removes exactly the sign");
  vp_assert((U)I::kPosInf == (U)(maxe << F) && (U)I::kNegInf == (U)((maxe << F) | (U(1) << (E + F))), "infinities");
  vp_assert((U)I::kCanonicalNaN == (U)((maxe << F) | (U(1) << (F - 1))), "canonical NaN is the positive quiet NaN with empty payload");
  vp_assert(I::IsInf(v) == (exp == maxe && frac == 0), "IsInf exactly on the two infinities");
  vp_assert(I::IsNaN(v) == (exp == maxe && frac != 0), "IsNaN exactly on the NaNs");
  vp_assert(I::IsSNaN(v) == (exp == maxe && frac != 0 && ((frac >> (F - 1)) & 1) == 0), "IsSNaN exactly on the signaling NaNs");
  vp_assert(I::IsQNaN(v) == (exp == maxe && ((frac >> (F - 1)) & 1) == 1), "IsQNaN exactly on the quiet NaNs");
  vp_assert(I::SignBit(v) == sign, "SignBit is the top bit");
  vp_assert(sizeof(typename I::UIntType) == sizeof(T) && sizeof(typename I::IntType) == sizeof(T), "carrier integer types have the width of the format");
  vp_assert(typename I::UIntType(-1) > 0 && typename I::IntType(-1) < 0, "carrier integer types have the right signedness");
  vp_cover("post");
}
VP_HARNESS(half) { classify<HalfFP, uint16_t, 5, 10, 15>(); }
VP_HARNESS(u16) { classify<uint16_t, uint16_t, 5, 10, 15>(); }
VP_HARNESS(i16) { classify<int16_t, uint16_t, 5, 10, 15>(); }
VP_HARNESS(single) { classify<float, uint32_t, 8, 23, 127>(); }
VP_HARNESS(u32) { classify<uint32_t, uint32_t, 8, 23, 127>(); }
VP_HARNESS(i32) { classify<int32_t, uint32_t, 8, 23, 127>(); }
VP_HARNESS(dbl) { classify<double, uint64_t, 11, 52, 1023>(); }
VP_HARNESS(u64) { classify<uint64_t, uint64_t, 11, 52, 1023>(); }
VP_HARNESS(i64) { classify<int64_t, uint64_t, 11, 52, 1023>(); }
VP_HARNESS(half_to_single) {
  uint16_t h = vp_any<uint16_t>("h");
  HalfFP x; x.value = h;
  vp_cover("pre");
  float f = ConvertHalfToSingle(x);
  uint32_t u = As<uint32_t>(f);
  uint32_t e = (h >> 10) & 31, m = h & 1023;
  vp_assert((u >> 31) == (uint32_t)(h >> 15), "the sign is preserved");
  uint32_t fe = (u >> 23) & 255, fm = u & 0x7fffff;
  if (e == 31 && m != 0) vp_assert(fe == 255 && (fm >> 22) == 1, "a NaN becomes a quiet NaN");
  else if (e == 31) vp_assert(fe == 255 && fm == 0, "an infinity becomes an infinity");
  else if (e == 0 && m == 0) vp_assert((u << 1) == 0, "zero becomes zero");
  else if (e != 0) vp_assert(fe == e + 112 && fm == m << 13, "normal numbers keep their value");
  else {
    // subnormal m * 2^-24 with leading bit p:  2^(p-24) * (1 + (m - 2^p)/2^p)
    uint32_t p = vp_any<uint32_t>("p");
    vp_assume(p < 10 && (m >> p) == 1);
    vp_assert(fe == 103 + p && fm == ((m << (23 - p)) & 0x7fffff), "subnormal numbers keep their value");
  }
  vp_assert(e == 31 && m != 0 || f == static_cast<float>(As<_Float16>(h)), "the value equals the IEEE conversion");
  vp_cover("post");
}
// the sign-and-size type maps used by semantic functions
template <class A, class B> struct Is { static constexpr bool v = false; };
template <class A> struct Is<A, A> { static constexpr bool v = true; };
VP_HARNESS(type_maps) {
  uint8_t a = vp_any<uint8_t>("a"), b = vp_any<uint8_t>("b");
  vp_assert((uint32_t)typename WideType<uint8_t>::type(typename WideType<uint8_t>::type(a) * b) == (uint32_t)a * b, "the wide type holds every product (u8)");
  int8_t c = (int8_t)a, d = (int8_t)b;
  vp_assert((int)typename WideType<int8_t>::type(typename WideType<int8_t>::type(c) * d) == (int)c * d, "the wide type holds every product (i8)");
#define WIDE(T) vp_assert(sizeof(WideType<T>::type) == 2 * sizeof(T) && (WideType<T>::type(-1) < WideType<T>::type(0)) == (T(-1) < T(0)), "WideType doubles the width and keeps the sign: " #T)
  WIDE(uint8_t); WIDE(uint16_t); WIDE(uint32_t); WIDE(int8_t); WIDE(int16_t); WIDE(int32_t);
  WIDE(uint64_t); WIDE(int64_t);
#define NARROW(T) vp_assert(2 * sizeof(NarrowType<T>::type) == sizeof(T) && (NarrowType<T>::type(-1) < NarrowType<T>::type(0)) == (T(-1) < T(0)), "NarrowType halves the width and keeps the sign: " #T)
  NARROW(uint16_t); NARROW(uint32_t); NARROW(uint64_t); NARROW(int16_t); NARROW(int32_t); NARROW(int64_t);
#define SAME(W, S) vp_assert(sizeof(SameSignedType<W, S>::type) == sizeof(W) && (SameSignedType<W, S>::type(-1) < SameSignedType<W, S>::type(0)) == (S(-1) < S(0)), "SameSignedType has the width of the first and the sign of the second")
  SAME(uint8_t, int32_t); SAME(int8_t, uint32_t); SAME(uint16_t, int8_t); SAME(int32_t, uint8_t); SAME(uint64_t, int16_t); SAME(int64_t, uint64_t); SAME(uint32_t, uint16_t); SAME(int16_t, int64_t);
  vp_assert((Is<MakeUnsigned<absl::int128>::type, absl::uint128>::v && Is<MakeUnsigned<absl::uint128>::type, absl::uint128>::v && Is<MakeUnsigned<int32_t>::type, uint32_t>::v), "MakeUnsigned covers the 128-bit types");
  vp_assert(IsMpactFp<HalfFP>::value && IsMpactFp<float>::value && IsMpactFp<double>::value && !IsMpactFp<uint16_t>::value, "IsMpactFp");
  vp_cover("post");
}
