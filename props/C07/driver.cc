// C07 bounded supplement: all 65536 half patterns; corner and random single/double patterns against the compiler's own classification.
#include <cmath>
#include <cstring>
#include "vpd.h"
#include "mpact/sim/generic/type_helpers.h"
using namespace mpact::sim::generic;
template <class T, class U> T As(U u) { T t; std::memcpy(&t, &u, sizeof(T)); return t; }
template <class T, class U, class F> void cls(U u, const char* n) {
  F f = As<F>(u); T v = As<T>(u); using I = FPTypeInfo<T>;
  bool nan = std::isnan((double)f) , inf = std::isinf((double)f);
  U q = U(1) << (I::kSigSize - 1);
  vpd::cases++;
  vpd::log().clear(); vpd::note(vpd::cat(n, " pattern 0x", std::hex, (uint64_t)u));
  VPD_CHECK(I::IsNaN(v) == nan, n, " IsNaN"); VPD_CHECK(I::IsInf(v) == inf, n, " IsInf"); VPD_CHECK(I::SignBit(v) == (bool)(u >> (8 * sizeof(U) - 1)), n, " SignBit");
  VPD_CHECK(I::IsQNaN(v) == (nan && (u & q)), n, " IsQNaN"); VPD_CHECK(I::IsSNaN(v) == (nan && !(u & q)), n, " IsSNaN");
  vpd::distinct_case(vpd::mix(u, sizeof(T)));
}
template <class T> int64_t Exp() { return FPTypeInfo<T>::kExpBias; }
int main(int argc, char** argv) {
  vpd::Rng r(atoll(argv[1])); vpd::Clock clk(atof(argv[2]));
  for (uint32_t h = 0; h < 65536; h++) {
    cls<HalfFP, uint16_t, _Float16>(h, "half"); cls<uint16_t, uint16_t, _Float16>(h, "uint16"); cls<int16_t, uint16_t, _Float16>(h, "int16");
    HalfFP x; x.value = h; float f = ConvertHalfToSingle(x); float w = (float)As<_Float16>((uint16_t)h);
    VPD_CHECK(std::isnan(w) ? std::isnan(f) : As<uint32_t>(f) == As<uint32_t>(w), "ConvertHalfToSingle(0x", std::hex, h, ") is 0x", As<uint32_t>(f), " expected 0x", As<uint32_t>(w));
    VPD_CHECK((As<uint32_t>(f) >> 31) == (h >> 15), "sign of ConvertHalfToSingle(0x", std::hex, h, ")");
    VPD_CHECK(std::isnan(w) || FloatingPointToString(x) == std::to_string(w), "FloatingPointToString");
  }
  vpd::sample("all 65536 half precision patterns, then corner and random single and double patterns");
  uint64_t n = std::string(argv[3]) == "quick" ? 60000 : 5000000;
  for (uint64_t i = 0; i < n && clk.more(); i++) {
    uint32_t u = (uint32_t)r.corner(); if (r.coin(30)) u |= 0x7f800000; cls<float, uint32_t, float>(u, "float"); cls<uint32_t, uint32_t, float>(u, "uint32"); cls<int32_t, uint32_t, float>(u, "int32");
    uint64_t d = r.corner(); if (r.coin(30)) d |= 0x7ff0000000000000ull; cls<double, uint64_t, double>(d, "double"); cls<uint64_t, uint64_t, double>(d, "uint64"); cls<int64_t, uint64_t, double>(d, "int64");
  }
  VPD_DONE();
}
