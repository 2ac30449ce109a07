// The installed Abseil predates absl::bit_width returning int (as std::bit_width does); the sources rely on that.
#ifndef VP_SHIM_ABSL_BITS_H_
#define VP_SHIM_ABSL_BITS_H_
#define bit_width vp_unsigned_bit_width
#include_next "absl/numeric/bits.h"
#undef bit_width
namespace absl {
template <class T>
inline int bit_width(T x) noexcept { return static_cast<int>(vp_unsigned_bit_width(x)); }
}  // namespace absl
#endif
