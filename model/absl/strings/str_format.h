// Verification model (trusted): formatted text is some text.
#pragma once
#if defined(VP_STR_ID)
namespace absl {
template <class... A>
inline std::string StrFormat(const char*, const A&...) {
  std::string r;
  r.id = __vp_fresh_id();
  return r;
}
}  // namespace absl
#else
#include_next "absl/strings/str_format.h"
#endif
