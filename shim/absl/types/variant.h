// Stand-in: in a C++17 build of abseil, absl::variant is std::variant (the distribution's binary package pins its own class instead, which the
// out-of-build headers of the repository cannot be compiled with).
#ifndef VP_SHIM_ABSL_VARIANT_H_
#define VP_SHIM_ABSL_VARIANT_H_
#include <variant>
namespace absl {
using std::bad_variant_access;
using std::get;
using std::get_if;
using std::holds_alternative;
using std::monostate;
using std::variant;
using std::variant_alternative;
using std::variant_npos;
using std::variant_size;
using std::visit;
}  // namespace absl
#endif
