#ifndef VP_MODEL_flat_hash_map_
#define VP_MODEL_flat_hash_map_
#include "vp.h"
namespace absl {
template <class K, class V, class... X>
using flat_hash_map = std::vp_map<K, V>;
}
#endif
