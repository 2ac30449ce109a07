#ifndef VP_MODEL_flat_hash_set_
#define VP_MODEL_flat_hash_set_
#include "vp.h"
namespace absl {
template <class K, class... X>
using flat_hash_set = std::vp_set<K>;
}
#endif
