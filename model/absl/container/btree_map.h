#ifndef VP_MODEL_btree_map_
#define VP_MODEL_btree_map_
#include "vp.h"
namespace absl {
template <class K, class V, class... X>
using btree_map = std::vp_map<K, V>;
}
#endif
