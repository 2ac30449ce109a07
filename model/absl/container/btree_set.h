#ifndef VP_MODEL_btree_set_
#define VP_MODEL_btree_set_
#include "vp.h"
namespace absl {
template <class K, class... X>
using btree_set = std::vp_set<K>;
}
#endif
