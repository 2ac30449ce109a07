// C25: an access of up to eight bytes marks the words it touches, and no others.
#include "vprange.h"
namespace std { inline ostream& operator<<(ostream& o, const string&) { return o; } }
#include "mpact/sim/util/memory/memory_use_profiler.cc"
using namespace mpact::sim::util;
typedef internal::MemoryUseTracker Tracker;
typedef MemoryWatcher::AddressRange Range;
static const uint64_t kSize = Tracker::kSegmentSize;
static uint64_t g_base;   // the watched segment
static bool IsWatched(const Range& r) {
  vp_assert((r.start & (kSize - 1)) == 0 && r.end == r.start + kSize - 1, "a segment is aligned and has its size");
  return r.start == g_base;
}
typedef decltype(Tracker::memory_use_map_) Map;
static void Segment(Map::value_type& v) {
  // what is stored are whole segments, each once
  vp_assume(v.first.start != g_base && (v.first.start & (kSize - 1)) == 0 && v.first.end == v.first.start + kSize - 1);
  v.second = vp_region<uint8_t>(Tracker::kBitsSize, "other bits");
}
static uint64_t g_word;   // the watched word
static bool Marked(Tracker* t) {
  if (!t->memory_use_map_.has) return false;
  uint64_t n = (g_word - g_base) / 4;
  return (t->memory_use_map_.w->second[n >> 3] >> (n & 7)) & 1;
}
// a tracker with any segments, one of which is watched; the segment used last is any of them
static Tracker* AnyTracker() {
  Tracker* t = new Tracker;
  g_word = vp_any<uint64_t>("word") & ~3ull;
  g_base = g_word & ~(kSize - 1);
  Map& m = t->memory_use_map_;
  m.o = new Map::value_type(Range(0, 0), nullptr);
  m.w = new Map::value_type(Range(g_base, g_base + kSize - 1), vp_region<uint8_t>(Tracker::kBitsSize, "bits"));
  m.has = vp_any<bool>("segment there");
  m.lone = vp_any<bool>("only segment");
  m.fresh = Segment;
  m.watch = IsWatched;
  uint64_t last = vp_any<uint64_t>("last segment") & ~(kSize - 1);
  if (vp_any<bool>("used before")) {
    vp_assume(last != g_base || m.has);
    vp_assume(last == g_base || !m.lone);
    t->last_start_ = last;
    t->last_end_ = last + kSize - 1;
    t->last_used_ = last == g_base ? m.w->second : vp_region<uint8_t>(Tracker::kBitsSize, "last bits");
  }
  return t;
}
static void Consistent(Tracker* t) {
  if (t->last_used_ == nullptr) return;
  vp_assert((t->last_start_ & (kSize - 1)) == 0 && t->last_end_ == t->last_start_ + kSize - 1, "the last segment is a segment");
  Map& m = t->memory_use_map_;
  if (t->last_start_ == g_base) vp_assert(m.has && t->last_used_ == m.w->second, "it is the one stored");
  else vp_assert(!m.has || t->last_used_ != m.w->second, "it is not another one");
}
VP_HARNESS(init) {
  Tracker& t = *new Tracker;
  vp_assert(t.last_used_ == nullptr && !t.memory_use_map_.has, "nothing is marked at first");
  vp_cover("post");
}
VP_HARNESS(mark) {
  Tracker* t = AnyTracker();
  bool before = Marked(t);
  uint64_t a = vp_any<uint64_t>("address");
  int size = vp_any<int>("size");
  vp_assume(size >= 1);
  vp_cover("pre");
  t->MarkUsed(a, size);
  bool first = g_word == (a & ~3ull), next = g_word == (a & ~3ull) + 4;
  if (size <= 4) vp_assert(Marked(t) == (before || first), "an access of up to a word marks the word of its address and no other");
  else if (size <= 8) vp_assert(Marked(t) == (before || first || next), "an access of up to two words marks the word of its address and the next, and no other");
  else vp_assert(Marked(t) == before, "longer accesses are not recorded");
  Consistent(t);
  vp_cover("post");
}
