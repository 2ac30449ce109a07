// C24: which accesses hit, what is replaced and what is counted, for a cache of any geometry and content.
#include "vp.h"
#include <string>
#include <vector>
#define ABSL_STRINGS_STR_SPLIT_H_
#include "absl/container/btree_set.h"
static bool g_in; static uint64_t g_start, g_end; static int g_asked;
namespace absl {
// a collection of ranges: whether an access touches one of them is arbitrary, the question is recorded
template <class K, class C> struct btree_multiset {
  bool some = false;
  bool empty() const { return !some; }
  void insert(const K&) { some = true; }
  bool contains(const K& k) const { g_asked++; g_start = k.start; g_end = k.end; return g_in; }
};
std::vector<std::string> StrSplit(const std::string&, char) { return std::vector<std::string>(); }
}
namespace std { unsigned long long stoull(const std::string&, std::string::size_type*, int = 10) { return 0; } }
#include "mpact/sim/util/memory/cache.cc"
#include "mpact/sim/generic/data_buffer.cc"
#include "mpact/sim/generic/instruction.cc"
using namespace mpact::sim::generic;
using namespace mpact::sim::util;
static int g_counters;
namespace mpact::sim::generic {
Component::Component(std::string name, Component*) {}
absl::Status Component::AddCounter(CounterBaseInterface* c) {
  g_counters++;
  return c->IsInitialized() ? absl::OkStatus() : absl::InvalidArgumentError("not initialized");
}
absl::Status Component::Import(const ComponentData&) { return absl::OkStatus(); }
void Component::ImportDone() const {}
absl::Status Component::ImportSelf(const ComponentData&) { return absl::OkStatus(); }
absl::Status Component::ImportChildren(const ComponentData&) { return absl::OkStatus(); }
}
using Line = Cache::CacheLine;
struct Counts { uint64_t rh, rm, wh, wm, wb, ra, wa, rn, wn; };
static Counts Read(Cache* c) {
  return Counts{c->read_hit_counter_.GetValue(), c->read_miss_counter_.GetValue(), c->write_hit_counter_.GetValue(), c->write_miss_counter_.GetValue(),
                c->dirty_line_writeback_counter_.GetValue(), c->read_around_counter_.GetValue(), c->write_around_counter_.GetValue(),
                c->read_non_cacheable_counter_.GetValue(), c->write_non_cacheable_counter_.GetValue()};
}
static void Same(const Counts& a, const Counts& b) {
  vp_assert(a.rh == b.rh && a.rm == b.rm, "reads counted");
  vp_assert(a.wh == b.wh && a.wm == b.wm, "writes counted");
  vp_assert(a.wb == b.wb, "write backs counted");
  vp_assert(a.ra == b.ra && a.wa == b.wa, "around counted");
  vp_assert(a.rn == b.rn && a.wn == b.wn, "not cacheable counted");
}
static SimpleCounter<uint64_t>* g_cycles;
static uint64_t g_block; static uint64_t g_holder;   // the block accessed and the only line that may hold it
// an arbitrary cache of sets of 2^s ways of blocks of 2^b bytes
static uint64_t g_now;
static Cache* AnyCache(uint64_t sets, int s, int b, uint64_t holder) {
  MemoryInterface* none = nullptr;
  Cache* c = new Cache("cache", nullptr, none);
  c->cache_lines_ = vp_region<Line>(sets << s, "lines");
  g_holder = holder;
  __vp_region_inv_at(c->cache_lines_, [](const void* e, uint64_t i) {
    const uint8_t* l = static_cast<const uint8_t*>(e);
    return l[offsetof(Line, valid)] <= 1 && l[offsetof(Line, pinned)] == 0 && l[offsetof(Line, dirty)] <= 1 && static_cast<const Line*>(e)->lru != ~0ULL &&
           (!l[offsetof(Line, valid)] || static_cast<const Line*>(e)->tag != g_block || i == g_holder);
  });
  c->block_shift_ = b;
  c->set_shift_ = s;
  c->num_sets_ = 1ULL << s;
  c->index_mask_ = sets - 1;
  c->write_allocate_ = vp_any<bool>("allocate");
  c->has_cacheable_ = vp_any<bool>("cacheable ranges");
  c->has_non_cacheable_ = vp_any<bool>("other ranges");
  vp_assume(!(c->has_cacheable_ && c->has_non_cacheable_));
  g_in = vp_any<bool>("in range");
  g_cycles = new SimpleCounter<uint64_t>("cycles", 0);
  g_now = vp_any<uint64_t>("now");
  vp_assume(g_now != ~0ULL);
  g_cycles->SetValue(g_now);
  c->cycle_counter_ = g_cycles;
  return c;
}
static uint64_t g_a; static int g_size; static bool g_read;
static void AnyAccess(int b) {
  g_a = vp_any<uint64_t>("a"); g_size = vp_any<int>("size"); g_read = vp_any<bool>("read");
  vp_assume(g_size >= 1 && g_a + g_size - 1 >= g_a && (g_a >> b) == ((g_a + g_size - 1) >> b));
}
// what was asked of the ranges, and whether the access is to be cached
static bool Cached(Cache* c) {
  bool yes = !(c->has_cacheable_ && !g_in) && !(c->has_non_cacheable_ && g_in);
  if (c->has_cacheable_ || c->has_non_cacheable_) vp_assert(g_asked > 0 && g_start == g_a && g_end == g_a + g_size - 1, "the ranges are asked about the bytes of the access");
  return yes;
}
VP_HARNESS(constructed) {
  g_counters = 0;
  MemoryInterface* mem = nullptr; TaggedMemoryInterface* tmem = nullptr;
  vp_cover("pre");
  Cache* c = vp_any<bool>("tagged") ? new Cache("a", nullptr, tmem) : new Cache("b", nullptr, mem);
  vp_assert(g_counters == 9, "a cache has nine counters, ready to use");
  delete c;
  vp_cover("post");
}
// the search for the least recently used way: (its time, the line), over the ways of a set
struct Env { const Line* set; uint64_t first, v; };
static void Oldest(uint64_t k, const uint64_t* c, uint64_t* n, void* env) {
  const Env& e = *(Env*)env;
  bool less = e.set[k].lru < c[0];
  n[0] = less ? e.set[k].lru : c[0];
  n[1] = less ? e.first + k : c[1];
}
static bool NoneOlder(uint64_t k, const uint64_t* c, void* env) { const Env& e = *(Env*)env; return k <= e.v || c[0] <= e.set[e.v].lru; }
static bool IsALine(uint64_t k, const uint64_t* c, void* env) {
  const Env& e = *(Env*)env;
  if (c[1] == ~0ULL) return c[0] == ~0ULL;
  return c[1] >= e.first && c[1] - e.first < k && c[0] == e.set[c[1] - e.first].lru;
}
template <int s, int b, int mode> static void OneBlock() {
  uint64_t sets = vp_any<uint64_t>("sets");
  vp_assume(sets >= 1 && sets <= 1ULL << (24 - s) && (sets & (sets - 1)) == 0);
  AnyAccess(b);
  g_read = mode == 0;
  uint64_t block = g_block = g_a >> b, first = (block & (sets - 1)) << s;
  uint64_t w = vp_any<uint64_t>("line"), v = vp_any<uint64_t>("way");
  vp_assume(w < (sets << s) && v < (1ULL << s));
  __vp_hint(v);
  Cache* c = AnyCache(sets, s, b, first + v);
  c->has_cacheable_ = c->has_non_cacheable_ = false;
  c->write_allocate_ = mode == 1;
  Line old = c->cache_lines_[w], way = c->cache_lines_[first + v];
  Counts e = Read(c);
  Env env = {c->cache_lines_ + first, first, v};
  uint64_t init[2] = {~0ULL, ~0ULL};
  int g = __vp_mseq("oldest", 2, init, Oldest, &env);
  __vp_mseq_inv(g, NoneOlder, "no earlier way is older", 0);
  __vp_mseq_inv(g, IsALine, "the way chosen is one of the earlier ones", 0);
  vp_cover("pre");
  int misses = c->CacheLookup(g_a, g_size, g_read);
  Counts n = Read(c);
  Line now = c->cache_lines_[w];
  bool same = now.valid == old.valid && now.tag == old.tag && now.pinned == old.pinned && now.dirty == old.dirty && now.lru == old.lru;
  bool mine = w >= first && w - first < (1ULL << s);
  if (!mine) vp_assert(same, "lines of other sets are unchanged");
  bool hit = n.rh + n.wh != e.rh + e.wh;
  vp_assert(hit == (way.valid && way.tag == block), "an access hits exactly if the block is cached");
  if (hit) {
    vp_assert(misses == 0, "a hit is no miss");
    (g_read ? e.rh : e.wh)++;
    Same(n, e);
    if (w == first + v) vp_assert(now.lru == g_now && now.dirty == (old.dirty || !g_read), "a hit marks the line used");
    if (!same) vp_assert(old.valid && old.tag == block && now.valid && now.tag == block && now.lru == g_now && now.dirty == (old.dirty || !g_read), "a hit marks the line used, and written by a write");
    vp_cover("hit");
    return;
  }
  (g_read ? e.rm : e.wm)++;
  if (!g_read && !c->write_allocate_) {
    e.wa++;
    Same(n, e);
    vp_assert(same && misses == 0, "a write that does not allocate changes no line");
    vp_cover("around");
    return;
  }
  vp_assert(misses == 1, "a miss is reported");
  vp_assert(n.wb == e.wb || n.wb == e.wb + 1, "at most one line is written back");
  if (!same) {
    e.wb += old.valid && old.dirty;
    vp_assert(mine && now.valid && now.tag == block && now.lru == g_now && now.dirty == !g_read && !now.pinned, "a miss puts the block into one line");
    vp_assert(!old.valid || (way.valid && way.lru >= old.lru), "the line replaced is free or the least recently used");
    Line other = c->cache_lines_[first + v];
    if (w != first + v) vp_assert(other.valid == way.valid && other.tag == way.tag && other.dirty == way.dirty && other.lru == way.lru, "one line is replaced");
  } else e.wb = n.wb;
  Same(n, e);
  vp_cover("miss");
}
// an access in or next to the (non-)cacheable ranges
template <bool read> static void Ranges() {
  AnyAccess(4);
  g_read = read;
  g_block = g_a >> 4;
  Cache* c = AnyCache(1, 0, 4, 0);
  Line old = c->cache_lines_[0];
  Counts e = Read(c);
  vp_cover("pre");
  c->CacheLookup(g_a, g_size, g_read);
  Counts n = Read(c);
  Line now = c->cache_lines_[0];
  if (Cached(c)) {
    vp_assert(n.rn == e.rn && n.wn == e.wn, "a cacheable access is not counted as not cacheable");
    vp_assert(n.rh + n.rm + n.wh + n.wm == e.rh + e.rm + e.wh + e.wm + 1, "a cacheable access is a hit or a miss");
    vp_cover("cached");
    return;
  }
  vp_assert(now.valid == old.valid && now.tag == old.tag && now.dirty == old.dirty && now.lru == old.lru, "an access that is not cacheable changes no line");
  (g_read ? e.rn : e.wn)++;
  Same(n, e);
  vp_cover("not cacheable");
}
VP_HARNESS(ranges_read) { Ranges<true>(); }
VP_HARNESS(ranges_write) { Ranges<false>(); }
VP_HARNESS(read_1) { OneBlock<0, 4, 0>(); }
VP_HARNESS(read_16) { OneBlock<4, 6, 0>(); }
VP_HARNESS(write_16) { OneBlock<4, 6, 1>(); }
VP_HARNESS(around_2) { OneBlock<1, 2, 2>(); }
