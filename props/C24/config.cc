// C24: configuration of a cache: which configurations are accepted and the geometry they give.
// The text is split and its numbers are read by contract: any number of fields with any texts, each starting with any number that ends at any
// place of the field; suffixes and words are compared by the code.
#include "vp.h"
#include <string>
#include <vector>
#define ABSL_STRINGS_STR_SPLIT_H_
#include "absl/container/btree_set.h"
static uint64_t g_start, g_end; static int g_inserted;
namespace absl {
template <class K, class C> struct btree_multiset {
  bool some = false;
  bool empty() const { return !some; }
  void insert(const K& k) { some = true; g_inserted++; g_start = k.start; g_end = k.end; }
  bool contains(const K&) const { return false; }
};
std::vector<std::string> StrSplit(const std::string&, char);
}
namespace std { unsigned long long stoull(const std::string&, std::string::size_type*, int = 10); }
#include "mpact/sim/util/memory/cache.cc"
#include "mpact/sim/generic/data_buffer.cc"
#include "mpact/sim/generic/instruction.cc"
using namespace mpact::sim::generic;
using namespace mpact::sim::util;
namespace mpact::sim::generic {
Component::Component(std::string name, Component*) {}
absl::Status Component::AddCounter(CounterBaseInterface* c) { return absl::OkStatus(); }
absl::Status Component::Import(const ComponentData&) { return absl::OkStatus(); }
void Component::ImportDone() const {}
absl::Status Component::ImportSelf(const ComponentData&) { return absl::OkStatus(); }
absl::Status Component::ImportChildren(const ComponentData&) { return absl::OkStatus(); }
}
// the fields of the configuration and the parts of its range field
static const uint64_t kConfig = 1001, kRange = 1002, kSuffix = 1003;
static int g_fields, g_parts;
static uint64_t g_field[6], g_part[4];       // their texts
struct Number { uint64_t value, end, size; };
static Number g_num[6], g_pnum[4];
static uint64_t g_suffix;
static std::string Text(uint64_t id) { std::string s; s.id = id; return s; }
namespace absl {
std::vector<std::string> StrSplit(const std::string& s, char c) {
  std::vector<std::string> r;
  if (s.id == kConfig) {
    vp_assert(c == ',', "fields are separated by commas");
    for (int i = 0; i < g_fields; i++) r.push_back(Text(g_field[i]));
  } else {
    vp_assert(c == ':', "the parts of a range are separated by colons");
    for (int i = 0; i < g_parts; i++) r.push_back(Text(g_part[i]));
  }
  return r;
}
}
namespace std {
uint64_t vp_str_size(uint64_t id) {
  for (int i = 0; i < 3; i++) if (id == g_field[i]) return g_num[i].size;
  for (int i = 1; i < 3; i++) if (id == g_part[i]) return g_pnum[i].size;
  return vp_any<uint8_t>("size");
}
uint64_t vp_str_part(uint64_t id, uint64_t pos, uint64_t n) {
  vp_assert(id == g_field[0] && pos == g_num[0].end && n >= g_num[0].size - pos, "the suffix is what follows the number");
  return g_suffix;
}
unsigned long long stoull(const std::string& s, std::string::size_type* e, int base) {
  for (int i = 0; i < 3; i++) if (s.id == g_field[i]) { vp_assert(base == 10, "sizes are decimal"); *e = g_num[i].end; return g_num[i].value; }
  for (int i = 1; i < 3; i++) if (s.id == g_part[i]) { vp_assert(base == 0, "addresses are in any base"); *e = g_pnum[i].end; return g_pnum[i].value; }
  vp_assert(false, "a number is read from a field that is no number");
  return 0;
}
}
static Number AnyNumber() {
  Number n = {vp_any<uint64_t>("value"), vp_any<uint8_t>("end"), vp_any<uint8_t>("field size")};
  vp_assume(n.end >= 1 && n.end <= n.size);
  return n;
}
static Cache* Setup(int fields) {
  g_fields = fields;
  for (int i = 0; i < 6; i++) g_field[i] = 2000 + i;
  for (int i = 0; i < 4; i++) g_part[i] = 3000 + i;
  for (int i = 0; i < 3; i++) g_num[i] = AnyNumber();
  for (int i = 1; i < 3; i++) g_pnum[i] = AnyNumber();
  g_suffix = std::vp_str_id("k");
  if (vp_any<bool>("M")) g_suffix = std::vp_str_id("M");
  else if (vp_any<bool>("G")) g_suffix = std::vp_str_id("G");
  else if (vp_any<bool>("other suffix")) g_suffix = 77;
  MemoryInterface* none = nullptr;
  return new Cache("cache", nullptr, none);
}
static bool Pow2(uint64_t x) { return x != 0 && (x & (x - 1)) == 0; }
template <int kLineBits> static void Geometry() {
  Cache* c = Setup(4);
  bool t = vp_any<bool>("true"), f = vp_any<bool>("false");
  g_field[3] = t ? std::vp_str_id("true") : f ? std::vp_str_id("false") : 78;
  uint64_t size = g_num[0].value, line = g_num[1].value, ways = g_num[2].value;
  if (kLineBits >= 0) vp_assume(line == 1ULL << kLineBits); else vp_assume(!Pow2(line) || line < 4);
  bool ok = g_num[1].end == g_num[1].size && g_num[2].end == g_num[2].size && (t || f);
  vp_assume(size < 1ULL << 24);
  if (g_num[0].end < g_num[0].size) {
    if (g_suffix == std::vp_str_id("k")) size <<= 10;
    else if (g_suffix == std::vp_str_id("M")) size <<= 20;
    else if (g_suffix == std::vp_str_id("G")) size <<= 30;
    else ok = false;
  }
  vp_assume(kLineBits < 0 || size >> (kLineBits < 0 ? 0 : kLineBits) <= 1ULL << 24);
  ok = ok && Pow2(size) && Pow2(line) && line >= 4 && size >= line && (ways == 0 || Pow2(ways));
  uint64_t lines = size >> (kLineBits < 0 ? 0 : kLineBits);
  ok = ok && ways <= lines;
  uint64_t n = ways ? ways : lines;
  SimpleCounter<uint64_t> cycles("cycles", 0);
  vp_cover("pre");
  auto s = c->Configure(Text(kConfig), &cycles);
  vp_assert(s.ok() == ok, "exactly the configurations of powers of two are accepted");
  if (!ok) { vp_cover("rejected"); return; }
  vp_assert(c->block_shift_ == kLineBits, "an address is divided by the block size");
  vp_assert(c->num_sets_ == n && c->set_shift_ >= 0 && c->set_shift_ < 64 && (1ULL << c->set_shift_) == n, "the number of ways is as configured, or all blocks");
  vp_assert((c->index_mask_ + 1) << c->set_shift_ == lines && Pow2(c->index_mask_ + 1), "sets times ways make the cache");
  uint64_t i = vp_any<uint64_t>("i");
  vp_assume(i < lines);
  vp_assert(!c->cache_lines_[i].valid && !c->cache_lines_[i].pinned && !c->cache_lines_[i].dirty, "the cache is empty");
  vp_assert(c->write_allocate_ == t && c->cycle_counter_ == &cycles, "writes allocate if configured so");
  vp_cover("accepted");
}
VP_HARNESS(block_4) { Geometry<2>(); }
VP_HARNESS(block_2_30) { Geometry<30>(); }
VP_HARNESS(bad_block) { Geometry<-1>(); }
VP_HARNESS(fields) {
  Cache* c = Setup(vp_any<int>("fields"));
  vp_assume(g_fields >= 0 && g_fields < 4);
  SimpleCounter<uint64_t> cycles("cycles", 0);
  bool none = vp_any<bool>("no counter");
  vp_cover("pre");
  if (none) g_fields = 4;
  auto s = c->Configure(Text(kConfig), none ? nullptr : &cycles);
  vp_assert(!s.ok() && c->cache_lines_ == nullptr, "too few fields, or no counter, is an error");
  vp_cover("post");
}
VP_HARNESS(range) {
  Cache* c = Setup(5);
  g_field[3] = std::vp_str_id("true");
  for (int i = 0; i < 3; i++) g_num[i].end = g_num[i].size;
  g_num[0].value = 1024; g_num[1].value = 16; g_num[2].value = 4;
  bool cc = vp_any<bool>("c"), nc = vp_any<bool>("nc");
  g_part[0] = cc ? std::vp_str_id("c") : nc ? std::vp_str_id("nc") : 79;
  g_parts = vp_any<int>("parts");
  vp_assume(g_parts >= 0 && g_parts <= 4);
  bool had_c = vp_any<bool>("has c"), had_n = vp_any<bool>("has nc");
  vp_assume(!(had_c && had_n));
  c->cacheable_ranges_.some = c->has_cacheable_ = had_c;
  c->non_cacheable_ranges_.some = c->has_non_cacheable_ = had_n;
  bool ok = g_parts == 3 && (cc || nc) && !(cc ? had_n : had_c) && g_pnum[1].end == g_pnum[1].size && g_pnum[2].end == g_pnum[2].size && g_pnum[1].value <= g_pnum[2].value;
  SimpleCounter<uint64_t> cycles("cycles", 0);
  g_inserted = 0;
  vp_cover("pre");
  auto s = c->Configure(Text(kConfig), &cycles);
  vp_assert(s.ok() == ok, "a range has a kind, a first and a last address, of one kind per cache");
  if (!ok) { vp_assert(g_inserted == 0, "nothing is added"); vp_cover("rejected"); return; }
  vp_assert(g_inserted == 1 && g_start == g_pnum[1].value && g_end == g_pnum[2].value, "the range is added");
  vp_assert(c->has_cacheable_ == (had_c || cc) && c->has_non_cacheable_ == (had_n || !cc), "the kind of ranges is known");
  vp_cover("accepted");
}
