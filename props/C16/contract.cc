// C16: a tagged memory keeps one tag per granule: tagged accesses carry data and tags together, untagged stores clear
// the tags of exactly the granules they touch, and a request that is not made of whole granules changes nothing.
#include "vp.h"
#include "mpact/sim/generic/data_buffer.cc"
#include "mpact/sim/generic/instruction.cc"
#include "mpact/sim/util/memory/flat_demand_memory.cc"
#include "mpact/sim/util/memory/tagged_flat_demand_memory.cc"
#define VP_FACTORY_CONTRACT
#include "vpsim.h"
#include "vpmem.h"
using namespace mpact::sim::util;
typedef SpecMemory<FlatDemandMemory> Spec;
// a tagged memory over a data and a tag memory of arbitrary contents; both are watched at arbitrary places
static Spec* g_data;
static Spec* g_tags;
static TaggedFlatDemandMemory* AnyTagged(int granule_shift, int shift) {
  TaggedFlatDemandMemory* m = new TaggedFlatDemandMemory(~0ull, 0, 1u << shift, 0, 1u << granule_shift);
  delete m->data_memory_;
  delete m->tag_memory_;
  m->data_memory_ = g_data = new Spec(~0ull, 0ull, 1u << shift, (uint8_t)0);
  m->tag_memory_ = g_tags = new Spec(~0ull, 0ull, 1u, (uint8_t)0);
  g_data->Watch(shift);
  g_tags->Watch(0);
  return m;
}
template <int kG, int kS> static void StoreTagged() {
  TaggedFlatDemandMemory* m = AnyTagged(kG, kS);
  uint64_t a = vp_any<uint64_t>("a");
  int n = vp_any<int>("bytes"), t = vp_any<int>("tags");
  vp_assume(a < (1ull << 61) && n >= 1 && n < (1 << 28) && t >= 1 && t < (1 << 28) && (n & ((1 << kS) - 1)) == 0);
  DataBuffer* b = AnyBuffer(n, "data");
  DataBuffer* tg = AnyBuffer(t, "tags");
  uint8_t data = g_data->val, tag = g_tags->val;
  vp_cover("pre");
  m->Store(a, b, tg);
  bool ok = ((a << kS) & ((1 << kG) - 1)) == 0 && n == (t << kG);
  uint64_t lo = (a << kS) >> kG;
  if (ok && g_data->Covers(a, n)) vp_assert(g_data->val == Raw(b)[((g_data->q - a) << kS) + g_data->j], "a tagged store stores the data");
  else vp_assert(g_data->val == data, "and changes no other data; a request not made of whole granules changes none");
  if (ok && g_tags->q >= lo && g_tags->q - lo < (uint64_t)t) vp_assert(g_tags->val == Raw(tg)[g_tags->q - lo], "a tagged store stores the tag of each granule");
  else vp_assert(g_tags->val == tag, "and changes no other tag; a request not made of whole granules changes none");
  vp_assert(b->ref_count() == 1 && tg->ref_count() == 1, "a store takes no reference");
  vp_cover("post");
}
VP_HARNESS(store_tagged_16) { StoreTagged<4, 0>(); }
VP_HARNESS(store_tagged_8) { StoreTagged<3, 0>(); }
VP_HARNESS(store_tagged_1) { StoreTagged<0, 0>(); }
VP_HARNESS(store_tagged_16_halves) { StoreTagged<4, 1>(); }
template <int kG, int kS> static void LoadTagged() {
  TaggedFlatDemandMemory* m = AnyTagged(kG, kS);
  uint64_t a = vp_any<uint64_t>("a");
  int n = vp_any<int>("bytes"), t = vp_any<int>("tags"), p = vp_any<int>("p"), r = vp_any<int>("r");
  vp_assume(a < (1ull << 61) && n >= 1 && n < (1 << 28) && t >= 1 && t < (1 << 28) && (n & ((1 << kS) - 1)) == 0 && p >= 0 && p < n && r >= 0 && r < t);
  bool data = vp_any<bool>("with data");
  DataBuffer* b = AnyBuffer(n, "data");
  DataBuffer* tg = AnyBuffer(t, "tags");
  uint8_t was = Raw(b)[p], wast = Raw(tg)[r], d = g_data->val, e = g_tags->val;
  vp_cover("pre");
  m->Load(a, data ? b : nullptr, tg, nullptr, nullptr);
  bool ok = ((a << kS) & ((1 << kG) - 1)) == 0 && (!data || n == (t << kG));
  uint64_t lo = (a << kS) >> kG;
  if (!ok) vp_assert(Raw(b)[p] == was && Raw(tg)[r] == wast, "a request not made of whole granules loads nothing");
  if (!data) vp_assert(Raw(b)[p] == was, "a load of tags loads no data");
  if (ok && data && g_data->Covers(a, n)) vp_assert(Raw(b)[((g_data->q - a) << kS) + g_data->j] == g_data->val, "a tagged load loads the data");
  if (ok && g_tags->q >= lo && g_tags->q - lo < (uint64_t)t) vp_assert(Raw(tg)[g_tags->q - lo] == g_tags->val, "a tagged load loads the tag of each granule");
  vp_assert(g_data->val == d && g_tags->val == e, "a load changes neither data nor tags");
  vp_assert(b->ref_count() == 1 && tg->ref_count() == 1, "a load takes no reference");
  vp_cover("post");
}
VP_HARNESS(load_tagged_16) { LoadTagged<4, 0>(); }
VP_HARNESS(load_tagged_8) { LoadTagged<3, 0>(); }
VP_HARNESS(load_tagged_16_halves) { LoadTagged<4, 1>(); }
// a store without tags: any address and size
template <int kG, int kS> static void StorePlain() {
  TaggedFlatDemandMemory* m = AnyTagged(kG, kS);
  uint64_t a = vp_any<uint64_t>("a");
  int n = vp_any<int>("bytes");
  vp_assume(a < (1ull << 61) && n >= 1 && n < (1 << 28) && (n & ((1 << kS) - 1)) == 0);
  DataBuffer* b = AnyBuffer(n, "data");
  uint8_t data = g_data->val, tag = g_tags->val;
  vp_cover("pre");
  m->Store(a, b);
  if (g_data->Covers(a, n)) vp_assert(g_data->val == Raw(b)[((g_data->q - a) << kS) + g_data->j], "a store stores the data");
  else vp_assert(g_data->val == data, "and changes no other data");
  uint64_t lo = (a << kS) >> kG, hi = ((a << kS) + n - 1) >> kG;
  if (g_tags->q >= lo && g_tags->q <= hi) vp_assert(g_tags->val == 0, "a store without tags clears the tag of every granule it touches");
  else vp_assert(g_tags->val == tag, "and changes no other tag");
  vp_assert(b->ref_count() == 1, "a store takes no reference");
  vp_cover("post");
}
VP_HARNESS(store_plain_16) { StorePlain<4, 0>(); }
VP_HARNESS(store_plain_8) { StorePlain<3, 0>(); }
VP_HARNESS(store_plain_1) { StorePlain<0, 0>(); }
VP_HARNESS(store_plain_16_halves) { StorePlain<4, 1>(); }
// vector stores of N elements
template <class T, int kG, int kS, bool kStride, int N> static void StoreVector() {
  TaggedFlatDemandMemory* m = AnyTagged(kG, kS);
  constexpr int es = sizeof(T), eu = es >> kS;
  DataBuffer* ad = AnyBuffer(kStride ? 8 : 8 * N, "addresses");
  DataBuffer* mk = AnyBuffer(N, "mask");
  DataBuffer* db = AnyBuffer(N * es, "data");
  uint64_t* a = static_cast<uint64_t*>(ad->raw_ptr_);
  uint8_t data = g_data->val, tag = g_tags->val;
  for (int k = 0; k < N; k++) {
    if (!kStride || k == 0) vp_assume(a[k] < (1ull << 61));
    uint64_t at = kStride ? a[0] + k * eu : a[k];
    if (!static_cast<bool*>(mk->raw_ptr_)[k]) continue;
    if (g_data->Covers(at, es)) data = Raw(db)[k * es + ((g_data->q - at) << kS) + g_data->j];
    if (g_tags->q >= ((at << kS) >> kG) && g_tags->q <= (((at << kS) + es - 1) >> kG)) tag = 0;
  }
  vp_cover("pre");
  m->Store(ad, mk, es, db);
  vp_assert(g_data->val == data, "a vector store stores its unmasked elements");
  vp_assert(g_tags->val == tag, "and clears the tags of exactly the granules they touch");
  vp_cover("post");
}
VP_BOUNDED(scatter_u64) { StoreVector<uint64_t, 3, 0, false, 3>(); }
VP_BOUNDED(scatter_u8) { StoreVector<uint8_t, 4, 0, false, 2>(); }
VP_BOUNDED(stride_u64) { StoreVector<uint64_t, 3, 0, true, 3>(); }
VP_BOUNDED(stride_u32) { StoreVector<uint32_t, 4, 0, true, 3>(); }
VP_BOUNDED(stride_u32_halves) { StoreVector<uint32_t, 3, 1, true, 3>(); }
// loads without tags are those of the data memory
VP_HARNESS(load_plain) {
  TaggedFlatDemandMemory* m = AnyTagged(4, 0);
  uint64_t a = vp_any<uint64_t>("a");
  int n = vp_any<int>("bytes");
  vp_assume(a < (1ull << 61) && n >= 1 && n < (1 << 28));
  DataBuffer* b = AnyBuffer(n, "data");
  uint8_t d = g_data->val, e = g_tags->val;
  vp_cover("pre");
  m->Load(a, b, nullptr, nullptr);
  if (g_data->Covers(a, n)) vp_assert(Raw(b)[g_data->q - a] == d, "a load loads the data");
  vp_assert(g_data->val == d && g_tags->val == e, "a load changes neither data nor tags");
  vp_cover("post");
}
VP_BOUNDED(load_vector) {
  TaggedFlatDemandMemory* m = AnyTagged(4, 0);
  DataBuffer* ad = AnyBuffer(16, "addresses");
  DataBuffer* mk = AnyBuffer(2, "mask");
  DataBuffer* db = AnyBuffer(8, "data");
  uint64_t* a = static_cast<uint64_t*>(ad->raw_ptr_);
  int i = vp_any<int>("i");
  vp_assume(i >= 0 && i < 2 && a[0] < (1ull << 61) && a[1] < (1ull << 61));
  uint8_t was = Raw(db)[i * 4], d = g_data->val, e = g_tags->val;
  vp_assume(g_data->q == a[i]);
  vp_cover("pre");
  m->Load(ad, mk, 4, db, nullptr, nullptr);
  vp_assert(Raw(db)[i * 4] == (static_cast<bool*>(mk->raw_ptr_)[i] ? d : was), "an element is loaded from its address unless it is masked");
  vp_assert(g_data->val == d && g_tags->val == e, "a load changes neither data nor tags");
  vp_cover("post");
}
// --- completion of a tagged load
template <int kLatency, bool kData> static void Complete() {
  FunctionDelayLine fl(4);
  ArchState* st = State(nullptr, nullptr, &fl);
  TaggedFlatDemandMemory* m = AnyTagged(4, 0);
  Instruction* inst = MakeInst(st);
  DataBuffer* b = AnyBuffer(16);
  DataBuffer* tg = AnyBuffer(1);
  b->set_latency(kData ? kLatency : 0);
  tg->set_latency(kData ? 0 : kLatency);
  Context* ctx = vp_any<bool>("context") ? new Context : nullptr;
  if (ctx) { ctx->inc_count_ = 1; ctx->dec_count_ = 0; }
  uint64_t ri = inst->ref_count();
  vp_cover("pre");
  m->Load(32, kData ? b : nullptr, tg, inst, ctx);
  if (kLatency > 0) {
    vp_assert(inst->ref_count() > 1, "the instruction is kept until then");
    if (ctx) vp_assert(ctx->ref_count() == 2, "the context is kept until then");
    inst->DecRef();
    if (ctx) ctx->DecRef();
    for (int i = 0; i < kLatency; i++) {
      vp_assert(g_executed == 0, "not executed before the latency");
      if (i == kLatency - 1) { inst->IncRef(); if (ctx) ctx->IncRef(); }
      fl.Advance();
    }
  }
  vp_assert(g_executed == 1 && g_inst == inst && g_context == ctx, "the instruction is executed once, with the context");
  vp_assert(inst->ref_count() == ri, "the instruction's references are as before");
  if (ctx) vp_assert(ctx->ref_count() == 1 && !ctx->disposed, "the context's references are as before");
  for (int i = 0; i < 5; i++) fl.Advance();
  vp_assert(g_executed == 1, "and never again");
  vp_cover("post");
}
VP_HARNESS(complete_now) { Complete<0, true>(); }
VP_HARNESS(complete_later) { Complete<3, true>(); }
VP_HARNESS(complete_tags_now) { Complete<0, false>(); }
VP_HARNESS(complete_tags_later) { Complete<2, false>(); }
// a refused tagged load does not execute the instruction
VP_HARNESS(refused) {
  TaggedFlatDemandMemory* m = AnyTagged(4, 0);
  Instruction* inst = MakeInst(State(nullptr, nullptr, nullptr));
  uint64_t a = vp_any<uint64_t>("a");
  int n = vp_any<int>("bytes"), t = vp_any<int>("tags");
  vp_assume(n >= 1 && n < (1 << 28) && t >= 1 && t < (1 << 28) && ((a & 15) != 0 || n != t * 16));
  vp_cover("pre");
  m->Load(a, AnyBuffer(n), AnyBuffer(t), inst, nullptr);
  vp_assert(g_executed == 0, "the instruction of a refused load is not executed");
  vp_cover("post");
}
// a new memory: real data and tag memories, any range; every address within has data and a tag
namespace std { template <> struct vp_lazy_entry<uint64_t, uint8_t*> { static bool present(const void*, const uint64_t&) { return false; } static void init(const void*, const uint64_t&, uint8_t**) {} }; }
template <int kG, int kS> static void Create() {
  uint64_t n = vp_any<uint64_t>("units"), base = vp_any<uint64_t>("base"), k = vp_any<uint64_t>("k");
  uint8_t fill = vp_any<uint8_t>("fill");
  vp_assume(n >= 1 && n < (1ull << 60) && k < n && base < (1ull << 60));
  TaggedFlatDemandMemory* m = kS ? new TaggedFlatDemandMemory(n, base, 1u << kS, fill, 1u << kG) : vp_any<bool>("size given") ? new TaggedFlatDemandMemory(n, base, 1u << kG) : vp_any<bool>("base given") ? new TaggedFlatDemandMemory(base, 1u << kG) : new TaggedFlatDemandMemory(1u << kG);
  if (!kS) fill = 0;
  uint64_t g = ((base + k) >> (kG - kS)) << (kG - kS);
  vp_cover("pre");
  DataBuffer* b = AnyBuffer(1 << kS, "data");
  m->Load(base + k, b, nullptr, nullptr);
  vp_assert(Raw(b)[0] == fill, "a new memory reads as the fill value");
  DataBuffer* tg = AnyBuffer(1, "tags");
  m->Load(g, nullptr, tg, nullptr, nullptr);
  vp_assert(Raw(tg)[0] == 0, "and has no tag set");
  DataBuffer* c = AnyBuffer(1 << kS, "stored");
  m->Store(base + k, c);
  m->Load(base + k, b, nullptr, nullptr);
  vp_assert(Raw(b)[0] == Raw(c)[0], "any address within can be stored to");
  int64_t live = __vp_heap_count();
  delete m;
  vp_assert(__vp_heap_count() < live, "it is released");
  vp_cover("post");
}
VP_HARNESS(create_16) { Create<4, 0>(); }
VP_HARNESS(create_16_halves) { Create<4, 1>(); }
