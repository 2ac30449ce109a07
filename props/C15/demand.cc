// C15 (FlatDemandMemory): a demand-allocated memory returns for every byte what was last stored there, or the fill value.
#include "vp.h"
#include "mpact/sim/generic/data_buffer.cc"
#include "mpact/sim/generic/instruction.cc"
#include "mpact/sim/util/memory/flat_demand_memory.cc"
#include "vpsim.h"
using namespace mpact::sim::util;
// the memory has arbitrary contents: a block not looked at yet is there, with any contents, or not
static int g_block_bytes;
namespace std {
template <>
struct vp_lazy_entry<uint64_t, uint8_t*> {
  static bool present(const void*, const uint64_t&) { return vp_any<bool>("block present"); }
  static void init(const void*, const uint64_t&, uint8_t** v) { *v = vp_region<uint8_t>(g_block_bytes, "block"); }
};
}  // namespace std
static FlatDemandMemory* AnyMemory(int shift, uint8_t fill) {
  FlatDemandMemory* m = new FlatDemandMemory(~0ull, 0, 1u << shift, fill);
  g_block_bytes = FlatDemandMemory::kAllocationSize << shift;
  m->block_map_.lazy = true;
  return m;
}
template <int kShift> static void Create() {
  uint64_t n = vp_any<uint64_t>("units"), base = vp_any<uint64_t>("base"), k = vp_any<uint64_t>("k");
  uint8_t fill = vp_any<uint8_t>("fill");
  vp_assume(n >= 1 && n < (1ull << 60) && k < n && base < (1ull << 60));
  FlatDemandMemory* m = kShift == 0 && vp_any<bool>("short") ? new FlatDemandMemory(n, base) : new FlatDemandMemory(n, base, 1u << kShift, fill);
  if (m->fill_value_ != fill) { vp_assert(m->fill_value_ == 0, "the fill value is 0 if none is given"); fill = 0; }
  DataBuffer* b = AnyBuffer(1 << kShift);
  vp_cover("pre");
  m->Load(base + k, b, nullptr, nullptr);
  int j = vp_any<int>("j");
  vp_assume(j >= 0 && j < (1 << kShift));
  vp_assert(Raw(b)[j] == fill, "a new memory reads as the fill value everywhere");
  DataBuffer* c = AnyBuffer(1 << kShift);
  m->Store(base + k, c);
  m->Load(base + k, b, nullptr, nullptr);
  vp_assert(Raw(b)[j] == Raw(c)[j], "and as what was stored afterwards");
  // a vector of one element at any address within
  DataBuffer* ad = AnyBuffer(8);
  DataBuffer* mk = AnyBuffer(1);
  ad->Set<uint64_t>(0, base + k);
  mk->Set<uint8_t>(0, 1);
  DataBuffer* d = AnyBuffer(1 << kShift);
  m->Store(ad, mk, 1 << kShift, d);
  m->Load(ad, mk, 1 << kShift, b, nullptr, nullptr);
  vp_assert(Raw(b)[j] == Raw(d)[j], "and as the element of a vector stored there");
  m->Clear();
  m->Load(base + k, b, nullptr, nullptr);
  vp_assert(Raw(b)[j] == fill, "and as the fill value again when cleared");
  int64_t live = __vp_heap_count();
  delete m;
  vp_assert(__vp_heap_count() <= live - 2, "its blocks are released with it");
  vp_cover("post");
}
VP_HARNESS(create_1) { Create<0>(); }
VP_HARNESS(create_8) { Create<3>(); }
// loads and stores of up to one block (which may straddle two); q is any address, read before and after
template <int kShift> static void Store(int max) {
  uint8_t fill = vp_any<uint8_t>("fill");
  FlatDemandMemory* m = AnyMemory(kShift, fill);
  uint64_t a = vp_any<uint64_t>("a"), q = vp_any<uint64_t>("q");
  int units = vp_any<int>("access"), j = vp_any<int>("j");
  vp_assume(units >= 1 && units <= max && a < (1ull << 62) && q < (1ull << 62) && j >= 0 && j < (1 << kShift));
  DataBuffer* b = AnyBuffer(units << kShift);
  DataBuffer* one = AnyBuffer(1 << kShift);
  m->Load(q, one, nullptr, nullptr);
  uint8_t before = Raw(one)[j];
  vp_cover("pre");
  m->Store(a, b);
  m->Load(q, one, nullptr, nullptr);
  bool in = q >= a && q - a < (uint64_t)units;
  uint64_t pos = ((q - a) << kShift) + j;
  if (in) vp_assert(Raw(one)[j] == Raw(b)[pos], "an address stored to reads as what was stored");
  else vp_assert(Raw(one)[j] == before, "every other address reads as before");
  vp_assert(b->ref_count() == 1, "a store takes no reference");
  vp_cover("post");
}
VP_HARNESS(store_unit_1) { Store<0>(1); }
VP_HARNESS(store_unit_4) { Store<2>(1); }
VP_BOUNDED(store_1) { Store<0>(FlatDemandMemory::kAllocationSize); }
VP_BOUNDED(store_2) { Store<1>(FlatDemandMemory::kAllocationSize); }
template <int kShift> static void Load(int max) {
  uint8_t fill = vp_any<uint8_t>("fill");
  FlatDemandMemory* m = AnyMemory(kShift, fill);
  uint64_t a = vp_any<uint64_t>("a");
  int units = vp_any<int>("access"), i = vp_any<int>("i"), j = vp_any<int>("j");
  vp_assume(units >= 1 && units <= max && a < (1ull << 62) && i >= 0 && i < units && j >= 0 && j < (1 << kShift));
  DataBuffer* b = AnyBuffer(units << kShift);
  DataBuffer* one = AnyBuffer(1 << kShift);
  vp_cover("pre");
  m->Load(a, b, nullptr, nullptr);
  m->Load(a + i, one, nullptr, nullptr);
  vp_assert(Raw(b)[((uint64_t)i << kShift) + j] == Raw(one)[j], "a long load is made of the loads of its units");
  vp_cover("post");
}
VP_BOUNDED(load_1) { Load<0>(FlatDemandMemory::kAllocationSize); }
VP_BOUNDED(load_4) { Load<2>(FlatDemandMemory::kAllocationSize); }
// the constructors with defaults serve every address from the base on
VP_HARNESS(create_default) {
  uint64_t base = vp_any<uint64_t>("base"), k = vp_any<uint64_t>("k");
  vp_assume(base < (1ull << 62) && k < (1ull << 62));
  FlatDemandMemory* m = vp_any<bool>("base given") ? new FlatDemandMemory(base) : new FlatDemandMemory();
  DataBuffer* b = AnyBuffer(1);
  DataBuffer* c = AnyBuffer(1);
  vp_cover("pre");
  m->Store(base + k, c);
  m->Load(base + k, b, nullptr, nullptr);
  vp_assert(Raw(b)[0] == Raw(c)[0], "an address stored to reads as what was stored");
  vp_cover("post");
}
// --- completion of a load
template <int kLatency, bool kVector> static void Complete() {
  FunctionDelayLine fl(4);
  ArchState* st = State(nullptr, nullptr, &fl);
  FlatDemandMemory* m = AnyMemory(0, 0);
  Instruction* inst = MakeInst(st);
  DataBuffer* b = AnyBuffer(4);
  b->set_latency(kLatency);
  Context* ctx = vp_any<bool>("context") ? new Context : nullptr;
  if (ctx) { ctx->inc_count_ = 1; ctx->dec_count_ = 0; }
  uint64_t ri = inst->ref_count();
  vp_cover("pre");
  if (kVector) {
    DataBuffer* ad = AnyBuffer(8);
    ad->Set<uint64_t>(0, 8);
    DataBuffer* mk = AnyBuffer(1);
    mk->Set<uint8_t>(0, 1);
    m->Load(ad, mk, 4, b, inst, ctx);
  } else {
    m->Load(8, b, inst, ctx);
  }
  if (kLatency > 0) {
    vp_assert(g_executed == 0, "the instruction is executed after the latency");
    vp_assert(inst->ref_count() > 1, "the instruction is kept until then");
    if (ctx) vp_assert(ctx->ref_count() == 2, "the context is kept until then");
    inst->DecRef();
    if (ctx) ctx->DecRef();
    for (int i = 0; i < kLatency; i++) {
      vp_assert(g_executed == 0, "not before");
      if (i == kLatency - 1) { inst->IncRef(); if (ctx) ctx->IncRef(); }
      fl.Advance();
    }
  }
  vp_assert(g_executed == 1 && g_inst == inst && g_context == ctx, "the instruction is executed once, with the context");
  vp_assert(inst->ref_count() == ri, "the instruction's references are as before");
  if (ctx) vp_assert(ctx->ref_count() == 1 && !ctx->disposed, "the context's references are as before");
  for (int i = 0; i < 5; i++) fl.Advance();
  vp_assert(g_executed == 1, "and never again");
  vp_cover("post");
}
VP_HARNESS(complete_now) { Complete<0, false>(); }
VP_HARNESS(complete_later) { Complete<3, false>(); }
VP_HARNESS(complete_vector_now) { Complete<0, true>(); }
VP_HARNESS(complete_vector_later) { Complete<2, true>(); }
// --- vector accesses of N elements: byte j of unit u of element i
template <class T, int kShift, bool kStride, int N> static void VectorLoad() {
  FlatDemandMemory* m = AnyMemory(kShift, 7);
  constexpr int es = sizeof(T), eu = es >> kShift;
  DataBuffer* ad = AnyBuffer(kStride ? 8 : 8 * N, "addresses");
  DataBuffer* mk = AnyBuffer(N, "mask");
  DataBuffer* db = AnyBuffer(N * es, "data");
  DataBuffer* one = AnyBuffer(1 << kShift);
  uint64_t* a = static_cast<uint64_t*>(ad->raw_ptr_);
  int i = vp_any<int>("i"), u = vp_any<int>("u"), j = vp_any<int>("j");
  vp_assume(i >= 0 && i < N && u >= 0 && u < eu && j >= 0 && j < (1 << kShift));
  for (int k = 0; k < (kStride ? 1 : N); k++) vp_assume(a[k] < (1ull << 62));
  uint64_t at = (kStride ? a[0] + i * eu : a[i]) + u;
  int pos = i * es + (u << kShift) + j;
  uint8_t before = Raw(db)[pos];
  vp_cover("pre");
  m->Load(ad, mk, es, db, nullptr, nullptr);
  m->Load(at, one, nullptr, nullptr);
  vp_assert(Raw(db)[pos] == (static_cast<bool*>(mk->raw_ptr_)[i] ? Raw(one)[j] : before), "an element is loaded from its address unless it is masked");
  vp_cover("post");
}
VP_BOUNDED(gather_u8) { VectorLoad<uint8_t, 0, false, 2>(); }
VP_BOUNDED(gather_u32_words) { VectorLoad<uint32_t, 2, false, 2>(); }
VP_BOUNDED(stride_load_u8) { VectorLoad<uint8_t, 0, true, 3>(); }
VP_BOUNDED(stride_load_u64) { VectorLoad<uint64_t, 1, true, 2>(); }
template <class T, int kShift, bool kStride, int N> static void VectorStore() {
  FlatDemandMemory* m = AnyMemory(kShift, 7);
  constexpr int es = sizeof(T), eu = es >> kShift;
  DataBuffer* ad = AnyBuffer(kStride ? 8 : 8 * N, "addresses");
  DataBuffer* mk = AnyBuffer(N, "mask");
  DataBuffer* db = AnyBuffer(N * es, "data");
  DataBuffer* one = AnyBuffer(1 << kShift);
  uint64_t* a = static_cast<uint64_t*>(ad->raw_ptr_);
  uint64_t q = vp_any<uint64_t>("q");
  int j = vp_any<int>("j");
  vp_assume(q < (1ull << 62) && j >= 0 && j < (1 << kShift));
  m->Load(q, one, nullptr, nullptr);
  uint8_t want = Raw(one)[j];
  for (int k = 0; k < N; k++) {
    if (!kStride || k == 0) vp_assume(a[k] < (1ull << 62));
    uint64_t at = kStride ? a[0] + k * eu : a[k];
    if (static_cast<bool*>(mk->raw_ptr_)[k] && q >= at && q - at < eu) want = Raw(db)[k * es + ((q - at) << kShift) + j];
  }
  vp_cover("pre");
  m->Store(ad, mk, es, db);
  m->Load(q, one, nullptr, nullptr);
  vp_assert(Raw(one)[j] == want, "an address reads as the last unmasked element stored over it, or as before");
  vp_cover("post");
}
VP_BOUNDED(scatter_u8) { VectorStore<uint8_t, 0, false, 2>(); }
VP_BOUNDED(scatter_u16_halves) { VectorStore<uint16_t, 1, false, 2>(); }
VP_BOUNDED(stride_store_u8) { VectorStore<uint8_t, 0, true, 3>(); }
VP_BOUNDED(stride_store_u64) { VectorStore<uint64_t, 1, true, 2>(); }
