// C15 (FlatMemory): a memory returns for every byte what was last stored there.
#include "vp.h"
#include "mpact/sim/generic/data_buffer.cc"
#include "mpact/sim/generic/instruction.cc"
#include "mpact/sim/util/memory/flat_memory.cc"
#include "vpsim.h"
using namespace mpact::sim::util;
// a memory of n units of 1 << shift bytes, with arbitrary contents
static FlatMemory* AnyMemory(uint64_t n, uint64_t base, int shift) {
  FlatMemory* m = new FlatMemory(0, base, 1u << shift, 0);
  m->size_ = n << shift;
  m->memory_buffer_ = vp_region<uint8_t>(n << shift, "memory");
  return m;
}
// an access of `units` units at an address inside the memory: `off` units before it, `tail` behind it
struct Shape { uint64_t n, base, a, off; int units; };
static Shape AnyAccess(int shift, int max_bytes) {
  Shape s;
  uint64_t tail = vp_any<uint64_t>("tail");
  s.base = vp_any<uint64_t>("base");
  s.off = vp_any<uint64_t>("off");
  s.units = vp_any<int>("access");
  vp_assume(s.off < (1ull << 39) && tail < (1ull << 38) && s.base < (1ull << 60) && s.units >= 1 && s.units <= (max_bytes >> shift));
  s.n = s.off + s.units + tail;
  s.a = s.base + s.off;
  return s;
}
template <int kShift> static void Create() {
  uint64_t n = vp_any<uint64_t>("units"), base = vp_any<uint64_t>("base"), k = vp_any<uint64_t>("k");
  uint8_t fill = vp_any<uint8_t>("fill");
  vp_assume(n >= 1 && n < (1ull << 40) && k < n && base < (1ull << 60));
  vp_cover("pre");
  FlatMemory* m = new FlatMemory(n, base, 1u << kShift, fill);
  vp_assert(m->size() == (int64_t)(n << kShift) && m->base() == base && m->shift() == kShift, "the geometry is the one asked for");
  DataBuffer* b = new DataBuffer(1 << kShift);
  b->latency_ = 0;
  m->Load(base + k, b, nullptr, nullptr);
  for (int j = 0; j < (1 << kShift); j++) vp_assert(Raw(b)[j] == fill, "a new memory reads as the fill value everywhere");
  vp_cover("post");
}
VP_HARNESS(create_1) { Create<0>(); }
VP_HARNESS(create_4) { Create<2>(); }
template <int kShift> static void Store() {
  Shape s = AnyAccess(kShift, 1 << 30);
  FlatMemory* m = AnyMemory(s.n, s.base, kShift);
  DataBuffer* b = AnyBuffer(s.units << kShift);
  uint64_t q = vp_any<uint64_t>("q");
  int j = vp_any<int>("j");
  vp_assume(q < s.n && j >= 0 && j < (1 << kShift));
  q += s.base;
  DataBuffer* one = AnyBuffer(1 << kShift);
  m->Load(q, one, nullptr, nullptr);
  uint8_t before = Raw(one)[j];
  DataBuffer* two = AnyBuffer(1 << kShift);
  vp_cover("pre");
  m->Store(s.a, b);
  m->Load(q, two, nullptr, nullptr);
  bool in = q >= s.a && q - s.a < (uint64_t)s.units;
  uint64_t pos = ((q - s.a) << kShift) + j;
  if (in) vp_assert(Raw(two)[j] == Raw(b)[pos], "an address stored to reads as what was stored");
  else vp_assert(Raw(two)[j] == before, "every other address reads as before");
  vp_assert(b->ref_count() == 1, "a store takes no reference");
  vp_cover("post");
}
VP_HARNESS(store_1) { Store<0>(); }
VP_HARNESS(store_2) { Store<1>(); }
VP_HARNESS(store_8) { Store<3>(); }
template <int kShift> static void Load() {
  Shape s = AnyAccess(kShift, 1 << 30);
  FlatMemory* m = AnyMemory(s.n, s.base, kShift);
  DataBuffer* b = AnyBuffer(s.units << kShift);
  int i = vp_any<int>("i"), j = vp_any<int>("j");
  vp_assume(i >= 0 && i < s.units && j >= 0 && j < (1 << kShift));
  DataBuffer* one = AnyBuffer(1 << kShift);
  vp_cover("pre");
  m->Load(s.a, b, nullptr, nullptr);
  m->Load(s.a + i, one, nullptr, nullptr);
  vp_assert(Raw(b)[((uint64_t)i << kShift) + j] == Raw(one)[j], "a long load is made of the loads of its units");
  vp_assert(Raw(one)[j] == m->memory_buffer_[((s.a - s.base + i) << kShift) + j], "a load reads the memory at its address");
  vp_cover("post");
}
VP_HARNESS(load_1) { Load<0>(); }
VP_HARNESS(load_4) { Load<2>(); }
// --- completion of a load
template <int kLatency, bool kVector> static void Complete() {
  FunctionDelayLine fl(4);
  ArchState* st = State(nullptr, nullptr, &fl);
  FlatMemory* m = AnyMemory(64, 0, 0);
  Instruction* inst = MakeInst(st);
  DataBuffer* b = AnyBuffer(4);
  b->set_latency(kLatency);
  Context* ctx = vp_any<bool>("context") ? new Context : nullptr;
  if (ctx) { ctx->inc_count_ = 1; ctx->dec_count_ = 0; }
  uint64_t ri = inst->ref_count();
  vp_cover("pre");
  if (kVector) {
    DataBuffer* ad = AnyBuffer(8);
    ad->Set<uint64_t>(0, 8);
    DataBuffer* mk = AnyBuffer(1);
    mk->Set<uint8_t>(0, 1);
    m->Load(ad, mk, 4, b, inst, ctx);
  } else {
    m->Load(8, b, inst, ctx);
  }
  vp_assert(Raw(b)[1] == m->memory_buffer_[9], "the data is there at once");
  if (kLatency > 0) {
    vp_assert(g_executed == 0, "the instruction is executed after the latency");
    vp_assert(inst->ref_count() > 1, "the instruction is kept until then");
    if (ctx) vp_assert(ctx->ref_count() == 2, "the context is kept until then");
    inst->DecRef();
    if (ctx) ctx->DecRef();
    for (int i = 0; i < kLatency; i++) {
      vp_assert(g_executed == 0, "not before");
      if (i == kLatency - 1) { inst->IncRef(); if (ctx) ctx->IncRef(); }
      fl.Advance();
    }
  }
  vp_assert(g_executed == 1 && g_inst == inst && g_context == ctx, "the instruction is executed once, with the context");
  vp_assert(inst->ref_count() == ri, "the instruction's references are as before");
  if (ctx) vp_assert(ctx->ref_count() == 1 && !ctx->disposed, "the context's references are as before");
  for (int i = 0; i < 5; i++) fl.Advance();
  vp_assert(g_executed == 1, "and never again");
  vp_cover("post");
}
VP_HARNESS(complete_now) { Complete<0, false>(); }
VP_HARNESS(complete_later) { Complete<1, false>(); }
VP_HARNESS(complete_much_later) { Complete<3, false>(); }
VP_HARNESS(complete_vector_now) { Complete<0, true>(); }
VP_HARNESS(complete_vector_later) { Complete<2, true>(); }
// --- gather, scatter, unit stride
// every address of a gather or scatter lies inside the memory
static uint64_t g_base, g_units, g_need;
static bool Inside(const void* p) {
  uint64_t a = *static_cast<const uint64_t*>(p);
  return a >= g_base && a - g_base <= g_units - g_need;
}
template <class T, int kShift, bool kStride> static void Gather() {
  uint64_t base = vp_any<uint64_t>("base"), off = vp_any<uint64_t>("off"), tail = vp_any<uint64_t>("tail");
  int cnt = vp_any<int>("elements"), i = vp_any<int>("i");
  int es = sizeof(T), eu = (es >> kShift) ? es >> kShift : 1;
  vp_assume(off < (1ull << 39) && tail < (1ull << 38) && base < (1ull << 60) && cnt >= 1 && cnt < (1 << 24) && i >= 0 && i < cnt);
  uint64_t n = kStride ? off + (uint64_t)cnt * eu + tail : off;
  if (!kStride) vp_assume(cnt >= 2 && n >= 64);
  FlatMemory* m = AnyMemory(n, base, kShift);
  DataBuffer* ad = AnyBuffer(kStride ? 8 : 1, "addresses");
  if (!kStride) {
    ad->size_ = cnt * 8;
    ad->raw_ptr_ = vp_region<uint64_t>(cnt, "addresses");
    g_base = base;
    g_units = n;
    g_need = eu;
    __vp_region_inv(ad->raw_ptr_, Inside);
  }
  DataBuffer* mk = AnyBuffer(cnt, "mask");
  DataBuffer* db = AnyBuffer(cnt * es, "data");
  uint64_t* a = static_cast<uint64_t*>(ad->raw_ptr_);
  bool* k = static_cast<bool*>(mk->raw_ptr_);
  T* d = static_cast<T*>(db->raw_ptr_);
  __vp_hint(i);
  if (kStride) a[0] = base + off;
  uint64_t at = kStride ? off + (uint64_t)i * eu : a[i] - base;
  T before = d[i];
  vp_cover("pre");
  m->Load(ad, mk, es, db, nullptr, nullptr);
  if (!k[i]) vp_assert(d[i] == before, "a masked element keeps its value");
  else {
    T v;
    memcpy(&v, m->memory_buffer_ + (at << kShift), sizeof(T));
    vp_assert(d[i] == v, "an element is loaded from its address");
  }
  vp_cover("post");
}
VP_HARNESS(stride_u8) { Gather<uint8_t, 0, true>(); }
VP_HARNESS(stride_u16) { Gather<uint16_t, 0, true>(); }
VP_HARNESS(stride_u32) { Gather<uint32_t, 0, true>(); }
VP_HARNESS(stride_u64) { Gather<uint64_t, 0, true>(); }
VP_HARNESS(stride_u64_units) { Gather<uint64_t, 1, true>(); }
VP_HARNESS(stride_u16_in_words) { Gather<uint16_t, 2, true>(); }
VP_HARNESS(gather_u8) { Gather<uint8_t, 0, false>(); }
VP_HARNESS(gather_u32) { Gather<uint32_t, 0, false>(); }
VP_HARNESS(gather_u64_units) { Gather<uint64_t, 1, false>(); }
// a unit stride store
template <class T, int kShift> static void StrideStore() {
  uint64_t base = vp_any<uint64_t>("base"), off = vp_any<uint64_t>("off"), tail = vp_any<uint64_t>("tail"), q = vp_any<uint64_t>("q");
  int cnt = vp_any<int>("elements"), i = vp_any<int>("i");
  constexpr int es = sizeof(T), eu = es >> kShift;
  vp_assume(off < (1ull << 39) && tail < (1ull << 38) && base < (1ull << 60) && cnt >= 1 && cnt < (1 << 24) && i >= 0 && i < cnt);
  uint64_t n = off + (uint64_t)cnt * eu + tail;
  FlatMemory* m = AnyMemory(n, base, kShift);
  DataBuffer* ad = AnyBuffer(8, "addresses");
  DataBuffer* mk = AnyBuffer(cnt, "mask");
  DataBuffer* db = AnyBuffer(cnt * es, "data");
  bool* k = static_cast<bool*>(mk->raw_ptr_);
  T* d = static_cast<T*>(db->raw_ptr_);
  __vp_hint(i);
  static_cast<uint64_t*>(ad->raw_ptr_)[0] = base + off;
  uint8_t* at = m->memory_buffer_ + ((off + (uint64_t)i * eu) << kShift);
  T before, after;
  memcpy(&before, at, es);
  vp_assume(q < n << kShift && (q < off << kShift || q >= (off + (uint64_t)cnt * eu) << kShift));
  uint8_t out = m->memory_buffer_[q];
  vp_cover("pre");
  m->Store(ad, mk, es, db);
  memcpy(&after, at, es);
  vp_assert(after == (k[i] ? d[i] : before), "an element is stored at its place unless it is masked");
  vp_assert(m->memory_buffer_[q] == out, "nothing is stored outside");
  vp_cover("post");
}
VP_HARNESS(stride_store_u8) { StrideStore<uint8_t, 0>(); }
VP_HARNESS(stride_store_u32) { StrideStore<uint32_t, 0>(); }
VP_HARNESS(stride_store_u64_units) { StrideStore<uint64_t, 1>(); }
// a scatter store: the last element covering a byte decides
template <class T, int N> static void Scatter() {
  uint64_t base = vp_any<uint64_t>("base"), n = vp_any<uint64_t>("units"), q = vp_any<uint64_t>("q");
  vp_assume(n < (1ull << 40) && n >= 64 && base < (1ull << 60) && q < n);
  FlatMemory* m = AnyMemory(n, base, 0);
  DataBuffer* ad = AnyBuffer(8 * N, "addresses");
  DataBuffer* mk = AnyBuffer(N, "mask");
  DataBuffer* db = AnyBuffer(N * sizeof(T), "data");
  uint8_t want = m->memory_buffer_[q];
  for (int i = 0; i < N; i++) {
    uint64_t o = vp_any<uint64_t>("o");
    vp_assume(o <= n - sizeof(T));
    static_cast<uint64_t*>(ad->raw_ptr_)[i] = base + o;
    if (static_cast<bool*>(mk->raw_ptr_)[i] && q >= o && q - o < sizeof(T)) want = Raw(db)[i * sizeof(T) + (q - o)];
  }
  vp_cover("pre");
  m->Store(ad, mk, sizeof(T), db);
  vp_assert(m->memory_buffer_[q] == want, "a byte has the value of the last unmasked element stored over it");
  vp_cover("post");
}
VP_BOUNDED(scatter_u8) { Scatter<uint8_t, 3>(); }
VP_BOUNDED(scatter_u32) { Scatter<uint32_t, 3>(); }
VP_BOUNDED(scatter_u64) { Scatter<uint64_t, 2>(); }
