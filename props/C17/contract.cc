// C17: atomic operations read, modify and write memory as one step, and a store-conditional succeeds exactly when its
// granule was linked and not written since.
// The set of links is watched at one arbitrary granule g, memory at one arbitrary 8-byte window.
#include "vp.h"
#include <cstring>
#include <string>
#include <vector>
#include <iterator>
static uint64_t g_granule;   // the watched granule
static bool g_linked;        // is it linked?
namespace std {
// contract of a set of granules at the watched one; membership of the others is arbitrary
template <> class vp_set<uint64_t> {
 public:
  using value_type = uint64_t;
  struct iterator {
    bool end;
    uint64_t k;
    uint64_t operator*() const { return k; }
    bool operator==(const iterator& o) const { return end == o.end && (end || k == o.k); }
    bool operator!=(const iterator& o) const { return !(*this == o); }
  };
  using const_iterator = iterator;
  static bool In(uint64_t k) { return k == g_granule ? g_linked : vp_any<bool>("linked"); }
  iterator find(uint64_t k) const { return iterator{!In(k), k}; }
  bool contains(uint64_t k) const { return In(k); }
  size_t count(uint64_t k) const { return In(k); }
  iterator end() const { return iterator{true, 0}; }
  bool empty() const { bool e = vp_any<bool>("no links"); if (g_linked) vp_assume(!e); return e; }
  std::pair<iterator, bool> insert(uint64_t k) { bool was = In(k); if (k == g_granule) g_linked = true; return {iterator{false, k}, !was}; }
  std::pair<iterator, bool> emplace(uint64_t k) { return insert(k); }
  size_t erase(uint64_t k) { if (k == g_granule) { bool was = g_linked; g_linked = false; return was; } return 0; }
  iterator erase(iterator i) { erase(i.k); return end(); }
  void clear() { g_linked = false; }
};
}  // namespace std
#include "mpact/sim/generic/data_buffer.cc"
#include "mpact/sim/generic/instruction.cc"
#ifdef TAGGED
#include "mpact/sim/util/memory/atomic_tagged_memory.cc"
#else
#include "mpact/sim/util/memory/atomic_memory.cc"
#endif
#define VP_FACTORY_CONTRACT
#include "vpsim.h"
using namespace mpact::sim::util;
using Op = AtomicMemoryOpInterface::Operation;
#ifdef TAGGED
typedef TaggedMemoryInterface Iface;
typedef AtomicTaggedMemory Atomic;
#else
typedef MemoryInterface Iface;
typedef AtomicMemory Atomic;
#endif
// the contract of a memory (C15) at an 8-byte window
struct Window : public Iface {
  uint64_t q = vp_any<uint64_t>("window");
  uint8_t* val = vp_region<uint8_t>(8, "window content");
  int loads = 0, stores = 0, vloads = 0, vstores = 0, tloads = 0, tstores = 0;
  Instruction* inst = nullptr;
  ReferenceCount* context = nullptr;
  DataBuffer *db = nullptr, *tags = nullptr, *ad = nullptr, *mk = nullptr;
  uint64_t address = 0;
  int el = 0;
  void Load(uint64_t a, DataBuffer* b, Instruction* i, ReferenceCount* c) override {
    loads++;
    address = a;
    db = b;
    int n = b->size<uint8_t>();
    if (n <= 8)
      for (int k = 0; k < n; k++) Raw(b)[k] = a + k - q < 8 ? val[a + k - q] : vp_any<uint8_t>("loaded");
    inst = i;
    context = c;
    if (i && b->latency() == 0) i->Execute(c);
  }
  void Store(uint64_t a, DataBuffer* b) override {
    stores++;
    address = a;
    db = b;
    int n = b->size<uint8_t>();
    if (n <= 8)
      for (int k = 0; k < n; k++)
        if (a + k - q < 8) val[a + k - q] = Raw(b)[k];
  }
  void Load(DataBuffer* a, DataBuffer* m, int e, DataBuffer* b, Instruction* i, ReferenceCount* c) override { vloads++; ad = a; mk = m; el = e; db = b; inst = i; context = c; }
  void Store(DataBuffer* a, DataBuffer* m, int e, DataBuffer* b) override { vstores++; ad = a; mk = m; el = e; db = b; }
#ifdef TAGGED
  void Load(uint64_t a, DataBuffer* b, DataBuffer* t, Instruction* i, ReferenceCount* c) override { tloads++; address = a; db = b; tags = t; inst = i; context = c; }
  void Store(uint64_t a, DataBuffer* b, DataBuffer* t) override { tstores++; address = a; db = b; tags = t; }
#endif
};
static Window* g_mem;
static Atomic* AnyAtomic() {
  g_mem = new Window;
  g_granule = vp_any<uint64_t>("granule");
  g_linked = vp_any<bool>("granule linked");
  vp_assume(g_granule < (1ull << 61) && g_mem->q < (1ull << 62));
  return new Atomic(g_mem);
}
template <class T> static uint64_t Value(const uint8_t* p) { T x; std::memcpy(&x, p, sizeof(T)); return x; }
// --- read-modify-write operations; reference semantics written out per operation
template <class T> static T Expected(Op op, T mem, T arg) {
  typedef typename std::make_signed<T>::type S;
  switch (op) {
    case Op::kAtomicSwap: return arg;
    case Op::kAtomicAdd: return (T)((uint64_t)mem + (uint64_t)arg);
    case Op::kAtomicSub: return (T)((uint64_t)mem - (uint64_t)arg);
    case Op::kAtomicAnd: return mem & arg;
    case Op::kAtomicOr: return mem | arg;
    case Op::kAtomicXor: return mem ^ arg;
    case Op::kAtomicMax: return (S)mem < (S)arg ? arg : mem;
    case Op::kAtomicMaxu: return mem < arg ? arg : mem;
    case Op::kAtomicMin: return (S)mem < (S)arg ? mem : arg;
    default: return mem < arg ? mem : arg;
  }
}
template <class T> static void ReadModifyWrite() {
  Atomic* m = AnyAtomic();
  int o = vp_any<int>("operation");
  vp_assume(o >= (int)Op::kAtomicSwap && o <= (int)Op::kAtomicMinu);
  Op op = (Op)o;
  uint64_t a = vp_any<uint64_t>("a");
  constexpr int n = sizeof(T);
  bool hit = vp_any<bool>("window at the operand");
  vp_assume(a < (1ull << 62) && (hit ? g_mem->q == a : (g_mem->q >= a + n || g_mem->q + 8 <= a)));
  DataBuffer* b = AnyBuffer(n, "operand");
  b->set_latency(vp_any<int>("latency"));
  Instruction* inst = vp_any<bool>("instruction") ? MakeInst(State(nullptr, nullptr, nullptr)) : nullptr;
  g_executed = 0;
  Context* ctx = new Context;
  uint64_t was = Value<uint64_t>(g_mem->val);
  T mem = (T)was, arg = (T)Value<T>(Raw(b));
  bool linked = g_linked;
  vp_cover("pre");
  bool ok = m->PerformMemoryOp(a, op, b, inst, ctx).ok();
  vp_assert(ok, "the operation is accepted");
  uint64_t now = Value<uint64_t>(g_mem->val);
  if (hit) {
    vp_assert((T)now == Expected<T>(op, mem, arg), "memory holds the result of the operation on its old value and the operand");
    vp_assert(n == 8 || (now >> (8 * n - 1) >> 1) == (was >> (8 * n - 1) >> 1), "the bytes behind the operand are as before");
    vp_assert((T)Value<T>(Raw(b)) == mem, "the old value is returned");
  } else {
    vp_assert(now == was, "memory elsewhere is as before");
  }
  bool touched = g_granule >= (a >> 3) && g_granule <= ((a + n - 1) >> 3);
  vp_assert(g_linked == (linked && !touched), "the operation ends the links of the granules it writes and no other");
  if (inst) vp_assert(g_executed == 1 && g_inst == inst && g_context == ctx && inst->ref_count() == 1, "the instruction is executed once, with the context");
  vp_assert(b->ref_count() == 1, "the operation takes no reference");
  vp_cover("post");
}
VP_HARNESS(amo_8) { ReadModifyWrite<uint8_t>(); }
VP_HARNESS(amo_16) { ReadModifyWrite<uint16_t>(); }
VP_HARNESS(amo_32) { ReadModifyWrite<uint32_t>(); }
VP_HARNESS(amo_64) { ReadModifyWrite<uint64_t>(); }
// --- load-linked and store-conditional, naturally aligned
template <class T> static void LoadLinked() {
  Atomic* m = AnyAtomic();
  uint64_t a = vp_any<uint64_t>("a");
  constexpr int n = sizeof(T);
  vp_assume(a < (1ull << 62) && a % n == 0 && g_mem->q == a);
  DataBuffer* b = AnyBuffer(n, "destination");
  b->set_latency(vp_any<int>("latency"));
  Instruction* inst = vp_any<bool>("instruction") ? MakeInst(State(nullptr, nullptr, nullptr)) : nullptr;
  Context* ctx = new Context;
  uint64_t was = Value<uint64_t>(g_mem->val);
  bool linked = g_linked;
  vp_cover("pre");
  vp_assert(m->PerformMemoryOp(a, Op::kLoadLinked, b, inst, ctx).ok(), "a load-linked is accepted");
  vp_assert((T)Value<T>(Raw(b)) == (T)was, "a load-linked loads the value");
  vp_assert(Value<uint64_t>(g_mem->val) == was, "and leaves memory as it was");
  vp_assert(g_linked == (linked || g_granule == a >> 3), "and links its granule and no other");
  if (inst) vp_assert(g_executed == 1 && g_inst == inst && g_context == ctx && inst->ref_count() == 1, "the instruction is executed once, with the context");
  vp_cover("post");
}
VP_HARNESS(load_linked_8) { LoadLinked<uint8_t>(); }
VP_HARNESS(load_linked_32) { LoadLinked<uint32_t>(); }
VP_HARNESS(load_linked_64) { LoadLinked<uint64_t>(); }
template <class T> static void StoreConditional() {
  Atomic* m = AnyAtomic();
  uint64_t a = vp_any<uint64_t>("a");
  constexpr int n = sizeof(T);
  bool hit = vp_any<bool>("window at the operand"), mine = vp_any<bool>("granule of the operand");
  vp_assume(a < (1ull << 62) && a % n == 0 && (hit ? g_mem->q == a : (g_mem->q >= a + n || g_mem->q + 8 <= a)) && (mine ? g_granule == a >> 3 : g_granule != a >> 3));
  DataBuffer* b = AnyBuffer(n, "operand");
  Instruction* inst = vp_any<bool>("instruction") ? MakeInst(State(nullptr, nullptr, nullptr)) : nullptr;
  Context* ctx = new Context;
  uint64_t was = Value<uint64_t>(g_mem->val);
  T arg = (T)Value<T>(Raw(b));
  bool linked = g_linked;
  vp_cover("pre");
  vp_assert(m->PerformMemoryOp(a, Op::kStoreConditional, b, inst, ctx).ok(), "a store-conditional is accepted");
  uint64_t now = Value<uint64_t>(g_mem->val);
  T res = (T)Value<T>(Raw(b));
  vp_assert(res == 0 || res == 1, "a store-conditional returns 0 or 1");
  if (mine) vp_assert((res == 0) == linked, "it succeeds exactly when its granule is linked");
  if (mine) vp_assert(!g_linked, "a link is used once");
  else vp_assert(g_linked == linked, "no other link changes");
  if (hit && res == 0) vp_assert((T)now == arg && (n == 8 || (now >> (8 * n - 1) >> 1) == (was >> (8 * n - 1) >> 1)), "a successful one stores the operand");
  else vp_assert(now == was, "a failing one, or one elsewhere, leaves memory as it was");
  if (inst) vp_assert(g_executed == 1 && g_inst == inst && g_context == ctx && inst->ref_count() == 1, "the instruction is executed once, with the context");
  vp_cover("post");
}
VP_HARNESS(store_conditional_8) { StoreConditional<uint8_t>(); }
VP_HARNESS(store_conditional_32) { StoreConditional<uint32_t>(); }
VP_HARNESS(store_conditional_64) { StoreConditional<uint64_t>(); }
// --- an element size that is not 1, 2, 4 or 8 is refused without effect
VP_HARNESS(illegal_size) {
  Atomic* m = AnyAtomic();
  int n = vp_any<int>("size"), o = vp_any<int>("operation");
  vp_assume(n >= 0 && n < (1 << 28) && n != 1 && n != 2 && n != 4 && n != 8 && o >= 0 && o <= (int)Op::kAtomicMinu);
  DataBuffer* b = AnyBuffer(n, "operand");
  bool linked = g_linked;
  Instruction* inst = MakeInst(State(nullptr, nullptr, nullptr));
  vp_cover("pre");
  vp_assert(!m->PerformMemoryOp(vp_any<uint64_t>("a"), (Op)o, b, inst, nullptr).ok(), "refused");
  vp_assert(g_mem->loads == 0 && g_mem->stores == 0 && g_linked == linked && g_executed == 0, "without effect");
  vp_cover("post");
}
// --- plain stores of any size end the links of all granules they touch
struct Env { uint64_t first, g; };
static void Step(uint64_t k, const uint64_t* cur, uint64_t* next, void* e) {
  Env* x = static_cast<Env*>(e);
  next[0] = x->first + k == x->g ? 0 : cur[0];
}
static uint64_t g_linked0;
static bool Inv(uint64_t k, const uint64_t* cur, void* e) {
  Env* x = static_cast<Env*>(e);
  return cur[0] == (x->g >= x->first && x->g - x->first < k ? 0 : g_linked0);
}
static void Links(uint64_t first) {
  static Env e;
  e.first = first;
  e.g = g_granule;
  g_linked0 = g_linked;
  int id = __vp_mseq("link", 1, &g_linked0, Step, &e);
  __vp_mseq_inv(id, Inv, "the link after k granules", 0);
}
VP_HARNESS(store) {
  Atomic* m = AnyAtomic();
  uint64_t a = vp_any<uint64_t>("a");
  int n = vp_any<int>("size");
  vp_assume(a < (1ull << 62) && n >= 1 && n < (1 << 28));
  DataBuffer* b = AnyBuffer(n, "data");
  bool linked = g_linked;
  Links(a >> 3);
  vp_cover("pre");
  m->Store(a, b);
  bool touched = g_granule >= (a >> 3) && g_granule <= ((a + n - 1) >> 3);
  vp_assert(g_linked == (linked && !touched), "a store ends the links of the granules it writes and no other");
  vp_assert(g_mem->stores == 1 && g_mem->address == a && g_mem->db == b && g_mem->loads == 0, "and is passed on to memory once");
  vp_assert(b->ref_count() == 1, "it takes no reference");
  vp_cover("post");
}
// --- vector stores of N elements
template <class T, bool kStride, int N> static void VectorStore() {
  Atomic* m = AnyAtomic();
  constexpr int es = sizeof(T);
  DataBuffer* ad = AnyBuffer(kStride ? 8 : 8 * N, "addresses");
  DataBuffer* mk = AnyBuffer(N, "mask");
  DataBuffer* db = AnyBuffer(N * es, "data");
  uint64_t* a = static_cast<uint64_t*>(ad->raw_ptr_);
  bool linked = g_linked;
  for (int k = 0; k < N; k++) {
    if (!kStride || k == 0) vp_assume(a[k] < (1ull << 61));
    uint64_t at = kStride ? a[0] + k * es : a[k];
    if (static_cast<bool*>(mk->raw_ptr_)[k] && g_granule >= (at >> 3) && g_granule <= ((at + es - 1) >> 3)) linked = false;
  }
  vp_cover("pre");
  m->Store(ad, mk, es, db);
  vp_assert(g_linked == linked, "a vector store ends the links of the granules its unmasked elements write and no other");
  vp_assert(g_mem->vstores == 1 && g_mem->ad == ad && g_mem->mk == mk && g_mem->el == es && g_mem->db == db, "and is passed on to memory once");
  vp_cover("post");
}
VP_BOUNDED(scatter_u64) { VectorStore<uint64_t, false, 2>(); }
VP_BOUNDED(scatter_u16) { VectorStore<uint16_t, false, 2>(); }
VP_BOUNDED(stride_u32) { VectorStore<uint32_t, true, 3>(); }
VP_BOUNDED(stride_u64) { VectorStore<uint64_t, true, 3>(); }
// --- loads are passed on and change nothing
VP_HARNESS(loads) {
  Atomic* m = AnyAtomic();
  DataBuffer* b = AnyBuffer(4);
  b->set_latency(vp_any<int>("latency"));
  int latency = b->latency();
  DataBuffer* ad = AnyBuffer(8);
  DataBuffer* mk = AnyBuffer(1);
  Instruction* inst = MakeInst(State(nullptr, nullptr, nullptr));
  Context* ctx = new Context;
  uint64_t a = vp_any<uint64_t>("a");
  bool linked = g_linked;
  vp_cover("pre");
  m->Load(a, b, inst, ctx);
  vp_assert(g_mem->loads == 1 && g_mem->address == a && g_mem->db == b && g_mem->inst == inst && g_mem->context == ctx && b->latency() == latency, "a load is passed on");
  g_mem->inst = nullptr;
  g_mem->context = nullptr;
  m->Load(ad, mk, 4, b, inst, ctx);
  vp_assert(g_mem->vloads == 1 && g_mem->ad == ad && g_mem->mk == mk && g_mem->el == 4 && g_mem->db == b && g_mem->inst == inst && g_mem->context == ctx, "a vector load is passed on");
#ifdef TAGGED
  DataBuffer* tg = AnyBuffer(1);
  g_mem->inst = nullptr;
  m->Load(a, b, tg, inst, ctx);
  vp_assert(g_mem->tloads == 1 && g_mem->address == a && g_mem->db == b && g_mem->tags == tg && g_mem->inst == inst && g_mem->context == ctx, "a tagged load is passed on");
#endif
  vp_assert(g_linked == linked && g_mem->stores == 0 && g_mem->vstores == 0 && g_mem->tstores == 0, "loads change nothing");
  vp_cover("post");
}
#ifdef TAGGED
VP_HARNESS(store_tagged) {
  Atomic* m = AnyAtomic();
  uint64_t a = vp_any<uint64_t>("a");
  int n = vp_any<int>("size");
  vp_assume(a < (1ull << 62) && n >= 1 && n < (1 << 28));
  DataBuffer* b = AnyBuffer(n, "data");
  DataBuffer* tg = AnyBuffer(2, "tags");
  bool linked = g_linked;
  Links(a >> 3);
  vp_cover("pre");
  m->Store(a, b, tg);
  bool touched = g_granule >= (a >> 3) && g_granule <= ((a + n - 1) >> 3);
  vp_assert(g_linked == (linked && !touched), "a tagged store ends the links of the granules it writes and no other");
  vp_assert(g_mem->tstores == 1 && g_mem->stores == 0 && g_mem->address == a && g_mem->db == b && g_mem->tags == tg, "and is passed on to memory once, with its tags");
  vp_cover("post");
}
#endif
// --- nothing is left behind
VP_HARNESS(destroy) {
  g_granule = 0;
  g_linked = false;
  g_mem = new Window;
  g_buffers = 0;
  Atomic* m = new Atomic(g_mem);
  vp_cover("pre");
  delete m;
  vp_assert(g_buffers == 0, "the buffers of an atomic memory are released with it");
  vp_cover("post");
}
