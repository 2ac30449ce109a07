// C24: the cache passes every access on once, unchanged, and a load through it completes as it would without.
#include "vp.h"
#include <string>
#include <vector>
#define ABSL_STRINGS_STR_SPLIT_H_
#include "absl/container/btree_set.h"
static uint64_t g_start[8], g_end[8]; static int g_asked;
namespace absl {
// every access is asked about here, and not cached
template <class K, class C> struct btree_multiset {
  bool empty() const { return false; }
  void insert(const K&) {}
  bool contains(const K& k) const { if (g_asked < 8) { g_start[g_asked] = k.start; g_end[g_asked] = k.end; } g_asked++; return true; }
};
std::vector<std::string> StrSplit(const std::string&, char) { return std::vector<std::string>(); }
}
namespace std { unsigned long long stoull(const std::string&, std::string::size_type*, int = 10) { return 0; } }
#include "mpact/sim/util/memory/cache.cc"
#include "mpact/sim/generic/data_buffer.cc"
#include "mpact/sim/generic/instruction.cc"
#include "vpsim.h"
using namespace mpact::sim::util;
namespace mpact::sim::generic {
Component::Component(std::string name, Component*) {}
absl::Status Component::AddCounter(CounterBaseInterface* c) { return absl::OkStatus(); }
absl::Status Component::Import(const ComponentData&) { return absl::OkStatus(); }
void Component::ImportDone() const {}
absl::Status Component::ImportSelf(const ComponentData&) { return absl::OkStatus(); }
absl::Status Component::ImportChildren(const ComponentData&) { return absl::OkStatus(); }
}
// the memory behind the cache: records what it is given; the instruction of a load is executed at once or later
struct Memory : public TaggedMemoryInterface {
  int n = 0, kind = 0, el = 0;
  DataBuffer *db = nullptr, *tags = nullptr, *ad = nullptr, *mk = nullptr;
  Instruction* inst = nullptr;
  ReferenceCount* context = nullptr;
  uint64_t address = 0;
  bool later = false;
  void Done() {
    if (!inst) return;
    int latency = (db ? db : tags)->latency();
    vp_assert(latency == 0 || inst->state() != nullptr, "a load that the memory delays has an instruction with a delay line");
    if (!later) { inst->Execute(context); return; }
    inst->IncRef();
    if (context) context->IncRef();
  }
  void Complete() {
    if (!inst || !later) return;
    inst->Execute(context);
    if (context) context->DecRef();
    inst->DecRef();
  }
  void Load(uint64_t a, DataBuffer* b, Instruction* i, ReferenceCount* c) override { n++; kind = 1; address = a; db = b; inst = i; context = c; Done(); }
  void Store(uint64_t a, DataBuffer* b) override { n++; kind = 2; address = a; db = b; }
  void Load(DataBuffer* a, DataBuffer* m, int e, DataBuffer* b, Instruction* i, ReferenceCount* c) override { n++; kind = 3; ad = a; mk = m; el = e; db = b; inst = i; context = c; Done(); }
  void Store(DataBuffer* a, DataBuffer* m, int e, DataBuffer* b) override { n++; kind = 4; ad = a; mk = m; el = e; db = b; }
  void Load(uint64_t a, DataBuffer* b, DataBuffer* t, Instruction* i, ReferenceCount* c) override { n++; kind = 5; address = a; db = b; tags = t; inst = i; context = c; Done(); }
  void Store(uint64_t a, DataBuffer* b, DataBuffer* t) override { n++; kind = 6; address = a; db = b; tags = t; }
};
static Cache* AnyCache(Memory* m, bool tagged) {
  MemoryInterface* plain = m; TaggedMemoryInterface* tags = m;
  Cache* c = tagged ? new Cache("cache", nullptr, tags) : new Cache("cache", nullptr, plain);
  c->block_shift_ = 63;                    // one block per access
  c->has_non_cacheable_ = true;
  g_asked = 0;
  return c;
}
static uint64_t Seen(Cache* c, bool read) { return read ? c->read_non_cacheable_counter_.GetValue() : c->write_non_cacheable_counter_.GetValue(); }
static uint64_t AnyAddress(uint64_t size) {
  uint64_t a = vp_any<uint64_t>("a");
  vp_assume((a >> 63) == ((a + size - 1) >> 63));
  return a;
}
// kind 1: plain, 3: vector, 5: tags with data, 7: tags only
template <int kKind, int kLatency> static void Load() {
  FunctionDelayLine fl(4);
  ArchState* st = State(nullptr, nullptr, &fl);
  bool no_memory = vp_any<bool>("no memory");
  Memory* m = new Memory;
  m->later = vp_any<bool>("later");
  Cache* c = AnyCache(no_memory ? nullptr : m, kKind != 1 || vp_any<bool>("tagged"));
  Instruction* inst = vp_any<bool>("instruction") ? MakeInst(st) : nullptr;
  g_executed = 0;
  uint64_t refs = inst ? inst->ref_count() : 0;
  Context* ctx = vp_any<bool>("context") ? new Context : nullptr;
  if (ctx) { ctx->inc_count_ = 1; ctx->dec_count_ = 0; }
  DataBuffer* b = kKind == 7 ? nullptr : AnyBuffer(8);
  DataBuffer* t = kKind >= 5 ? AnyBuffer(2, "tags") : nullptr;
  if (b) b->set_latency(kLatency);
  if (t) t->set_latency(kLatency);
  DataBuffer *ad = nullptr, *mk = nullptr;
  uint64_t a = AnyAddress(16), a2 = 0;
  bool m0 = true, m1 = false;
  if (kKind == 3) {
    bool gather = vp_any<bool>("gather");
    a2 = gather ? AnyAddress(4) : a + 4;
    ad = AnyBuffer(gather ? 16 : 8, "addresses");
    ad->Set<uint64_t>(0, a);
    if (gather) ad->Set<uint64_t>(1, a2);
    mk = AnyBuffer(2, "mask");
    m0 = vp_any<bool>("mask 0"); m1 = vp_any<bool>("mask 1");
    mk->Set<bool>(0, m0); mk->Set<bool>(1, m1);
  }
  int64_t heap = __vp_heap_count();
  vp_cover("pre");
  if (kKind == 1) c->Load(a, b, inst, ctx);
  if (kKind == 3) c->Load(ad, mk, 4, b, inst, ctx);
  if (kKind >= 5) c->Load(a, b, t, inst, ctx);
  // the lookups
  int n = m0 + m1;
  vp_assert(Seen(c, true) == n && g_asked == n && Seen(c, false) == 0, "the cache looks up each access once");
  uint64_t size = kKind == 3 ? 4 : kKind == 7 ? (a & ~7ULL) + 16 - a : 8;
  if (m0) vp_assert(g_start[0] == a && g_end[0] == a + size - 1, "the bytes of the access are looked up");
  if (m1) vp_assert(g_start[m0] == a2 && g_end[m0] == a2 + 3, "the bytes of each element are looked up");
  if (no_memory) {
    vp_assert(g_executed == 0 && (!b || (b->latency() == kLatency && b->ref_count() == 1)) && (!ctx || ctx->ref_count() == 1), "nothing happens without a memory");
    vp_cover("none");
    return;
  }
  vp_assert(m->n == 1 && m->kind == (kKind == 7 ? 5 : kKind) && m->db == b && m->tags == t && m->ad == ad && m->mk == mk && (kKind == 3 ? m->el == 4 : m->address == a), "the load is passed on once, unchanged");
  if (m->later && inst) {
    vp_assert(g_executed == 0, "the instruction is not executed before the data is there");
    inst->DecRef();          // whoever issued the load may let go
    if (b) b->DecRef();
    if (ctx) ctx->DecRef();
    vp_assert(inst->ref_count() >= 1 && (!ctx || ctx->ref_count() >= 1) && (!b || b->ref_count() >= 1), "everything is kept until the load completes");
    inst->IncRef();
    if (b) b->IncRef();
    if (ctx) ctx->IncRef();
  }
  m->Complete();
  if (b) vp_assert(b->latency() == kLatency, "the latency of the buffer is as before");
  if (inst) {
    if (kLatency > 0) {
      vp_assert(g_executed == 0, "the instruction is executed after the latency");
      vp_assert(inst->ref_count() > refs && (!ctx || ctx->ref_count() == 2), "instruction and context are kept until then");
      for (int i = 0; i < kLatency; i++) {
        vp_assert(g_executed == 0, "not before");
        fl.Advance();
      }
    }
    vp_assert(g_executed == 1 && g_inst == inst && g_context == ctx, "the instruction of the load is executed once, with its context");
    vp_assert(inst->ref_count() == refs, "the references of the instruction are as before");
  } else vp_assert(g_executed == 0, "no instruction, none executed");
  if (b) vp_assert(b->ref_count() == 1, "the references of the buffer are as before");
  if (t) vp_assert(t->latency() == kLatency, "the latency of the tags is as before");
  if (t) vp_assert(t->ref_count() == 1, "the references of the tags are as before");
  if (ctx) vp_assert(ctx->ref_count() == 1 && !ctx->disposed, "the references of the context are as before");
  if (kLatency == 0) vp_assert(__vp_heap_count() == heap, "nothing is left behind");
  vp_cover("post");
}
VP_HARNESS(load_0) { Load<1, 0>(); }
VP_HARNESS(load_2) { Load<1, 2>(); }
VP_HARNESS(load_tags_0) { Load<5, 0>(); }
VP_HARNESS(load_tags_1) { Load<5, 1>(); }
VP_HARNESS(load_tags_only_0) { Load<7, 0>(); }
VP_HARNESS(load_tags_only_1) { Load<7, 1>(); }
VP_BOUNDED(load_vector_0) { Load<3, 0>(); }
VP_BOUNDED(load_vector_1) { Load<3, 1>(); }
template <int kKind> static void Store() {
  bool no_memory = vp_any<bool>("no memory");
  Memory* m = new Memory;
  Cache* c = AnyCache(no_memory ? nullptr : m, kKind == 6 || vp_any<bool>("tagged"));
  int size = vp_any<int>("size");
  vp_assume(size >= 1);
  uint64_t a = AnyAddress(kKind == 4 ? 8 : size), a2 = 0;
  DataBuffer* b = AnyBuffer(kKind == 4 ? 8 : size);
  DataBuffer* t = kKind == 6 ? AnyBuffer(2, "tags") : nullptr;
  DataBuffer *ad = nullptr, *mk = nullptr;
  bool m0 = true, m1 = false;
  if (kKind == 4) {
    bool gather = vp_any<bool>("scatter");
    a2 = gather ? AnyAddress(4) : a + 4;
    ad = AnyBuffer(gather ? 16 : 8, "addresses");
    ad->Set<uint64_t>(0, a);
    if (gather) ad->Set<uint64_t>(1, a2);
    mk = AnyBuffer(2, "mask");
    m0 = vp_any<bool>("mask 0"); m1 = vp_any<bool>("mask 1");
    mk->Set<bool>(0, m0); mk->Set<bool>(1, m1);
  }
  vp_cover("pre");
  if (kKind == 2) c->Store(a, b);
  if (kKind == 4) c->Store(ad, mk, 4, b);
  if (kKind == 6) c->Store(a, b, t);
  int n = m0 + m1;
  vp_assert(Seen(c, false) == n && g_asked == n && Seen(c, true) == 0, "the cache looks up each access once");
  if (m0) vp_assert(g_start[0] == a && g_end[0] == a + (kKind == 4 ? 4 : size) - 1, "the bytes of the access are looked up");
  if (m1) vp_assert(g_start[m0] == a2 && g_end[m0] == a2 + 3, "the bytes of each element are looked up");
  if (no_memory) { vp_assert(m->n == 0, "nothing happens without a memory"); return; }
  vp_assert(m->n == 1 && m->kind == kKind && m->db == b && m->tags == t && m->ad == ad && m->mk == mk && (kKind == 4 ? m->el == 4 : m->address == a), "the store is passed on once, unchanged");
  vp_assert(b->ref_count() == 1 && (!t || t->ref_count() == 1), "a store takes no reference");
  vp_cover("post");
}
VP_HARNESS(store) { Store<2>(); }
VP_BOUNDED(store_vector) { Store<4>(); }
VP_HARNESS(store_tags) { Store<6>(); }
