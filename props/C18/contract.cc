// C18: a watched memory calls back for exactly the accesses that touch a watched range, and passes every access on once.
#include "vprange.h"
#include "mpact/sim/generic/data_buffer.cc"
#include "mpact/sim/generic/instruction.cc"
#ifdef TAGGED
#include "mpact/sim/util/memory/tagged_memory_watcher.cc"
#else
#include "mpact/sim/util/memory/memory_watcher.cc"
#endif
#include "vpsim.h"
using namespace mpact::sim::util;
#ifdef TAGGED
typedef TaggedMemoryInterface Iface;
typedef TaggedMemoryWatcher Watcher;
#else
typedef MemoryInterface Iface;
typedef MemoryWatcher Watcher;
#endif
typedef Watcher::AddressRange Range;
// the memory behind: records what it is given, and when
static int g_calls;          // calls of the callback of the watched range
static uint64_t g_address;
static int g_size;
static int g_at_access;      // calls at the time of the access
struct Memory : public Iface {
  int n = 0, kind = 0;
  DataBuffer *db = nullptr, *tags = nullptr, *ad = nullptr, *mk = nullptr;
  Instruction* inst = nullptr;
  ReferenceCount* context = nullptr;
  uint64_t address = 0;
  int el = 0;
  void Got(int k) { n++; kind = k; g_at_access = g_calls; }
  void Load(uint64_t a, DataBuffer* b, Instruction* i, ReferenceCount* c) override { Got(1); address = a; db = b; inst = i; context = c; }
  void Store(uint64_t a, DataBuffer* b) override { Got(2); address = a; db = b; }
  void Load(DataBuffer* a, DataBuffer* m, int e, DataBuffer* b, Instruction* i, ReferenceCount* c) override { Got(3); ad = a; mk = m; el = e; db = b; inst = i; context = c; }
  void Store(DataBuffer* a, DataBuffer* m, int e, DataBuffer* b) override { Got(4); ad = a; mk = m; el = e; db = b; }
#ifdef TAGGED
  void Load(uint64_t a, DataBuffer* b, DataBuffer* t, Instruction* i, ReferenceCount* c) override { Got(5); address = a; db = b; tags = t; inst = i; context = c; }
  void Store(uint64_t a, DataBuffer* b, DataBuffer* t) override { Got(6); address = a; db = b; tags = t; }
#endif
};
static Memory* g_mem;
static uint64_t g_lo, g_hi;   // the watched range
static void Called(uint64_t a, int s) { g_calls++; g_address = a; g_size = s; }
static void Other(uint64_t, int) {}
template <class M> static void AnyRanges(M& m, bool watched, bool lone) {
  m.o = new typename M::value_type(Range(0, 0), Watcher::Callback(Other));
  m.w = new typename M::value_type(Range(g_lo, g_hi), Watcher::Callback(Called));
  m.has = watched;
  m.lone = lone;
}
// a watcher with any load ranges and any store ranges, one of each watched by the contract
static bool g_ld, g_st;
static Watcher* AnyWatcher(bool lone = false) {
  g_mem = new Memory;
  Watcher* w = new Watcher(g_mem);
  g_lo = vp_any<uint64_t>("lo");
  g_hi = vp_any<uint64_t>("hi");
  vp_assume(g_lo <= g_hi);
  g_ld = vp_any<bool>("load range");
  g_st = vp_any<bool>("store range");
  AnyRanges(w->ld_watch_actions_, g_ld, lone);
  AnyRanges(w->st_watch_actions_, g_st, lone);
  g_calls = 0;
  g_address = 0;
  g_size = 0;
  g_at_access = -1;
  return w;
}
static bool Touches(uint64_t a, uint64_t n) { return g_lo <= a + n - 1 && g_hi >= a; }
// --- setting and clearing ranges
template <bool kLoad> static void Set() {
  g_mem = new Memory;
  Watcher* w = new Watcher(g_mem);
  g_lo = vp_any<uint64_t>("lo");
  g_hi = vp_any<uint64_t>("hi");
  vp_assume(g_lo <= g_hi);
  bool has = vp_any<bool>("range there");
  auto& m = kLoad ? w->ld_watch_actions_ : w->st_watch_actions_;
  auto& other = kLoad ? w->st_watch_actions_ : w->ld_watch_actions_;
  AnyRanges(m, has, vp_any<bool>("only range"));
  AnyRanges(other, vp_any<bool>("other kind"), true);
  bool other_has = other.has, lone = m.lone;
  uint64_t a = vp_any<uint64_t>("a"), b = vp_any<uint64_t>("b");
  vp_cover("pre");
  bool ok = kLoad ? w->SetLoadWatchCallback(Range(a, b), Other).ok() : w->SetStoreWatchCallback(Range(a, b), Other).ok();
  if (a > b) vp_assert(!ok, "a range that ends before it starts is refused");
  if (has && a <= b && a <= g_hi && b >= g_lo) vp_assert(!ok, "a range overlapping one that is set is refused");
  if (lone && a <= b && !(has && a <= g_hi && b >= g_lo)) vp_assert(ok, "any other range is accepted");
  vp_assert(m.inserted == (ok ? 1 : 0), "it is set if it is accepted");
  if (ok) vp_assert(m.o->first.start == a && m.o->first.end == b, "with its bounds");
  vp_assert(m.has == has && other.has == other_has && other.inserted == 0, "the other ranges stay");
  vp_cover("post");
}
VP_HARNESS(set_load) { Set<true>(); }
VP_HARNESS(set_store) { Set<false>(); }
template <bool kLoad> static void Clear() {
  Watcher* w = AnyWatcher();
  uint64_t a = vp_any<uint64_t>("a");
  auto& m = kLoad ? w->ld_watch_actions_ : w->st_watch_actions_;
  auto& other = kLoad ? w->st_watch_actions_ : w->ld_watch_actions_;
  m.lone = vp_any<bool>("only range");
  bool has = m.has, other_has = other.has;
  vp_cover("pre");
  bool ok = kLoad ? w->ClearLoadWatchCallback(a).ok() : w->ClearStoreWatchCallback(a).ok();
  bool in = a >= g_lo && a <= g_hi;
  if (has && in) vp_assert(ok && !m.has, "clearing any address of a range clears it");
  else vp_assert(m.has == has, "clearing another address does not");
  if (m.lone && !(has && in)) vp_assert(!ok, "clearing where there is no range is refused");
  vp_assert(other.has == other_has, "load and store ranges are cleared separately");
  vp_cover("post");
}
VP_HARNESS(clear_load) { Clear<true>(); }
VP_HARNESS(clear_store) { Clear<false>(); }
// a new range is called with the accesses touching it
template <bool kLoad> static void SetAndAccess() {
  g_mem = new Memory;
  Watcher* w = new Watcher(g_mem);
  g_lo = vp_any<uint64_t>("lo");
  g_hi = vp_any<uint64_t>("hi");
  vp_assume(g_lo <= g_hi);
  auto& m = kLoad ? w->ld_watch_actions_ : w->st_watch_actions_;
  m.watch_next = true;
  uint64_t a = vp_any<uint64_t>("a");
  int n = vp_any<int>("size");
  vp_assume(n >= 1 && n < (1 << 28) && a < (1ull << 63));
  DataBuffer* b = AnyBuffer(n);
  g_calls = 0;
  vp_cover("pre");
  vp_assert(kLoad ? w->SetLoadWatchCallback(Range(g_lo, g_hi), Called).ok() : w->SetStoreWatchCallback(Range(g_lo, g_hi), Called).ok(), "a range is set");
  w->Load(a, b, nullptr, nullptr);
  vp_assert(g_calls == (kLoad && Touches(a, n)), "its callback is called for a load touching it");
  w->Store(a, b);
  vp_assert(g_calls == Touches(a, n), "or for a store touching it");
  vp_cover("post");
}
VP_HARNESS(set_and_access_load) { SetAndAccess<true>(); }
VP_HARNESS(set_and_access_store) { SetAndAccess<false>(); }
// --- accesses; any number of other ranges may be touched as well
typedef vp_ranges<Range, Watcher::Callback, Watcher::AddressRangeLess> Ranges;
struct Env { uint64_t pos, a, n; };
static void Step(uint64_t k, const uint64_t* cur, uint64_t* next, void* e) {
  Env* x = static_cast<Env*>(e);
  bool at = k == x->pos;
  next[0] = cur[0] + at;
  next[1] = at ? x->a : cur[1];
  next[2] = at ? x->n : cur[2];
}
static bool Inv(uint64_t k, const uint64_t* cur, void* e) {
  Env* x = static_cast<Env*>(e);
  bool past = k > x->pos;
  return cur[0] == past && cur[1] == (past ? x->a : 0) && cur[2] == (past ? x->n : 0);
}
static void Calls(bool hit, uint64_t a, int n) {
  static Env e;
  static uint64_t zero[3];
  Ranges::at_pos = vp_any<uint64_t>("position of the watched range");
  vp_assume(Ranges::at_pos < (1ull << 30));
  e = Env{hit ? Ranges::at_pos : ~0ull, a, (uint64_t)n};
  int id = __vp_mseq("calls", 3, zero, Step, &e);
  __vp_mseq_inv(id, Inv, "the callback after k ranges", 0);
}
template <int kKind> static void Access() {
  Watcher* w = AnyWatcher();
  uint64_t a = vp_any<uint64_t>("a");
  int n = vp_any<int>("size");
  vp_assume(n >= 1 && n < (1 << 28) && a < (1ull << 63));
  DataBuffer* b = AnyBuffer(n);
  DataBuffer* t = AnyBuffer(1);
  Instruction* inst = MakeInst(State(nullptr, nullptr, nullptr));
  Context* ctx = new Context;
  bool load = kKind & 1;
  bool hit = (load ? g_ld : g_st) && Touches(a, n);
  Calls(hit, a, n);
  vp_cover("pre");
  switch (kKind) {
    case 1: w->Load(a, b, inst, ctx); break;
    case 2: w->Store(a, b); break;
#ifdef TAGGED
    case 5: w->Load(a, b, t, inst, ctx); break;
    case 6: w->Store(a, b, t); break;
#endif
  }
  vp_assert(g_calls == hit, "the callback of a range is called once if the access touches it and not otherwise");
  if (hit) vp_assert(g_address == a && g_size == n, "with the address and size of the access");
  vp_assert(g_mem->n == 1 && g_mem->kind == kKind && g_mem->address == a && g_mem->db == b, "the access is passed on once");
  if (load) vp_assert(g_mem->inst == inst && g_mem->context == ctx, "with its instruction and context");
  if (kKind > 4) vp_assert(g_mem->tags == t, "and its tags");
  vp_assert(g_at_access == (load ? (int)hit : 0), "loads are announced before they are done, stores after");
  vp_assert(g_executed == 0 && b->ref_count() == 1, "nothing else happens");
  vp_cover("post");
}
VP_HARNESS(load) { Access<1>(); }
VP_HARNESS(store) { Access<2>(); }
#ifdef TAGGED
VP_HARNESS(load_tagged) { Access<5>(); }
VP_HARNESS(store_tagged) { Access<6>(); }
VP_HARNESS(load_tags_only) {
  Watcher* w = AnyWatcher();
  uint64_t a = vp_any<uint64_t>("a");
  DataBuffer* t = AnyBuffer(1);
  Instruction* inst = MakeInst(State(nullptr, nullptr, nullptr));
  vp_cover("pre");
  w->Load(a, nullptr, t, inst, nullptr);
  vp_assert(g_mem->n == 1 && g_mem->kind == 5 && g_mem->address == a && g_mem->db == nullptr && g_mem->tags == t && g_mem->inst == inst && g_mem->context == nullptr, "a load of tags is passed on once");
  vp_assert(g_calls == 0, "and no data is announced");
  vp_cover("post");
}
#endif
// --- vector accesses of N elements
template <bool kLoad, bool kStride, int N> static void Vector() {
  Watcher* w = AnyWatcher(true);
  int es = vp_any<int>("element size");
  vp_assume(es == 1 || es == 2 || es == 4 || es == 8);
  DataBuffer* ad = AnyBuffer(kStride ? 8 : 8 * N, "addresses");
  DataBuffer* mk = AnyBuffer(N, "mask");
  DataBuffer* db = AnyBuffer(N * 8, "data");
  uint64_t* a = static_cast<uint64_t*>(ad->raw_ptr_);
  int calls = 0;
  for (int k = 0; k < N; k++) {
    if (!kStride || k == 0) vp_assume(a[k] < (1ull << 61));
    uint64_t at = kStride ? a[0] + k * es : a[k];
    if (static_cast<bool*>(mk->raw_ptr_)[k] && (kLoad ? g_ld : g_st) && Touches(at, es)) calls++;
  }
  Instruction* inst = MakeInst(State(nullptr, nullptr, nullptr));
  vp_cover("pre");
  if (kLoad) w->Load(ad, mk, es, db, inst, nullptr);
  else w->Store(ad, mk, es, db);
  vp_assert(g_calls == calls, "the callback of a range is called for each unmasked element touching it");
  vp_assert(g_mem->n == 1 && g_mem->kind == (kLoad ? 3 : 4) && g_mem->ad == ad && g_mem->mk == mk && g_mem->el == es && g_mem->db == db, "the access is passed on once");
  if (kLoad) vp_assert(g_mem->inst == inst && g_mem->context == nullptr, "with its instruction and context");
  vp_assert(g_at_access == (kLoad ? calls : 0), "loads are announced before they are done, stores after");
  vp_cover("post");
}
VP_BOUNDED(gather) { Vector<true, false, 3>(); }
VP_BOUNDED(scatter) { Vector<false, false, 3>(); }
VP_BOUNDED(stride_load) { Vector<true, true, 3>(); }
VP_BOUNDED(stride_store) { Vector<false, true, 3>(); }
