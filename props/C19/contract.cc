// C19: a router sends each access, unchanged and whole, to the one target whose range covers it, or to the default
// target when it touches no range, and to nobody otherwise.
#include "vprange.h"
#include "mpact/sim/generic/data_buffer.cc"
#include "mpact/sim/generic/instruction.cc"
#include "mpact/sim/util/memory/single_initiator_router.cc"
#include "vpsim.h"
using namespace mpact::sim::util;
typedef SingleInitiatorRouter Router;
typedef AtomicMemoryOpInterface::Operation Op;
// the last access any target was given
static int g_n, g_kind, g_who, g_el, g_op;
static uint64_t g_address;
static DataBuffer *g_db, *g_tags, *g_ad, *g_mk;
static Instruction* g_in;
static ReferenceCount* g_ctx;
static bool g_answer;
struct Target : public TaggedMemoryInterface {
  int who;
  explicit Target(int w) : who(w) {}
  void Got(int k) { g_n++; g_kind = k; g_who = who; }
  void Load(uint64_t a, DataBuffer* b, Instruction* i, ReferenceCount* c) override { Got(1); g_address = a; g_db = b; g_in = i; g_ctx = c; }
  void Store(uint64_t a, DataBuffer* b) override { Got(2); g_address = a; g_db = b; }
  void Load(DataBuffer* a, DataBuffer* m, int e, DataBuffer* b, Instruction* i, ReferenceCount* c) override { Got(3); g_ad = a; g_mk = m; g_el = e; g_db = b; g_in = i; g_ctx = c; }
  void Store(DataBuffer* a, DataBuffer* m, int e, DataBuffer* b) override { Got(4); g_ad = a; g_mk = m; g_el = e; g_db = b; }
  void Load(uint64_t a, DataBuffer* b, DataBuffer* t, Instruction* i, ReferenceCount* c) override { Got(5); g_address = a; g_db = b; g_tags = t; g_in = i; g_ctx = c; }
  void Store(uint64_t a, DataBuffer* b, DataBuffer* t) override { Got(6); g_address = a; g_db = b; g_tags = t; }
};
struct Atomic : public AtomicMemoryOpInterface {
  int who;
  explicit Atomic(int w) : who(w) {}
  absl::Status PerformMemoryOp(uint64_t a, Operation op, DataBuffer* b, Instruction* i, ReferenceCount* c) override {
    g_n++;
    g_kind = 7;
    g_who = who;
    g_address = a;
    g_op = (int)op;
    g_db = b;
    g_in = i;
    g_ctx = c;
    return g_answer ? absl::OkStatus() : absl::InternalError("no");
  }
};
// who: 1 the watched range of a kind, 2 its default, 3 and 4 other ranges; plus 10 for tagged targets
enum { kMem = 0, kTag = 10, kAtom = 20 };
struct Kind {
  bool has, def, lone;
  uint64_t lo, hi;
  bool Touch(uint64_t a, uint64_t n) const { return has && lo <= a + n - 1 && hi >= a; }
  bool In(uint64_t a, uint64_t n) const { return has && lo <= a && a + n - 1 <= hi; }
};
static Kind g_m, g_t, g_a;
template <class I, class T, int kWho, class M> static void AnyTargets(M& m, I*& def, Kind& k, bool lone, bool none) {
  k.has = !none && vp_any<bool>("range");
  k.def = !none && vp_any<bool>("default");
  k.lone = lone;
  k.lo = vp_any<uint64_t>("base");
  k.hi = vp_any<uint64_t>("top");
  vp_assume(k.lo < k.hi);
  T *w = new T(kWho + 1), *d = new T(kWho + 2), *x = new T(kWho + 3);
  m.w = new typename M::value_type(Router::AddressRange{k.lo, k.hi}, w);
  m.o = new typename M::value_type(Router::AddressRange{0, 1}, x);
  m.has = k.has;
  m.lone = lone;
  if (k.def) def = d;
}
// only: 0 targets of all kinds, 1 plain ones, 2 tagged ones, 3 atomic ones
static Router* AnyRouter(bool lone, int only = 0) {
  Router* r = new Router("router");
  AnyTargets<MemoryInterface, Target, kMem>(r->memory_targets_, r->default_memory_target_, g_m, lone, only != 0 && only != 1);
  AnyTargets<TaggedMemoryInterface, Target, kTag>(r->tagged_targets_, r->default_tagged_target_, g_t, lone, only != 0 && only != 2);
  AnyTargets<AtomicMemoryOpInterface, Atomic, kAtom>(r->atomic_targets_, r->default_atomic_target_, g_a, lone, only != 0 && only != 3);
  g_n = g_kind = g_who = g_el = g_op = 0;
  g_address = 0;
  g_db = g_tags = g_ad = g_mk = nullptr;
  g_in = nullptr;
  g_ctx = nullptr;
  return r;
}
// the elements of an access, and where one kind of target would have them
struct Elements { int n; uint64_t a[3], size; bool on[3]; };
enum { kNone = 0, kWatched = 1, kDefault = 2, kMixed = 5, kEither = 6 };
static int Route(const Kind& k, const Elements& e) {
  bool none = false, w = false, d = false;
  for (int i = 0; i < e.n; i++) {
    if (!e.on[i]) continue;
    if (k.In(e.a[i], e.size)) w = true;
    else if (k.Touch(e.a[i], e.size) || !k.def) none = true;
    else d = true;
  }
  if (w && d) return none ? kEither : kMixed;
  return none ? kNone : w ? kWatched : kDefault;
}
// where an access may go, with no other ranges: exactly
static void Exact(bool plain, const Elements& e) {
  int r = plain ? Route(g_m, e) : kNone;
  int t = Route(g_t, e);
  int want = r == kWatched ? 1 : r == kDefault ? 2 : r == kMixed ? 0 : t == kWatched ? 11 : t == kDefault ? 12 : 0;
  int got = g_n ? g_who : 0;
  vp_assert(got == want || (r == kEither && got == 0), "an access goes to the target that covers it");
}
// where it may go when there are any other ranges
static void Rules(bool plain, const Elements& e) {
  int got = g_n ? g_who : 0;
  bool in_m_all = plain && g_m.has, in_t_all = g_t.has, no_m = true, no_t = true;
  for (int i = 0; i < e.n; i++) {
    if (!e.on[i]) continue;
    if (!g_m.In(e.a[i], e.size)) in_m_all = false;
    if (!g_t.In(e.a[i], e.size)) in_t_all = false;
    if (g_m.Touch(e.a[i], e.size)) no_m = false;
    if (g_t.Touch(e.a[i], e.size)) no_t = false;
  }
  if (in_m_all) vp_assert(got == 1, "an access inside a range goes to its target");
  if (got == 1) vp_assert(in_m_all, "a target is given only accesses inside its range");
  if (got == 11) vp_assert(in_t_all, "a tagged target is given only accesses inside its range");
  if (got == 2) vp_assert(no_m, "the default target is given only accesses that touch no range");
  if (got == 12) vp_assert(no_t, "the default tagged target is given only accesses that touch no range");
  if (!plain && in_t_all) vp_assert(got == 11, "a tagged access inside a range goes to its target");
  if (!plain) vp_assert(got == 0 || got > 10, "a tagged access goes to a tagged target");
}
template <int kKind, bool kLone> static void Scalar() {
  Router* r = AnyRouter(kLone);
  uint64_t a = vp_any<uint64_t>("a");
  int n = vp_any<int>("size");
  vp_assume(n >= 1 && n < (1 << 28) && a < (1ull << 63));
  DataBuffer *b = AnyBuffer(n), *t = AnyBuffer(1);
  Instruction* inst = MakeInst(State(nullptr, nullptr, nullptr));
  Context* ctx = new Context;
  Elements e{1, {a}, (uint64_t)n, {true}};
  vp_cover("pre");
  switch (kKind) {
    case 1: r->Load(a, b, inst, ctx); break;
    case 2: r->Store(a, b); break;
    case 5: r->Load(a, b, t, inst, ctx); break;
    case 6: r->Store(a, b, t); break;
  }
  if (kLone) Exact(kKind < 5, e); else Rules(kKind < 5, e);
  vp_assert(g_n <= 1, "an access goes to one target at most");
  if (g_n) {
    vp_assert(g_kind == kKind && g_address == a && g_db == b, "it is passed on unchanged");
    if (kKind & 1) vp_assert(g_in == inst && g_ctx == ctx, "with its instruction and context");
    if (kKind > 4) vp_assert(g_tags == t, "and its tags");
  }
  vp_assert(g_executed == 0, "the instruction is left to the target");
  vp_cover("post");
}
VP_HARNESS(load_exact) { Scalar<1, true>(); }
VP_HARNESS(load) { Scalar<1, false>(); }
VP_HARNESS(store_exact) { Scalar<2, true>(); }
VP_HARNESS(store) { Scalar<2, false>(); }
VP_HARNESS(load_tagged_exact) { Scalar<5, true>(); }
VP_HARNESS(load_tagged) { Scalar<5, false>(); }
VP_HARNESS(store_tagged_exact) { Scalar<6, true>(); }
VP_HARNESS(store_tagged) { Scalar<6, false>(); }
VP_HARNESS(load_tags_only) {
  Router* r = AnyRouter(true);
  uint64_t a = vp_any<uint64_t>("a");
  int n = vp_any<int>("tags");
  vp_assume(n >= 1 && n < (1 << 24) && a < (1ull << 63));
  DataBuffer* t = AnyBuffer(n);
  Elements e{1, {a}, (uint64_t)n * 8, {true}};
  vp_cover("pre");
  r->Load(a, nullptr, t, nullptr, nullptr);
  Exact(false, e);
  if (g_n) vp_assert(g_n == 1 && g_kind == 5 && g_address == a && g_db == nullptr && g_tags == t, "it is passed on unchanged");
  vp_cover("post");
}
template <bool kLone> static void AtomicOp() {
  Router* r = AnyRouter(kLone);
  uint64_t a = vp_any<uint64_t>("a");
  int n = vp_any<int>("size"), op = vp_any<int>("operation");
  vp_assume(n >= 1 && n < (1 << 28) && a < (1ull << 63));
  g_answer = vp_any<bool>("answer");
  DataBuffer* b = AnyBuffer(n);
  Instruction* inst = MakeInst(State(nullptr, nullptr, nullptr));
  Context* ctx = new Context;
  vp_cover("pre");
  bool ok = r->PerformMemoryOp(a, (Op)op, b, inst, ctx).ok();
  int got = g_n ? g_who : 0;
  Elements e{1, {a}, (uint64_t)n, {true}};
  int x = Route(g_a, e);
  if (kLone) vp_assert(got == (x == kWatched ? 21 : x == kDefault ? 22 : 0), "an operation goes to the target that covers it");
  if (g_a.In(a, n)) vp_assert(got == 21, "an operation inside a range goes to its target");
  else vp_assert(got != 21, "a target is given only operations inside its range");
  if (g_a.Touch(a, n)) vp_assert(got != 22, "the default target is given only operations that touch no range");
  if (g_n) vp_assert(g_n == 1 && g_address == a && g_op == op && g_db == b && g_in == inst && g_ctx == ctx, "it is passed on unchanged");
  vp_assert(ok == (g_n == 1 && g_answer), "the answer is the target's; without a target it is an error");
  vp_cover("post");
}
VP_HARNESS(atomic_exact) { AtomicOp<true>(); }
VP_HARNESS(atomic) { AtomicOp<false>(); }
// --- vector accesses of up to 3 elements
template <bool kLoad, bool kStride, bool kLone, int N, int kOnly> static void Vector() {
  Router* r = AnyRouter(kLone, kOnly);
  constexpr int es = 4;
  DataBuffer* ad = AnyBuffer(kStride ? 8 : 8 * N, "addresses");
  DataBuffer* mk = AnyBuffer(N, "mask");
  DataBuffer* db = AnyBuffer(N * 8, "data");
  uint64_t* a = static_cast<uint64_t*>(ad->raw_ptr_);
  Elements e{N, {}, (uint64_t)es, {}};
  bool any = false;
  for (int k = 0; k < N; k++) {
    if (!kStride || k == 0) vp_assume(a[k] < (1ull << 61));
    vp_assume(Raw(mk)[k] <= 1);
    e.a[k] = kStride ? a[0] + k * es : a[k];
    e.on[k] = Raw(mk)[k];
    any |= e.on[k];
  }
  vp_assume(any);
  Instruction* inst = MakeInst(State(nullptr, nullptr, nullptr));
  Context* ctx = new Context;
  vp_cover("pre");
  if (kLoad) r->Load(ad, mk, es, db, inst, ctx);
  else r->Store(ad, mk, es, db);
  if (kLone) Exact(true, e); else Rules(true, e);
  vp_assert(g_n <= 1, "an access goes to one target at most");
  if (g_n) {
    vp_assert(g_kind == (kLoad ? 3 : 4) && g_ad == ad && g_mk == mk && g_el == es && g_db == db, "it is passed on unchanged");
    if (kLoad) vp_assert(g_in == inst && g_ctx == ctx, "with its instruction and context");
  }
  vp_assert(g_executed == 0, "the instruction is left to the target");
  vp_cover("post");
}
VP_BOUNDED(gather_plain_exact) { Vector<true, false, true, 3, 1>(); }
VP_BOUNDED(gather_tagged_exact) { Vector<true, false, true, 3, 2>(); }
VP_BOUNDED(gather_plain) { Vector<true, false, false, 2, 1>(); }
VP_BOUNDED(gather_tagged) { Vector<true, false, false, 2, 2>(); }
VP_BOUNDED(scatter_plain_exact) { Vector<false, false, true, 3, 1>(); }
VP_BOUNDED(scatter_tagged_exact) { Vector<false, false, true, 3, 2>(); }
VP_BOUNDED(scatter_plain) { Vector<false, false, false, 2, 1>(); }
VP_BOUNDED(scatter_tagged) { Vector<false, false, false, 2, 2>(); }
VP_BOUNDED(stride_load_plain_exact) { Vector<true, true, true, 3, 1>(); }
VP_BOUNDED(stride_load_tagged_exact) { Vector<true, true, true, 3, 2>(); }
VP_BOUNDED(stride_load_plain) { Vector<true, true, false, 2, 1>(); }
VP_BOUNDED(stride_load_tagged) { Vector<true, true, false, 2, 2>(); }
VP_BOUNDED(stride_store_plain_exact) { Vector<false, true, true, 3, 1>(); }
VP_BOUNDED(stride_store_tagged_exact) { Vector<false, true, true, 3, 2>(); }
VP_BOUNDED(stride_store_plain) { Vector<false, true, false, 2, 1>(); }
VP_BOUNDED(stride_store_tagged) { Vector<false, true, false, 2, 2>(); }
// --- adding targets
template <class I, class T, class M> static void AddTarget(M Router::*map, I* Router::*def) {
  Router* r = new Router("router");
  M& m = r->*map;
  Kind k;
  AnyTargets<I, T, 0>(m, r->*def, k, vp_any<bool>("only range"), false);
  uint64_t a = vp_any<uint64_t>("base added"), b = vp_any<uint64_t>("top added");
  T* t = new T(9);
  I* was = m.w->second;
  vp_cover("pre");
  bool ok = r->template AddTarget<I>(t, a, b).ok();
  bool clash = k.has && a <= k.hi && b >= k.lo, same = k.has && a == k.lo && b == k.hi;
  if (a >= b) vp_assert(!ok, "a range that ends where or before it starts is refused");
  else if (same) vp_assert(ok && m.inserted == 0, "a range that is there already is accepted without effect");
  else if (clash) vp_assert(!ok, "a range overlapping another is refused");
  else if (k.lone) vp_assert(ok && m.inserted == 1, "any other range is accepted");
  if (!ok) vp_assert(m.inserted == 0, "a refused range is not added");
  if (m.inserted) vp_assert(m.inserted == 1 && m.o->first.base == a && m.o->first.top == b && m.o->second == t, "the range added leads to its target");
  vp_assert(m.has == k.has && m.w->second == was && m.w->first.base == k.lo && m.w->first.top == k.hi, "the others stay");
  vp_cover("post");
}
VP_HARNESS(add_target) { AddTarget<MemoryInterface, Target>(&Router::memory_targets_, &Router::default_memory_target_); }
VP_HARNESS(add_tagged_target) { AddTarget<TaggedMemoryInterface, Target>(&Router::tagged_targets_, &Router::default_tagged_target_); }
VP_HARNESS(add_atomic_target) { AddTarget<AtomicMemoryOpInterface, Atomic>(&Router::atomic_targets_, &Router::default_atomic_target_); }
template <class I, class T> static void AddDefault(I* Router::*def) {
  Router* r = AnyRouter(true);
  T *t = new T(9), *none = nullptr;
  I* was = r->*def;
  vp_cover("pre");
  bool ok = r->template AddDefaultTarget<I>(t).ok();
  vp_assert(ok == (was == nullptr), "there is one default target at most");
  vp_assert(r->*def == (ok ? static_cast<I*>(t) : was), "the first one stays");
  vp_assert(r->template AddDefaultTarget<I>(none).ok() && r->*def == nullptr, "it can be removed");
  vp_cover("post");
}
VP_HARNESS(default_target) { AddDefault<MemoryInterface, Target>(&Router::default_memory_target_); }
VP_HARNESS(default_tagged_target) { AddDefault<TaggedMemoryInterface, Target>(&Router::default_tagged_target_); }
VP_HARNESS(default_atomic_target) { AddDefault<AtomicMemoryOpInterface, Atomic>(&Router::default_atomic_target_); }
