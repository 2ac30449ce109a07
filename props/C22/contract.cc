// C22: an instruction keeps its operands, children and successors in order, owns them, and shows its context only while it runs.
#include "vp.h"
#include "mpact/sim/generic/instruction.cc"
#include "mpact/sim/generic/resource_operand_interface.h"
using namespace mpact::sim::generic;
static int g_deleted;
struct Pred : public PredicateOperandInterface {
  ~Pred() override { g_deleted++; }
  bool Value() override { return true; }
  std::string AsString() const override { return ""; }
};
struct Src : public SourceOperandInterface {
  uint64_t v = 0;
  int called = 0;
  int index = -1;
  ~Src() override { g_deleted++; }
  uint64_t get(int i, int which) { called = which; index = i; return v; }
  bool AsBool(int i) override { return get(i, 1) & 1; }
  int8_t AsInt8(int i) override { return (int8_t)get(i, 2); }
  uint8_t AsUint8(int i) override { return (uint8_t)get(i, 3); }
  int16_t AsInt16(int i) override { return (int16_t)get(i, 4); }
  uint16_t AsUint16(int i) override { return (uint16_t)get(i, 5); }
  int32_t AsInt32(int i) override { return (int32_t)get(i, 6); }
  uint32_t AsUint32(int i) override { return (uint32_t)get(i, 7); }
  int64_t AsInt64(int i) override { return (int64_t)get(i, 8); }
  uint64_t AsUint64(int i) override { return get(i, 9); }
  std::any GetObject() const override { return std::any(); }
  std::vector<int> shape() const override { return {}; }
  std::string AsString() const override { return ""; }
};
struct Dst : public DestinationOperandInterface {
  ~Dst() override { g_deleted++; }
  DataBuffer* AllocateDataBuffer() override { return nullptr; }
  void InitializeDataBuffer(DataBuffer*) override {}
  DataBuffer* CopyDataBuffer() override { return nullptr; }
  int latency() const override { return 0; }
  std::any GetObject() const override { return std::any(); }
  std::vector<int> shape() const override { return {}; }
  std::string AsString() const override { return ""; }
};
struct Res : public ResourceOperandInterface {
  ~Res() override { g_deleted++; }
  bool IsFree() override { return true; }
  void Acquire() override {}
  std::string AsString() const override { return ""; }
};
// an instruction whose deletion is recorded
struct Inst : public Instruction {
  bool* gone;
  Inst(uint64_t a, bool* g) : Instruction(a, nullptr), gone(g) { *g = false; }
  ~Inst() override { *gone = true; }
};
static void Refs(Instruction* i, uint64_t& r) {
  uint64_t d = vp_any<uint64_t>("dec");
  r = vp_any<uint64_t>("refs");
  vp_assume(r >= 1 && r < (1ull << 30) && d < (1ull << 40));
  i->dec_count_ = d;
  i->inc_count_ = d + r;
}
VP_HARNESS(create) {
  uint64_t a = vp_any<uint64_t>("address");
  ArchState* st = reinterpret_cast<ArchState*>(static_cast<uintptr_t>(0));
  Instruction i(a, st);
  vp_assert(i.address() == a && i.state() == st && i.context() == nullptr, "address and state as given, no context");
  vp_assert(i.child() == nullptr && i.parent() == nullptr && i.next() == nullptr && i.Predicate() == nullptr, "a new instruction stands alone");
  vp_assert(i.SourcesSize() == 0 && i.DestinationsSize() == 0 && i.ResourceHold().empty() && i.ResourceAcquire().empty(), "without operands");
  vp_assert(i.Attributes().size() == 0 && i.ref_count() == 1, "without attributes, with one reference");
  Instruction z(st);
  vp_assert(z.address() == 0 && z.next() == nullptr && z.child() == nullptr && z.parent() == nullptr, "the address defaults to 0");
  int sz = vp_any<int>("size"), op = vp_any<int>("opcode");
  uint64_t b = vp_any<uint64_t>("new address");
  i.set_size(sz);
  i.set_opcode(op);
  i.set_address(b);
  vp_assert(i.size() == sz && i.opcode() == op && i.address() == b, "size, opcode and address as set");
  vp_cover("post");
}
VP_HARNESS(append_child_first) {
  bool g0, g1;
  Inst a(1, &g0);
  auto* x = new Inst(2, &g1);
  uint64_t rx;
  Refs(x, rx);
  a.AppendChild(nullptr);
  a.Append(nullptr);
  vp_assert(a.child() == nullptr && a.next() == nullptr, "nothing is appended");
  a.AppendChild(x);
  vp_assert(a.child() == x && x->parent() == &a && a.next() == nullptr && x->next() == nullptr, "the first child");
  vp_assert((uint64_t)x->ref_count() == rx + 1, "is owned once");
  a.child_ = nullptr;
  vp_cover("post");
}
// K children (or successors), of which the harness keeps an arbitrary subset
template <int K, bool child>
static void List() {
  bool gone[K], gp;
  Inst* c[K];
  bool keep[K];
  int64_t h = __vp_heap_count();
  auto* p = new Inst(1, &gp);
  for (int i = 0; i < K; i++) {
    c[i] = new Inst(10 + i, &gone[i]);
    if (child) p->AppendChild(c[i]);
    else p->Append(c[i]);
    keep[i] = vp_any<bool>("keep");
    if (!keep[i]) c[i]->DecRef();
  }
  Instruction* q = child ? p->child() : p->next();
  for (int i = 0; i < K; i++) {
    vp_assert(q == c[i], "the list is in the order of appending");
    vp_assert(q->parent() == (child ? p : nullptr), "children know their parent");
    vp_assert(q->ref_count() == (keep[i] ? 2 : 1) && !gone[i], "each is owned once by the list");
    q = q->next();
  }
  vp_assert(q == nullptr, "and ends");
  vp_cover("pre");
  p->DecRef();
  vp_assert(gp, "the instruction goes with its last reference");
  bool alive = false;   // an instruction stays while it, or one before it in the list, is kept
  for (int i = 0; i < K; i++) {
    alive = alive || keep[i];
    vp_assert(gone[i] == !alive, "with it goes exactly what nobody else holds");
    if (alive) vp_assert(c[i]->parent() == nullptr, "a child that outlives its parent has none");
  }
  for (int i = 0; i < K; i++)
    if (keep[i]) c[i]->DecRef();
  for (int i = 0; i < K; i++) vp_assert(gone[i], "everything goes in the end");
  vp_assert(__vp_heap_count() == h, "and nothing is left");
  vp_cover("post");
}
VP_BOUNDED(children_1) { List<1, true>(); }
VP_BOUNDED(children_2) { List<2, true>(); }
VP_BOUNDED(children_4) { List<4, true>(); }
VP_BOUNDED(next_2) { List<2, false>(); }
VP_BOUNDED(next_4) { List<4, false>(); }
// a child whose owner gives it up early
VP_HARNESS(delete_first_child) {
  bool g0, g1;
  auto* p = new Inst(1, &g0);
  auto* c = new Inst(2, &g1);
  p->AppendChild(c);
  c->DecRef();
  c->DecRef();
  vp_assert(g1 && p->child() == nullptr, "a deleted first child leaves its parent");
  p->DecRef();
  vp_assert(g0, "which goes by itself");
  vp_cover("post");
}
VP_BOUNDED(operands) {
  int64_t h = __vp_heap_count();
  g_deleted = 0;
  auto* i = new Instruction(0, nullptr);
  auto* s0 = new Src;
  auto* s1 = new Src;
  auto* d0 = new Dst;
  auto* d1 = new Dst;
  auto* h0 = new Res;
  auto* h1 = new Res;
  auto* a0 = new Res;
  auto* a1 = new Res;
  auto* p = new Pred;
  i->SetPredicate(p);
  i->AppendSource(s0);
  i->AppendSource(s1);
  i->AppendDestination(d0);
  i->AppendDestination(d1);
  i->AppendResourceHold(h0);
  i->AppendResourceHold(h1);
  i->AppendResourceAcquire(a0);
  i->AppendResourceAcquire(a1);
  vp_assert(i->Predicate() == p, "the predicate");
  vp_assert(i->SourcesSize() == 2 && i->Source(0) == s0 && i->Source(1) == s1, "the sources in order");
  vp_assert(i->DestinationsSize() == 2 && i->Destination(0) == d0 && i->Destination(1) == d1, "the destinations in order");
  vp_assert(i->ResourceHold().size() == 2 && i->ResourceHold()[0] == h0 && i->ResourceHold()[1] == h1, "the resources to wait for in order");
  vp_assert(i->ResourceAcquire().size() == 2 && i->ResourceAcquire()[0] == a0 && i->ResourceAcquire()[1] == a1, "the resources to take in order");
  vp_assert(g_deleted == 0, "operands live as long as the instruction");
  i->DecRef();
  vp_assert(g_deleted == 9, "and are deleted with it, each once");
  vp_assert(__vp_heap_count() == h, "nothing is left");
  vp_cover("post");
}
// operand n of arbitrarily many
VP_HARNESS(operand_order) {
  Instruction* i = new Instruction(0, nullptr);
  size_t n = vp_any<size_t>("n"), k = vp_any<size_t>("k");
  vp_assume(n < (1u << 30) && k < n);
  Src a, b;
  Dst x, y;
#ifdef VP_SYMBOLIC
  i->sources_.n = n;
  i->sources_.d[k] = &a;
  i->dests_.n = n;
  i->dests_.d[k] = &x;
#endif
  i->AppendSource(&b);
  i->AppendDestination(&y);
#ifdef VP_SYMBOLIC
  vp_assert((size_t)i->SourcesSize() == n + 1 && i->Source((int)k) == &a && i->Source((int)n) == &b, "a source is appended at the end");
  vp_assert((size_t)i->DestinationsSize() == n + 1 && i->Destination((int)k) == &x && i->Destination((int)n) == &y, "a destination is appended at the end");
#endif
  vp_cover("post");
}
static Instruction* g_arg;
static ReferenceCount* g_ctx;
static int g_runs;
VP_HARNESS(execute) {
  Instruction i(0, nullptr);
  ReferenceCount c;
  g_runs = 0;
  i.set_semantic_function([](Instruction* x) { g_runs++; g_arg = x; g_ctx = x->context(); });
  vp_cover("pre");
  bool with = vp_any<bool>("with"), again = vp_any<bool>("again");
  if (with) i.Execute(&c);
  else i.Execute();
  vp_assert(g_runs == 1 && g_arg == &i, "the semantic function runs once, on this instruction");
  vp_assert(g_ctx == (with ? &c : nullptr), "and sees the context it is executed with");
  vp_assert(i.context() == nullptr && c.ref_count() == 1, "which is gone afterwards");
  if (again) {
    i.Execute();
    vp_assert(g_runs == 2 && g_ctx == nullptr, "a later run without context sees none");
  }
  vp_cover("post");
}
VP_HARNESS(attributes) {
  size_t n = vp_any<size_t>("n"), m = vp_any<size_t>("m"), k = vp_any<size_t>("k");
  vp_assume(n < (1u << 20) && m < (1u << 20));
  int* a = vp_region<int>(n, "a");
  int* b = vp_region<int>(m, "b");
  int64_t h = __vp_heap_count();
  auto* i = new Instruction(0, nullptr);
  int ak = k < n ? a[k] : 0, bk = k < m ? b[k] : 0;
  vp_cover("pre");
  i->SetAttributes(absl::MakeConstSpan(a, n));
  vp_assert(i->Attributes().size() == n, "as many attributes as given");
  if (k < n) {
    vp_assert(i->Attributes()[k] == ak && i->Attributes().data() != a, "with the values given, in storage of their own");
    a[k] = ~ak;
    vp_assert(i->Attributes()[k] == ak, "which later changes outside do not reach");
  }
  i->SetAttributes(absl::MakeConstSpan(b, m));
  vp_assert(i->Attributes().size() == m, "new attributes replace the old ones");
  if (k < m) vp_assert(i->Attributes()[k] == bk, "with their values");
  i->DecRef();
  vp_assert(__vp_heap_count() == h, "the storage goes with the instruction");
  vp_cover("post");
}
// ---- typed operand access
template <typename T>
static bool Same(T a, T b) { return __builtin_memcmp(&a, &b, sizeof(T)) == 0; }
template <typename T>
static void Typed(int which, T want_of(uint64_t), bool element_form = true) {
  Instruction i(0, nullptr);
  auto* s0 = new Src;
  auto* s1 = new Src;
  s0->v = vp_any<uint64_t>("v0");
  s1->v = vp_any<uint64_t>("v1");
  i.AppendSource(s0);
  i.AppendSource(s1);
  bool second = vp_any<bool>("second");
  Src* s = second ? s1 : s0;
  Src* o = second ? s0 : s1;
  T got = GetInstructionSource<T>(&i, second ? 1 : 0);
  vp_assert(Same(got, want_of(s->v)), "the value of the addressed operand in the type asked for");
  vp_assert(s->called == which && s->index == 0 && o->called == 0, "its element 0, of that operand only");
  if constexpr (!std::is_same_v<T, absl::uint128> && !std::is_same_v<T, absl::int128> && !std::is_same_v<T, HalfFP>) {
    int e = vp_any<int>("element");
    got = GetInstructionSource<T>(&i, second ? 1 : 0, e);
    vp_assert(Same(got, want_of(s->v)), "the value of the addressed element");
    vp_assert(s->called == which && s->index == e && o->called == 0, "that element of that operand only");
  }
  vp_cover("post");
}
VP_HARNESS(typed_bool) { Typed<bool>(1, [](uint64_t v) { return (v & 1) != 0; }); }
VP_HARNESS(typed_int8) { Typed<int8_t>(2, [](uint64_t v) { return (int8_t)v; }); }
VP_HARNESS(typed_uint8) { Typed<uint8_t>(3, [](uint64_t v) { return (uint8_t)v; }); }
VP_HARNESS(typed_int16) { Typed<int16_t>(4, [](uint64_t v) { return (int16_t)v; }); }
VP_HARNESS(typed_uint16) { Typed<uint16_t>(5, [](uint64_t v) { return (uint16_t)v; }); }
VP_HARNESS(typed_int32) { Typed<int32_t>(6, [](uint64_t v) { return (int32_t)v; }); }
VP_HARNESS(typed_uint32) { Typed<uint32_t>(7, [](uint64_t v) { return (uint32_t)v; }); }
VP_HARNESS(typed_int64) { Typed<int64_t>(8, [](uint64_t v) { return (int64_t)v; }); }
VP_HARNESS(typed_uint64) { Typed<uint64_t>(9, [](uint64_t v) { return (uint64_t)v; }); }
VP_HARNESS(typed_float) { Typed<float>(7, [](uint64_t v) { return __builtin_bit_cast(float, (uint32_t)v); }); }
VP_HARNESS(typed_double) { Typed<double>(9, [](uint64_t v) { return __builtin_bit_cast(double, v); }); }
VP_HARNESS(typed_half) { Typed<HalfFP>(5, [](uint64_t v) { return HalfFP{.value = (uint16_t)v}; }); }
VP_HARNESS(typed_uint128) { Typed<absl::uint128>(9, [](uint64_t v) { return absl::uint128(v); }); }
VP_HARNESS(typed_int128) { Typed<absl::int128>(8, [](uint64_t v) { return absl::int128((int64_t)v); }); }
