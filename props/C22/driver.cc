// C22 bounded supplement: random trees of instructions with operands and attributes, kept and dropped in any order; the helpers on vector registers.
#include "vpd.h"
#include <map>
#include <memory>
#include "mpact/sim/generic/arch_state.h"
#include "mpact/sim/generic/immediate_operand.h"
#include "mpact/sim/generic/instruction.h"
#include "mpact/sim/generic/instruction_helpers.h"
#include "mpact/sim/generic/register.h"
#include "mpact/sim/generic/resource_operand_interface.h"
using namespace mpact::sim::generic; using vpd::Rng;
struct St : public ArchState { St() : ArchState("state") {} };
static int g_ops;
struct Pred : public PredicateOperandInterface { Pred() { g_ops++; } ~Pred() override { g_ops--; } bool Value() override { return true; } std::string AsString() const override { return ""; } };
struct Src : public ImmediateOperand<uint32_t> { explicit Src(uint32_t v) : ImmediateOperand<uint32_t>(v) { g_ops++; } ~Src() override { g_ops--; } };
struct Dst : public DestinationOperandInterface { Dst() { g_ops++; } ~Dst() override { g_ops--; } DataBuffer* AllocateDataBuffer() override { return nullptr; } void InitializeDataBuffer(DataBuffer*) override {} DataBuffer* CopyDataBuffer() override { return nullptr; } int latency() const override { return 0; } std::any GetObject() const override { return std::any(); } std::vector<int> shape() const override { return {}; } std::string AsString() const override { return ""; } };
struct Res : public ResourceOperandInterface { Res() { g_ops++; } ~Res() override { g_ops--; } bool IsFree() override { return true; } void Acquire() override {} std::string AsString() const override { return ""; } };
struct Inst; static std::map<Inst*, int> g_live;
struct Inst : public Instruction { explicit Inst(int id) : Instruction(id, nullptr) { g_live[this] = id; } ~Inst() override { g_live.erase(this); } };
struct Node { Inst* i; bool held; Node* parent = nullptr; std::vector<Node*> kids; Node* prev = nullptr; bool in_list = false; };
static void Tree(Rng& r) {
  vpd::log().clear(); vpd::cases++; g_live.clear(); std::vector<std::unique_ptr<Node>> all; int n = 2 + r.below(10);
  for (int k = 0; k < n; k++) { auto x = std::make_unique<Node>(); x->i = new Inst(k); x->held = true; all.push_back(std::move(x)); }
  // build a forest: each instruction is appended to the child list or the list of an earlier one
  std::map<Node*, std::vector<Node*>> lists;   // head -> successors
  for (int k = 1; k < n; k++) {
    Node* x = all[k].get(); Node* p = all[r.below(k)].get();
    if (r.coin(75)) { vpd::note(vpd::cat(k, " child of ", p->i->address())); p->i->AppendChild(x->i); x->parent = p; if (!p->kids.empty()) x->prev = p->kids.back(); p->kids.push_back(x); }
    else if (!p->in_list && !p->parent) { vpd::note(vpd::cat(k, " after ", p->i->address())); p->i->Append(x->i); auto& l = lists[p]; x->prev = l.empty() ? p : l.back(); l.push_back(x); x->in_list = true; }
  }
  auto follow = [&](Instruction* q, std::vector<Node*>& l, Instruction* parent) { for (auto* x : l) { VPD_CHECK(q == x->i, "order of a list"); VPD_CHECK(q->parent() == parent, "parent of ", x->i->address()); q = q->next(); } VPD_CHECK(q == nullptr, "end of a list"); };
  for (auto& x : all) { follow(x->i->child(), x->kids, x->i); if (lists.count(x.get())) follow(x->i->next(), lists[x.get()], nullptr); }
  // drop in random order; an instruction lives while it is held or what leads to it lives
  std::vector<int> order; for (int k = 0; k < n; k++) order.push_back(k); for (int k = n - 1; k > 0; k--) std::swap(order[k], order[r.below(k + 1)]);
  std::vector<bool> gone(n);
  for (int d : order) {
    vpd::note(vpd::cat("drop ", d)); all[d]->held = false; all[d]->i->DecRef(); std::vector<bool> live(n);
    for (bool more = true; more;) { more = false; for (int k = 0; k < n; k++) { Node* x = all[k].get(); if (live[k] || gone[k]) continue; bool on = x->held; if (x->prev) { for (int j = 0; j < n; j++) if (all[j].get() == x->prev) on |= live[j]; } else if (x->parent) { for (int j = 0; j < n; j++) if (all[j].get() == x->parent) on |= live[j]; } if (on) { live[k] = true; more = true; } } }
    for (int k = 0; k < n; k++) { bool have = false; for (auto& e : g_live) have |= e.second == k; VPD_CHECK(have == live[k], "instruction ", k, have ? " lives on" : " was deleted too early"); gone[k] = !live[k]; }
    for (int k = 0; k < n; k++) if (live[k] && all[k]->parent) { int pj = 0; for (int j = 0; j < n; j++) if (all[j].get() == all[k]->parent) pj = j; VPD_CHECK(all[k]->i->parent() == (live[pj] ? all[pj]->i : nullptr), "parent of ", k, " after a drop"); if (live[pj]) VPD_CHECK(all[pj]->i->child() == all[pj]->kids[0]->i, "first child of ", pj); }
    vpd::distinct_case(vpd::mix(vpd::mix(n, d), vpd::mix(g_live.size(), r.s)));
  }
  VPD_CHECK(g_live.empty(), "instructions left");
}
static void Ops(Rng& r) {
  vpd::log().clear(); vpd::cases++; g_ops = 0; auto* i = new Instruction(r.next(), nullptr); std::vector<Src*> s; std::vector<Dst*> d; std::vector<Res*> h, a; Pred* p = nullptr; std::vector<int> at;
  for (int k = 0; k < 25; k++) { int w = r.below(6); vpd::note(vpd::cat("step ", w));
    if (w == 0) { s.push_back(new Src((uint32_t)r.corner())); i->AppendSource(s.back()); } else if (w == 1) { d.push_back(new Dst); i->AppendDestination(d.back()); } else if (w == 2) { h.push_back(new Res); i->AppendResourceHold(h.back()); } else if (w == 3) { a.push_back(new Res); i->AppendResourceAcquire(a.back()); } else if (w == 4 && !p) { p = new Pred; i->SetPredicate(p); }
    else if (w == 5) { std::vector<int> v(r.below(9)); for (auto& x : v) x = (int)r.corner(); i->SetAttributes(v); at = v; for (auto& x : v) x = ~x; }
    VPD_CHECK((size_t)i->SourcesSize() == s.size() && (size_t)i->DestinationsSize() == d.size() && i->ResourceHold().size() == h.size() && i->ResourceAcquire().size() == a.size() && i->Predicate() == p, "numbers of operands");
    for (size_t j = 0; j < s.size(); j++) VPD_CHECK(i->Source(j) == s[j] && GetInstructionSource<uint32_t>(i, j) == s[j]->AsUint32(0), "source ", j); for (size_t j = 0; j < d.size(); j++) VPD_CHECK(i->Destination(j) == d[j], "destination ", j); for (size_t j = 0; j < h.size(); j++) VPD_CHECK(i->ResourceHold()[j] == h[j], "hold ", j); for (size_t j = 0; j < a.size(); j++) VPD_CHECK(i->ResourceAcquire()[j] == a[j], "acquire ", j);
    VPD_CHECK(i->Attributes().size() == at.size(), "number of attributes"); for (size_t j = 0; j < at.size(); j++) VPD_CHECK(i->Attributes()[j] == at[j], "attribute ", j);
    VPD_CHECK((size_t)g_ops == s.size() + d.size() + h.size() + a.size() + (p ? 1 : 0), "an operand was deleted early"); }
  ReferenceCount c; int runs = 0; ReferenceCount* seen = &c; Instruction* arg = nullptr; i->set_semantic_function([&](Instruction* x) { runs++; seen = x->context(); arg = x; });
  for (int k = 0; k < 4; k++) { bool with = r.coin(); runs = 0; if (with) i->Execute(&c); else i->Execute(); VPD_CHECK(runs == 1 && arg == i && seen == (with ? &c : nullptr) && i->context() == nullptr, "execution ", k, " with context ", with); }
  i->DecRef(); VPD_CHECK(g_ops == 0, "operands left: ", g_ops);
}
template <typename R, typename A, typename B, int NX = 8, int NY = 8>
static void Vec(Rng& r, St& st) {
  vpd::log().clear(); vpd::cases++; constexpr int N = 8; VectorRegister<A, NX> x(&st, "x"); VectorRegister<B, NY> y(&st, "y"); VectorRegister<B, NX> w(&st, "w"); VectorRegister<R, N> z(&st, "z");
  auto fill = [&](auto& reg, auto t) { using T = decltype(t); auto* db = st.db_factory()->template Allocate<T>(reg.shape()[0]); for (int i = 0; i < reg.shape()[0]; i++) db->template Set<T>(i, (T)r.corner()); reg.SetDataBuffer(db); db->DecRef(); }; fill(x, A()); fill(y, B()); fill(w, B());
  Instruction i(0, &st); i.AppendSource(x.CreateSourceOperand()); i.AppendSource(y.CreateSourceOperand()); i.AppendSource(w.CreateSourceOperand()); i.AppendDestination(z.CreateDestinationOperand(0));
  auto X = [&](int k) { return x.data_buffer()->template Get<A>(k); }; auto Y = [&](int k) { return y.data_buffer()->template Get<B>(k); }; auto W = [&](int k) { return w.data_buffer()->template Get<B>(k); }; auto Z = [&](int k) { return z.data_buffer()->template Get<R>(k); };
  int calls = 0;
  TernaryVectorOp<R, A, B, B>(&i, [&](A a, B b, B c) -> R { calls++; return (R)(a * 5 + b * 3 - c); }); VPD_CHECK(calls == N, "calls of the operation"); for (int k = 0; k < N; k++) VPD_CHECK(Z(k) == (R)(X(k) * 5 + Y(k) * 3 - W(k)), "ternary element ", k);
  BinaryVectorOp<R, A, B>(&i, [](A a, B b) -> R { return (R)(a * 5 - b); }); for (int k = 0; k < N; k++) VPD_CHECK(Z(k) == (R)(X(k) * 5 - Y(k)), "binary element ", k);
  UnaryVectorOp<R, A>(&i, [](A a) -> R { return (R)(a + 7); }); for (int k = 0; k < N; k++) VPD_CHECK(Z(k) == (R)(X(k) + 7), "unary element ", k);
  BinaryOp<R, A, B>(&i, [](A a, B b) -> R { return (R)(a - b * 3); }); VPD_CHECK(Z(0) == (R)(X(0) - Y(0) * 3), "binary"); UnaryOp<R, A>(&i, [](A a) -> R { return (R)(a - 9); }); VPD_CHECK(Z(0) == (R)(X(0) - 9), "unary");
  vpd::distinct_case(r.s);
}
int main(int argc, char** argv) {
  Rng r(atoll(argv[1])); vpd::Clock clk(atof(argv[2])); bool quick = std::string(argv[3]) == "quick"; int n = quick ? 3000 : 400000; St st;
  for (int i = 0; i < n && (i < 60 || clk.more()); i++) { Tree(r); Ops(r); if (i % 8 == 0) { Vec<uint32_t, uint16_t, uint8_t>(r, st); Vec<uint64_t, uint32_t, uint32_t>(r, st); Vec<int16_t, int8_t, uint8_t>(r, st); Vec<uint8_t, uint8_t, uint16_t>(r, st); Vec<uint64_t, uint32_t, uint16_t, 8, 16>(r, st); Vec<uint32_t, uint16_t, uint8_t, 16, 8>(r, st); Vec<uint32_t, uint32_t, uint32_t, 16, 12>(r, st); } if (i < 2) vpd::sample("a random tree of instructions dropped in random order; random operands and attributes; helpers on 8-element registers"); }
  VPD_DONE(); return 0;
}
