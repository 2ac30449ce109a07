// C22: Append, for lists of any length: the recursive call is checked against the function's own contract.
#include "vp.h"
#include "mpact/sim/generic/instruction.cc"
#include "mpact/sim/generic/resource_operand_interface.h"
using namespace mpact::sim::generic;
// an instruction whose deletion is recorded
struct Inst : public Instruction {
  bool* gone;
  Inst(uint64_t a, bool* g) : Instruction(a, nullptr), gone(g) { *g = false; }
  ~Inst() override { *gone = true; }
};
static void Refs(Instruction* i, uint64_t& r) {
  uint64_t d = vp_any<uint64_t>("dec");
  r = vp_any<uint64_t>("refs");
  vp_assume(r >= 1 && r < (1ull << 30) && d < (1ull << 40));
  i->dec_count_ = d;
  i->inc_count_ = d + r;
}
// the recursive call of Append: checked against its contract, which is the postcondition proved in append below
static int g_rec;
static Instruction* g_rec_self;
static Instruction* g_rec_arg;
extern "C" void vp_rec__ZN5mpact3sim7generic11Instruction6AppendEPS2_(Instruction* self, Instruction* inst) {
  vp_assert(inst != nullptr, "what is appended is passed on");
  g_rec++;
  g_rec_self = self;
  g_rec_arg = inst;
}
VP_HARNESS(append) {
  bool g0, g1, g2;
  Inst a(1, &g0);
  auto* x = new Inst(2, &g1);
  auto* n = new Inst(3, &g2);
  uint64_t rx, rn;
  Refs(x, rx);
  Refs(n, rn);
  bool last = vp_any<bool>("last");
  a.next_ = last ? nullptr : n;
  g_rec = 0;
  vp_cover("pre");
  bool child = vp_any<bool>("child");
  Inst* p = nullptr;
  bool g3;
  if (child) {
    // a is the first child of p
    p = new Inst(4, &g3);
    p->child_ = &a;
    a.parent_ = p;
    p->AppendChild(x);
    vp_assert(p->child() == &a, "the first child stays the first");
    vp_assert(x->parent() == p, "a child knows its parent");
  } else {
    a.Append(x);
    vp_assert(x->parent() == nullptr, "no parent is made up");
  }
  vp_assert(x->next() == nullptr && (n->next() == nullptr || n->next() == x), "no links are made up");
  vp_assert((uint64_t)n->ref_count() == rn, "other references are untouched");
  if (last) {
    vp_assert(a.next() == x && (uint64_t)x->ref_count() == rx + 1 && g_rec == 0, "at the end of the list the instruction is linked and owned, once");
  } else {
    vp_assert(a.next() == n, "the list keeps its order");
    bool passed_on = g_rec == 1 && g_rec_self == n && g_rec_arg == x && (uint64_t)x->ref_count() == rx && n->next() == nullptr;
    bool linked = g_rec == 0 && n->next() == x && (uint64_t)x->ref_count() == rx + 1;
    vp_assert(passed_on || linked, "and the rest of the list takes the new instruction, once");
  }
  a.next_ = nullptr;
  n->next_ = nullptr;
  vp_cover("post");
}
