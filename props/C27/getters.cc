// C27: what an encoding tells of its masks and value, on top of the contract of ComputeMaskAndValue (proved in encoding.cc).
#include "vp.h"
#include "mpact/sim/decoder/overlay.h"
#include "mpact/sim/decoder/format.h"
#include "mpact/sim/decoder/instruction_encoding.cc"
#include <new>
using namespace mpact::sim::decoder::bin_format;
static uint64_t g_m, g_o, g_x, g_v;
static int g_computed;
static Field* g_f;
extern "C" absl::Status vp_contract__ZN5mpact3sim7decoder10bin_format19InstructionEncoding19ComputeMaskAndValueEv(InstructionEncoding* e) {
  g_computed++;
  e->mask_ = g_m;
  e->other_mask_ = g_o;
  e->extracted_mask_ = g_x;
  e->value_ = g_v;
  e->mask_set_ = true;
  return absl::OkStatus();
}
static InstructionEncoding* Any() {
  InstructionEncoding* e = new InstructionEncoding("i", nullptr, false);
  g_m = vp_any<uint64_t>("mask");
  g_o = vp_any<uint64_t>("other");
  g_x = vp_any<uint64_t>("extracted");
  g_v = vp_any<uint64_t>("value");
  g_computed = 0;
  e->mask_set_ = vp_any<bool>("masks known");
  bool k = e->mask_set_;
  // masks that are known are those of the constraints, others may be anything
  e->mask_ = k ? g_m : vp_any<uint64_t>("old mask");
  e->other_mask_ = k ? g_o : vp_any<uint64_t>("old other");
  e->extracted_mask_ = k ? g_x : vp_any<uint64_t>("old extracted");
  e->value_ = k ? g_v : vp_any<uint64_t>("old value");
  return e;
}
VP_HARNESS(mask) { vp_assert(Any()->GetMask() == g_m, "the mask of the equality constraints"); vp_cover("post"); }
VP_HARNESS(value) { vp_assert(Any()->GetValue() == g_v, "the value of the equality constraints"); vp_cover("post"); }
VP_HARNESS(combined) { vp_assert(Any()->GetCombinedMask() == (g_m | g_o | g_x), "the bits of all constraints"); vp_cover("post"); }
// a copy has the same constraints and masks
VP_HARNESS(copy) {
  InstructionEncoding* e = Any();
  auto add = [](std::vector<Constraint*>& v, const char* s) { Constraint* c = nullptr; if (vp_any<bool>(s)) { c = new Constraint(); c->type = (ConstraintType)vp_any<int>("type"); c->value = vp_any<uint64_t>("v"); c->field = g_f; c->can_ignore = vp_any<bool>("ci"); v.push_back(c); } return c; };
  Constraint* a = add(e->equal_constraints_, "equal");
  Constraint* b = add(e->equal_extracted_constraints_, "extracted");
  Constraint* c = add(e->other_constraints_, "other");
  InstructionEncoding f(*e);
  vp_assert(f.GetMask() == g_m && f.GetValue() == g_v && f.GetCombinedMask() == (g_m | g_o | g_x), "a copy has the same masks and value");
  auto same = [](std::vector<Constraint*>& v, Constraint* c) { return v.size() == (c ? 1u : 0u) && (!c || (v[0] != c && v[0]->type == c->type && v[0]->value == c->value && v[0]->field == c->field && v[0]->can_ignore == c->can_ignore)); };
  vp_assert(same(f.equal_constraints_, a) && same(f.equal_extracted_constraints_, b) && same(f.other_constraints_, c), "and its own copies of the constraints");
  vp_cover("post");
}
VP_HARNESS(add_specialization) {
  InstructionEncoding* e = Any();
  InstructionEncoding* s = new InstructionEncoding("s", nullptr, false);
  vp_assert(!e->HasSpecialization(), "none at first");
  vp_assert(e->AddSpecialization("s", s).ok() && e->HasSpecialization() && e->specializations_.find("s")->second == s, "a specialization is found under its name");
  vp_cover("post");
}
