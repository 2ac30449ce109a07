// C19: initiators and targets of a MemoryRouter are found by their names, and a mapping connects exactly those named.
#include "vprange.h"
#include "mpact/sim/generic/data_buffer.cc"
#include "mpact/sim/generic/instruction.cc"
#include "mpact/sim/util/memory/single_initiator_router.cc"
#include "mpact/sim/util/memory/memory_router.h"
#include "vpsim.h"
using namespace mpact::sim::util;
typedef SingleInitiatorRouter Single;
static std::string vp_any_string(const char* name) { std::string s; s.id = vp_any<uint64_t>(name); return s; }
struct Target : public TaggedMemoryInterface {
  void Load(uint64_t, DataBuffer*, Instruction*, ReferenceCount*) override {}
  void Store(uint64_t, DataBuffer*) override {}
  void Load(DataBuffer*, DataBuffer*, int, DataBuffer*, Instruction*, ReferenceCount*) override {}
  void Store(DataBuffer*, DataBuffer*, int, DataBuffer*) override {}
  void Load(uint64_t, DataBuffer*, DataBuffer*, Instruction*, ReferenceCount*) override {}
  void Store(uint64_t, DataBuffer*, DataBuffer*) override {}
};
struct Atomic : public AtomicMemoryOpInterface {
  absl::Status PerformMemoryOp(uint64_t, Operation, DataBuffer*, Instruction*, ReferenceCount*) override { return absl::OkStatus(); }
};
// what any name stands for among the targets: nothing, or a plain, tagged or atomic target.  Invariant of the router: a
// name is in the set of target names exactly when it is in one of the three maps, and it is in one map only.
struct Meaning { std::string name; int kind; Target* target; Atomic* atomic; };
static Meaning* g_meaning[4];
static int g_meanings;
static Meaning* Of(const std::string& n) {
  for (int i = 0; i < g_meanings; i++) if (g_meaning[i]->name == n) return g_meaning[i];
  int k = vp_any<int>("what the name stands for");
  vp_assume(k >= 0 && k <= 3);
  return g_meaning[g_meanings++] = new Meaning{n, k, new Target, new Atomic};
}
namespace std {
template <> struct vp_lazy_entry<string, MemoryInterface*> {
  static bool present(const void*, const string& k) { return Of(k)->kind == 1; }
  static void init(const void*, const string& k, MemoryInterface** v) { *v = Of(k)->target; }
};
template <> struct vp_lazy_entry<string, TaggedMemoryInterface*> {
  static bool present(const void*, const string& k) { return Of(k)->kind == 2; }
  static void init(const void*, const string& k, TaggedMemoryInterface** v) { *v = Of(k)->target; }
};
template <> struct vp_lazy_entry<string, AtomicMemoryOpInterface*> {
  static bool present(const void*, const string& k) { return Of(k)->kind == 3; }
  static void init(const void*, const string& k, AtomicMemoryOpInterface** v) { *v = Of(k)->atomic; }
};
template <> struct vp_lazy_entry<string, char> {
  static bool present(const void*, const string& k) { return Of(k)->kind != 0; }
  static void init(const void*, const string&, char* v) { *v = 0; }
};
template <> struct vp_lazy_entry<string, Single*> {
  static bool present(const void*, const string&) { return vp_any<bool>("initiator there"); }
  static void init(const void*, const string& k, Single** v) { *v = new Single(k); }
};
}
#include "mpact/sim/util/memory/memory_router.cc"
static MemoryRouter* AnyRouter() {
  MemoryRouter* r = new MemoryRouter;
  r->initiators_.lazy = r->target_names_.m.lazy = r->memory_targets_.lazy = r->tagged_targets_.lazy = r->atomic_targets_.lazy = true;
  g_meanings = 0;
  return r;
}
static int Added(Single* s) { return s->memory_targets_.inserted + s->tagged_targets_.inserted + s->atomic_targets_.inserted; }
VP_HARNESS(initiators) {
  MemoryRouter* r = AnyRouter();
  std::string n = vp_any_string("initiator"), o = vp_any_string("other");
  vp_assume(n != o);
  bool had = r->initiators_.contains(n), had_o = r->initiators_.contains(o);
  Single* was = had ? r->initiators_.at(n) : nullptr;
  vp_cover("pre");
  MemoryInterface* a = r->AddMemoryInitiator(n);
  TaggedMemoryInterface* b = r->AddTaggedInitiator(n);
  AtomicMemoryOpInterface* c = r->AddAtomicInitiator(n);
  Single* s = r->initiators_.at(n);
  if (had) vp_assert(s == was, "an initiator that is there is used");
  vp_assert(a == static_cast<TaggedMemoryInterface*>(s) && b == s && c == s, "the three interfaces of a name belong to one initiator");
  vp_assert(s->name() == n, "it has its name");
  vp_assert(r->initiators_.contains(o) == had_o, "no other initiator is added");
  MemoryInterface* d = r->AddMemoryInitiator(o);
  vp_assert(d != a, "another name is another initiator");
  vp_cover("post");
}
template <int kKind> static void AddTarget() {
  MemoryRouter* r = AnyRouter();
  std::string n = vp_any_string("name"), o = vp_any_string("other");
  vp_assume(n != o);
  int kind = Of(n)->kind, kind_o = Of(o)->kind;
  Target* t = new Target;
  Atomic* at = new Atomic;
  vp_cover("pre");
  bool ok = kKind == 1 ? r->AddTarget(n, static_cast<MemoryInterface*>(t)).ok() : kKind == 2 ? r->AddTarget(n, static_cast<TaggedMemoryInterface*>(t)).ok() : r->AddTarget(n, at).ok();
  vp_assert(ok == (kind == 0), "a target is accepted exactly when its name is not taken by a target of any kind");
  int now = ok ? kKind : kind;
  vp_assert(r->target_names_.contains(n) == (now != 0), "the name is known if there is a target");
  vp_assert(r->memory_targets_.contains(n) == (now == 1) && r->tagged_targets_.contains(n) == (now == 2) && r->atomic_targets_.contains(n) == (now == 3), "it is a target of its kind");
  if (ok && kKind == 1) vp_assert(r->memory_targets_.at(n) == t, "the one given");
  if (ok && kKind == 2) vp_assert(r->tagged_targets_.at(n) == t, "the one given");
  if (ok && kKind == 3) vp_assert(r->atomic_targets_.at(n) == at, "the one given");
  if (!ok && now == 1) vp_assert(r->memory_targets_.at(n) == Of(n)->target, "a target that is there stays");
  vp_assert(r->target_names_.contains(o) == (kind_o != 0) && r->memory_targets_.contains(o) == (kind_o == 1) && r->tagged_targets_.contains(o) == (kind_o == 2) && r->atomic_targets_.contains(o) == (kind_o == 3), "other names stand for what they did");
  vp_cover("post");
}
VP_HARNESS(add_memory) { AddTarget<1>(); }
VP_HARNESS(add_tagged) { AddTarget<2>(); }
VP_HARNESS(add_atomic) { AddTarget<3>(); }
VP_HARNESS(mapping) {
  MemoryRouter* r = AnyRouter();
  std::string n = vp_any_string("initiator"), o = vp_any_string("other"), t = vp_any_string("target");
  vp_assume(n != o);
  uint64_t a = vp_any<uint64_t>("base"), b = vp_any<uint64_t>("top");
  bool had = r->initiators_.contains(n), had_o = r->initiators_.contains(o);
  Single *s = had ? r->initiators_.at(n) : nullptr, *so = had_o ? r->initiators_.at(o) : nullptr;
  int kind = Of(t)->kind;
  vp_cover("pre");
  bool ok = r->AddMapping(n, t, a, b).ok();
  vp_assert(ok == (had && kind != 0 && a < b), "a mapping is accepted exactly when both names are known and the single router accepts it");
  if (had) {
    vp_assert(Added(s) == (ok ? 1 : 0), "one range is added to the initiator");
    if (ok && kind == 1) vp_assert(s->memory_targets_.inserted == 1 && s->memory_targets_.o->second == Of(t)->target && s->memory_targets_.o->first.base == a && s->memory_targets_.o->first.top == b, "leading to the target named");
    if (ok && kind == 2) vp_assert(s->tagged_targets_.inserted == 1 && s->tagged_targets_.o->second == Of(t)->target && s->tagged_targets_.o->first.base == a && s->tagged_targets_.o->first.top == b, "leading to the tagged target named");
    if (ok && kind == 3) vp_assert(s->atomic_targets_.inserted == 1 && s->atomic_targets_.o->second == Of(t)->atomic && s->atomic_targets_.o->first.base == a && s->atomic_targets_.o->first.top == b, "leading to the atomic target named");
  }
  if (had_o) vp_assert(Added(so) == 0, "no other initiator changes");
  vp_assert(r->initiators_.contains(n) == had, "a mapping adds no initiator");
  vp_cover("post");
}
