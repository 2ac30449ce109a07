// C23: an action point keeps exactly the actions set, and a breakpoint is in memory exactly while one of them is enabled.
// Any number of action points with any number of actions; the maps are discovered entry by entry.  Invariant of a point: the number of active
// actions is the number of enabled ones (those not discovered are counted in `rest`), its ids lie below the next id, and the memory at its
// address holds a breakpoint exactly if the number is not zero.
#include "vp.h"
#include "mpact/sim/generic/action_point_manager_base.cc"
using namespace mpact::sim::generic;
using M = ActionPointManagerBase;
struct Point { uint64_t address; M::ActionPointInfo* ap; bool had; int rest, next; };
static Point g_p[2];
struct Act { M::ActionPointInfo* ap; int id; M::ActionInfo* info; bool had, on; };
static Act g_a[4]; static int g_na;
static uint64_t g_A, g_B;        // two different addresses
static bool g_bp[2], g_elsewhere; static bool g_fail; static int g_writes;
struct Mem : public ActionPointMemoryInterface {
  absl::Status Write(uint64_t a, bool bp) {
    if (g_fail) return absl::InternalError("refused");
    g_writes++;
    if (a == g_A) g_bp[0] = bp; else if (a == g_B) g_bp[1] = bp; else g_elsewhere = true;
    return absl::OkStatus();
  }
  absl::Status WriteOriginalInstruction(uint64_t a) override { return Write(a, false); }
  absl::Status WriteBreakpointInstruction(uint64_t a) override { return Write(a, true); }
};
static int g_called;
namespace std {
template <> struct vp_lazy_entry<uint64_t, M::ActionPointInfo*> {
  static bool present(const void*, const uint64_t& k) { return vp_any<bool>("point"); }
  static void init(const void*, const uint64_t& k, M::ActionPointInfo** v) {
    auto* ap = new M::ActionPointInfo(k);
    ap->next_id = vp_any<int>("next"); ap->num_active = vp_any<int>("active");
    vp_assume(ap->next_id >= 0 && ap->next_id < 1000000 && ap->num_active >= 0 && ap->num_active <= ap->next_id);
    ap->action_map.lazy = true;
    *v = ap;
  }
};
template <> struct vp_lazy_entry<int, M::ActionInfo*> {
  static bool present(const void* m, const int& k) {
    bool p = vp_any<bool>("action");
    for (int i = 0; i < 2; i++) if (g_p[i].ap && m == &g_p[i].ap->action_map) vp_assume(!p || (k >= 0 && k < g_p[i].next));
    return p;
  }
  static void init(const void*, const int&, M::ActionInfo** v) { *v = new M::ActionInfo([](uint64_t, int) { g_called++; }, vp_any<bool>("enabled")); }
};
}
static Mem g_mem; static M* g_m;
static int g_id, g_other;       // the id used and any other id
static void Setup() {
  g_m = new M(&g_mem);
  g_m->action_point_map_.lazy = true;
  g_A = vp_any<uint64_t>("A"); g_B = vp_any<uint64_t>("B");
  vp_assume(g_A != g_B);
  g_id = vp_any<int>("id"); g_other = vp_any<int>("other");
  vp_assume(g_id != g_other);
  for (int i = 0; i < 2; i++) {
    Point& p = g_p[i];
    p.address = i ? g_B : g_A;
    auto it = g_m->action_point_map_.find(p.address);
    p.had = it != g_m->action_point_map_.end();
    p.ap = p.had ? it->second : nullptr;
    if (p.had) p.next = p.ap->next_id;
    g_bp[i] = p.had && p.ap->num_active > 0;
  }
  g_na = 0;
  for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) {
    Act& a = g_a[2 * i + j];
    a.had = a.on = false; a.ap = g_p[i].ap; a.id = j ? g_other : g_id;
    if (!a.ap) continue;
    auto it = a.ap->action_map.find(a.id);
    a.had = it != a.ap->action_map.end();
    if (a.had) { a.info = it->second; a.on = a.info->is_enabled; }
  }
  for (int i = 0; i < 2; i++) if (g_p[i].had) {
    g_p[i].rest = g_p[i].ap->num_active - (g_a[2 * i].on ? 1 : 0) - (g_a[2 * i + 1].on ? 1 : 0);
    vp_assume(g_p[i].rest >= 0);
  }
}
// everything is as recorded in g_p, g_a (updated by the operation's specification), and nothing else was written
static void Check() {
  for (int i = 0; i < 2; i++) {
    Point& p = g_p[i];
    auto it = g_m->action_point_map_.find(p.address);
    int on = (g_a[2 * i].on ? 1 : 0) + (g_a[2 * i + 1].on ? 1 : 0) + (p.had ? p.rest : 0);
    for (int j = 0; j < 2; j++) {
      Act& a = g_a[2 * i + j];
      vp_assert(g_m->IsActionEnabled(p.address, a.id) == a.on, "an action is enabled exactly when it was set or enabled last");
      bool in = it != g_m->action_point_map_.end() && it->second->action_map.contains(a.id);
      vp_assert(in == a.had, "the actions are those set and not cleared");
      if (in) vp_assert(a.id < it->second->next_id, "ids used are not handed out again");
    }
    if (it != g_m->action_point_map_.end()) vp_assert(it->second->num_active == on, "active actions are counted");
    vp_assert(g_m->IsActionPointActive(p.address) == (on > 0), "a point is active exactly while one of its actions is enabled");
    vp_assert(g_bp[i] == (on > 0), "a breakpoint is in memory exactly while one action is enabled");
    if (g_a[2 * i].had || g_a[2 * i + 1].had || on > 0) vp_assert(g_m->HasActionPoint(p.address), "an address with actions has an action point");
  }
  vp_assert(!g_elsewhere, "no other address is written");
  vp_assert(g_called == 0, "no action is performed");
}
VP_HARNESS(clear) {
  Setup();
  vp_cover("pre");
  absl::Status s = g_m->ClearAction(g_A, g_id);
  vp_assert(s.ok() == g_a[0].had, "clearing an action that is there, and no other, succeeds");
  if (g_a[0].had) { vp_cover("cleared"); vp_assert(!__vp_is_live(g_a[0].info), "a cleared action is released"); }
  g_a[0].had = g_a[0].on = false;
  Check();
  vp_cover("post");
}
VP_HARNESS(enable) {
  Setup();
  vp_cover("pre");
  absl::Status s = g_m->EnableAction(g_A, g_id);
  vp_assert(s.ok() == g_a[0].had, "enabling an action that is there, and no other, succeeds");
  if (g_a[0].had) { vp_cover("enabled"); g_a[0].on = true; }
  Check();
  vp_cover("post");
}
VP_HARNESS(disable) {
  Setup();
  vp_cover("pre");
  absl::Status s = g_m->DisableAction(g_A, g_id);
  vp_assert(s.ok() == g_a[0].had, "disabling an action that is there, and no other, succeeds");
  if (g_a[0].had) { vp_cover("disabled"); g_a[0].on = false; }
  Check();
  vp_cover("post");
}
VP_HARNESS(idempotent) {      // nothing is written when nothing changes
  Setup();
  vp_assume(g_a[0].had);
  bool on = g_a[0].on;
  vp_assert((on ? g_m->EnableAction(g_A, g_id) : g_m->DisableAction(g_A, g_id)).ok(), "the state asked for");
  Check();
  vp_cover("post");
}
VP_HARNESS(set) {
  Setup();
  g_fail = vp_any<bool>("refused");
  vp_cover("pre");
  bool needs = !g_bp[0];
  auto r = g_m->SetAction(g_A, [](uint64_t, int) { g_called++; });
  if (g_fail && needs) {
    g_fail = false;
    vp_cover("refused");
    vp_assert(!r.ok(), "a breakpoint that cannot be written is an error");
    Check();
    return;
  }
  vp_assert(r.ok(), "an action can be set");
  int id = r.value();
  vp_assert(g_p[0].had ? !(g_a[0].had && id == g_id) && !(g_a[1].had && id == g_other) : true, "the id is not in use");
  // the new action is the one looked at, or neither of those looked at
  if (id == g_id) { g_a[0].had = g_a[0].on = true; vp_cover("used"); }
  else if (id == g_other) { g_a[1].had = g_a[1].on = true; }
  else { if (!g_p[0].had) { g_p[0].had = true; g_p[0].rest = 0; } g_p[0].rest++; }
  if (!g_p[0].had) { g_p[0].had = true; g_p[0].rest = 0; }
  vp_assert(g_m->IsActionEnabled(g_A, id), "the new action is enabled");
  Check();
  vp_cover("post");
}
// performing: 3 actions, any of them enabled, one possibly cleared; clearing all and destruction: 2 points
static uint64_t g_ca[8]; static int g_ci[8];
VP_BOUNDED(perform) {
  g_A = vp_any<uint64_t>("A"); g_B = vp_any<uint64_t>("B");
  vp_assume(g_A != g_B);
  int64_t heap = __vp_heap_count();
  {
    M m(&g_mem);
    m.PerformActions(g_A);                       // nothing there
    vp_assert(g_called == 0 && g_writes == 0, "nothing is performed at an address without actions");
    auto f = [](uint64_t a, int i) { g_ca[g_called] = a; g_ci[g_called] = i; g_called++; };
    int id[3]; bool on[3];
    for (int k = 0; k < 3; k++) { auto r = m.SetAction(g_A, f); vp_assert(r.ok(), "set"); id[k] = r.value(); }
    auto rb = m.SetAction(g_B, f);
    vp_assert(rb.ok() && g_bp[0] && g_bp[1], "breakpoints are written");
    for (int k = 0; k < 3; k++) { on[k] = vp_any<bool>("on"); if (!on[k]) vp_assert(m.DisableAction(g_A, id[k]).ok(), "disable"); }
    if (vp_any<bool>("clear")) { vp_assert(m.ClearAction(g_A, id[1]).ok(), "clear"); on[1] = false; }
    bool p = vp_any<bool>("other point");
    g_called = 0;
    m.PerformActions(p ? g_B : g_A);
    int n = 0;
    if (p) { vp_assert(g_called == 1 && g_ca[0] == g_B && g_ci[0] == rb.value(), "exactly the enabled actions of the address are performed"); }
    else {
      for (int k = 0; k < 3; k++) if (on[k]) { vp_assert(n < g_called && g_ca[n] == g_A && g_ci[n] == id[k], "every enabled action is performed once, in order"); n++; }
      vp_assert(g_called == n, "exactly the enabled actions of the address are performed");
    }
    vp_assert(g_bp[0] == (on[0] || on[1] || on[2]) && g_bp[1], "performing writes nothing");
    if (vp_any<bool>("clear all")) {
      m.ClearAllActionPoints();
      vp_assert(!g_bp[0] && !g_bp[1] && !m.HasActionPoint(g_A) && !m.HasActionPoint(g_B) && !m.IsActionPointActive(g_A) && !m.IsActionEnabled(g_B, rb.value()), "clearing all leaves nothing");
      g_called = 0;
      m.PerformActions(g_A);
      vp_assert(g_called == 0, "nothing is performed after clearing all");
    }
    vp_assert(!g_elsewhere, "no other address is written");
  }
  vp_assert(__vp_heap_count() == heap, "everything is released");
  vp_cover("post");
}
