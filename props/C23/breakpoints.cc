// C23: a breakpoint is one action of its address.  The action point manager is replaced by its contract: calls are recorded, any of them may
// be refused, ids are arbitrary.
#include "vp.h"
#include "mpact/sim/generic/breakpoint_manager.cc"
using namespace mpact::sim::generic;
using B = BreakpointManager;
static int g_set, g_clear, g_on, g_off; static uint64_t g_address; static int g_gave, g_id; static bool g_refuse, g_enabled;
static ActionPointManagerBase::ActionFcn* g_fcn;
namespace mpact::sim::generic {
absl::StatusOr<int> ActionPointManagerBase::SetAction(uint64_t address, ActionFcn f) {
  g_set++; g_address = address;
  if (g_refuse) return absl::InternalError("refused");
  g_fcn = new ActionFcn(std::move(f));
  return g_gave;
}
absl::Status ActionPointManagerBase::ClearAction(uint64_t address, int id) { g_clear++; g_address = address; g_id = id; if (g_refuse) return absl::InternalError("refused"); return absl::OkStatus(); }
absl::Status ActionPointManagerBase::EnableAction(uint64_t address, int id) { g_on++; g_address = address; g_id = id; if (g_refuse) return absl::InternalError("refused"); return absl::OkStatus(); }
absl::Status ActionPointManagerBase::DisableAction(uint64_t address, int id) { g_off++; g_address = address; g_id = id; if (g_refuse) return absl::InternalError("refused"); return absl::OkStatus(); }
bool ActionPointManagerBase::IsActionEnabled(uint64_t address, int id) const { g_address = address; g_id = id; return g_enabled; }
}
namespace std {
template <> struct vp_lazy_entry<uint64_t, B::BreakpointInfo*> {
  static bool present(const void*, const uint64_t&) { return vp_any<bool>("breakpoint"); }
  static void init(const void*, const uint64_t& k, B::BreakpointInfo** v) { *v = new B::BreakpointInfo{k, vp_any<int>("id"), vp_any<bool>("active")}; }
};
}
static B* g_b; static uint64_t g_a, g_o; static bool g_had, g_ohad; static int g_bid; static int g_halts; static int g_oid;
static void Setup() {
  static uint64_t room[64];
  g_b = new B(reinterpret_cast<ActionPointManagerBase*>(room), []() { g_halts++; });
  g_b->breakpoint_map_.lazy = true;
  g_a = vp_any<uint64_t>("a"); g_o = vp_any<uint64_t>("o");
  vp_assume(g_a != g_o);
  auto i = g_b->breakpoint_map_.find(g_a), o = g_b->breakpoint_map_.find(g_o);
  g_had = i != g_b->breakpoint_map_.end(); g_ohad = o != g_b->breakpoint_map_.end();
  if (g_had) g_bid = i->second->id;
  if (g_ohad) g_oid = o->second->id;
  g_gave = vp_any<int>("gave"); g_refuse = vp_any<bool>("refuse"); g_enabled = vp_any<bool>("enabled");
  vp_cover("pre");
}
static void Check() {
  vp_assert(g_b->HasBreakpoint(g_a) == g_had && g_b->HasBreakpoint(g_o) == g_ohad, "the breakpoints are those set and not cleared");
  g_enabled = vp_any<bool>("now");
  vp_assert(g_b->IsBreakpoint(g_a) == (g_had && g_enabled), "a breakpoint is one when its action is enabled");
  if (g_had) vp_assert(g_address == g_a && g_id == g_bid, "a breakpoint goes by its own action");
  vp_assert(g_b->IsBreakpoint(g_o) == (g_ohad && g_enabled), "a breakpoint is one when its action is enabled");
  if (g_ohad) vp_assert(g_address == g_o && g_id == g_oid, "a breakpoint goes by its own action");
  vp_assert(g_halts == 0, "no halt is requested");
}
VP_HARNESS(set_breakpoint) {
  Setup();
  auto s = g_b->SetBreakpoint(g_a);
  vp_assert(s.ok() == (!g_had && !g_refuse), "a breakpoint can be set where there is none");
  vp_assert(g_clear == 0 && g_on == 0 && g_off == 0 && g_set == (g_had ? 0 : 1), "one action is set for a new breakpoint");
  if (!g_had) vp_assert(g_address == g_a, "the action is set at the address");
  if (s.ok()) { g_had = true; g_bid = g_gave; vp_cover("set"); }
  Check();
  if (s.ok()) {
    (*g_fcn)(g_a, g_bid);
    vp_assert(g_halts == 1 && g_b->last_breakpoint_address() == g_a, "reaching a breakpoint requests one halt and is recorded");
  }
  vp_cover("post");
}
VP_HARNESS(clear_breakpoint) {
  Setup();
  auto s = g_b->ClearBreakpoint(g_a);
  vp_assert(s.ok() == (g_had && !g_refuse), "a breakpoint that is there can be cleared");
  vp_assert(g_set == 0 && g_on == 0 && g_off == 0 && g_clear == (g_had ? 1 : 0), "its action, and nothing else, is cleared");
  if (g_had) vp_assert(g_address == g_a && g_id == g_bid, "its action, and nothing else, is cleared");
  if (s.ok()) { g_had = false; vp_cover("cleared"); }
  Check();
  vp_cover("post");
}
VP_HARNESS(enable_breakpoint) {
  Setup();
  auto s = g_b->EnableBreakpoint(g_a);
  vp_assert(s.ok() == (g_had && !g_refuse), "a breakpoint that is there can be enabled");
  vp_assert(g_set == 0 && g_clear == 0 && g_off == 0 && g_on == (g_had ? 1 : 0), "its action, and nothing else, is enabled");
  if (g_had) vp_assert(g_address == g_a && g_id == g_bid, "its action, and nothing else, is enabled");
  Check();
  vp_cover("post");
}
VP_HARNESS(disable_breakpoint) {
  Setup();
  auto s = g_b->DisableBreakpoint(g_a);
  vp_assert(s.ok() == (g_had && !g_refuse), "a breakpoint that is there can be disabled");
  vp_assert(g_set == 0 && g_clear == 0 && g_on == 0 && g_off == (g_had ? 1 : 0), "its action, and nothing else, is disabled");
  if (g_had) vp_assert(g_address == g_a && g_id == g_bid, "its action, and nothing else, is disabled");
  Check();
  vp_cover("post");
}
