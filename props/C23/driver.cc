// C23 bounded supplement: random histories of actions and breakpoints over a memory that may refuse, against a reference.
#include "vpd.h"
#include <map>
#include <memory>
#include <set>
#include "mpact/sim/generic/action_point_manager_base.h"
#include "mpact/sim/generic/breakpoint_manager.h"
using namespace mpact::sim::generic; using vpd::Rng;
struct Mem : public ActionPointMemoryInterface {
  std::map<uint64_t, bool> bp; bool fail = false;
  absl::Status W(uint64_t a, bool b) { if (fail) return absl::UnavailableError("refused"); bp[a] = b; return absl::OkStatus(); }
  absl::Status WriteOriginalInstruction(uint64_t a) override { return W(a, false); }
  absl::Status WriteBreakpointInstruction(uint64_t a) override { return W(a, true); }
};
struct A { bool on; int tag; };
static void Run(Rng& r) {
  vpd::log().clear(); vpd::cases++; Mem mem; int tags = 0; std::vector<std::tuple<int, uint64_t, int>> calls; uint64_t base = r.corner(); std::vector<uint64_t> at; for (int i = 0; i < 5; i++) at.push_back(i < 3 ? base + i * (1 + r.below(4)) : i == 3 ? base ^ (1ull << 32) : r.corner()); { std::set<uint64_t> u(at.begin(), at.end()); at.assign(u.begin(), u.end()); }
  std::map<uint64_t, std::map<int, A>> ref; std::map<uint64_t, int> bps; int halts = 0; uint64_t last = ~0ull;
  { ActionPointManagerBase m(&mem); BreakpointManager b(&m, [&] { halts++; }); VPD_CHECK(b.action_point_manager() == &m && m.ap_memory_interface() == &mem && b.last_breakpoint_address() == last, "parts");
  auto perform = [&](uint64_t a) { vpd::note(vpd::cat("perform at ", a)); calls.clear(); halts = 0; m.PerformActions(a); size_t n = 0; int h = 0; for (auto& [id, x] : ref[a]) if (x.on) { if (x.tag < 0) { h++; last = a; continue; } VPD_CHECK(n < calls.size() && calls[n] == std::make_tuple(x.tag, a, id), "action ", id, " at ", a, " performed in turn"); n++; } VPD_CHECK(n == calls.size(), calls.size(), " actions performed instead of ", n); VPD_CHECK(halts == h && b.last_breakpoint_address() == last, "halts requested: ", halts, " instead of ", h); };
  for (int k = 0; k < 60; k++) {
    uint64_t a = at[r.below(at.size())]; auto& p = ref[a]; int op = r.below(13), id = r.coin(85) && !p.empty() ? std::next(p.begin(), r.below(p.size()))->first : (int)r.corner(); bool have = p.count(id); bool active = false; for (auto& x : p) active |= x.second.on;
    if (op <= 2) { mem.fail = r.coin(15); int t = tags++; vpd::note(vpd::cat("set ", t, " at ", a, mem.fail ? " refused" : "")); auto s = m.SetAction(a, [&calls, t](uint64_t w, int i) { calls.emplace_back(t, w, i); }); bool ok = active || !mem.fail; mem.fail = false; VPD_CHECK(s.ok() == ok, "set"); if (ok) { VPD_CHECK(!p.count(s.value()), "id ", s.value(), " is in use"); p[s.value()] = A{true, t}; } }
    else if (op == 3) { bool isbp = bps.count(a) && bps[a] == id; if (isbp) continue; vpd::note(vpd::cat("clear ", id, " at ", a)); VPD_CHECK(m.ClearAction(a, id).ok() == have, "clear"); p.erase(id); }
    else if (op == 4) { vpd::note(vpd::cat("enable ", id, " at ", a)); VPD_CHECK(m.EnableAction(a, id).ok() == have, "enable"); if (have) p[id].on = true; }
    else if (op == 5 || op == 6) { vpd::note(vpd::cat("disable ", id, " at ", a)); VPD_CHECK(m.DisableAction(a, id).ok() == have, "disable"); if (have) p[id].on = false; }
    else if (op == 7) perform(a);
    else if (op == 8) { mem.fail = r.coin(15); vpd::note(vpd::cat("breakpoint at ", a, mem.fail ? " refused" : "")); bool ok = !bps.count(a) && (active || !mem.fail); std::set<int> ids; for (auto& x : p) ids.insert(x.first); VPD_CHECK(b.SetBreakpoint(a).ok() == ok, "set breakpoint"); mem.fail = false;
      if (ok) { int n = -1; for (int i = 0; i < 500 && n < 0; i++) if (!p.count(i) && m.IsActionEnabled(a, i)) n = i; VPD_CHECK(n >= 0, "the breakpoint has an action"); p[n] = A{true, -1}; bps[a] = n; } }
    else if (op == 9) { vpd::note(vpd::cat("clear breakpoint at ", a)); bool h = bps.count(a); VPD_CHECK(b.ClearBreakpoint(a).ok() == h, "clear breakpoint"); if (h) { p.erase(bps[a]); bps.erase(a); } }
    else if (op == 10) { bool h = bps.count(a); bool on = r.coin(); vpd::note(vpd::cat(on ? "enable" : "disable", " breakpoint at ", a)); VPD_CHECK((on ? b.EnableBreakpoint(a) : b.DisableBreakpoint(a)).ok() == h, "breakpoint"); if (h) p[bps[a]].on = on; }
    else if (op == 11 && r.coin(20)) { vpd::note("clear all breakpoints"); b.ClearAllBreakpoints(); for (auto& [w, i] : bps) ref[w].erase(i); bps.clear(); }
    else if (op == 12 && r.coin(10)) { vpd::note("clear all"); b.ClearAllBreakpoints(); m.ClearAllActionPoints(); bps.clear(); ref.clear(); for (uint64_t w : at) VPD_CHECK(!m.HasActionPoint(w), "action points left"); }
    for (uint64_t w : at) { bool on = false; for (auto& [i, x] : ref[w]) { on |= x.on; VPD_CHECK(m.IsActionEnabled(w, i) == x.on, "action ", i, " at ", w, " enabled"); } VPD_CHECK(m.IsActionPointActive(w) == on, "point ", w, " active"); VPD_CHECK((mem.bp.count(w) && mem.bp[w]) == on, "breakpoint in memory at ", w, ", active: ", on); if (!ref[w].empty()) VPD_CHECK(m.HasActionPoint(w), "action point at ", w); VPD_CHECK(!m.IsActionEnabled(w, -1) && !m.IsActionEnabled(w, 1000000), "no such action");
      VPD_CHECK(b.HasBreakpoint(w) == (bps.count(w) > 0) && b.IsBreakpoint(w) == (bps.count(w) && ref[w][bps[w]].on), "breakpoint at ", w); }
    for (auto& [w, x] : mem.bp) VPD_CHECK(std::count(at.begin(), at.end(), w), "address ", w, " was written");
    vpd::distinct_case(vpd::mix(vpd::mix(op, ref.size()), vpd::mix(ref[a].size(), r.s))); }
  for (uint64_t w : at) perform(w); perform(~base); b.ClearAllBreakpoints(); }
}
int main(int argc, char** argv) {
  Rng r(atoll(argv[1])); vpd::Clock clk(atof(argv[2])); int n = std::string(argv[3]) == "quick" ? 4000 : 400000;
  for (int i = 0; i < n && (i < 60 || clk.more()); i++) { Run(r); if (i < 2) vpd::sample("60 random operations on actions and breakpoints at up to five addresses, with writes refused at times"); }
  VPD_DONE(); return 0;
}
