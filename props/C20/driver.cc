// C20 bounded supplement: random histories of reservations against a list of busy points in time; all masks of all depths.
#include "vpd.h"
#include <set>
#include <vector>
#include "mpact/sim/generic/arch_state.h"
#include "mpact/sim/generic/complex_resource.h"
#include "mpact/sim/generic/complex_resource_operand.h"
using namespace mpact::sim::generic; using vpd::Rng;
struct St : public ArchState { St() : ArchState("state") {} void at(uint64_t c) { set_cycle(c); } };
static void Run(Rng& r, St& st) {
  vpd::log().clear(); vpd::cases++; uint64_t now = st.cycle(); size_t depth = 64 * (1 + r.below(8)); ComplexResource res(&st, "r", depth); ComplexResourceOperand op(&res); std::set<uint64_t> busy; bool has = false; uint64_t lo = 0, hi = 0;
  // a resource starts at time 0: bring it to now
  { uint64_t one = 1; VPD_CHECK(res.IsFree(absl::MakeConstSpan(&one, 1)), "a new resource is free"); }
  for (int k = 0; k < 60; k++) {
    int what = r.below(6); if (what == 0) { now += r.coin(85) ? r.below(64) : r.coin(60) ? depth + r.below(100) : (1ull << (32 + r.below(8))) + r.below(64); vpd::note(vpd::cat("time ", now)); st.at(now); while (!busy.empty() && *busy.begin() < now) busy.erase(busy.begin()); }
    else if (what <= 3) { std::vector<uint64_t> m(1 + r.below(depth / 64 + 1)); for (auto& x : m) x = r.coin(30) ? 0 : r.corner() & r.corner(); vpd::note(vpd::cat(what == 1 ? "ask" : what == 2 ? "acquire" : "release", " at ", now)); auto sp = absl::MakeConstSpan(m.data(), m.size());
      bool clash = false; for (size_t i = 0; i < m.size() * 64 && i < depth; i++) if ((m[i / 64] >> (i % 64)) & 1) { if (busy.count(now + i)) clash = true; if (what == 2) busy.insert(now + i); if (what == 3) busy.erase(now + i); }
      if (what == 1) VPD_CHECK(res.IsFree(sp) == !clash, "free: ", clash); else if (what == 2) res.Acquire(sp); else res.Release(sp); }
    else if (what == 4) { lo = r.below(depth); hi = lo + r.below(depth - lo); vpd::note(vpd::cat("mask ", lo, " to ", hi)); VPD_CHECK(op.SetCycleMask(lo, hi).ok(), "mask refused"); has = true; VPD_CHECK(!op.SetCycleMask(lo, depth + r.below(9)).ok() && (hi == lo || !op.SetCycleMask(hi, lo).ok()), "mask accepted"); }
    else if (has) { bool clash = false; for (uint64_t i = lo; i <= hi; i++) clash |= busy.count(now + i); VPD_CHECK(op.IsFree() == !clash, "operand free: ", clash); op.Acquire(); for (uint64_t i = lo; i <= hi; i++) busy.insert(now + i); }
    auto b = res.bit_array(); uint64_t one[8] = {}; VPD_CHECK(res.IsFree(absl::MakeConstSpan(one, 8)), "an empty mask is free"); for (size_t i = 0; i < depth; i++) VPD_CHECK(((b[i / 64] >> (i % 64)) & 1) == busy.count(now + i), "cycle ", i, " from now at ", now);
    vpd::distinct_case(vpd::mix(vpd::mix(what, busy.size()), vpd::mix(k, depth))); }
}
static void Masks(size_t depth) {
  St st; ComplexResource res(&st, "r", depth);
  for (size_t lo = 0; lo < depth; lo++) for (size_t hi = lo; hi < depth; hi += 1 + (hi - lo) / 9) { vpd::cases++; vpd::log().clear(); vpd::note(vpd::cat("mask ", lo, " to ", hi)); ComplexResourceOperand op(&res); VPD_CHECK(op.SetCycleMask(lo, hi).ok(), "mask refused"); auto s = op.bit_array(); VPD_CHECK(s.size() * 64 > hi && s.size() * 64 <= depth, "mask size"); for (size_t i = 0; i < s.size() * 64; i++) VPD_CHECK(((s[i / 64] >> (i % 64)) & 1) == (i >= lo && i <= hi), "cycle ", i); vpd::distinct_case(vpd::mix(lo, hi)); }
}
int main(int argc, char** argv) {
  Rng r(atoll(argv[1])); vpd::Clock clk(atof(argv[2])); bool quick = std::string(argv[3]) == "quick"; int n = quick ? 3000 : 400000; St st;
  for (size_t d = 64; d <= (quick ? 192u : 512u); d += 64) Masks(d);
  for (int i = 0; i < n && (i < 60 || clk.more()); i++) { Run(r, st); if (i < 2) vpd::sample("60 random reservations, releases, questions and clock steps of one resource"); }
  VPD_DONE(); return 0;
}
