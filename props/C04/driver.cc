// C04 bounded supplement: random Add/Advance histories (growth at every latency, entries added while entries are applied) against a reference queue.
#include <functional>
#include <map>
#include <memory>
#include "vpd.h"
#include "mpact/sim/generic/delay_line.h"
#include "mpact/sim/generic/function_delay_line.h"
#include "mpact/sim/generic/data_buffer.h"
using namespace mpact::sim::generic;
using vpd::Rng;
static std::vector<uint64_t> g_seen;
struct Rec { uint64_t id; std::shared_ptr<int> own; Rec(uint64_t i, std::shared_ptr<int> o) : id(i), own(o) {} void Apply() { VPD_CHECK(own && *own == (int)id, "entry ", id, " lost its argument"); g_seen.push_back(id); } };
static void History(Rng& r, int steps, int maxlat) {
  vpd::log().clear(); g_seen.clear();
  int depth = 1 + r.below(r.coin() ? 4 : 33);
  DelayLine<Rec> dl(depth); vpd::note(vpd::cat("depth ", depth));
  std::map<uint64_t, std::vector<uint64_t>> due; uint64_t now = 0, id = 0, pend = 0, sig = depth;
  for (int s = 0; s < steps; s++) {
    vpd::cases++;
    if (r.coin(60)) {
      int lat = 1 + r.below(r.coin(80) ? 8 : maxlat); if (r.coin(8)) lat = 1 << r.below(7);
      vpd::note(vpd::cat("add latency ", lat)); sig = vpd::mix(sig, lat);
      int c = dl.Add(lat, id, std::make_shared<int>((int)id)); due[now + lat].push_back(id); id++; pend++;
      VPD_CHECK(c == (int)pend, "Add returned ", c, " expected ", pend);
    } else {
      now++; vpd::note("advance"); sig = vpd::mix(sig, 1000); g_seen.clear();
      int c = dl.Advance(); auto want = due[now]; due.erase(now); pend -= want.size();
      VPD_CHECK(g_seen == want, "cycle ", now, ": ", g_seen.size(), " entries applied, expected ", want.size(), " (or another order)");
      VPD_CHECK(c == (int)pend, "Advance returned ", c, " expected ", pend);
    }
    VPD_CHECK(dl.IsEmpty() == (pend == 0), "IsEmpty");
  }
  while (pend) { now++; g_seen.clear(); dl.Advance(); auto want = due[now]; due.erase(now); pend -= want.size(); VPD_CHECK(g_seen == want, "drain: cycle ", now); }
  VPD_CHECK(dl.IsEmpty(), "empty after drain");
  vpd::distinct_case(sig);
}
// functions that schedule further functions on the same line (in other cycles) while they run
static void Reentrant(Rng& r) {
  vpd::log().clear();
  FunctionDelayLine dl(64); std::map<uint64_t, int> due; uint64_t now = 0; int ran = 0, pend = 0;
  std::function<void(int)> sched = [&](int budget) {
    int lat = 1 + r.below(20); due[now + lat]++; pend++; vpd::note(vpd::cat("at ", now, " schedule +", lat));
    dl.Add(lat, [&, budget]() { ran++; pend--; int k = r.below(3); for (int i = 0; i < k && budget > 0; i++) sched(budget - 1); });
  };
  for (int i = 0; i < 5; i++) sched(4);
  for (int c = 0; c < 200; c++) { vpd::cases++; now++; ran = 0; int left = dl.Advance(); VPD_CHECK(ran == due[now], "cycle ", now, " ran ", ran, " functions, expected ", due[now]); VPD_CHECK(left == pend, "left ", left, " expected ", pend); VPD_CHECK(dl.IsEmpty() == (pend == 0), "IsEmpty"); }
}
struct Dst : public DataBufferDestination { std::vector<uint32_t> got; void SetDataBuffer(DataBuffer* db) override { got.push_back(db->Get<uint32_t>(0)); } };
static void Buffers(Rng& r) {
  vpd::log().clear(); DataBufferFactory f; DataBufferDelayLine dl(1 + r.below(6)); Dst d; std::map<uint64_t, std::vector<uint32_t>> due; uint64_t now = 0;
  for (int s = 0; s < 120; s++) {
    vpd::cases++;
    if (r.coin(60) && s < 90) { auto* db = f.Allocate<uint32_t>(1); uint32_t v = r.next(); db->Set<uint32_t>(0, v); int lat = 1 + r.below(17); db->set_destination(&d); db->set_latency(lat); db->set_delay_line(&dl); db->Submit(); due[now + lat].push_back(v); }
    else { now++; d.got.clear(); dl.Advance(); VPD_CHECK(d.got == due[now], "buffers delivered at cycle ", now); }
  }
  for (int i = 0; i < 20; i++) dl.Advance();
  VPD_CHECK(dl.IsEmpty(), "entries left");
}
int main(int argc, char** argv) {
  Rng r(atoll(argv[1])); vpd::Clock clk(atof(argv[2])); int n = std::string(argv[3]) == "quick" ? 2500 : 100000;
  for (int i = 0; i < n && (i < 100 || clk.more()); i++) { History(r, i % 3 ? 40 : 300, i % 2 ? 40 : 300); Reentrant(r); Buffers(r); if (i < 2) vpd::sample("history of adds (latency 1..300) and advances on depth 1..33"); }
  VPD_DONE();
}
