// C18 bounded supplement: random watch ranges and accesses against a list of ranges.
#include "vpd.h"
#include <cstring>
#include <vector>
#include "mpact/sim/generic/arch_state.h"
#include "mpact/sim/generic/instruction.h"
#include "mpact/sim/util/memory/flat_demand_memory.h"
#include "mpact/sim/util/memory/memory_watcher.h"
#include "mpact/sim/util/memory/tagged_flat_demand_memory.h"
#include "mpact/sim/util/memory/tagged_memory_watcher.h"
#include "mpact/sim/util/memory/tagged_to_untagged_memory_transactor.h"
using namespace mpact::sim::generic; using namespace mpact::sim::util; using vpd::Rng;
struct St : public ArchState { St() : ArchState("state") {} };
struct Rg { uint64_t lo, hi; std::vector<std::pair<uint64_t, int>> got, want; };
static const uint64_t kBase = 0x1000, kN = 256;
template <class W> static void Run(Rng& r, St& st, bool tagged, MemoryInterface* mem, W* w) {
  vpd::log().clear(); vpd::cases++; auto* fac = st.db_factory(); MemoryInterface* m = w;
  std::vector<Rg*> rs[2]; uint8_t ref[kN] = {};
  auto expect = [&](int k, uint64_t a, int n) { for (auto* x : rs[k]) if (x->lo <= kBase + a + n - 1 && x->hi >= kBase + a) x->want.push_back({kBase + a, n}); };
  for (int k = 0; k < 40; k++) {
    int op = r.below(10), kd = r.below(2);
    if (op <= 1) { uint64_t lo = kBase + r.below(kN), hi = lo + r.below(12); if (r.coin(5)) { std::swap(lo, hi); } bool ok = lo <= hi; for (auto* x : rs[kd]) if (x->lo <= hi && x->hi >= lo) ok = false;
      auto* x = new Rg{lo, hi, {}, {}}; auto f = [x](uint64_t a, int n) { x->got.push_back({a, n}); };
      vpd::note(vpd::cat("set ", kd ? "store" : "load", " range ", lo, " to ", hi)); bool got = kd ? w->SetStoreWatchCallback(typename W::AddressRange(lo, hi), f).ok() : w->SetLoadWatchCallback(typename W::AddressRange(lo, hi), f).ok();
      VPD_CHECK(got == ok, "range ", lo, " to ", hi, " accepted: ", got); if (ok) rs[kd].push_back(x); else delete x;
    } else if (op == 2) { uint64_t a = kBase + r.below(kN); bool ok = false; vpd::note(vpd::cat("clear at ", a)); bool got = kd ? w->ClearStoreWatchCallback(a).ok() : w->ClearLoadWatchCallback(a).ok();
      for (size_t i = 0; i < rs[kd].size(); i++) if (rs[kd][i]->lo <= a && rs[kd][i]->hi >= a) { ok = true; delete rs[kd][i]; rs[kd].erase(rs[kd].begin() + i); break; } VPD_CHECK(got == ok, "clear accepted: ", got);
    } else if (op <= 6) { int n = 1 + r.below(32); uint64_t a = r.below(kN - n); bool tg = tagged && r.coin(); if (tg) { a = a / 8 * 8; n = 8 * (1 + r.below(4)); if (a + n > kN) a = 0; } auto* b = fac->Allocate(n); DataBuffer* t = tg ? fac->Allocate(n / 8) : nullptr; if (t) std::memset(t->raw_ptr(), 0, n / 8); b->set_latency(0); int ran = 0; auto* in = new Instruction(0, &st); in->set_semantic_function([&](Instruction*) { ran++; });
      expect(kd, a, n); vpd::note(vpd::cat(kd ? "store" : "load", " of ", n, " at ", a)); auto* ti = dynamic_cast<TaggedMemoryInterface*>(m);
      if (kd) { for (int i = 0; i < n; i++) { b->Set<uint8_t>(i, r.next()); ref[a + i] = b->Get<uint8_t>(i); } if (tg) ti->Store(kBase + a, b, t); else m->Store(kBase + a, b); }
      else { if (tg) ti->Load(kBase + a, b, t, in, nullptr); else m->Load(kBase + a, b, in, nullptr); VPD_CHECK(ran == 1, "executed ", ran, " times"); VPD_CHECK(!std::memcmp(b->raw_ptr(), ref + a, n), "contents at ", a); }
      in->DecRef(); b->DecRef(); if (t) t->DecRef();
    } else if (op <= 8) { int el = 1 << r.below(4), n = 1 + r.below(5); bool sc = r.coin() || n == 1; auto* ad = fac->Allocate(8 * (sc ? n : 1)); auto* mk = fac->Allocate(n); auto* b = fac->Allocate(el * n); b->set_latency(0); int ran = 0; auto* in = new Instruction(0, &st); in->set_semantic_function([&](Instruction*) { ran++; });
      for (unsigned i = 0; i < ad->size<uint64_t>(); i++) ad->Set<uint64_t>(i, kBase + r.below(kN - 48)); for (int i = 0; i < n; i++) mk->Set<uint8_t>(i, r.coin(70)); for (int i = 0; i < el * n; i++) b->Set<uint8_t>(i, r.next());
      for (int i = 0; i < n; i++) if (mk->Get<bool>(i)) { uint64_t a = (sc ? ad->Get<uint64_t>(i) : ad->Get<uint64_t>(0) + i * el) - kBase; expect(kd, a, el); if (kd) for (int j = 0; j < el; j++) ref[a + j] = b->Get<uint8_t>(i * el + j); }
      vpd::note(vpd::cat("vector ", kd ? "store" : "load", " of ", n, " x ", el)); if (kd) m->Store(ad, mk, el, b); else { m->Load(ad, mk, el, b, in, nullptr); }
      if (!kd) VPD_CHECK(ran == 1, "executed ", ran, " times"); in->DecRef(); ad->DecRef(); mk->DecRef(); b->DecRef();
    } else { auto* b = fac->Allocate(kN); b->set_latency(0); mem->Load(kBase, b, nullptr, nullptr); VPD_CHECK(!std::memcmp(b->raw_ptr(), ref, kN), "contents of the memory behind"); b->DecRef(); }
    for (int j = 0; j < 2; j++) for (auto* x : rs[j]) { VPD_CHECK(x->got == x->want, "range ", x->lo, " to ", x->hi, " called ", x->got.size(), " times instead of ", x->want.size(), " or for other accesses"); x->got.clear(); x->want.clear(); }
    vpd::distinct_case(vpd::mix(vpd::mix(op, rs[0].size() * 16 + rs[1].size()), vpd::mix(k, r.s & 63)));
  }
  for (int j = 0; j < 2; j++) for (auto* x : rs[j]) delete x;
}
static void Trans(Rng& r, St& st) {
  vpd::log().clear(); vpd::cases++; auto* fac = st.db_factory(); FlatDemandMemory mem; TaggedToUntaggedMemoryTransactor t(&mem); TaggedMemoryInterface* m = &t; uint8_t ref[kN] = {};
  for (int k = 0; k < 20; k++) { int g = 1 + r.below(4), n = g * 8; uint64_t a = r.below(kN / 8 - 4) * 8; auto* b = fac->Allocate(n); auto* tg = fac->Allocate(g); b->set_latency(0); tg->set_latency(0); for (int i = 0; i < n; i++) b->Set<uint8_t>(i, r.next()); bool st_ = r.coin(); std::memset(tg->raw_ptr(), st_ ? 0 : 1, g); int ran = 0; auto* in = new Instruction(0, &st); in->set_semantic_function([&](Instruction*) { ran++; }); bool data = r.coin(70);
    vpd::note(vpd::cat(st_ ? "store" : "load", " of ", g, " granules at ", a, data ? "" : ", tags only"));
    if (st_) { m->Store(kBase + a, data ? b : nullptr, tg); if (data) std::memcpy(ref + a, b->raw_ptr(), n); }
    else { m->Load(kBase + a, data ? b : nullptr, tg, in, nullptr); VPD_CHECK(ran == 1, "executed ", ran, " times"); for (int i = 0; i < g; i++) VPD_CHECK(tg->Get<uint8_t>(i) == 0, "tag ", i, " set"); if (data) VPD_CHECK(!std::memcmp(b->raw_ptr(), ref + a, n), "contents at ", a); }
    in->DecRef(); b->DecRef(); tg->DecRef(); vpd::distinct_case(vpd::mix(a, g * 4 + st_ * 2 + data)); }
  auto* b = fac->Allocate(kN); b->set_latency(0); mem.Load(kBase, b, nullptr, nullptr); VPD_CHECK(!std::memcmp(b->raw_ptr(), ref, kN), "contents of the memory behind"); b->DecRef();
}
int main(int argc, char** argv) {
  Rng r(atoll(argv[1])); vpd::Clock clk(atof(argv[2])); int n = std::string(argv[3]) == "quick" ? 4000 : 400000; St st;
  for (int i = 0; i < n && (i < 60 || clk.more()); i++) {
    if (i % 3 == 2) Trans(r, st); else if (i % 3) { TaggedFlatDemandMemory m(8); TaggedMemoryWatcher w(&m); Run(r, st, true, static_cast<MemoryInterface*>(&m), &w); } else { FlatDemandMemory m; MemoryWatcher w(&m); Run(r, st, false, &m, &w); }
    if (i < 2) vpd::sample("40 random range settings and clearings, loads, stores and vector accesses of a watched memory"); }
  VPD_DONE(); return 0;
}
