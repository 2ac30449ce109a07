// C15 bounded supplement: random histories of accesses to both memories against a byte map.
#include "vpd.h"
#include <map>
#include <memory>
#include <vector>
#include "mpact/sim/generic/arch_state.h"
#include "mpact/sim/generic/instruction.h"
#include "mpact/sim/util/memory/flat_demand_memory.h"
#include "mpact/sim/util/memory/flat_memory.h"
using namespace mpact::sim::generic;
using mpact::sim::util::FlatDemandMemory; using mpact::sim::util::FlatMemory; using mpact::sim::util::MemoryInterface;
using vpd::Rng;
struct St : public ArchState { St() : ArchState("state") {} };
struct Ctx : public ReferenceCount { int* gone; explicit Ctx(int* g) : gone(g) {} ~Ctx() override { (*gone)++; } };
static DataBuffer* Fill(Rng& r, DataBuffer* d) { for (size_t i = 0; i < d->size<uint8_t>(); i++) d->Set<uint8_t>(i, r.next()); return d; }
static void Run(Rng& r) {
  vpd::log().clear(); vpd::cases++; St st; auto* fac = st.db_factory();
  unsigned shift = r.below(4), unit = 1u << shift; bool demand = r.coin(60); uint8_t fill = r.next();
  uint64_t units = demand ? (r.coin(70) ? 40000 + r.below(100000) : 0xffff'ffff'ffff'ffffull) : 1 + r.below(300);
  uint64_t base = demand && units > 1ull << 40 ? (r.coin() ? 0 : r.next() & 0x7fff'ffff'ffffull) : r.coin(20) ? 0 : r.coin() ? r.below(100000) : 0xffff'ffff'0000'0000ull + r.below(1000);
  std::unique_ptr<MemoryInterface> m; FlatDemandMemory* dm = nullptr;
  if (demand) { dm = new FlatDemandMemory(units, base, unit, fill); m.reset(dm); } else m.reset(new FlatMemory(units, base, unit, fill));
  uint64_t span = units > 200000 ? 200000 : units;
  std::map<uint64_t, uint8_t> ref; auto at = [&](uint64_t b) { auto it = ref.find(b); return it == ref.end() ? fill : it->second; };   // keyed by byte offset from base
  auto put = [&](uint64_t b, uint8_t v) { ref[b] = v; };
  int now = 0; std::vector<std::pair<int, int>> runs; std::map<int, Instruction*> insts; int next = 0, gone = 0, ctxs = 0; std::vector<int> due(1000, -1), ran(1000, 0); std::vector<ReferenceCount*> want(1000, nullptr); std::vector<int> expect_latency;
  vpd::note(vpd::cat(demand ? "demand" : "flat", " memory of ", units, " units of ", unit, " bytes at ", base));
  for (int k = 0; k < 25; k++) {
    int op = r.below(6);
    DataBuffer* db = nullptr; DataBuffer* ab = nullptr; DataBuffer* mb = nullptr; int el = 0;
    uint64_t off = 0;
    if (op <= 1) {
      uint64_t n = demand && r.coin(2) ? 1 + r.below(span < 70000 ? span : 70000) : 1 + r.below(span < 16 ? span : 16);
      off = r.coin(40) && span > 20000 && n < 16000 ? (16384 * (1 + r.below(span / 16384)) - r.below(n + 1) - (base & 16383)) : r.below(span - n + 1);
      if (off > span - n) off = r.below(span - n + 1);
      if (r.coin(15)) off = span - n;
      db = fac->Allocate(n << shift);
    } else {
      el = 1 << r.below(4); if (el < (int)unit) el = unit; uint64_t eu = el >> shift; uint64_t cnt = 1 + r.below(6); if (cnt * eu > span) { if (eu > span) continue; cnt = 1; }
      bool gather = r.coin() || cnt == 1; ab = fac->Allocate((gather ? cnt : 1) * 8); mb = fac->Allocate(cnt); db = fac->Allocate(cnt * el);
      for (uint64_t i = 0; i < cnt; i++) mb->Set<uint8_t>(i, r.coin(75));
      if (gather) for (uint64_t i = 0; i < cnt; i++) { uint64_t o = r.coin(30) && i ? ab->Get<uint64_t>(i - 1) - base : r.coin(15) ? span - eu : r.below(span - eu + 1); ab->Set<uint64_t>(i, base + o); }
      else ab->Set<uint64_t>(0, base + (r.coin(15) ? span - cnt * eu : r.below(span - cnt * eu + 1)));
    }
    Fill(r, db); std::vector<uint8_t> before(db->Get<uint8_t>().begin(), db->Get<uint8_t>().end());
    auto addr = [&](uint64_t i) { return (ab->Get<uint64_t>().size() > 1 ? ab->Get<uint64_t>(i) : ab->Get<uint64_t>(0) + i * (el >> shift)) - base; };
    bool load = op == 0 || op == 2 || op == 3;
    Instruction* inst = nullptr; Ctx* ctx = nullptr; int id = next;
    if (load && r.coin()) {
      next++; inst = new Instruction(0x1000 + id, &st); if (r.coin()) { ctx = new Ctx(&gone); ctxs++; } want[id] = ctx;
      inst->set_semantic_function([&, id](Instruction* in) { VPD_CHECK(in->context() == want[id], "context of the executed instruction"); VPD_CHECK(in->address() == 0x1000u + id, "instruction executed"); ran[id]++; runs.push_back({id, now}); });
      int lat = r.below(3); db->set_latency(lat); due[id] = now + lat;
    } else db->set_latency(0);
    if (op == 0) { vpd::note(vpd::cat("load ", db->size<uint8_t>(), " bytes at unit ", off, inst ? " with an instruction" : "")); m->Load(base + off, db, inst, ctx); for (size_t i = 0; i < before.size(); i++) before[i] = at((off << shift) + i); }
    else if (op == 1) { vpd::note(vpd::cat("store ", db->size<uint8_t>(), " bytes at unit ", off)); m->Store(base + off, db); for (size_t i = 0; i < before.size(); i++) put((off << shift) + i, before[i]); }
    else if (load) { vpd::note(vpd::cat("vector load of ", mb->size<uint8_t>(), " x ", el)); m->Load(ab, mb, el, db, inst, ctx); for (size_t i = 0; i < mb->size<uint8_t>(); i++) if (mb->Get<bool>(i)) for (int j = 0; j < el; j++) before[i * el + j] = at((addr(i) << shift) + j); }
    else { vpd::note(vpd::cat("vector store of ", mb->size<uint8_t>(), " x ", el)); m->Store(ab, mb, el, db); for (size_t i = 0; i < mb->size<uint8_t>(); i++) if (mb->Get<bool>(i)) for (int j = 0; j < el; j++) put((addr(i) << shift) + j, before[i * el + j]); }
    for (size_t i = 0; i < before.size(); i++) VPD_CHECK(db->Get<uint8_t>(i) == before[i], load ? "byte " : "the store changed byte ", i, " of the buffer: ", (int)db->Get<uint8_t>(i), " instead of ", (int)before[i]);
    if (inst) { if (due[id] == now) { VPD_CHECK(ran[id] == 1, "the instruction did not run once"); } else VPD_CHECK(ran[id] == 0, "the instruction ran early"); if (ctx) ctx->DecRef(); inst->DecRef(); }
    VPD_CHECK(db->ref_count() == 1 && (!ab || (ab->ref_count() == 1 && mb->ref_count() == 1)), "references"); db->DecRef(); if (ab) { ab->DecRef(); mb->DecRef(); }
    if (r.coin(40)) { now++; st.AdvanceDelayLines(); for (int i = 0; i < next; i++) VPD_CHECK(ran[i] == (due[i] <= now), "instruction ", i, " ran ", ran[i], " times"); }
    if (dm && r.coin(2)) { vpd::note("clear"); dm->Clear(); ref.clear(); }
    // a sample of the rest of the memory
    if (span) { auto* b = fac->Allocate(unit); uint64_t o = r.below(span); m->Load(base + o, b, nullptr, nullptr); for (unsigned j = 0; j < unit; j++) VPD_CHECK(b->Get<uint8_t>(j) == at((o << shift) + j), "contents at unit ", o); b->DecRef(); }
    vpd::distinct_case(vpd::mix(vpd::mix(op, shift * 8 + el), vpd::mix(before.size(), demand)));
  }
  for (auto& [b, v] : ref) { if (ref.size() > 2000 && r.below(64)) continue; auto* d = fac->Allocate(unit); m->Load(base + (b >> shift), d, nullptr, nullptr); VPD_CHECK(d->Get<uint8_t>(b & (unit - 1)) == v, "contents of byte ", b, ": ", (int)d->Get<uint8_t>(b & (unit - 1)), " instead of ", (int)v); d->DecRef(); }
  for (int i = 0; i < 4; i++) { now++; st.AdvanceDelayLines(); }
  for (int i = 0; i < next; i++) VPD_CHECK(ran[i] == 1, "instruction ", i, " ran ", ran[i], " times"); VPD_CHECK(gone == ctxs, "contexts released");
}
// every constructor; addresses that differ in few bits, all over the address space
static void Far(Rng& r, St& st) {
  vpd::log().clear(); vpd::cases++; auto* fac = st.db_factory(); int kind = r.below(4); uint8_t fill = kind == 3 ? r.next() : 0; uint64_t base = kind == 0 ? 0 : r.coin(30) ? 0 : r.next() >> (1 + r.below(62)), units = kind < 2 ? ~0ull - base : r.coin() ? 1 + r.below(100000) : (r.next() >> 2) + 1; if (base + units < base) units = ~0ull - base;
  std::unique_ptr<FlatDemandMemory> m(kind == 0 ? new FlatDemandMemory() : kind == 1 ? new FlatDemandMemory(base) : kind == 2 ? new FlatDemandMemory(units, base) : new FlatDemandMemory(units, base, 1, fill));
  vpd::note(vpd::cat("memory of kind ", kind, ", ", units, " units at ", base)); std::map<uint64_t, uint8_t> ref; std::vector<uint64_t> pool; uint64_t a0 = base + r.next() % (units < 64 ? 1 : units - 63); pool.push_back(a0);
  for (int i = 0; i < 6; i++) { uint64_t a = a0 ^ 1ull << r.below(64); if (r.coin(20)) a ^= 1ull << r.below(64); if (a >= base && a + 16 > a && a - base + 16 <= units) pool.push_back(a); }
  if (units >= 16) pool.push_back(base + units - 16);
  for (int k = 0; k < 30; k++) { uint64_t n = units < 16 ? 1 : 1 + r.below(16), a = pool[r.below(pool.size())]; if (a - base + n > units) continue; if (r.coin(10) && units >= n) a = base + units - n; auto* b = fac->Allocate(n); b->set_latency(0); bool st_ = r.coin(); vpd::note(vpd::cat(st_ ? "store " : "load ", n, " at ", a));
    if (st_) { Fill(r, b); m->Store(a, b); for (uint64_t i = 0; i < n; i++) ref[a + i] = b->Get<uint8_t>(i); } else { m->Load(a, b, nullptr, nullptr); for (uint64_t i = 0; i < n; i++) VPD_CHECK(b->Get<uint8_t>(i) == (ref.count(a + i) ? ref[a + i] : fill), "contents of address ", a + i); } b->DecRef(); vpd::distinct_case(vpd::mix(a, n * 2 + st_)); }
  auto* b = fac->Allocate(1); b->set_latency(0); for (auto& [a, v] : ref) { m->Load(a, b, nullptr, nullptr); VPD_CHECK(b->Get<uint8_t>(0) == v, "contents of address ", a); } b->DecRef();
}
// the short constructor of the flat memory
static void Short(Rng& r, St& st) { vpd::cases++; auto* fac = st.db_factory(); unsigned sh = r.below(3), unit = 1u << sh; int n = 1 + r.below(50); uint8_t fill = r.next(); FlatMemory m(n, unit, fill); auto* b = fac->Allocate(unit * n); b->set_latency(0); m.Load(0, b, nullptr, nullptr); for (unsigned i = 0; i < unit * n; i++) VPD_CHECK(b->Get<uint8_t>(i) == fill, "byte ", i, " of a new flat memory from address 0"); Fill(r, b); m.Store(0, b); auto* c = fac->Allocate(unit); c->set_latency(0); for (int i = 0; i < n; i++) { m.Load(i, c, nullptr, nullptr); for (unsigned j = 0; j < unit; j++) VPD_CHECK(c->Get<uint8_t>(j) == b->Get<uint8_t>(i * unit + j), "unit ", i); } b->DecRef(); c->DecRef(); }
int main(int argc, char** argv) {
  Rng r(atoll(argv[1])); vpd::Clock clk(atof(argv[2])); int n = std::string(argv[3]) == "quick" ? 4000 : 400000; St st;
  for (int i = 0; i < n && (i < 60 || clk.more()); i++) { Run(r); for (int k = 0; k < 4; k++) Far(r, st); Short(r, st); if (i < 2) vpd::sample("25 random scalar and vector loads and stores"); }
  VPD_DONE(); return 0;
}
