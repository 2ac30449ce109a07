// C03 bounded supplement: random histories of buffers, references, destinations (that may keep references) and delay lines.
#include <map>
#include "vpd.h"
#include "mpact/sim/generic/data_buffer.h"
#include "mpact/sim/generic/ref_count.h"
using namespace mpact::sim::generic;
using vpd::Rng;
struct Reg : public DataBufferDestination {
  DataBuffer* cur = nullptr; int calls = 0; std::vector<DataBuffer*> got;
  void SetDataBuffer(DataBuffer* db) override { VPD_CHECK(db->ref_count() > 0, "delivered buffer has no reference"); calls++; got.push_back(db); db->IncRef(); if (cur) cur->DecRef(); cur = db; }
};
struct Obj : public ReferenceCount { bool* dead; explicit Obj(bool* d) : dead(d) {} ~Obj() override { *dead = true; } };
struct Pend { DataBuffer* db; Reg* dst; uint64_t due; uint8_t v; };
static void Buffers(Rng& r, int steps) {
  vpd::log().clear();
  DataBufferFactory f; std::vector<Reg> regs(4); std::map<DataBuffer*, int> refs; std::vector<Pend> pend; uint64_t now = 0, sig = 0;
  int depth = 1 << r.below(5);
  DataBufferDelayLine dl(depth);
  std::vector<DataBuffer*> held;
  for (int s = 0; s < steps; s++) {
    vpd::cases++;
    int op = r.below(6); sig = vpd::mix(sig, op);
    if (op <= 2) {
      DataBuffer* db = f.Allocate(4 * (1 + r.below(3)));
      VPD_CHECK(!refs.count(db) || refs[db] == 0, "a referenced buffer was handed out");
      refs[db] = 1;
      int extra = r.below(3); for (int i = 0; i < extra; i++) { db->IncRef(); refs[db]++; held.push_back(db); }
      int lat = r.coin(30) ? 0 : r.coin() ? 1 + r.below(4) : 1 + r.below(70);
      int which = r.below(5); Reg* dst = which == 4 ? nullptr : &regs[which];
      db->set_destination(dst); db->set_latency(lat); db->set_delay_line(&dl);
      vpd::note(vpd::cat("submit latency ", lat, " dest ", which, " extra refs ", extra)); sig = vpd::mix(sig, lat * 8 + which);
      int before = dst ? dst->calls : 0; DataBuffer* old = dst ? dst->cur : nullptr;
      if (r.coin()) db->Submit(); else if (r.coin()) db->Submit(lat); else db->SetSubmit<uint32_t>(0, (uint32_t)r.next());
      if (!dst) { refs[db]--; }
      else if (lat == 0) { VPD_CHECK(dst->calls == before + 1 && dst->got.back() == db, "latency 0: not delivered at once"); if (old) refs[old]--; /* kept by the register */ }
      else { VPD_CHECK(dst->calls == before, "delivered before its latency"); pend.push_back({db, dst, now + lat, 0}); }
    } else if (op == 3 && !held.empty()) { int i = r.below(held.size()); DataBuffer* b = held[i]; vpd::note("release extra"); held.erase(held.begin() + i); b->DecRef(); refs[b]--; }
    else {
      now++; std::vector<int> before; std::vector<DataBuffer*> oldc; for (auto& g : regs) { before.push_back(g.calls); oldc.push_back(g.cur); }
      vpd::note(vpd::cat("advance to ", now));
      int left = dl.Advance();
      for (size_t k = 0; k < regs.size(); k++) {
        std::vector<DataBuffer*> want; for (auto& p : pend) if (p.due == now && p.dst == &regs[k]) want.push_back(p.db);
        VPD_CHECK(regs[k].calls == before[k] + (int)want.size(), "destination ", k, " got ", regs[k].calls - before[k], " deliveries at cycle ", now, ", expected ", want.size());
        DataBuffer* c = oldc[k];
        for (size_t q = 0; q < want.size(); q++) { VPD_CHECK(regs[k].got[regs[k].got.size() - want.size() + q] == want[q], "wrong buffer or order"); if (c) refs[c]--; c = want[q]; }
      }
      std::vector<Pend> keep; for (auto& p : pend) if (p.due != now) keep.push_back(p); pend = keep;
      VPD_CHECK(left == (int)pend.size(), "Advance returned ", left, " entries left, expected ", pend.size());
      VPD_CHECK(dl.IsEmpty() == pend.empty(), "IsEmpty");
    }
    for (auto& kv : refs) if (kv.second > 0) VPD_CHECK(kv.first->ref_count() == kv.second, "reference count is ", kv.first->ref_count(), " expected ", kv.second);
  }
  while (!pend.empty()) { now++; dl.Advance(); std::vector<Pend> keep; for (auto& p : pend) if (p.due > now) keep.push_back(p); pend = keep; }
  VPD_CHECK(dl.IsEmpty(), "entries remain");
  for (auto* b : held) b->DecRef();
  for (auto& g : regs) if (g.cur) g.cur->DecRef();
  vpd::distinct_case(sig);
}
static void Counts(Rng& r) {
  bool dead = false; Obj* o = new Obj(&dead); int refs = 1; vpd::log().clear();
  for (int i = 0; i < 60; i++) {
    vpd::cases++;
    if (r.coin(45)) { o->IncRef(); refs++; vpd::note("IncRef"); } else { vpd::note("DecRef"); o->DecRef(); refs--; }
    VPD_CHECK(dead == (refs == 0), "object ", dead ? "deleted" : "kept", " with ", refs, " references");
    if (dead) return;
    VPD_CHECK(o->ref_count() == refs, "ref_count ", o->ref_count(), " expected ", refs);
    if (r.coin(3)) { o->ResetCounts(); refs = 1; }
  }
  while (refs--) o->DecRef();
  VPD_CHECK(dead, "object not deleted with its last reference");
}
int main(int argc, char** argv) {
  Rng r(atoll(argv[1])); vpd::Clock clk(atof(argv[2])); int n = std::string(argv[3]) == "quick" ? 2500 : 200000;
  for (int i = 0; i < n && (i < 100 || clk.more()); i++) { Buffers(r, i % 4 == 0 ? 12 : 150); Counts(r); if (i < 2) vpd::sample("history of submits (latency 0..70, 4 destinations), extra references and advances"); }
  VPD_DONE();
}
