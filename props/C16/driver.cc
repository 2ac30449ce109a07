// C16 bounded supplement: random histories of tagged and untagged accesses against maps of bytes and tags.
#include "vpd.h"
#include <map>
#include <memory>
#include "mpact/sim/generic/arch_state.h"
#include "mpact/sim/generic/instruction.h"
#include "mpact/sim/util/memory/tagged_flat_demand_memory.h"
using namespace mpact::sim::generic;
using mpact::sim::util::TaggedFlatDemandMemory; using vpd::Rng;
struct St : public ArchState { St() : ArchState("state") {} };
static void Run(Rng& r, St& st) {
  vpd::log().clear(); vpd::cases++; auto* fac = st.db_factory();
  unsigned shift = r.coin(60) ? 0 : r.below(3), gs = shift + r.below(4), granule = 1u << gs; uint8_t fill = r.next();
  uint64_t units = 200 + (r.coin(5) ? r.below(6000) : r.below(300)), base = r.coin(30) ? 0 : 16384 - r.below(500);
  TaggedFlatDemandMemory m(units, base, 1u << shift, fill, granule); unsigned as = gs - shift;
  std::map<uint64_t, uint8_t> d, t; auto D = [&](uint64_t b) { return d.count(b) ? d[b] : fill; }; auto T = [&](uint64_t g) -> uint8_t { return t.count(g) ? t[g] : 0; };
  vpd::note(vpd::cat(units, " units of ", 1 << shift, " bytes at ", base, ", granule ", granule));
  auto clear = [&](uint64_t a, uint64_t u) { for (uint64_t k = 0; k < u; k++) t[(a + k) >> as] = 0; };
  for (int k = 0; k < 30; k++) {
    int op = r.below(6); DataBuffer *b = nullptr, *tg = nullptr, *ad = nullptr, *mk = nullptr;
    if (op <= 2) {   // tagged store, tagged load, load of tags
      uint64_t g = 1 + r.below(4); uint64_t lo = (base + (1u << as) - 1) >> as, hi = (base + units) >> as; if (hi <= lo + g) continue;
      uint64_t a = (lo + r.below(hi - lo - g)) << as; unsigned n = g << gs, tn = g; bool ok = true;
      if (r.coin(15) && as) { a += 1 + r.below((1u << as) - 1); ok = false; } else if (r.coin(15) && gs > shift && op != 2) { n += 1u << shift; ok = false; } else if (r.coin(15) && op != 2) { tn++; ok = false; }
      b = op == 2 ? nullptr : fac->Allocate(n); tg = fac->Allocate(tn); if (b) for (unsigned i = 0; i < n; i++) b->Set<uint8_t>(i, r.next()); for (unsigned i = 0; i < tn; i++) tg->Set<uint8_t>(i, r.next());
      std::vector<uint8_t> bb, tt; if (b) bb.assign(b->Get<uint8_t>().begin(), b->Get<uint8_t>().end()); tt.assign(tg->Get<uint8_t>().begin(), tg->Get<uint8_t>().end());
      vpd::note(vpd::cat(op == 0 ? "store " : op == 1 ? "load " : "load tags ", n, " bytes, ", tn, " tags at ", a, ok ? "" : " (to be refused)"));
      if (b) b->set_latency(0); tg->set_latency(0); int ran = 0; auto* in = new Instruction(0, &st); in->set_semantic_function([&](Instruction*) { ran++; });
      if (op == 0) { m.Store(a, b, tg); if (ok) { for (unsigned i = 0; i < n; i++) d[(a << shift) + i] = bb[i]; for (unsigned i = 0; i < tn; i++) t[(a >> as) + i] = tt[i]; } }
      else { m.Load(a, b, tg, in, nullptr); VPD_CHECK(ran == ok, "the instruction ran ", ran, " times"); if (ok) { for (unsigned i = 0; b && i < n; i++) bb[i] = D((a << shift) + i); for (unsigned i = 0; i < tn; i++) tt[i] = T((a >> as) + i); } }
      in->DecRef();
      for (unsigned i = 0; b && i < n; i++) VPD_CHECK(b->Get<uint8_t>(i) == bb[i], "data byte ", i); for (unsigned i = 0; i < tn; i++) VPD_CHECK(tg->Get<uint8_t>(i) == tt[i], "tag ", i, ": ", (int)tg->Get<uint8_t>(i), " instead of ", (int)tt[i]);
    } else if (op == 3) { uint64_t u = 1 + (r.coin(10) ? r.below(units) : r.below(40)), a = base + (r.coin(15) ? units - u : r.below(units - u + 1)); b = fac->Allocate(u << shift); for (unsigned i = 0; i < u << shift; i++) { b->Set<uint8_t>(i, r.next()); d[(a << shift) + i] = b->Get<uint8_t>(i); } vpd::note(vpd::cat("store ", u, " units at ", a)); m.Store(a, b); clear(a, u);
    } else { int el = 1 << (shift + r.below(4 - shift)); uint64_t eu = el >> shift, n = 1 + r.below(6); bool sc = r.coin() || n == 1; ad = fac->Allocate(8 * (sc ? n : 1)); mk = fac->Allocate(n); b = fac->Allocate(el * n); b->set_latency(0);
      for (uint64_t i = 0; i < n; i++) mk->Set<uint8_t>(i, r.coin(70)); for (unsigned i = 0; i < ad->size<uint64_t>(); i++) ad->Set<uint64_t>(i, base + r.below(units - 50)); for (unsigned i = 0; i < el * n; i++) b->Set<uint8_t>(i, r.next());
      auto A = [&](uint64_t i) { return sc ? ad->Get<uint64_t>(i) : ad->Get<uint64_t>(0) + i * eu; };
      vpd::note(vpd::cat(op == 4 ? "vector store " : "vector load ", n, " x ", el, sc ? "" : " unit stride"));
      if (op == 4) { m.Store(ad, mk, el, b); for (uint64_t i = 0; i < n; i++) if (mk->Get<bool>(i)) { for (int j = 0; j < el; j++) d[(A(i) << shift) + j] = b->Get<uint8_t>(i * el + j); clear(A(i), eu); } }
      else { std::vector<uint8_t> bb(b->Get<uint8_t>().begin(), b->Get<uint8_t>().end()); for (uint64_t i = 0; i < n; i++) if (mk->Get<bool>(i)) for (int j = 0; j < el; j++) bb[i * el + j] = D((A(i) << shift) + j); m.Load(ad, mk, el, b, nullptr, nullptr); for (size_t i = 0; i < bb.size(); i++) VPD_CHECK(b->Get<uint8_t>(i) == bb[i], "vector load byte ", i); }
    }
    for (auto* x : {b, tg, ad, mk}) if (x) { VPD_CHECK(x->ref_count() == 1, "references"); x->DecRef(); }
    vpd::distinct_case(vpd::mix(vpd::mix(op, shift * 8 + gs), vpd::mix(base, k)));
  }
  auto* one = fac->Allocate(1u << shift); auto* tg = fac->Allocate(1); tg->set_latency(0); one->set_latency(0);
  for (uint64_t u = base; u < base + units; u++) { m.Load(u, one, nullptr, nullptr); for (unsigned j = 0; j < 1u << shift; j++) VPD_CHECK(one->Get<uint8_t>(j) == D((u << shift) + j), "contents at ", u);
    uint64_t g = u >> as; m.Load(g << as, nullptr, tg, nullptr, nullptr); VPD_CHECK(tg->Get<uint8_t>(0) == T(g), "tag of granule ", g, " is ", (int)tg->Get<uint8_t>(0), " instead of ", (int)T(g)); }
  one->DecRef(); tg->DecRef();
}
// every constructor; addresses that differ in few bits, all over the address space
static void Far(Rng& r, St& st) {
  vpd::log().clear(); vpd::cases++; auto* fac = st.db_factory(); int kind = r.below(3); unsigned gs = r.below(5), g = 1u << gs; uint64_t base = kind == 0 ? 0 : (r.next() >> (1 + r.below(62))) >> gs << gs, units = kind == 2 ? (64 + (r.coin() ? r.below(10000) : r.next() >> 3)) >> gs << gs : ~0ull - base;
  std::unique_ptr<TaggedFlatDemandMemory> m(kind == 0 ? new TaggedFlatDemandMemory(g) : kind == 1 ? new TaggedFlatDemandMemory(base, g) : new TaggedFlatDemandMemory(units, base, g));
  vpd::note(vpd::cat("memory of kind ", kind, ", ", units, " units at ", base, ", granule ", g)); std::map<uint64_t, uint8_t> d, t; std::vector<uint64_t> pool; uint64_t a0 = (base + r.next() % (units - 63)) >> gs << gs; pool.push_back(a0);
  for (int i = 0; i < 6; i++) { uint64_t a = a0 ^ (1ull << (gs + r.below(64 - gs))); if (a >= base && a + 32 > a && a - base + 32 <= units) pool.push_back(a); }
  for (int k = 0; k < 20; k++) { uint64_t a = pool[r.below(pool.size())]; int op = r.below(4); auto* b = fac->Allocate(op == 2 ? 1 : g); auto* tg = fac->Allocate(1); b->set_latency(0); tg->set_latency(0); for (unsigned i = 0; i < b->size<uint8_t>(); i++) b->Set<uint8_t>(i, r.next()); tg->Set<uint8_t>(0, r.next()); if (a - base + g > units) { b->DecRef(); tg->DecRef(); continue; } vpd::note(vpd::cat("operation ", op, " at ", a));
    if (op == 0) { m->Store(a, b, tg); for (unsigned i = 0; i < g; i++) d[a + i] = b->Get<uint8_t>(i); t[a] = tg->Get<uint8_t>(0); } else if (op == 2) { uint64_t x = a + r.below(g); m->Store(x, b); d[x] = b->Get<uint8_t>(0); t[a] = 0; } else { m->Load(a, b, tg, nullptr, nullptr); for (unsigned i = 0; i < g; i++) VPD_CHECK(b->Get<uint8_t>(i) == (d.count(a + i) ? d[a + i] : 0), "contents of address ", a + i); VPD_CHECK(tg->Get<uint8_t>(0) == (t.count(a) ? t[a] : 0), "tag of address ", a); }
    b->DecRef(); tg->DecRef(); vpd::distinct_case(vpd::mix(a, op)); }
}
int main(int argc, char** argv) {
  Rng r(atoll(argv[1])); vpd::Clock clk(atof(argv[2])); int n = std::string(argv[3]) == "quick" ? 5000 : 500000; St st;
  for (int i = 0; i < n && (i < 60 || clk.more()); i++) { Run(r, st); for (int k = 0; k < 4; k++) Far(r, st); if (i < 2) vpd::sample("30 random tagged, plain and vector accesses"); }
  VPD_DONE(); return 0;
}
