// C17 bounded supplement: random histories of atomic operations and stores against a byte array and a set of links.
#include "vpd.h"
#include <cstring>
#include <set>
#include "mpact/sim/generic/arch_state.h"
#include "mpact/sim/generic/instruction.h"
#include "mpact/sim/util/memory/atomic_memory.h"
#include "mpact/sim/util/memory/atomic_tagged_memory.h"
#include "mpact/sim/util/memory/flat_demand_memory.h"
#include "mpact/sim/util/memory/tagged_flat_demand_memory.h"
using namespace mpact::sim::generic; using namespace mpact::sim::util; using vpd::Rng;
using Op = AtomicMemoryOpInterface::Operation;
struct St : public ArchState { St() : ArchState("state") {} };
static const uint64_t kBase = 0x1000, kN = 160;
template <class A, class M> static void Run(Rng& r, St& st, bool tagged, M* mem, A* am) {
  vpd::log().clear(); vpd::cases++; auto* fac = st.db_factory(); MemoryInterface* m = am;
  uint8_t ref[kN] = {}; uint8_t tag[kN / 8] = {}; std::set<uint64_t> link;
  auto wrote = [&](uint64_t a, uint64_t n, bool keep = false) { for (uint64_t i = a; i < a + n; i++) { link.erase(i >> 3); if (!keep) tag[i >> 3] = 0; } };
  for (int k = 0; k < 40; k++) {
    int op = r.below(10);
    if (op <= 5) {
      int n = 1 << r.below(4); bool bad = r.coin(3); if (bad) { static const int b[] = {3, 5, 6, 7, 16}; n = b[r.below(5)]; }
      uint64_t a = r.below(kN - 16); Op o = r.coin(50) ? (r.coin() ? Op::kLoadLinked : Op::kStoreConditional) : (Op)r.below((int)Op::kAtomicMinu + 1);
      bool llsc = o == Op::kLoadLinked || o == Op::kStoreConditional; if (llsc && !bad) a = a / 8 % 4 * 8 + a % 8 / n * n;
      auto* b = fac->Allocate(n); uint64_t arg = 0; for (int i = 0; i < n; i++) b->Set<uint8_t>(i, r.corner()); std::memcpy(&arg, b->raw_ptr(), n > 8 ? 8 : n);
      uint64_t old = 0; std::memcpy(&old, ref + a, n > 8 ? 8 : n); int ran = 0; auto* in = new Instruction(0, &st); in->set_semantic_function([&](Instruction*) { ran++; });
      vpd::note(vpd::cat("operation ", (int)o, " of ", n, " bytes at ", a)); bool ok = am->PerformMemoryOp(kBase + a, o, b, in, nullptr).ok();
      VPD_CHECK(ok == !bad, "accepted: ", ok); VPD_CHECK(ran == !bad, "executed ", ran, " times");
      if (!bad) { uint64_t mask = n == 8 ? ~0ull : (1ull << (8 * n)) - 1; auto sx = [&](uint64_t v) { int s = 64 - 8 * n; return (int64_t)(v << s) >> s; }; uint64_t nw = old, res = old; bool st_ = true;
        switch (o) { case Op::kLoadLinked: st_ = false; link.insert(a >> 3); break; case Op::kStoreConditional: st_ = link.count(a >> 3); res = !st_; nw = arg; break; case Op::kAtomicSwap: nw = arg; break; case Op::kAtomicAdd: nw = old + arg; break; case Op::kAtomicSub: nw = old - arg; break; case Op::kAtomicAnd: nw = old & arg; break; case Op::kAtomicOr: nw = old | arg; break; case Op::kAtomicXor: nw = old ^ arg; break; case Op::kAtomicMax: nw = sx(old) > sx(arg) ? old : arg; break; case Op::kAtomicMaxu: nw = old > arg ? old : arg; break; case Op::kAtomicMin: nw = sx(old) < sx(arg) ? old : arg; break; default: nw = old < arg ? old : arg; }
        nw &= mask; if (st_) { std::memcpy(ref + a, &nw, n); wrote(a, n); } uint64_t got = 0; std::memcpy(&got, b->raw_ptr(), n); VPD_CHECK(got == (res & mask), "operation ", (int)o, " returned ", got, " instead of ", res & mask); }
      in->DecRef(); b->DecRef();
    } else if (op <= 7) { int n = 1 + r.below(24); uint64_t a = r.below(kN - n); auto* b = fac->Allocate(n); for (int i = 0; i < n; i++) b->Set<uint8_t>(i, r.next());
      bool tg = tagged && r.coin() ; if (tg) { if (n < 8) { b->DecRef(); continue; } }
      if (tg) { a = a / 8 * 8; b->DecRef(); int g = n / 8; b = fac->Allocate(g * 8); auto* t = fac->Allocate(g); for (int i = 0; i < g * 8; i++) { b->Set<uint8_t>(i, r.next()); ref[a + i] = b->template Get<uint8_t>(i); } for (int i = 0; i < g; i++) { t->Set<uint8_t>(i, r.below(2)); tag[a / 8 + i] = t->Get<uint8_t>(i); }
        vpd::note(vpd::cat("tagged store of ", g, " granules at ", a)); dynamic_cast<TaggedMemoryInterface*>(m)->Store(kBase + a, b, t); wrote(a, g * 8, true); t->DecRef(); }
      else { std::memcpy(ref + a, b->raw_ptr(), n); vpd::note(vpd::cat("store of ", n, " bytes at ", a)); m->Store(kBase + a, b); wrote(a, n); }
      b->DecRef();
    } else if (op == 8) { int el = 1 << r.below(4), n = 1 + r.below(5); bool sc = r.coin() || n == 1; auto* ad = fac->Allocate(8 * (sc ? n : 1)); auto* mk = fac->Allocate(n); auto* b = fac->Allocate(el * n); for (unsigned i = 0; i < ad->size<uint64_t>(); i++) ad->Set<uint64_t>(i, kBase + r.below(kN - 48)); for (int i = 0; i < n; i++) mk->Set<uint8_t>(i, r.coin(70)); for (int i = 0; i < el * n; i++) b->Set<uint8_t>(i, r.next());
      vpd::note(vpd::cat("vector store of ", n, " x ", el)); m->Store(ad, mk, el, b); for (int i = 0; i < n; i++) if (mk->Get<bool>(i)) { uint64_t a = (sc ? ad->Get<uint64_t>(i) : ad->Get<uint64_t>(0) + i * el) - kBase; for (int j = 0; j < el; j++) ref[a + j] = b->Get<uint8_t>(i * el + j); wrote(a, el); } ad->DecRef(); mk->DecRef(); b->DecRef();
    } else { int n = 1 + r.below(24); uint64_t a = r.below(kN - n); auto* b = fac->Allocate(n); m->Load(kBase + a, b, nullptr, nullptr); VPD_CHECK(!std::memcmp(b->raw_ptr(), ref + a, n), "contents at ", a); b->DecRef(); }
    vpd::distinct_case(vpd::mix(vpd::mix(op, link.size()), vpd::mix(k, r.s & 63)));
  }
  auto* b = fac->Allocate(kN); mem->Load(kBase, b, nullptr, nullptr); for (uint64_t i = 0; i < kN; i++) VPD_CHECK(b->Get<uint8_t>(i) == ref[i], "byte ", i, " of memory"); b->DecRef();
  if (tagged) { auto* t = fac->Allocate(kN / 8); t->set_latency(0); dynamic_cast<TaggedMemoryInterface*>(m)->Load(kBase, nullptr, t, nullptr, nullptr); for (uint64_t i = 0; i < kN / 8; i++) VPD_CHECK(t->Get<uint8_t>(i) == tag[i], "tag ", i, " is ", (int)t->Get<uint8_t>(i), " instead of ", (int)tag[i]); t->DecRef(); }
}
int main(int argc, char** argv) {
  Rng r(atoll(argv[1])); vpd::Clock clk(atof(argv[2])); int n = std::string(argv[3]) == "quick" ? 4000 : 400000; St st;
  for (int i = 0; i < n && (i < 60 || clk.more()); i++) {
    if (i & 1) { TaggedFlatDemandMemory m(8); AtomicTaggedMemory a(&m); Run(r, st, true, static_cast<MemoryInterface*>(&m), &a); } else { FlatDemandMemory m; AtomicMemory a(&m); Run(r, st, false, static_cast<MemoryInterface*>(&m), &a); }
    if (i < 2) vpd::sample("40 random atomic operations, load-linked and store-conditional pairs, stores and vector stores"); }
  VPD_DONE(); return 0;
}
