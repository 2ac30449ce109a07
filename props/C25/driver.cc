// C25 bounded supplement: random accesses through a profiler, and all patterns of marks around the ends of a segment, against a set of words.
#include "vpd.h"
#include <memory>
#include <set>
#include <sstream>
#include "mpact/sim/generic/arch_state.h"
#include "mpact/sim/generic/instruction.h"
#include "mpact/sim/util/memory/memory_use_profiler.h"
#include "mpact/sim/util/memory/tagged_flat_demand_memory.h"
using namespace mpact::sim::generic; using namespace mpact::sim::util; using vpd::Rng;
// the profile the words should give
static std::string Expected(const std::set<uint64_t>& words) {
  std::string out;
  for (auto it = words.begin(); it != words.end();) {
    uint64_t s = *it, e = s;
    while (++it != words.end() && *it == e + 4) e = *it;
    char t[100]; snprintf(t, 100, "0x%llx,0x%llx,%llu\n", (unsigned long long)s, (unsigned long long)e, (unsigned long long)(e - s + 4));
    out += t;
  }
  return out;
}
static void Mark(std::set<uint64_t>& w, uint64_t a, uint64_t n) { if (n > 8) return; w.insert(a & ~3ull); if (n > 4) w.insert((a & ~3ull) + 4); }
template <class P> static void Compare(const P& p, const std::set<uint64_t>& words) {
  std::ostringstream os; p.WriteProfile(os); std::string e = Expected(words);
  VPD_CHECK(os.str() == e, "profile:\n", os.str().substr(0, 600), "expected:\n", e.substr(0, 600));
}
struct Ctx : public ReferenceCount {};
struct Seen : public TaggedFlatDemandMemory {     // the memory behind, counting what arrives
  int n = 0;
  Seen() : TaggedFlatDemandMemory(8) {}
  void Load(uint64_t a, DataBuffer* b, Instruction* i, ReferenceCount* c) override { n++; TaggedFlatDemandMemory::Load(a, b, i, c); }
  void Load(DataBuffer* a, DataBuffer* m, int e, DataBuffer* b, Instruction* i, ReferenceCount* c) override { n++; TaggedFlatDemandMemory::Load(a, m, e, b, i, c); }
  void Load(uint64_t a, DataBuffer* b, DataBuffer* t, Instruction* i, ReferenceCount* c) override { n++; TaggedFlatDemandMemory::Load(a, b, t, i, c); }
  void Store(uint64_t a, DataBuffer* b) override { n++; TaggedFlatDemandMemory::Store(a, b); }
  void Store(DataBuffer* a, DataBuffer* m, int e, DataBuffer* b) override { n++; TaggedFlatDemandMemory::Store(a, m, e, b); }
  void Store(uint64_t a, DataBuffer* b, DataBuffer* t) override { n++; TaggedFlatDemandMemory::Store(a, b, t); }
};
template <bool kTagged> struct Pick { using P = MemoryUseProfiler; };
template <> struct Pick<true> { using P = TaggedMemoryUseProfiler; };
template <bool kTagged> static void Run(Rng& r) {
  vpd::log().clear(); vpd::cases++;
  Seen mem; bool none = r.coin(15); std::unique_ptr<typename Pick<kTagged>::P> p;
  if (none && r.coin()) p.reset(new typename Pick<kTagged>::P()); else p.reset(new typename Pick<kTagged>::P(none ? nullptr : &mem));
  bool on = false; std::set<uint64_t> words; DataBufferFactory f; Ctx* ctx = new Ctx; Instruction* inst = new Instruction(0, nullptr); int ran = 0; inst->set_semantic_function([&](Instruction*) { ran++; });
  uint64_t seg = 128 * 1024, bases[3]; for (auto& b : bases) b = r.coin() ? r.below(8) * seg : (r.next() >> 4) / seg * seg;
  if (r.coin()) bases[1] = bases[0] + seg; if (r.coin()) bases[2] = bases[1] + seg;
  auto addr = [&](int el) { uint64_t b = bases[r.below(3)]; int w = r.below(4); uint64_t a = w == 0 ? b + r.below(64) : w == 1 ? b + seg - 64 + r.below(64 - el + 1) : w == 2 ? b + 256 + r.below(40) : b + r.below(seg - 16); return r.coin(80) ? a & ~(uint64_t)(el - 1) : a; };
  int count = 0, els[] = {1, 2, 4, 8};
  for (int k = 0; k < 60; k++) {
    if (k == 0 || r.coin(5)) { on = k == 0 ? r.coin(90) : !on; p->set_is_enabled(on); vpd::note(on ? "enabled" : "disabled"); }
    int op = r.below(kTagged ? 6 : 4); ran = 0; bool load = op % 2 == 0; Instruction* i = r.coin() ? inst : nullptr; int seen = mem.n; count++;
    if (op < 2) {
      int n = r.coin(70) ? els[r.below(4)] : 1 + r.below(20); int al = 1; while (al * 2 <= n && al < 8) al *= 2; uint64_t a = addr(al); vpd::note(vpd::cat(load ? "load " : "store ", n, " at ", a));
      auto* b = f.Allocate(n); memset(b->raw_ptr(), 3, n); b->set_latency(0); if (on) Mark(words, a, n);
      if (load) p->Load(a, b, i, ctx); else p->Store(a, b);
      VPD_CHECK(b->ref_count() == 1, "references of the buffer"); b->DecRef();
    } else if (op < 4) {
      int el = els[r.below(4)], n = 1 + r.below(6); bool gather = n > 1 && r.coin(); auto* ad = f.Allocate<uint64_t>(gather ? n : 1); auto* mk = f.Allocate<bool>(n); auto* b = f.Allocate(n * el); memset(b->raw_ptr(), 5, n * el); b->set_latency(0);
      for (int j = 0; j < (gather ? n : 1); j++) ad->Set<uint64_t>(j, addr(el)); std::string d;
      for (int j = 0; j < n; j++) { bool m = r.coin(70); uint64_t a = gather ? ad->Get<uint64_t>(j) : ad->Get<uint64_t>(0) + j * el; mk->Set<bool>(j, m); d += vpd::cat(" ", m ? "" : "!", a); if (m && on) Mark(words, a, el); }
      vpd::note(vpd::cat(load ? "vector load" : "vector store", d, gather ? "" : " unit stride", " of ", el));
      if (load) p->Load(ad, mk, el, b, i, ctx); else p->Store(ad, mk, el, b);
      for (auto* z : {ad, mk, b}) { VPD_CHECK(z->ref_count() == 1, "references of the buffers"); z->DecRef(); }
    } else if constexpr (kTagged) {
      uint64_t a = addr(8) & ~7ull; int n = 8 * (1 + r.below(2)); bool only = load && r.coin(30); auto* b = f.Allocate(n); auto* t = f.Allocate(n / 8); memset(b->raw_ptr(), 5, n); memset(t->raw_ptr(), 1, n / 8); b->set_latency(0); t->set_latency(0);
      vpd::note(vpd::cat(load ? only ? "load of tags " : "tagged load " : "tagged store ", n, " at ", a)); if (on && !only) Mark(words, a, n);
      if (load) p->Load(a, only ? nullptr : b, t, i, ctx); else p->Store(a, b, t);
      b->DecRef(); t->DecRef();
    }
    VPD_CHECK(mem.n == seen + (none ? 0 : 1), "the access arrived ", mem.n - seen, " times"); VPD_CHECK(ran == (load && i && !none ? 1 : 0), "instruction executed ", ran, " times");
    if (r.coin(10)) Compare(*p, words);
  }
  Compare(*p, words); inst->DecRef(); ctx->DecRef();
}
// every pattern of marks in the last and the first bytes of a segment and around the end of it
static void Patterns(Rng& r, int n) {
  uint64_t seg = 128 * 1024;
  for (int k = 0; k < n; k++) {
    vpd::log().clear(); vpd::cases++; MemoryUseProfiler p(nullptr); p.set_is_enabled(true); std::set<uint64_t> words; DataBufferFactory f; auto* b = f.Allocate(4);
    uint64_t base = r.below(16) * seg; uint32_t pat = r.next(); int at = r.below(4); bool run = r.coin(30);
    auto one = [&](uint64_t a) { p.Store(a, b); Mark(words, a, 4); };
    for (int i = 0; i < 24; i++) if ((pat >> i) & 1) one(at == 0 ? base + 4 * i : at == 1 ? base + seg - 96 + 4 * i : at == 2 ? base + seg - 48 + 4 * i : base + 512 + 4 * i);
    if (run) for (uint64_t a = base + seg - 4 * (1 + r.below(40)); a < base + seg; a += 4) one(a);
    if (r.coin(20)) one(base + 2 * seg); if (r.coin(10)) one(base + 3 * seg - 4); if (r.coin(5)) for (uint64_t a = base; a < base + seg; a += 4) one(a);
    vpd::note(vpd::cat("pattern ", pat, " at ", at, " of segment ", base)); Compare(p, words); b->DecRef();
  }
}
int main(int argc, char** argv) {
  Rng r(atoll(argv[1])); vpd::Clock clk(atof(argv[2])); int n = std::string(argv[3]) == "quick" ? 3000 : 300000;
  for (int i = 0; i < n && (i < 40 || clk.more()); i++) { Run<false>(r); Run<true>(r); Patterns(r, 10); if (i < 2) vpd::sample("60 random accesses through a profiler; the profile against a set of words"); }
  VPD_DONE(); return 0;
}
