// C24 bounded supplement: random geometries and histories of accesses through a cache against a reference cache and a memory without one.
#include "vpd.h"
#include <map>
#include <memory>
#include "mpact/sim/generic/arch_state.h"
#include "mpact/sim/generic/instruction.h"
#include "mpact/sim/util/memory/cache.h"
#include "mpact/sim/util/memory/flat_demand_memory.h"
#include "mpact/sim/util/memory/tagged_flat_demand_memory.h"
using namespace mpact::sim::generic; using namespace mpact::sim::util; using vpd::Rng;
struct St : public ArchState { St() : ArchState("s") {} };
static const char* kNames[9] = {"read_hit", "read_miss", "write_hit", "write_miss", "dirty_line_writeback", "read_around", "write_around", "read_non_cacheable", "write_non_cacheable"};
struct Ref {   // the reference
  struct Line { bool valid = false, dirty = false; uint64_t block = 0, used = 0; };
  uint64_t bs, sets, ways; bool alloc; int kind = 0; std::vector<std::pair<uint64_t, uint64_t>> ranges; std::vector<Line> l; uint64_t n[9] = {};
  void One(uint64_t b, bool rd, uint64_t now) {
    Line* s = &l[(b & (sets - 1)) * ways]; Line* v = nullptr;
    for (uint64_t i = 0; i < ways; i++) if (s[i].valid && s[i].block == b) { n[rd ? 0 : 2]++; s[i].used = now; if (!rd) s[i].dirty = true; return; }
    n[rd ? 1 : 3]++;
    if (!rd && !alloc) { n[6]++; return; }
    for (uint64_t i = 0; i < ways && !v; i++) if (!s[i].valid) v = &s[i];
    if (!v) { v = s; for (uint64_t i = 0; i < ways; i++) if (s[i].used < v->used) v = &s[i]; if (v->dirty) n[4]++; }
    *v = Line{true, !rd, b, now};
  }
  void Access(uint64_t a, uint64_t size, bool rd, uint64_t now) {
    bool in = false; for (auto& r : ranges) in |= a <= r.second && a + size - 1 >= r.first;
    for (uint64_t b = a / bs; b <= (a + size - 1) / bs; b++) { if ((kind == 1 && !in) || (kind == 2 && in)) n[rd ? 7 : 8]++; else One(b, rd, now); }
  }
};
struct Ctx : public ReferenceCount {};
static void Run(Rng& r) {
  vpd::log().clear(); vpd::cases++;
  St st; FunctionDelayLine* fl = st.function_delay_line(); bool tagged = r.coin(); int shift = 2 + r.below(6), sb = r.below(4), wb = r.below(4); uint64_t lines = 1ull << (sb + wb);
  auto plain = std::make_unique<FlatDemandMemory>(0); auto tmem = std::make_unique<TaggedFlatDemandMemory>(8); auto pref = std::make_unique<FlatDemandMemory>(0); auto tref = std::make_unique<TaggedFlatDemandMemory>(8);
  MemoryInterface* mref = tagged ? static_cast<MemoryInterface*>(tref.get()) : pref.get();
  bool set = r.coin(20); std::unique_ptr<Cache> c; if (set) { c = std::make_unique<Cache>("cache"); if (tagged) c->set_tagged_memory(tmem.get()); else c->set_memory(plain.get()); } else c.reset(tagged ? new Cache("cache", static_cast<TaggedMemoryInterface*>(tmem.get())) : new Cache("cache", static_cast<MemoryInterface*>(plain.get())));
  auto own_ctr = std::make_unique<SimpleCounter<uint64_t>>("cycles", 0); auto& cyc = *own_ctr; uint64_t now = r.coin(10) ? (1ull << 33) : 0; Ref ref; ref.bs = 1ull << shift; ref.alloc = r.coin(60); bool full = sb == 0 && r.coin(); ref.sets = 1ull << sb; ref.ways = 1ull << wb; ref.l.resize(lines);
  uint64_t size = lines << shift; std::string cfg = size >= 1024 && r.coin() ? vpd::cat(size / 1024, "k") : vpd::cat(size); cfg += vpd::cat(",", ref.bs, ",", full ? 0 : ref.ways, ",", ref.alloc ? "true" : "false");
  uint64_t base = r.coin(70) ? r.below(1 << 20) * 16 : (r.next() >> 1) & ~15ull, span = size * (1 + r.below(4)) + 64;
  if (r.coin(40)) { ref.kind = 1 + r.below(2); int k = 1 + r.below(3); for (int i = 0; i < k; i++) { uint64_t lo = base + span * i / k + r.below(8), hi = std::min(base + span * (i + 1) / k - 1, lo + r.below(span / k)); if (lo > hi) continue; ref.ranges.push_back({lo, hi}); char t[80]; snprintf(t, 80, r.coin() ? ",%s:0x%llx:0x%llx" : ",%s:%llu:%llu", ref.kind == 1 ? "c" : "nc", (unsigned long long)lo, (unsigned long long)hi); cfg += t; } if (ref.ranges.empty()) ref.kind = 0; }
  vpd::note(vpd::cat("configuration ", cfg, tagged ? " tagged" : "")); auto s = c->Configure(cfg, &cyc); VPD_CHECK(s.ok(), "configuration accepted");
  DataBufferFactory f; Ctx* ctx = new Ctx; auto* inst = new Instruction(0, &st); int ran = 0; ReferenceCount* seen = nullptr; inst->set_semantic_function([&](Instruction* i) { ran++; seen = i->context(); });
  auto done = [&](DataBuffer* b, int lat, bool wi, bool wc) { if (!wi) { VPD_CHECK(ran == 0, "executed without instruction"); } else if (lat == 0) VPD_CHECK(ran == 1, "executed at once, ", ran); else for (int i = 0; i < lat; i++) { VPD_CHECK(ran == 0, "executed before its latency"); fl->Advance(); } VPD_CHECK(ran == wi, "executed ", ran, " times"); if (wi) VPD_CHECK(seen == (wc ? ctx : nullptr), "context"); VPD_CHECK(inst->ref_count() == 1 && ctx->ref_count() == 1, "references of instruction and context: ", inst->ref_count(), " ", ctx->ref_count()); if (b) VPD_CHECK(b->ref_count() == 1 && b->latency() == lat, "buffer: ", b->ref_count(), " references, latency ", b->latency()); };
  for (int k = 0; k < 150; k++) {
    uint64_t maxs = ref.sets == 1 ? 1 : std::min<uint64_t>(ref.sets, 4); int n = 1 + r.below(std::min<uint64_t>(16, maxs * ref.bs)); uint64_t a = base + r.below(span); if (r.coin(50)) a = base + r.below(1 + span / 8); if (maxs == 1) { n = 1 + r.below(std::min<uint64_t>(16, ref.bs)); if ((a & (ref.bs - 1)) + n > ref.bs) a &= ~(ref.bs - 1); }
    int es[] = {1, 2, 4, 8}; int op = r.below(7), lat = r.coin(60) ? 0 : 1 + r.below(4); bool wi = r.coin(70), wc = r.coin(); ran = 0; seen = nullptr; now += 1 + r.below(5); cyc.SetValue(now);
    if (op <= 1) { auto* b = f.Allocate(n); auto* x = f.Allocate(n); b->set_latency(lat); vpd::note(vpd::cat("load ", n, " at ", a)); ref.Access(a, n, true, now); c->Load(a, b, wi ? inst : nullptr, wc ? ctx : nullptr); done(b, lat, wi, wc); x->set_latency(0); mref->Load(a, x, nullptr, nullptr); VPD_CHECK(!memcmp(b->raw_ptr(), x->raw_ptr(), n), "data loaded"); b->DecRef(); x->DecRef(); }
    else if (op == 2) { auto* b = f.Allocate(n); for (int i = 0; i < n; i++) b->Set<uint8_t>(i, r.next()); vpd::note(vpd::cat("store ", n, " at ", a)); ref.Access(a, n, false, now); c->Store(a, b); mref->Store(a, b); VPD_CHECK(b->ref_count() == 1, "references"); b->DecRef(); }
    else if (op == 3 || op == 4) { int el = es[r.below(maxs == 1 ? 3 : 4)], m = 1 + r.below(5); bool g = m == 1 || r.coin(); auto* ad = f.Allocate<uint64_t>(g ? m : 1); auto* mk = f.Allocate<bool>(m); auto* b = f.Allocate(el * m); auto* x = f.Allocate(el * m); memset(b->raw_ptr(), 7, el * m); memset(x->raw_ptr(), 7, el * m); if (!g) a &= ~(uint64_t)(el - 1);
      for (int i = 0; i < (g ? m : 1); i++) ad->Set<uint64_t>(i, g ? (base + r.below(span)) & ~(uint64_t)(el - 1) : a); std::string d; bool any = false; for (int i = 0; i < m; i++) {
        // all elements of one access have the same time: in caches in which this leaves a choice one element is enabled
        bool on = r.coin(70) && !(ref.ways > 1 && any); any |= on; mk->Set<bool>(i, on); uint64_t w = g ? ad->Get<uint64_t>(i) : a + i * el; d += vpd::cat(" ", on ? "" : "!", w); if (on) ref.Access(w, el, op == 3, now); }
      vpd::note(vpd::cat(op == 3 ? "vector load" : "vector store", d)); if (op == 3) { b->set_latency(lat); x->set_latency(0); c->Load(ad, mk, el, b, wi ? inst : nullptr, wc ? ctx : nullptr); done(b, lat, wi, wc); mref->Load(ad, mk, el, x, nullptr, nullptr); VPD_CHECK(!memcmp(b->raw_ptr(), x->raw_ptr(), el * m), "data loaded"); } else { for (int i = 0; i < el * m; i++) b->Set<uint8_t>(i, r.next()); c->Store(ad, mk, el, b); mref->Store(ad, mk, el, b); }
      ad->DecRef(); mk->DecRef(); b->DecRef(); x->DecRef(); }
    else if (tagged) { a &= ~7ull; int g = 1 + r.below(ref.sets == 1 && ref.bs < 16 ? 1 : 2); if (ref.bs == 4 && ref.sets < 4) continue; if (ref.sets == 1) { if (ref.bs < 8) continue; if ((a & (ref.bs - 1)) + 8 * g > ref.bs) a &= ~(ref.bs - 1); } bool only = op == 5 && r.coin(); auto* b = f.Allocate(8 * g); auto* t = f.Allocate(g); auto* x = f.Allocate(8 * g); auto* y = f.Allocate(g);
      b->set_latency(lat); t->set_latency(lat); x->set_latency(0); y->set_latency(0); vpd::note(vpd::cat(op == 5 ? only ? "load of tags " : "tagged load " : "tagged store ", g, " at ", a)); ref.Access(a, 8 * g, op == 5, now);
      if (op == 5) { c->Load(a, only ? nullptr : b, t, wi ? inst : nullptr, wc ? ctx : nullptr); done(only ? nullptr : b, lat, wi, wc); tref->Load(a, only ? nullptr : x, y, nullptr, nullptr); VPD_CHECK(!memcmp(t->raw_ptr(), y->raw_ptr(), g), "tags loaded"); if (!only) VPD_CHECK(!memcmp(b->raw_ptr(), x->raw_ptr(), 8 * g), "data loaded"); }
      else { for (int i = 0; i < 8 * g; i++) b->Set<uint8_t>(i, r.next()); for (int i = 0; i < g; i++) t->Set<uint8_t>(i, r.coin()); c->Store(a, b, t); tref->Store(a, b, t); }
      for (auto* z : {b, t, x, y}) { VPD_CHECK(z->ref_count() == 1, "references of buffers"); z->DecRef(); } }
    else continue;
    for (int i = 0; i < 9; i++) { auto* ctr = static_cast<SimpleCounter<uint64_t>*>(c->GetCounter(kNames[i])); VPD_CHECK(ctr->GetValue() == ref.n[i], kNames[i], " is ", ctr->GetValue(), " instead of ", ref.n[i]); }
    vpd::distinct_case(vpd::mix(vpd::mix(op, n), vpd::mix(ref.n[0] + 1000 * ref.n[4], r.s))); }
  inst->DecRef(); ctx->DecRef();
}
static void Configs(Rng& r) {
  vpd::log().clear(); vpd::cases++; SimpleCounter<uint64_t> cyc("cycles", 0); Cache c("c");
  auto num = [&](int big) { return r.coin(75) ? 1ull << r.below(big) : r.below(70); };
  uint64_t n = num(14), b = num(10), w = r.coin(20) ? 0 : num(8); const char* sfx[] = {"", "k", "M", "K", "kk", "T"}; int s = r.coin(70) ? 0 : r.below(6); if (s == 2) n &= 15; if (s == 1) n &= 1023; const char* al[] = {"true", "false", "yes", "", "True"}; int x = r.coin(85) ? r.below(2) : r.below(5);
  int fields = r.coin(90) ? 4 : r.below(4); std::string f[] = {vpd::cat(n, sfx[s]), vpd::cat(b, r.coin(4) ? "k" : ""), vpd::cat(w, r.coin(4) ? "x" : ""), al[x]}; std::string cfg; for (int i = 0; i < fields; i++) cfg += (i ? "," : "") + f[i];
  bool ok = fields == 4 && s < 3 && f[1] == vpd::cat(b) && f[2] == vpd::cat(w) && x < 2; uint64_t size = s == 1 ? n << 10 : s == 2 ? n << 20 : n; auto p2 = [](uint64_t v) { return v && !(v & (v - 1)); }; ok = ok && p2(size) && p2(b) && b >= 4 && size >= b && (w == 0 || (p2(w) && w <= size / b));
  if (r.coin(30) && fields == 4) { const char* kind[] = {"c", "nc", "C", ""}; bool c1 = false, c2 = false; int m = 1 + r.below(2); uint64_t lo = r.below(100); for (int i = 0; i < m; i++) { int q = r.coin(85) ? r.below(2) : r.below(4); uint64_t hi = r.coin(90) ? lo + r.below(50) : lo ? lo - 1 : 0; bool extra = r.coin(5), miss = !extra && r.coin(5); cfg += vpd::cat(",", kind[q], ":", lo, miss ? "" : vpd::cat(":", hi), extra ? ":1" : ""); int parts = 3 - miss + extra; if (parts != 3 || q > 1 || lo > hi) ok = false; (q == 0 ? c1 : c2) = true; lo = std::max(lo, hi) + 1 + r.below(9); } if (c1 && c2) ok = false; }
  vpd::note(cfg); auto st = c.Configure(cfg, r.coin(97) ? &cyc : (ok = false, nullptr)); VPD_CHECK(st.ok() == ok, "configuration ", cfg, ok ? " is refused" : " is accepted");
}
int main(int argc, char** argv) {
  Rng r(atoll(argv[1])); vpd::Clock clk(atof(argv[2])); int n = std::string(argv[3]) == "quick" ? 4000 : 400000;
  for (int i = 0; i < n && (i < 60 || clk.more()); i++) { Run(r); for (int k = 0; k < 8; k++) Configs(r); if (i < 2) vpd::sample("150 random accesses through a cache of random geometry, counters and data compared after each"); }
  VPD_DONE(); return 0;
}
