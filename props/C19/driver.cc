// C19 bounded supplement: random target ranges and accesses against a list of ranges.
#include "vpd.h"
#include <map>
#include <string>
#include <vector>
#include "mpact/sim/generic/data_buffer.h"
#include "mpact/sim/generic/instruction.h"
#include "mpact/sim/util/memory/memory_router.h"
#include "mpact/sim/util/memory/single_initiator_router.h"
using namespace mpact::sim::generic; using namespace mpact::sim::util; using vpd::Rng;
static int g_n, g_kind; static void* g_who; static uint64_t g_address; static DataBuffer *g_db, *g_tags;
struct Target : public TaggedMemoryInterface {
  void Got(int k, uint64_t a, DataBuffer* b, DataBuffer* t) { g_n++; g_kind = k; g_who = this; g_address = a; g_db = b; g_tags = t; }
  void Load(uint64_t a, DataBuffer* b, Instruction*, ReferenceCount*) override { Got(1, a, b, nullptr); }
  void Store(uint64_t a, DataBuffer* b) override { Got(2, a, b, nullptr); }
  void Load(DataBuffer* a, DataBuffer*, int e, DataBuffer* b, Instruction*, ReferenceCount*) override { Got(3, e, b, a); }
  void Store(DataBuffer* a, DataBuffer*, int e, DataBuffer* b) override { Got(4, e, b, a); }
  void Load(uint64_t a, DataBuffer* b, DataBuffer* t, Instruction*, ReferenceCount*) override { Got(5, a, b, t); }
  void Store(uint64_t a, DataBuffer* b, DataBuffer* t) override { Got(6, a, b, t); }
};
struct Atomic : public AtomicMemoryOpInterface {
  absl::Status PerformMemoryOp(uint64_t a, Operation, DataBuffer* b, Instruction*, ReferenceCount*) override { g_n++; g_kind = 7; g_who = this; g_address = a; g_db = b; g_tags = nullptr; return absl::OkStatus(); }
};
struct Rg { uint64_t lo, hi; void* who; };
struct Kind { std::vector<Rg> rs; void* def = nullptr; };
enum { kFall, kTo, kDrop, kEither };
static int Route(const Kind& k, const std::vector<uint64_t>& el, int n, void** who) {
  bool none = false, mixed = false; *who = nullptr;
  for (uint64_t a : el) { void* w = k.def; for (auto& x : k.rs) if (x.lo <= a + n - 1 && x.hi >= a) { w = x.lo <= a && x.hi >= a + n - 1 ? x.who : nullptr; break; } if (!w) none = true; else if (*who && *who != w) mixed = true; else *who = w; }
  return none ? (mixed ? kEither : kFall) : mixed ? kDrop : *who ? kTo : kFall;
}
static const uint64_t kN = 128;
static void Run(Rng& r, DataBufferFactory* fac) {
  vpd::log().clear(); vpd::cases++; MemoryRouter mr; bool named = r.coin(); SingleInitiatorRouter own("own"), *rt = &own; std::vector<Target> tg(8); std::vector<Atomic> at(4); Kind k[3]; std::map<std::string, int> names;
  if (named) { auto* i = mr.AddTaggedInitiator("cpu"); rt = static_cast<SingleInitiatorRouter*>(i); VPD_CHECK(static_cast<SingleInitiatorRouter*>(mr.AddAtomicInitiator("cpu")) == rt && mr.AddMemoryInitiator("cpu") == static_cast<MemoryInterface*>(i), "interfaces of one initiator"); VPD_CHECK((void*)mr.AddMemoryInitiator("other") != (void*)static_cast<MemoryInterface*>(i), "another initiator");
    for (int i = 0; i < 8; i++) VPD_CHECK((i < 4 ? mr.AddTarget(vpd::cat("t", i), static_cast<MemoryInterface*>(&tg[i])) : mr.AddTarget(vpd::cat("t", i), static_cast<TaggedMemoryInterface*>(&tg[i]))).ok(), "target added"); for (int i = 0; i < 4; i++) VPD_CHECK(mr.AddTarget(vpd::cat("a", i), &at[i]).ok(), "target added");
    VPD_CHECK(!mr.AddTarget("t5", static_cast<MemoryInterface*>(&tg[0])).ok() && !mr.AddTarget("a1", static_cast<MemoryInterface*>(&tg[0])).ok(), "name taken"); VPD_CHECK(!mr.AddMapping("nobody", "t1", 0, 9).ok() && !mr.AddMapping("cpu", "nothing", 0, 9).ok(), "unknown names"); }
  int nr = r.below(10); for (int i = 0; i < nr; i++) { int c = r.below(3), w = r.below(4); uint64_t lo = r.below(kN), hi = r.coin(5) ? lo - 1 : lo + 1 + r.below(24); bool same = false, ok = lo < hi; void* who = c == 2 ? (void*)&at[w] : (void*)&tg[4 * c + w];
    for (auto& x : k[c].rs) if (ok && x.lo <= hi && x.hi >= lo) { if (x.lo == lo && x.hi == hi) same = true; else { ok = false; } } vpd::note(vpd::cat("range ", lo, " to ", hi, " of kind ", c));
    bool got = named ? mr.AddMapping("cpu", vpd::cat(c == 2 ? "a" : "t", c == 1 ? 4 + w : w), lo, hi).ok() : c == 0 ? rt->AddTarget<MemoryInterface>(&tg[w], lo, hi).ok() : c == 1 ? rt->AddTarget<TaggedMemoryInterface>(&tg[4 + w], lo, hi).ok() : rt->AddTarget<AtomicMemoryOpInterface>(&at[w], lo, hi).ok();
    VPD_CHECK(got == ok, "range accepted: ", got); if (ok && !same) k[c].rs.push_back({lo, hi, who}); }
  if (r.coin()) { k[0].def = &tg[0]; VPD_CHECK(rt->AddDefaultTarget<MemoryInterface>(&tg[0]).ok() && !rt->AddDefaultTarget<MemoryInterface>(&tg[1]).ok(), "default"); } if (r.coin()) { k[1].def = &tg[7]; VPD_CHECK(rt->AddDefaultTarget<TaggedMemoryInterface>(&tg[7]).ok(), "default"); } if (r.coin()) { k[2].def = &at[3]; VPD_CHECK(rt->AddDefaultTarget<AtomicMemoryOpInterface>(&at[3]).ok(), "default"); }
  for (int j = 0; j < 40; j++) { int kind = 1 + r.below(7), n = kind == 3 || kind == 4 ? 1 << r.below(4) : 1 + r.below(8); bool vec = kind == 3 || kind == 4; uint64_t a = r.below(kN + 16); g_n = 0; g_who = nullptr; std::vector<uint64_t> el; auto *b = fac->Allocate(vec ? n * 4 : n), *t = fac->Allocate(1); DataBuffer *ad = nullptr, *mk = nullptr; bool tags_only = kind == 5 && r.coin(30);
    if (vec) { int cnt = 1 + r.below(4); bool sc = r.coin() || cnt == 1; ad = fac->Allocate(8 * (sc ? cnt : 1)); mk = fac->Allocate(cnt); for (unsigned i = 0; i < ad->size<uint64_t>(); i++) ad->Set<uint64_t>(i, r.coin(70) ? a + r.below(16) : r.below(kN)); for (int i = 0; i < cnt; i++) { mk->Set<uint8_t>(i, r.coin(75)); if (mk->Get<uint8_t>(i)) el.push_back(sc ? ad->Get<uint64_t>(i) : ad->Get<uint64_t>(0) + i * n); } } else el.push_back(a);
    vpd::note(vpd::cat("access ", kind, " of ", n, " at ", vec && !el.empty() ? el[0] : a)); bool ok = true;
    switch (kind) { case 1: rt->Load(a, b, nullptr, nullptr); break; case 2: rt->Store(a, b); break; case 3: rt->Load(ad, mk, n, b, nullptr, nullptr); break; case 4: rt->Store(ad, mk, n, b); break; case 5: rt->Load(a, tags_only ? nullptr : b, t, nullptr, nullptr); break; case 6: rt->Store(a, b, t); break; case 7: ok = rt->PerformMemoryOp(a, AtomicMemoryOpInterface::Operation::kAtomicAdd, b, nullptr, nullptr).ok(); break; }
    if (tags_only) n = 8; void *m = nullptr, *tt = nullptr, *want = nullptr; bool either = false;
    if (kind == 7) { Route(k[2], el, n, &want); if (Route(k[2], el, n, &m) != kTo) want = nullptr; } else { int x = kind < 5 ? Route(k[0], el, n, &m) : kFall, y = Route(k[1], el, n, &tt); either = x == kEither || (x == kFall && y == kEither); want = x == kTo ? m : x == kDrop ? nullptr : y == kTo ? tt : nullptr; }
    if (kind != 7 && want && want != g_who && !either) VPD_CHECK(false, "access ", kind, " of ", n, " bytes at ", a, " did not go to the target that covers it");
    VPD_CHECK(g_n <= 1 && (g_n == 1) == (g_who != nullptr), "passed on ", g_n, " times"); if (!el.empty()) VPD_CHECK(g_who == want || (either && !g_who), "access ", kind, " of ", n, " bytes at ", a, " went to the wrong target"); if (g_n) VPD_CHECK(g_kind == kind && (vec ? g_address == (uint64_t)n && g_tags == ad : g_address == a) && g_db == (tags_only ? nullptr : b), "passed on changed"); if (kind == 7) VPD_CHECK(ok == (g_n == 1), "answer");
    b->DecRef(); t->DecRef(); if (ad) ad->DecRef(); if (mk) mk->DecRef(); vpd::distinct_case(vpd::mix(vpd::mix(kind, n), vpd::mix(a, nr * 4 + g_n))); }
}
int main(int argc, char** argv) {
  Rng r(atoll(argv[1])); vpd::Clock clk(atof(argv[2])); int n = std::string(argv[3]) == "quick" ? 4000 : 400000; DataBufferFactory fac;
  for (int i = 0; i < n && (i < 60 || clk.more()); i++) { Run(r, &fac); if (i < 2) vpd::sample("up to 10 random ranges, 40 random scalar, vector, tagged and atomic accesses"); }
  VPD_DONE(); return 0;
}
