// C21 bounded supplement: random histories of lookups and invalidations against a table of what each slot holds.
#include "vpd.h"
#include <map>
#include <memory>
#include <set>
#include "mpact/sim/generic/decode_cache.h"
#include "mpact/sim/generic/decoder_interface.h"
#include "mpact/sim/generic/instruction.h"
using namespace mpact::sim::generic; using vpd::Rng;
static std::map<Instruction*, int> g_live;   // live instructions and their serial numbers
static int g_serial;
struct Inst : public Instruction {
  explicit Inst(uint64_t a) : Instruction(a, nullptr) { g_live[this] = ++g_serial; }
  ~Inst() override { g_live.erase(this); }
};
struct Dec : public DecoderInterface {
  int calls = 0; uint64_t asked = 0; bool fail = false;
  Instruction* DecodeInstruction(uint64_t a) override { calls++; asked = a; return fail ? nullptr : new Inst(a); }
  int GetNumOpcodes() const override { return 0; }
  const char* GetOpcodeName(int) const override { return ""; }
};
struct Ent { uint64_t a; int serial; Instruction* p; };
static void Run(Rng& r) {
  vpd::log().clear(); vpd::cases++; g_live.clear(); g_serial = 0;
  DecodeCacheProperties p; p.num_entries = r.coin(60) ? 1 + r.below(8) : r.below(70); p.minimum_pc_increment = 1u << r.below(r.coin() ? 4 : 32);
  uint64_t n = 1; while (n < p.num_entries) n *= 2;
  uint64_t inc = p.minimum_pc_increment;
  Dec d; std::unique_ptr<DecodeCache> c(DecodeCache::Create(p, &d));
  VPD_CHECK(c != nullptr, "no cache for ", p.num_entries, " entries, increment ", inc);
  VPD_CHECK((uint64_t)c->num_entries() == n && (uint32_t)c->address_inc() == inc && c->address_mask() == (n - 1) * inc && 1ull << c->address_shift() == inc, "geometry of ", p.num_entries, " entries, increment ", inc);
  vpd::note(vpd::cat(n, " entries, increment ", inc));
  std::map<uint64_t, Ent> t; std::vector<std::pair<Instruction*, int>> held; uint64_t base = r.coin(30) ? 0 - inc * r.below(3 * n + 2) : r.coin() ? 0 : r.next();
  auto addr = [&]() { return base + inc * r.below(3 * n + 2) + (r.coin(15) ? r.below(inc) : 0); };
  auto slot = [&](uint64_t a) { return a / inc % n; };
  for (int k = 0; k < 60; k++) {
    int what = r.below(10); uint64_t a = addr(); int calls = d.calls;
    if (what < 5) {
      d.fail = r.coin(5); vpd::note(vpd::cat("get ", a, d.fail ? " (decoder gives nothing)" : "")); Instruction* i = c->GetDecodedInstruction(a); auto it = t.find(slot(a));
      if (it != t.end() && it->second.a == a) { VPD_CHECK(i == it->second.p && d.calls == calls, "cached instruction of ", a, " not returned"); }
      else { VPD_CHECK(d.calls == calls + 1 && d.asked == a, "decode of ", a, " asked for ", d.asked, ", calls ", d.calls - calls); if (d.fail) VPD_CHECK(i == nullptr, "instruction from nothing"); else { VPD_CHECK(g_live.count(i) && g_live[i] == g_serial, "the new instruction is not returned"); t[slot(a)] = {a, g_serial, i}; } }
      if (i) { VPD_CHECK(g_live.count(i), "a deleted instruction is returned"); VPD_CHECK(i->address() == a, "instruction of ", i->address(), " for ", a); if (r.coin(10) && held.size() < 6) { i->IncRef(); held.push_back({i, g_live[i]}); vpd::note("hold it"); } }
    } else if (what < 7) { vpd::note(vpd::cat("invalidate ", a)); c->Invalidate(a); auto it = t.find(slot(a)); if (it != t.end() && it->second.a == a) t.erase(it); }
    else if (what < 9) {
      uint64_t e; switch (r.below(5)) { case 0: e = a + r.below(inc * 3 + 2); break; case 1: e = a; break; case 2: e = ~0ull - r.below(2); a = r.coin() ? a : e - r.below(inc * (n + 2)); if (a < base && base - a < (1ull << 62)) {} break; case 3: e = addr(); break; default: e = a + inc * r.below(n * 3); }
      vpd::note(vpd::cat("invalidate range ", a, " to ", e)); c->InvalidateRange(a, e); for (auto it = t.begin(); it != t.end();) if (it->second.a >= a && it->second.a < e) it = t.erase(it); else ++it; }
    else if (r.coin(30)) { vpd::note("invalidate all"); c->InvalidateAll(); t.clear(); }
    else if (!held.empty()) { vpd::note("drop one held"); VPD_CHECK(g_live.count(held.back().first) && g_live[held.back().first] == held.back().second, "a held instruction was deleted"); held.back().first->DecRef(); held.pop_back(); }
    if (what >= 5) VPD_CHECK(d.calls == calls, "decoded without need");
    std::map<Instruction*, int> refs; for (auto& x : t) refs[x.second.p]++; for (auto& x : held) refs[x.first]++;
    for (auto& x : refs) { VPD_CHECK(g_live.count(x.first), "an instruction in use was deleted"); VPD_CHECK(x.first->ref_count() == x.second, "references of an instruction: ", x.first->ref_count(), " not ", x.second); }
    VPD_CHECK(g_live.size() == refs.size(), "an instruction that nobody uses lives on");
    vpd::distinct_case(vpd::mix(vpd::mix(what, n), vpd::mix(t.size(), vpd::mix(inc, k))));
  }
  c.reset(); for (auto& x : held) { VPD_CHECK(g_live.count(x.first), "a held instruction was deleted with the cache"); x.first->DecRef(); }
  VPD_CHECK(g_live.empty(), "the cache left instructions behind");
}
int main(int argc, char** argv) {
  Rng r(atoll(argv[1])); vpd::Clock clk(atof(argv[2])); bool quick = std::string(argv[3]) == "quick"; int n = quick ? 3000 : 400000;
  Dec d;
  for (uint64_t i = 0; i < 300; i++) { vpd::cases++; vpd::log().clear(); DecodeCacheProperties p; p.num_entries = i % 7; p.minimum_pc_increment = i < 200 ? i : (uint32_t)r.corner(); vpd::note(vpd::cat("increment ", p.minimum_pc_increment)); bool ok = p.minimum_pc_increment && !(p.minimum_pc_increment & (p.minimum_pc_increment - 1)); std::unique_ptr<DecodeCache> c(DecodeCache::Create(p, &d)); VPD_CHECK((c != nullptr) == ok, "cache exists: ", c != nullptr); }
  // wide masks
  for (int e = 0; e <= 20; e += 4) for (int s = 0; s < 32; s += 3) { vpd::cases++; vpd::log().clear(); vpd::note(vpd::cat("2^", e, " entries, increment 2^", s)); DecodeCacheProperties p{1u << e, 1u << s}; std::unique_ptr<DecodeCache> c(DecodeCache::Create(p, &d)); VPD_CHECK(c && c->address_mask() == ((1ull << e) - 1) << s, "mask"); for (uint64_t a : {0ull, ~0ull, 1ull << 63, 1ull << 40, 0x123456789abcdefull}) { auto* i = c->GetDecodedInstruction(a); VPD_CHECK(i && i->address() == a && c->GetDecodedInstruction(a) == i, "lookup of ", a); } }
  for (int i = 0; i < n && (i < 60 || clk.more()); i++) { Run(r); if (i < 2) vpd::sample("60 random lookups and invalidations of one cache"); }
  VPD_DONE(); return 0;
}
