// C02 bounded supplement: random allocate/share/release/copy/clear histories on several factories against a reference pool (public API).
#include <cstring>
#include <map>
#include <set>
#include "vpd.h"
#include "mpact/sim/generic/data_buffer.h"
using namespace mpact::sim::generic;
using vpd::Rng;
struct Live { DataBuffer* db; int size; int refs; uint8_t pat; int fac; };
static void Fill(Live& l) { for (int i = 0; i < l.size; i += (l.size > 300 ? 37 : 1)) l.db->Set<uint8_t>(i, (uint8_t)(l.pat + i)); if (l.size) l.db->Set<uint8_t>(l.size - 1, l.pat); }
static void Verify(const Live& l) {
  VPD_CHECK(l.db->size<uint8_t>() == l.size, "size of a live buffer is ", l.db->size<uint8_t>(), " expected ", l.size);
  VPD_CHECK(l.db->ref_count() == l.refs, "reference count ", l.db->ref_count(), " expected ", l.refs);
  for (int i = 0; i < l.size - 1; i += (l.size > 300 ? 37 : 1)) VPD_CHECK(l.db->Get<uint8_t>(i) == (uint8_t)(l.pat + i), "byte ", i, " of a live buffer of size ", l.size, " changed");
  if (l.size) VPD_CHECK(l.db->Get<uint8_t>(l.size - 1) == l.pat, "last byte of a live buffer of size ", l.size, " changed");
}
static int PickSize(Rng& r) {
  switch (r.below(7)) {
    case 0: return r.below(17);
    case 1: return 1 << r.below(14);
    case 2: return 4090 + r.below(12);
    case 3: return 4096;
    case 4: return 4097 + r.below(3) * 1000;
    case 5: return r.below(4097);
    default: return 8 * (1 + r.below(4));
  }
}
static void History(Rng& r, int steps) {
  std::vector<DataBufferFactory*> fs; int nf = 1 + r.below(2);
  for (int i = 0; i < nf; i++) fs.push_back(new DataBufferFactory());
  std::vector<std::map<int, std::set<DataBuffer*>>> pool(nf);
  std::vector<Live> live; uint64_t sig = 0;
  vpd::log().clear();
  for (int st = 0; st < steps; st++) {
    vpd::cases++;
    int op = r.below(12), f = r.below(nf);
    sig = vpd::mix(sig, op);
    if (op < 5 || live.empty()) {
      int s = PickSize(r); DataBuffer* db; Live* src = nullptr; int which = r.below(4); int si = -1;
      if (which == 0 && !live.empty()) { si = r.below(live.size()); s = live[si].size; vpd::note(vpd::cat("f", f, " MakeCopyOf size ", s)); db = fs[f]->MakeCopyOf(live[si].db); }
      else if (which == 1) { s &= ~7; vpd::note(vpd::cat("f", f, " Allocate<uint64_t>(", s / 8, ")")); db = fs[f]->Allocate<uint64_t>(s / 8); }
      else { vpd::note(vpd::cat("f", f, " Allocate(", s, ")")); db = fs[f]->Allocate(s); }
      sig = vpd::mix(sig, s);
      VPD_CHECK(db != nullptr, "Allocate returned null");
      for (auto& l : live) VPD_CHECK(l.db != db && (s == 0 || l.size == 0 || l.db->raw_ptr() != db->raw_ptr()), "a buffer in use was handed out again (size ", s, ")");
      VPD_CHECK(db->size<uint8_t>() == s, "requested ", s, " bytes, got ", db->size<uint8_t>());
      VPD_CHECK(db->ref_count() == 1, "a buffer handed out has reference count ", db->ref_count());
      if (!pool[f][s].empty()) { VPD_CHECK(pool[f][s].count(db), "free buffers of size ", s, " exist but another was handed out"); pool[f][s].erase(db); }
      for (auto& p : pool) for (auto& kv : p) VPD_CHECK(!kv.second.count(db), "buffer taken from the pool of another size or factory");
      Live l{db, s, 1, (uint8_t)r.next(), f};
      if (si >= 0) { std::vector<uint8_t> a(s + 1), b(s + 1); live[si].db->CopyTo(a.data()); db->CopyTo(b.data()); VPD_CHECK(!s || std::memcmp(a.data(), b.data(), s) == 0, "MakeCopyOf contents differ"); Verify(live[si]); }
      (void)src; Fill(l); live.push_back(l);
    } else if (op < 7) { int i = r.below(live.size()); vpd::note(vpd::cat("IncRef size ", live[i].size)); live[i].db->IncRef(); live[i].refs++; }
    else if (op < 11) {
      int i = r.below(live.size()); Verify(live[i]); vpd::note(vpd::cat("DecRef size ", live[i].size, " refs ", live[i].refs)); live[i].db->DecRef();
      if (--live[i].refs == 0) { pool[live[i].fac][live[i].size].insert(live[i].db); live.erase(live.begin() + i); }
    } else if (r.coin(30)) { vpd::note(vpd::cat("f", f, " Clear")); fs[f]->Clear(); pool[f].clear(); }
    if (st % 8 == 0) for (auto& l : live) Verify(l);
  }
  for (auto& l : live) { Verify(l); while (l.refs--) l.db->DecRef(); }
  for (auto* f : fs) delete f;
  vpd::distinct_case(sig);
}
int main(int argc, char** argv) {
  Rng r(atoll(argv[1])); vpd::Clock clk(atof(argv[2])); int n = std::string(argv[3]) == "quick" ? 1500 : 100000;
  for (int i = 0; i < n && (i < 60 || clk.more()); i++) { History(r, i % 5 == 0 ? 10 : 120); if (i < 2) vpd::sample("history of allocate/copy/share/release/clear operations, sizes 0..6097"); }
  VPD_DONE();
}
