// C10 bounded supplement: histories of registering, raising, masking and clearing errors against a reference model.
#include <algorithm>
#include <map>
#include "vpd.h"
#include "mpact/sim/generic/program_error.h"
using namespace mpact::sim::generic;
using vpd::Rng;
struct M { bool m = false; std::vector<std::string> msg; };
static void Case(Rng& r) {
  vpd::log().clear(); vpd::cases++;
  ProgramErrorController c("ctl"); std::map<std::string, M> ref; const std::string in = ProgramErrorController::kInternalErrorName; ref[in];
  VPD_CHECK(c.name() == "ctl", "name");
  std::map<std::string, std::unique_ptr<ProgramError>> h; int internal = 0; uint64_t sig = 0;
  auto sync = [&]() {  // internal messages have unspecified text: only their number is checked
    auto& l = c.GetErrorMessages(in); VPD_CHECK((int)l.size() == internal, "internal error raised ", l.size(), " times, expected ", internal); };
  auto names = [&](bool m) { std::vector<std::string> v; for (auto& [k, e] : ref) if (k == in ? (!m && internal > 0) : (e.m == m && !e.msg.empty())) v.push_back(k); return v; };
  int n = 5 + r.below(60);
  for (int s = 0; s < n; s++) {
    std::string k = r.coin(6) ? in : vpd::cat("e", r.below(7)); bool known = ref.count(k); int op = r.below(9); sig = vpd::mix(sig, op * 131 + k[1]);
    std::string msg = vpd::cat("m", r.below(1000)); vpd::note(vpd::cat("op ", op, " ", k, " ", msg));
    switch (op) {
      case 0: { bool ok = c.AddProgramErrorName(k); VPD_CHECK(ok == !known, "AddProgramErrorName gives ", ok); if (known) internal++; else ref[k]; break; }
      case 1: case 2: c.Raise(k, msg); if (!known || k == in) internal++; else ref[k].msg.push_back(msg); break;
      case 3: c.Mask(k); if (known && k != in) ref[k].m = true; else internal++; break;
      case 4: c.Unmask(k); if (known) ref[k].m = false; else internal++; break;
      case 5: c.Clear(k); if (!known) internal++; else if (k == in) internal = 0; else ref[k].msg.clear(); break;
      case 6: if (r.coin(15)) { c.ClearAll(); internal = 0; for (auto& e : ref) e.second.msg.clear(); } break;
      case 7: { auto p = c.GetProgramError(k); VPD_CHECK((p != nullptr) == known, "GetProgramError"); if (p) { VPD_CHECK(p->name() == k, "name of the handle"); h[k] = std::move(p); } break; }
      case 8: if (h.count(k)) { h[k]->Raise(msg); if (k == in) internal++; else ref[k].msg.push_back(msg); } break;
    }
    if (r.coin(50)) { bool m = c.IsMasked(k); known = ref.count(k); VPD_CHECK(m == (known && ref[k].m), "IsMasked(", k, ") gives ", m); if (!known) internal++;
      auto& l = c.GetErrorMessages(k); if (!known) internal++; VPD_CHECK((known && k != in) ? l == ref[k].msg : (int)l.size() == internal, "messages of ", k, ": ", l.size()); if (!known) ref.erase(k); }
    sync();
    auto um = c.GetUnmaskedErrorNames(), ms = c.GetMaskedErrorNames(); std::sort(um.begin(), um.end()); std::sort(ms.begin(), ms.end()); auto eu = names(false), em = names(true);
    std::sort(eu.begin(), eu.end()); std::sort(em.begin(), em.end());
    VPD_CHECK(um == eu && ms == em, "active errors: ", um.size(), " unmasked and ", ms.size(), " masked, expected ", eu.size(), " and ", em.size());
    VPD_CHECK(c.HasUnmaskedError() == !eu.empty() && c.HasMaskedError() == !em.empty() && c.HasError() == !(eu.empty() && em.empty()), "HasError flags");
    for (int q = 0; q < 7; q++) { std::string t = vpd::cat("e", q); VPD_CHECK(c.HasProgramErrorName(t) == (ref.count(t) != 0), "HasProgramErrorName ", t); }
  }
  vpd::distinct_case(sig);
}
int main(int argc, char** argv) {
  Rng r(atoll(argv[1])); vpd::Clock clk(atof(argv[2])); int n = std::string(argv[3]) == "quick" ? 6000 : 200000;
  for (int i = 0; i < n && (i < 200 || clk.more()); i++) Case(r);
  vpd::sample("up to 64 operations on 7 names and the internal error, all queries after each step"); VPD_DONE();
}
