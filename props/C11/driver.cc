// C11 bounded supplement: name conversions on random and exhaustively short texts, registry histories.
#include <map>
#include "vpd.h"
#include "mpact/sim/decoder/format_name.h"
#include "mpact/sim/decoder/resource.h"
using namespace mpact::sim::machine_description::instruction_set;
using vpd::Rng;
static char U(char c) { return c >= 'a' && c <= 'z' ? c - 32 : c; }
static char L(char c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
static void Name(const std::string& s) {
  vpd::cases++; vpd::log().clear(); vpd::note("text \"" + s + "\""); std::string p, n, g, l; bool cap = true;
  for (char c : s) { if (c != '_') p += cap ? U(c) : c; cap = c == '_'; if (!n.empty() && c >= 'A' && c <= 'Z') n += '_'; n += L(c); g += c == '/' || c == '.' ? '_' : U(c); l += L(c); }
#define C(F, X) { auto r = F(s); VPD_CHECK(r == X, #F " gives \"", r, "\", expected \"", X, "\""); }
  C(ToPascalCase, p) C(ToSnakeCase, n) C(ToHeaderGuard, g) C(ToLowerCase, l)
  VPD_CHECK(Indent(s) == std::string(s.size(), ' ') && Indent((int)s.size()) == std::string(s.size(), ' '), "Indent");
}
static void Registry(Rng& r) {
  vpd::cases++; vpd::log().clear(); ResourceFactory f; std::map<std::string, Resource*> ref; struct A { bool s = true, m = false, a = false; }; std::map<std::string, A> at;
  for (int k = 0, n = r.below(30); k < n; k++) {
    std::string s = vpd::cat("res_", r.below(6), r.coin(20) ? "_x" : ""); bool had = ref.count(s); vpd::note(s);
    if (r.coin(40)) { auto x = f.CreateResource(s); VPD_CHECK(x.ok() == !had, "CreateResource(", s, ") ok ", x.ok()); if (x.ok()) ref[s] = *x; else VPD_CHECK(x.status().code() == absl::StatusCode::kAlreadyExists, "code"); }
    else { Resource* x = f.GetOrInsertResource(s); VPD_CHECK(x != nullptr && (!had || x == ref[s]), "GetOrInsertResource(", s, ")"); ref[s] = x; }
    if (!had) at[s] = A();
    if (r.coin(30)) { A& a = at[s]; a.s = r.coin(); a.m = r.coin(); a.a = r.coin(); ref[s]->set_is_simple(a.s); ref[s]->set_is_multi_valued(a.m); ref[s]->set_is_array(a.a); }
    VPD_CHECK(f.resource_map().size() == ref.size(), "size of the registry");
    for (auto& [q, p] : ref) { auto it = f.resource_map().find(q); VPD_CHECK(it != f.resource_map().end() && it->second == p, "entry ", q); A& a = at[q];
      VPD_CHECK(p->name() == q && p->pascal_name() == ToPascalCase(q) && p->is_simple() == a.s && p->is_multi_valued() == a.m && p->is_array() == a.a, "attributes of ", q); }
  }
}
int main(int argc, char** argv) {
  Rng r(atoll(argv[1])); vpd::Clock clk(atof(argv[2])); int n = std::string(argv[3]) == "quick" ? 3000 : 200000; const std::string al = "_aAzZ1/.b";
  std::vector<std::string> cur{""}; for (int len = 0; len <= 4; len++) { std::vector<std::string> nx; for (auto& s : cur) { Name(s); vpd::distinct_case(std::hash<std::string>()(s)); for (char c : al) nx.push_back(s + c); } cur = nx; }
  for (int i = 0; i < n && (i < 100 || clk.more()); i++) { std::string s; for (int k = r.below(80); k > 0; k--) s += r.coin(70) ? al[r.below(al.size())] : (char)(1 + r.below(126)); Name(s); vpd::distinct_case(std::hash<std::string>()(s)); Registry(r); }
  vpd::sample("every text of up to 4 characters over \"_aAzZ1/.b\", random ASCII texts up to 80 characters, registry histories up to 30 operations"); VPD_DONE();
}
