// C13 bounded supplement: bit sets against std::set, pools of random width against a reference, operands with latencies.
#include "vpd.h"
#include <memory>
#include <set>
#include <deque>
#include "mpact/sim/generic/resource_bitset.h"
#include "mpact/sim/generic/simple_resource.h"
#include "mpact/sim/generic/simple_resource_operand.h"
using namespace mpact::sim::generic;
using vpd::Rng;
using Set = std::set<int>;
static void Same(const ResourceBitSet& b, const Set& s, const char* what) {
  VPD_CHECK(b.GetOnesCount() == (int)s.size(), what, ": ", b.GetOnesCount(), " positions, expected ", s.size());
  int p = -7; bool f = b.FindFirstSetBit(&p); VPD_CHECK(f == !s.empty() && p == (f ? *s.begin() : -7), what, ": first position ", p);
  Set got; for (int i = 0; b.FindNextSetBit(&i); ++i) got.insert(i); VPD_CHECK(got == s, what, ": positions differ");
}
static void Bits(Rng& r) {
  vpd::log().clear(); vpd::cases++;
  std::deque<ResourceBitSet> v; std::vector<Set> m; int N = 1 + r.below(400);
  for (int i = 0; i < 3; i++) { int n = r.coin(30) ? 0 : r.below(N + 1); if (n) v.emplace_back(n); else v.emplace_back(); m.emplace_back(); }
  for (int k = 0; k < 40; k++) {
    int a = r.below(3), b = r.below(3), op = r.below(9);
    switch (op) {
      case 0: case 1: case 2: { int p = r.coin(30) ? 64 * r.below(7) + (r.coin(50) ? 63 : 0) : r.below(N); vpd::note(vpd::cat("set", a, ".Set(", p, ")")); v[a].Set(p); m[a].insert(p); break; }
      case 3: vpd::note(vpd::cat("set", a, ".Or(set", b, ")")); v[a].Or(v[b]); { Set t = m[b]; m[a].insert(t.begin(), t.end()); } break;
      case 4: vpd::note(vpd::cat("set", a, ".AndNot(set", b, ")")); v[a].AndNot(v[b]); { Set t = m[b]; for (int x : t) m[a].erase(x); } break;
      case 5: { bool e = false; for (int x : m[a]) e |= m[b].count(x); VPD_CHECK(v[a].IsIntersectionNonEmpty(v[b]) == e, "intersection of set", a, " and set", b, " expected ", e); break; }
      case 6: { int n = r.below(N + 130); vpd::note(vpd::cat("set", a, ".Resize(", n, ")")); v[a].Resize(n); m[a].erase(m[a].lower_bound(n), m[a].end()); break; }
      case 7: vpd::note(vpd::cat("set", a, " = set", b)); v[a] = v[b]; m[a] = m[b]; break;
      case 8: { ResourceBitSet c(v[a]); Same(c, m[a], "copy"); ResourceBitSet d(std::move(c)); Same(d, m[a], "move"); Same(c, Set(), "moved from"); int p = r.below(N); c.Set(p); Same(c, Set{p}, "moved from, then set"); break; }
    }
    vpd::distinct_case(vpd::mix(op * 10 + a, m[a].size()));
    int from = r.below(N + 70), pos = from; bool f = v[a].FindNextSetBit(&pos); auto it = m[a].lower_bound(from); VPD_CHECK(f == (it != m[a].end()) && pos == (f ? *it : from), "FindNextSetBit from ", from, " gives ", pos);
    for (int i = 0; i < 3; i++) Same(v[i], m[i], "set");
  }
}
static void Pool(Rng& r) {
  vpd::log().clear(); vpd::cases++;
  int w = 1 + r.below(140); SimpleResourcePool pool("pool", w), other("other", 3); std::vector<SimpleResource*> rs; std::vector<std::string> names;
  VPD_CHECK(pool.name() == "pool" && pool.width() == (unsigned)w, "pool name and width");
  int n = r.coin(50) ? w : 1 + r.below(w);
  for (int i = 0; i < n; i++) { std::string nm = vpd::cat("r", i); if (r.coin(50)) { VPD_CHECK(pool.AddResource(nm).ok(), "add ", nm); rs.push_back(pool.GetResource(nm)); } else rs.push_back(pool.GetOrAddResource(nm)); VPD_CHECK(rs[i] && rs[i]->index() == i && rs[i]->name() == nm && rs[i]->pool() == &pool && pool.GetResource(i) == rs[i] && pool.GetOrAddResource(nm) == rs[i] && !pool.AddResource(nm).ok(), "resource ", i); names.push_back(nm); Same(rs[i]->resource_bit(), Set{i}, "resource bit"); }
  VPD_CHECK(pool.GetResource("none") == nullptr && pool.GetResource((unsigned)n) == nullptr, "missing resources");
  if (n == w) { VPD_CHECK(!pool.AddResource("more").ok() && pool.GetOrAddResource("more") == nullptr && pool.GetResource("more") == nullptr, "full pool"); }
  std::vector<SimpleResourceSet*> ss; std::vector<Set> ms;
  for (int i = 0; i < 4; i++) { ss.push_back(pool.CreateResourceSet()); ms.emplace_back(); for (int k = r.below(6); k > 0; k--) { int x = r.below(n); VPD_CHECK((r.coin(50) ? ss[i]->AddResource(rs[x]) : ss[i]->AddResource(names[x])).ok(), "add to set"); ms[i].insert(x); }
    VPD_CHECK(!ss[i]->AddResource(other.GetOrAddResource("o")).ok() && ss[i]->AddResource((SimpleResource*)nullptr).ok(), "foreign or null resource"); Same(ss[i]->resource_vector(), ms[i], "set"); std::string e = "["; for (int x : ms[i]) e += (e.size() > 1 ? ", " : "") + names[x]; VPD_CHECK(ss[i]->AsString() == e + "]", "AsString of a set: ", ss[i]->AsString()); }
  Set acq; SimpleResourceDelayLine dl(8); std::vector<std::pair<int, int>> pend; int now = 0;
  std::vector<std::unique_ptr<SimpleResourceOperand>> ops; for (int i = 0; i < 4; i++) ops.push_back(std::make_unique<SimpleResourceOperand>(ss[i], 1 + i * 2, &dl));
  for (int k = 0; k < 40; k++) {
    int op = r.below(6), i = r.below(4), x = r.below(n);
    switch (op) {
      case 0: vpd::note(vpd::cat("acquire ", x)); rs[x]->Acquire(); acq.insert(x); break;
      case 1: vpd::note(vpd::cat("release ", x)); rs[x]->Release(); acq.erase(x); break;
      case 2: vpd::note(vpd::cat("acquire set ", i)); ss[i]->Acquire(); acq.insert(ms[i].begin(), ms[i].end()); break;
      case 3: vpd::note(vpd::cat("release set ", i)); ss[i]->Release(); for (int y : ms[i]) acq.erase(y); break;
      case 4: vpd::note(vpd::cat("operand ", i, " acquire")); ops[i]->Acquire(); acq.insert(ms[i].begin(), ms[i].end()); pend.push_back({now + 1 + i * 2, i}); break;
      case 5: vpd::note("cycle"); dl.Advance(); now++; for (auto& p : pend) if (p.first == now) for (int y : ms[p.second]) acq.erase(y); break;
    }
    vpd::distinct_case(vpd::mix(op * 100 + i * 10, acq.size()));
    for (int y = 0; y < n; y++) VPD_CHECK(rs[y]->IsFree() == !acq.count(y) && pool.IsFree(rs[y]) == !acq.count(y), "resource ", y, " free: ", rs[y]->IsFree());
    for (int s = 0; s < 4; s++) { bool f = true; for (int y : ms[s]) f &= !acq.count(y); VPD_CHECK(ss[s]->IsFree() == f && ops[s]->IsFree() == f, "set ", s, " free: ", ss[s]->IsFree()); }
    Same(pool.resource_vector(), acq, "acquired resources"); std::string e = "["; for (int y : acq) e += (e.size() > 1 ? ", " : "") + names[y]; VPD_CHECK(pool.ReservedAsString() == e + "]", "ReservedAsString: ", pool.ReservedAsString());
  }
}
int main(int argc, char** argv) {
  Rng r(atoll(argv[1])); vpd::Clock clk(atof(argv[2])); int n = std::string(argv[3]) == "quick" ? 1500 : 100000;
  for (int i = 0; i < n && (i < 40 || clk.more()); i++) { Bits(r); Pool(r); if (i < 2) vpd::sample("40 random set operations on three sets; 40 random operations on a pool of random width"); }
  VPD_DONE();
}
