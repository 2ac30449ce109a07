// C26 bounded supplement: random component trees against a reference, exported and imported into a tree of the same shape.
#include "vpd.h"
#include <map>
#include <memory>
#include "mpact/sim/generic/component.h"
#include "mpact/sim/generic/config.h"
#include "mpact/sim/generic/counters.h"
using namespace mpact::sim::generic; using vpd::Rng; namespace proto = mpact::sim::proto;
static const char* kNames[] = {"a", "b", "c", "aa", "B", "x y", "", "a.b"};
struct Node {      // the reference
  std::unique_ptr<Component> c; std::map<std::string, std::unique_ptr<Node>> kids; std::map<std::string, std::unique_ptr<ConfigBase>> cfg; std::map<std::string, ConfigValue> cval; std::map<std::string, bool> cset; std::map<std::string, int> told;
  std::map<std::string, std::unique_ptr<CounterBaseInterface>> ctr; std::map<std::string, CounterValue> kval; std::map<std::string, std::string> about; int done = 0;
};
template <class T> static bool Eq(const T& a, const T& b) { return a == b; }
static bool Eq(const PhysicalValue& a, const PhysicalValue& b) { return a.value == b.value && a.si_prefix == b.si_prefix && a.si_unit == b.si_unit; }
static bool EqV(const ConfigValue& a, const ConfigValue& b) { return a.index() == b.index() && std::visit([&](const auto& x) { return Eq(x, std::get<std::decay_t<decltype(x)>>(b)); }, a); }
static ConfigValue AnyValue(Rng& r, int k) {
  static const proto::SIPrefix p[] = {proto::PREFIX_NONE, proto::PREFIX_NANO, proto::PREFIX_GIGA}; static const proto::SIUnit u[] = {proto::UNIT_NONE, proto::UNIT_HERTZ, proto::UNIT_WATT};
  switch (k) { case 0: return ConfigValue(r.coin()); case 1: return ConfigValue(static_cast<int64_t>(r.corner())); case 2: return ConfigValue(static_cast<uint64_t>(r.corner())); case 3: return ConfigValue(r.below(1000) / 8.0 - 20); case 4: return ConfigValue(std::string(kNames[r.below(8)])); default: return ConfigValue(PhysicalValue(r.below(100) / 4.0, p[r.below(3)], u[r.below(3)])); }
}
static std::unique_ptr<ConfigBase> Make(const std::string& n, const ConfigValue& v, std::map<std::string, int>* told) {
  return std::visit([&](const auto& x) -> std::unique_ptr<ConfigBase> { using T = std::decay_t<decltype(x)>; auto c = std::make_unique<Config<T>>(n, x); c->AddValueWrittenCallback([told, n]() { (*told)[n]++; }); return c; }, v);
}
static std::unique_ptr<Node> Tree(Rng& r, int depth, const std::string& name, Component* parent) {
  auto t = std::make_unique<Node>(); Node* me = t.get(); t->c = parent ? std::make_unique<Component>(name, parent) : std::make_unique<Component>(name); t->c->AddImportDoneCallback([me]() { me->done++; });
  for (int i = r.below(4); i > 0; i--) { std::string n = kNames[r.below(8)]; ConfigValue v = AnyValue(r, r.below(6)); auto c = Make(n, v, &t->told); bool dup = t->cfg.count(n); vpd::note(vpd::cat("configuration ", n, " in ", name)); VPD_CHECK(t->c->AddConfig(c.get()).ok() == !dup, "configuration entry ", n, dup ? " added twice" : " refused"); if (!dup) { t->cval[n] = v; t->cset[n] = false; t->cfg[n] = std::move(c); } }
  for (int i = r.below(4); i > 0; i--) { std::string n = kNames[r.below(8)]; std::unique_ptr<CounterBaseInterface> c; CounterValue v; switch (r.below(3)) { case 0: c = std::make_unique<SimpleCounter<uint64_t>>(n, 7); v = uint64_t{7}; break; case 1: c = std::make_unique<SimpleCounter<int64_t>>(n, -7); v = int64_t{-7}; break; default: c = std::make_unique<SimpleCounter<double>>(n, 0.5); v = 0.5; }
    bool dup = t->ctr.count(n); vpd::note(vpd::cat("counter ", n, " in ", name)); std::string ab = r.coin(30) ? "what it counts" : ""; if (!ab.empty()) c->SetAbout(ab); VPD_CHECK(t->c->AddCounter(c.get()).ok() == !dup, "counter ", n, dup ? " added twice" : " refused"); if (!dup) { t->kval[n] = v; t->about[n] = ab; t->ctr[n] = std::move(c); } }
  if (r.coin(10)) { SimpleCounter<uint64_t> none; VPD_CHECK(!t->c->AddCounter(&none).ok(), "counter without a name added"); }
  if (depth > 0) for (int i = r.below(4); i > 0; i--) { std::string n = kNames[r.below(8)]; if (t->kids.count(n)) { Component x(n); VPD_CHECK(!t->c->AddChildComponent(x).ok() && x.parent() == nullptr, "child ", n, " added twice"); continue; } t->kids[n] = Tree(r, depth - 1, n, t->c.get()); VPD_CHECK(t->kids[n]->c->parent() == t->c.get(), "parent"); }
  return t;
}
static void Find(Node& t) {
  for (const char* n : kNames) {
    VPD_CHECK(t.c->GetChildComponent(n) == (t.kids.count(n) ? t.kids[n]->c.get() : nullptr), "child ", n); VPD_CHECK(t.c->GetConfig(n) == (t.cfg.count(n) ? t.cfg[n].get() : nullptr), "configuration entry ", n); VPD_CHECK(t.c->GetCounter(n) == (t.ctr.count(n) ? t.ctr[n].get() : nullptr), "counter ", n);
  }
  for (auto& [n, c] : t.cfg) VPD_CHECK(EqV(c->GetConfigValue(), t.cval[n]) && c->HasConfigValue() == t.cset[n], "value of ", n);
  for (auto& [n, c] : t.ctr) VPD_CHECK(c->GetCounterValue() == t.kval[n], "value of counter ", n);
  for (auto& [n, k] : t.kids) Find(*k);
}
static void Exported(Node& t, const proto::ComponentData& d) {
  VPD_CHECK(d.has_name() && d.name() == t.c->component_name(), "name exported"); VPD_CHECK(d.configuration_size() == (int)t.cfg.size() && d.statistics_size() == (int)t.ctr.size() && d.component_data_size() == (int)t.kids.size(), "number of parts exported"); int i = 0;
  for (auto& [n, v] : t.cval) { auto& e = d.configuration()[i++]; VPD_CHECK(e.name() == n, "order of configuration entries: ", e.name(), " for ", n); ConfigValue x = e.has_bool_value() ? ConfigValue(e.bool_value()) : e.has_sint64_value() ? ConfigValue(e.sint64_value()) : e.has_uint64_value() ? ConfigValue(e.uint64_value()) : e.has_double_value() ? ConfigValue(e.double_value()) : e.has_string_value() ? ConfigValue(e.string_value()) : ConfigValue(PhysicalValue(e.physical_value().value(), e.physical_value().si_prefix(), e.physical_value().si_unit())); VPD_CHECK(EqV(x, v), "value of ", n, " exported"); }
  i = 0; for (auto& [n, v] : t.kval) { auto& e = d.statistics()[i++]; VPD_CHECK(e.name() == n, "order of counters: ", e.name(), " for ", n); CounterValue x = e.has_uint64_value() ? CounterValue(e.uint64_value()) : e.has_sint64_value() ? CounterValue(e.sint64_value()) : CounterValue(e.double_value()); VPD_CHECK(x == v, "value of counter ", n, " exported"); VPD_CHECK(e.has_about() == !t.about[n].empty() && (!e.has_about() || e.about() == t.about[n]), "about counter ", n); }
  i = 0; for (auto& [n, k] : t.kids) { auto& x = d.component_data()[i++]; VPD_CHECK(x.name() == n, "order of children"); Exported(*k, x); }
}
static void Change(Rng& r, Node& t) {
  for (auto& [n, c] : t.cfg) if (r.coin()) { int k = r.coin(80) ? t.cval[n].index() : r.below(6); ConfigValue v = AnyValue(r, k); int told = t.told[n]; vpd::note(vpd::cat("set ", n)); bool ok = c->SetConfigValue(v).ok(); VPD_CHECK(ok == (k == (int)t.cval[n].index()), "value of another type"); VPD_CHECK(t.told[n] == told + ok, "callback called ", t.told[n] - told, " times"); if (ok) { t.cval[n] = v; t.cset[n] = true; } }
  for (auto& [n, c] : t.ctr) if (r.coin()) { bool on = r.coin(80); c->SetIsEnabled(on); int op = r.below(3);
    auto go = [&](auto* k, auto x) { using T = decltype(x); T old = std::get<T>(t.kval[n]); if (op == 0) k->Increment(x); else if (op == 1) k->Decrement(x); else k->SetValue(x); if (on) t.kval[n] = op == 0 ? T(old + x) : op == 1 ? T(old - x) : x; std::string s = k->ToString(); if constexpr (std::is_integral_v<T>) VPD_CHECK(s == std::to_string(std::get<T>(t.kval[n])), "text of counter ", s); };
    if (auto* u = dynamic_cast<SimpleCounter<uint64_t>*>(c.get())) go(u, static_cast<uint64_t>(r.corner())); else if (auto* s = dynamic_cast<SimpleCounter<int64_t>*>(c.get())) go(s, static_cast<int64_t>(r.below(1000)) - 500); else go(static_cast<SimpleCounter<double>*>(c.get()), r.below(64) / 4.0); }
  for (auto& [n, k] : t.kids) Change(r, *k);
}
static void Done(Node& t) { VPD_CHECK(t.done == 1, "import callback called ", t.done, " times"); for (auto& [n, k] : t.kids) Done(*k); }
// what an import does to the reference; false at the first error
static bool Imported(Node& t, const proto::ComponentData& d) {
  if (!d.has_name() || d.name() != t.c->component_name()) return false;
  for (auto& e : d.configuration()) { if (!e.has_name()) return false; if (!t.cfg.count(e.name())) continue; ConfigValue& v = t.cval[e.name()]; t.told[e.name()] += 1000;
    bool ok = true; switch (v.index()) { case 0: if ((ok = e.has_bool_value())) v = e.bool_value(); break; case 1: if ((ok = e.has_sint64_value())) v = e.sint64_value(); break; case 2: if ((ok = e.has_uint64_value())) v = e.uint64_value(); break; case 3: if ((ok = e.has_double_value())) v = e.double_value(); break; case 4: if ((ok = e.has_string_value())) v = e.string_value(); break; default: if ((ok = e.has_physical_value())) v = PhysicalValue(e.physical_value().value(), e.physical_value().si_prefix(), e.physical_value().si_unit()); } t.told[e.name()] -= 1000; if (!ok) return false; t.cset[e.name()] = true; }
  for (auto& x : d.component_data()) { if (!x.has_name()) return false; auto it = t.kids.find(x.name()); if (it == t.kids.end()) continue; if (!Imported(*it->second, x)) return false; }
  return true;
}
static void Run(Rng& r) {
  vpd::log().clear(); vpd::cases++; uint64_t shape = r.next() | 1; Rng r1(shape), r2(shape); auto a = Tree(r1, 3, "top", nullptr); auto b = Tree(r.coin(60) ? r2 : r, 3, "top", nullptr); Find(*a);
  for (int i = 0; i < 3; i++) Change(r, *a); Find(*a); proto::ComponentData d; VPD_CHECK(a->c->Export(&d).ok(), "export"); Exported(*a, d);
  proto::ComponentData odd = d; if (r.coin(20)) odd.set_name("other"); if (r.coin(20) && odd.configuration_size() > 0) odd.c_[r.below(odd.c_.size())].hn_ = false; if (r.coin(20) && odd.component_data_size() > 0) odd.d_[r.below(odd.d_.size())].hn_ = false;
  vpd::note("import"); bool want = Imported(*b, odd), ok = b->c->Import(odd).ok(); VPD_CHECK(ok == want, "import ", ok ? "succeeds" : "fails"); Find(*b); b->c->ImportDone(); Done(*b);
  if (!b->kids.empty()) { std::string n = b->kids.begin()->first; VPD_CHECK(b->c->RemoveChildComponent(n).ok(), "child not removed"); VPD_CHECK(!b->c->RemoveChildComponent(n).ok(), "child removed twice"); b->kids.erase(n); Find(*b); }
}
struct Listen : public CounterValueSetInterface<uint64_t> { std::vector<uint64_t> v; void SetValue(const uint64_t& x) override { v.push_back(x); } };
static void Counters(Rng& r) {   // a chain of counters
  vpd::log().clear(); vpd::cases++; SimpleCounter<uint64_t> c("c", 3); uint64_t peak = 0; FunctionCounter<uint64_t> m("max", [&peak](const uint64_t& x, uint64_t* o) { if (x <= peak) return false; peak = *o = x; return true; }); int n = 1 + r.below(4); std::vector<Listen> l(n); for (auto& x : l) c.AddListener(&x); c.AddListener(&m); Listen e; m.AddListener(&e); uint64_t v = 3, top = 0; std::vector<uint64_t> seen, tops;
  for (int i = 0; i < 20; i++) { bool on = r.coin(80); c.SetIsEnabled(on); uint64_t x = r.below(9); int op = r.below(3); vpd::note(vpd::cat(on ? "" : "disabled ", op, " ", x)); if (op == 0) c.Increment(x); else if (op == 1) c.Decrement(x); else c.SetValue(x); if (on) { v = op == 0 ? v + x : op == 1 ? v - x : x; seen.push_back(v); if (v > top) { top = v; tops.push_back(v); } } VPD_CHECK(c.GetValue() == v, "value"); for (auto& z : l) VPD_CHECK(z.v == seen, "values told to a listener"); VPD_CHECK(e.v == tops && m.GetValue() == top, "values of a function counter"); }
}
int main(int argc, char** argv) {
  Rng r(atoll(argv[1])); vpd::Clock clk(atof(argv[2])); int n = std::string(argv[3]) == "quick" ? 4000 : 400000;
  for (int i = 0; i < n && (i < 100 || clk.more()); i++) { Run(r); Counters(r); if (i < 2) vpd::sample("a random tree of components, changed, exported, and imported into another one"); }
  VPD_DONE(); return 0;
}
