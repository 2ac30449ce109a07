// C26: a component finds exactly the children, counters and configuration entries added to it.
#include "vp.h"
#include <string>
#include <vector>
#include "mpact/sim/generic/component.cc"
#include "mpact/sim/generic/counters.h"
using namespace mpact::sim::generic;
using mpact::sim::proto::ComponentData;
using mpact::sim::proto::ComponentValueEntry;
typedef SimpleCounter<uint64_t> Counter;
typedef Config<uint64_t> Entry;
// maps of any contents
namespace std {
template <> struct vp_lazy_entry<std::string, Component*> {
  static bool present(const void*, const std::string&) { return vp_any<bool>("child there"); }
  static void init(const void*, const std::string& k, Component** v) { *v = new Component(k); }
};
template <> struct vp_lazy_entry<std::string, CounterBaseInterface*> {
  static bool present(const void*, const std::string&) { return vp_any<bool>("counter there"); }
  static void init(const void*, const std::string& k, CounterBaseInterface** v) { *v = new Counter(k, 0); }
};
template <> struct vp_lazy_entry<std::string, ConfigBase*> {
  static bool present(const void*, const std::string&) { return vp_any<bool>("entry there"); }
  static void init(const void*, const std::string& k, ConfigBase** v) { *v = new Entry(k, 0); }
};
}
static std::string Any(const char* n) { std::string s; s.id = vp_any<uint64_t>(n); return s; }
static Component* AnyComponent() {
  Component* c = new Component(Any("name"));
  c->child_map_.lazy = c->counter_map_.lazy = c->config_map_.lazy = true;
  return c;
}
struct View { Component* child; CounterBaseInterface* counter; ConfigBase* config; };
static View Look(Component* c, const std::string& n) { return View{c->GetChildComponent(n), c->GetCounter(n), c->GetConfig(n)}; }
static bool Same(const View& a, const View& b, bool child = true, bool counter = true, bool config = true) {
  return (!child || a.child == b.child) && (!counter || a.counter == b.counter) && (!config || a.config == b.config);
}
VP_HARNESS(init) {
  Component c(Any("name"));
  std::string n = Any("other");
  View v = Look(&c, n);
  vp_assert(!v.child && !v.counter && !v.config && c.parent() == nullptr, "a new component has no parts and no parent");
  vp_cover("post");
}
// kWhat: 0 child, 1 counter, 2 configuration entry, 3 child by its constructor
template <int kWhat> static void Add() {
  Component* c = AnyComponent();
  std::string n = Any("n"), w = Any("w");
  View wb = Look(c, w), nb = Look(c, n);
  bool was = kWhat == 1 ? nb.counter != nullptr : kWhat == 2 ? nb.config != nullptr : nb.child != nullptr;
  Component* child = kWhat == 0 ? new Component(n) : nullptr;
  Component* old_parent = nullptr;
  if (kWhat == 0 && vp_any<bool>("has a parent")) { old_parent = new Component(Any("old parent")); child->parent_ = old_parent; }
  bool initialized = kWhat != 1 || vp_any<bool>("initialized"), late = vp_any<bool>("initialized later");
  Counter* counter = kWhat != 1 ? nullptr : initialized && !late ? new Counter(n, 0) : new Counter;
  if (kWhat == 1 && initialized && late) counter->Initialize(n, 0);
  Entry* config = kWhat == 2 ? new Entry(n, 0) : nullptr;
  vp_cover("pre");
  bool ok = true;
  if (kWhat == 0) ok = c->AddChildComponent(*child).ok();
  if (kWhat == 1) ok = c->AddCounter(counter).ok();
  if (kWhat == 2) ok = c->AddConfig(config).ok();
  if (kWhat == 3) { child = new Component(n, c); ok = child->parent() == c; }
  View na = Look(c, n), wa = Look(c, w);
  if (kWhat == 1) vp_assert(ok == (!was && initialized), "an initialized counter is added exactly if its name is not in use");
  else vp_assert(ok == !was, "it is added exactly if its name is not in use");
  if (ok) {
    vp_assert(kWhat != 0 && kWhat != 3 || na.child == child, "the child added is found by its name");
    vp_assert(kWhat != 1 || na.counter == counter, "the counter added is found by its name");
    vp_assert(kWhat != 2 || na.config == config, "the entry added is found by its name");
    vp_assert(Same(na, nb, kWhat == 1 || kWhat == 2, kWhat != 1, kWhat != 2), "the other parts stay");
  } else vp_assert(Same(na, nb), "nothing changes if it is refused");
  if (w != n) vp_assert(Same(wa, wb), "the other names stay");
  if (kWhat == 0) vp_assert(child->parent() == (ok ? c : old_parent), "a child that was added has its parent");
  if (kWhat == 0 || kWhat == 3) vp_assert(child->component_name() == n, "a component keeps its name");
  vp_cover("post");
}
VP_HARNESS(add_child) { Add<0>(); }
VP_HARNESS(add_counter) { Add<1>(); }
VP_HARNESS(add_config) { Add<2>(); }
VP_HARNESS(construct_child) { Add<3>(); }
VP_HARNESS(remove_child) {
  Component* c = AnyComponent();
  std::string n = Any("n"), w = Any("w");
  View wb = Look(c, w), nb = Look(c, n);
  vp_cover("pre");
  bool ok = c->RemoveChildComponent(n).ok();
  View na = Look(c, n), wa = Look(c, w);
  vp_assert(ok == (nb.child != nullptr), "a child is removed exactly if there is one of that name");
  vp_assert(na.child == nullptr && Same(na, nb, false), "it is gone, and only it");
  if (w != n) vp_assert(Same(wa, wb), "the other names stay");
  vp_cover("post");
}
// --- import and export (bounded: two parts of each kind)
VP_BOUNDED(export_all) {
  Component* c = new Component(Any("name"));
  std::string n[2] = {Any("n0"), Any("n1")};
  vp_assume(n[0] != n[1]);
  int e = vp_any<int>("entries"), k = vp_any<int>("counters"), d = vp_any<int>("children");
  vp_assume(e >= 0 && e <= 2 && k >= 0 && k <= 2 && d >= 0 && d <= 2);
  uint64_t ev[2], kv[2], dv[2];
  for (int i = 0; i < 2; i++) {
    ev[i] = vp_any<uint64_t>("entry"); kv[i] = vp_any<uint64_t>("counter"); dv[i] = vp_any<uint64_t>("child entry");
    if (i < e) (void)c->AddConfig(new Entry(n[i], ev[i]));
    if (i < k) (void)c->AddCounter(new Counter(n[i], kv[i]));
    if (i < d) { Component* x = new Component(n[i], c); (void)x->AddConfig(new Entry(n[1 - i], dv[i])); }
  }
  ComponentData data;
  vp_cover("pre");
  bool ok = c->Export(&data).ok();
  vp_assert(ok && data.has_name() && data.name() == c->component_name(), "the component is exported with its name");
  vp_assert(data.configuration_size() == e && data.statistics_size() == k && data.component_data_size() == d, "every part is exported once");
  for (int i = 0; i < 2; i++) {
    if (i < e) vp_assert(data.configuration()[i].name() == n[i] && data.configuration()[i].has_uint64_value() && data.configuration()[i].uint64_value() == ev[i], "an entry is exported with name and value");
    if (i < k) vp_assert(data.statistics()[i].name() == n[i] && data.statistics()[i].has_uint64_value() && data.statistics()[i].uint64_value() == kv[i], "a counter is exported with name and value");
    if (i < d) {
      auto& x = data.component_data()[i];
      vp_assert(x.name() == n[i] && x.configuration_size() == 1 && x.statistics_size() == 0 && x.component_data_size() == 0 && x.configuration()[0].name() == n[1 - i] && x.configuration()[0].uint64_value() == dv[i], "a child is exported with its name and parts");
    }
  }
  vp_cover("post");
}
VP_HARNESS(export_null) { Component c(Any("name")); vp_assert(!c.Export(nullptr).ok(), "an export to nowhere is an error"); vp_cover("post"); }
VP_BOUNDED(import_all) {
  Component* c = new Component(Any("name"));
  std::string n[2] = {Any("n0"), Any("n1")}, m[2] = {Any("m0"), Any("m1")}, q = Any("child");
  vp_assume(n[0] != n[1]);
  Entry* entry[3] = {new Entry(n[0], 1), new Entry(n[1], 2), new Entry(n[0], 3)};
  (void)c->AddConfig(entry[0]);
  (void)c->AddConfig(entry[1]);
  Component* child = new Component(q, c);
  (void)child->AddConfig(entry[2]);
  ComponentData data;
  std::string top = Any("name imported");
  bool named = vp_any<bool>("named");
  if (named) data.set_name(top);
  uint64_t v[2]; bool hn[2], hv[2];
  for (int i = 0; i < 2; i++) {
    auto* x = data.add_configuration();
    hn[i] = vp_any<bool>("entry named"); hv[i] = vp_any<bool>("has a value of the type");
    if (hn[i]) x->set_name(m[i]);
    v[i] = vp_any<uint64_t>("value");
    if (hv[i]) x->set_uint64_value(v[i]); else x->set_double_value(1.0);
  }
  std::string cn = Any("child imported");
  uint64_t cv = vp_any<uint64_t>("child value");
  auto* cd = data.add_component_data();
  bool child_named = vp_any<bool>("child named");
  if (child_named) cd->set_name(cn);
  auto* x = cd->add_configuration();
  x->set_name(n[0]);
  x->set_uint64_value(cv);
  vp_cover("pre");
  bool ok = c->Import(data).ok();
  bool want = named && top == c->component_name();
  uint64_t have[3] = {1, 2, 3};
  for (int i = 0; i < 2 && want; i++) {
    if (!hn[i]) want = false;
    else if (m[i] == n[0] || m[i] == n[1]) { if (!hv[i]) want = false; else have[m[i] == n[1]] = v[i]; }
  }
  if (want && !child_named) want = false;
  if (want && cn == q) have[2] = cv;
  vp_assert(ok == want, "an import succeeds exactly if names and types match");
  for (int i = 0; i < 3; i++) vp_assert(entry[i]->GetValue() == have[i], "exactly the entries named get their values, up to the first error");
  vp_cover("post");
}
VP_BOUNDED(import_done) {
  Component* c = new Component(Any("name"));
  std::string n = Any("child");
  Component* child = new Component(n, c);
  static int calls, child_calls, order;
  calls = child_calls = order = 0;
  c->AddImportDoneCallback([]() { calls++; });
  c->AddImportDoneCallback([]() { if (calls == 1) order++; });
  child->AddImportDoneCallback([]() { if (calls == 0) child_calls++; });
  c->ImportDone();
  vp_assert(calls == 1 && order == 1 && child_calls == 1, "each callback is called once, those of the children first, in order");
  vp_cover("post");
}
