// C26: counters and configuration entries hold exactly the values given to them, and tell everyone registered.
#include "vp.h"
#include <cstring>
#include <string>
#include <vector>
#include "mpact/sim/generic/config.h"
#include "mpact/sim/generic/counters.h"
using namespace mpact::sim::generic;
namespace proto = mpact::sim::proto;
using proto::ComponentValueEntry;
static std::string Any(const char* n) { std::string s; s.id = vp_any<uint64_t>(n); return s; }
template <class T> static uint64_t Bits(const T& v) { uint64_t r = 0; std::memcpy(&r, &v, sizeof(T)); return r; }
template <class T> static T AnyValue(const char* n) { uint64_t x = vp_any<uint64_t>(n); T v; std::memcpy(&v, &x, sizeof(T)); return v; }
template <> bool AnyValue<bool>(const char* n) { return vp_any<bool>(n); }
// --- counters; listeners: two, the second of which sees the calls of the first
template <class T> struct Listener : public CounterValueSetInterface<T> {
  int n = 0, order = 0;
  T value = T();
  static int calls;
  void SetValue(const T& v) override { n++; value = v; order = ++calls; }
};
template <class T> int Listener<T>::calls;
// kOp 0: increment, 1: decrement, 2: set
template <class T, int kOp, int kListeners> static void Count() {
  std::string name = Any("name");
  T v = AnyValue<T>("v"), x = AnyValue<T>("x");
  SimpleCounter<T>* c;
  if (vp_any<bool>("initialized later")) {
    c = new SimpleCounter<T>;
    vp_assert(!c->IsInitialized(), "a counter without a value is not initialized");
    c->Initialize(name, v);
  } else if (vp_any<bool>("about")) c = new SimpleCounter<T>(name, Any("about"), v);
  else c = new SimpleCounter<T>(name, v);
  vp_assert(c->IsInitialized() && c->IsEnabled() && c->GetName() == name && Bits(c->GetValue()) == Bits(v), "a counter starts enabled, with its name and value");
  Listener<T> l[3];
  Listener<T>::calls = 0;
  for (int i = 0; i < kListeners; i++) c->AddListener(&l[i]);
  bool on = vp_any<bool>("enabled");
  c->SetIsEnabled(on);
  vp_assert(c->IsEnabled() == on, "it is enabled or not");
  vp_cover("pre");
  if (kOp == 0) c->Increment(x);
  if (kOp == 1) c->Decrement(x);
  if (kOp == 2) c->SetValue(x);
  T want = v;
  if (on) want = kOp == 0 ? v + x : kOp == 1 ? v - x : x;
  vp_assert(Bits(c->GetValue()) == Bits(want) || want != want, "the value changes by exactly what was said, if the counter is enabled");
  CounterValue cv = c->GetCounterValue();
  vp_assert(std::holds_alternative<T>(cv) && Bits(std::get<T>(cv)) == Bits(c->GetValue()), "it is the same value without its type");
  for (int i = 0; i < kListeners; i++) {
    vp_assert(l[i].n == (on ? 1 : 0), "each listener is told once of every update, and of nothing else");
    if (on) vp_assert((Bits(l[i].value) == Bits(want) || want != want) && l[i].order == i + 1, "it is told the new value, in order");
  }
  ComponentValueEntry e;
  vp_assert(c->Export(&e).ok() && e.has_name() && e.name() == name && e.has_about() == !c->GetAbout().empty(), "a counter is exported with its name");
  if constexpr (std::is_same_v<T, uint64_t>) vp_assert(e.has_uint64_value() && e.uint64_value() == c->GetValue(), "and its value");
  else if constexpr (std::is_same_v<T, int64_t>) vp_assert(e.has_sint64_value() && e.sint64_value() == c->GetValue(), "and its value");
  else vp_assert(e.has_double_value() && Bits(e.double_value()) == Bits(c->GetValue()), "and its value");
  vp_assert(!c->Export(nullptr).ok(), "an export to nowhere is an error");
  vp_cover("post");
}
VP_HARNESS(unsigned_increment) { Count<uint64_t, 0, 0>(); }
VP_HARNESS(unsigned_decrement) { Count<uint64_t, 1, 0>(); }
VP_HARNESS(unsigned_set) { Count<uint64_t, 2, 0>(); }
VP_HARNESS(signed_increment) { Count<int64_t, 0, 0>(); }
VP_HARNESS(signed_decrement) { Count<int64_t, 1, 0>(); }
VP_HARNESS(signed_set) { Count<int64_t, 2, 0>(); }
VP_HARNESS(double_increment) { Count<double, 0, 0>(); }
VP_HARNESS(double_set) { Count<double, 2, 0>(); }
VP_BOUNDED(listeners_increment) { Count<uint64_t, 0, 3>(); }
VP_BOUNDED(listeners_decrement) { Count<int64_t, 1, 2>(); }
VP_BOUNDED(listeners_set) { Count<uint64_t, 2, 3>(); }
// --- function counters
static int g_asked;
static int64_t g_in;
static bool g_say;
static uint64_t g_out;
template <int kListeners> static void Function() {
  uint64_t v = vp_any<uint64_t>("v");
  g_asked = 0;
  g_in = 0;
  g_say = vp_any<bool>("update");
  g_out = vp_any<uint64_t>("out");
  auto f = [](const int64_t& in, uint64_t* out) { g_asked++; g_in = in; *out = g_out; return g_say; };
  bool later = vp_any<bool>("function later"), none = vp_any<bool>("no function");
  FunctionCounter<int64_t, uint64_t>* c = later || none ? new FunctionCounter<int64_t, uint64_t>(Any("name"), v) : new FunctionCounter<int64_t, uint64_t>(Any("name"), v, f);
  if (later && !none) c->SetFunction(f);
  Listener<uint64_t> l[2];
  Listener<uint64_t>::calls = 0;
  for (int i = 0; i < kListeners; i++) c->AddListener(&l[i]);
  bool on = vp_any<bool>("enabled");
  c->SetIsEnabled(on);
  int64_t x = vp_any<int64_t>("x");
  vp_cover("pre");
  c->SetValue(x);
  bool up = on && !none && g_say;
  vp_assert(g_asked == (on && !none ? 1 : 0) && (!g_asked || g_in == x), "an enabled counter asks its function once about every value");
  vp_assert(c->GetValue() == (up ? g_out : v), "the value is what the function gave, if it said so");
  for (int i = 0; i < kListeners; i++) vp_assert(l[i].n == (up ? 1 : 0) && (!up || (l[i].value == g_out && l[i].order == i + 1)), "each listener is told once of every update, and of nothing else");
  vp_cover("post");
}
VP_HARNESS(function) { Function<0>(); }
VP_BOUNDED(function_listeners) { Function<2>(); }
// --- configuration entries
static int g_written;
template <class T> struct Any1 {
  static T Make(const char* n) { return AnyValue<T>(n); }
  static bool Eq(const T& a, const T& b) { return Bits(a) == Bits(b); }
};
template <> struct Any1<std::string> {
  static std::string Make(const char* n) { return Any(n); }
  static bool Eq(const std::string& a, const std::string& b) { return a == b; }
};
template <> struct Any1<PhysicalValue> {
  static PhysicalValue Make(const char* n) { return PhysicalValue(AnyValue<double>(n), static_cast<proto::SIPrefix>(vp_any<int>("prefix")), static_cast<proto::SIUnit>(vp_any<int>("unit"))); }
  static bool Eq(const PhysicalValue& a, const PhysicalValue& b) { return Bits(a.value) == Bits(b.value) && a.si_prefix == b.si_prefix && a.si_unit == b.si_unit; }
};
template <class T> static bool Exported(const ComponentValueEntry& e, const T& v) {
  if constexpr (std::is_same_v<T, bool>) return e.has_bool_value() && e.bool_value() == v;
  else if constexpr (std::is_same_v<T, int64_t>) return e.has_sint64_value() && e.sint64_value() == v;
  else if constexpr (std::is_same_v<T, uint64_t>) return e.has_uint64_value() && e.uint64_value() == v;
  else if constexpr (std::is_same_v<T, double>) return e.has_double_value() && Bits(e.double_value()) == Bits(v);
  else if constexpr (std::is_same_v<T, std::string>) return e.has_string_value() && e.string_value() == v;
  else return e.has_physical_value() && Any1<PhysicalValue>::Eq(PhysicalValue(e.physical_value().value(), e.physical_value().si_prefix(), e.physical_value().si_unit()), v);
}
template <class T, int kCallbacks> static Config<T>* Make(const std::string& name, T* v) {
  Config<T>* c = new Config<T>(name, *v);
  vp_assert(!c->HasConfigValue() && c->name() == name && Any1<T>::Eq(c->GetValue(), *v), "an entry starts with its name and default, not set");
  g_written = 0;
  for (int i = 0; i < kCallbacks; i++) c->AddValueWrittenCallback([]() { g_written++; });
  if (vp_any<bool>("set before")) { *v = Any1<T>::Make("set to"); c->SetValue(*v); vp_assert(c->HasConfigValue() && Any1<T>::Eq(c->GetValue(), *v) && g_written == kCallbacks, "a value set is there, and announced once"); }
  g_written = 0;
  return c;
}
template <class T, int kCallbacks = 0> static void Assign() {
  T v = Any1<T>::Make("v");
  std::string name = Any("name");
  Config<T>* c = Make<T, kCallbacks>(name, &v);
  bool has = c->HasConfigValue();
  int kind = vp_any<int>("kind");
  vp_assume(kind >= 0 && kind <= 5);
  T x = Any1<T>::Make("x");
  ConfigValue cv(x);
  bool same = true;
  if (kind == 1) { cv = ConfigValue(true); same = std::is_same_v<T, bool>; }
  if (kind == 2) { cv = ConfigValue(int64_t{5}); same = std::is_same_v<T, int64_t>; }
  if (kind == 3) { cv = ConfigValue(uint64_t{5}); same = std::is_same_v<T, uint64_t>; }
  if (kind == 4) { cv = ConfigValue(5.0); same = std::is_same_v<T, double>; }
  if (kind == 5) { cv = ConfigValue(PhysicalValue(5.0)); same = std::is_same_v<T, PhysicalValue>; }
  vp_cover("pre");
  bool ok = c->SetConfigValue(cv).ok();
  vp_assert(ok == same, "a value is accepted exactly if it has the type of the entry");
  if (!ok) vp_assert(Any1<T>::Eq(c->GetValue(), v) && c->HasConfigValue() == has && g_written == 0, "nothing changes if it is refused");
  else vp_assert(Any1<T>::Eq(c->GetValue(), std::get<T>(cv)) && c->HasConfigValue() && g_written == kCallbacks, "otherwise it is set, and announced once");
  ConfigValue g = c->GetConfigValue();
  vp_assert(std::holds_alternative<T>(g) && Any1<T>::Eq(std::get<T>(g), c->GetValue()), "it is the same value without its type");
  vp_cover("post");
}
VP_HARNESS(assign_bool) { Assign<bool>(); }
VP_HARNESS(assign_signed) { Assign<int64_t>(); }
VP_HARNESS(assign_unsigned) { Assign<uint64_t>(); }
VP_HARNESS(assign_double) { Assign<double>(); }
VP_HARNESS(assign_physical) { Assign<PhysicalValue>(); }
VP_BOUNDED(assign_callbacks) { Assign<uint64_t, 2>(); }
template <class T, int kCallbacks = 0> static void Transfer() {
  T v = Any1<T>::Make("v");
  std::string name = Any("name");
  Config<T>* c = Make<T, kCallbacks>(name, &v);
  bool has = c->HasConfigValue();
  // export
  ComponentValueEntry e;
  vp_assert(c->Export(&e).ok() && e.has_name() && e.name() == name && Exported<T>(e, v), "an entry is exported with its name and value");
  vp_assert(!c->Export(nullptr).ok() && !c->Import(nullptr).ok(), "an export to, or an import from, nowhere is an error");
  // import of any entry
  ComponentValueEntry in;
  std::string other = Any("name imported");
  bool named = vp_any<bool>("named");
  if (named) in.set_name(other);
  int kind = vp_any<int>("kind");
  vp_assume(kind >= 2 && kind <= 8);
  T x = Any1<T>::Make("x");
  if (kind == 3) in.set_bool_value(true);
  if (kind == 4) in.set_sint64_value(4);
  if (kind == 5) in.set_uint64_value(5);
  if (kind == 6) in.set_double_value(6);
  if (kind == 7) in.set_string_value("7");
  if (kind == 8) in.mutable_physical_value()->set_value(8);
  bool right = kind == (std::is_same_v<T, bool> ? 3 : std::is_same_v<T, int64_t> ? 4 : std::is_same_v<T, uint64_t> ? 5 : std::is_same_v<T, double> ? 6 : std::is_same_v<T, std::string> ? 7 : 8);
  if (right) {
    if constexpr (std::is_same_v<T, bool>) in.set_bool_value(x);
    else if constexpr (std::is_same_v<T, int64_t>) in.set_sint64_value(x);
    else if constexpr (std::is_same_v<T, uint64_t>) in.set_uint64_value(x);
    else if constexpr (std::is_same_v<T, double>) in.set_double_value(x);
    else if constexpr (std::is_same_v<T, std::string>) in.set_string_value(x);
    else { auto* p = in.mutable_physical_value(); p->set_value(x.value); p->set_si_prefix(x.si_prefix); p->set_si_unit(x.si_unit); }
  }
  vp_cover("pre");
  bool ok = c->Import(&in).ok();
  vp_assert(ok == (named && other == name && right), "an import succeeds exactly if name and type match");
  if (ok) vp_assert(Any1<T>::Eq(c->GetValue(), x) && c->HasConfigValue() && g_written == kCallbacks, "the value imported is there, and announced once");
  else vp_assert(Any1<T>::Eq(c->GetValue(), v) && c->HasConfigValue() == has && g_written == 0, "nothing changes otherwise");
  vp_cover("post");
}
VP_HARNESS(transfer_bool) { Transfer<bool>(); }
VP_HARNESS(transfer_signed) { Transfer<int64_t>(); }
VP_HARNESS(transfer_unsigned) { Transfer<uint64_t>(); }
VP_HARNESS(transfer_double) { Transfer<double>(); }
VP_HARNESS(transfer_string) { Transfer<std::string>(); }
VP_HARNESS(transfer_physical) { Transfer<PhysicalValue>(); }
VP_BOUNDED(transfer_callbacks) { Transfer<int64_t, 2>(); }
