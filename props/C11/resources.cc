// C11 (2): the registry of resources, in any state (arbitrary names registered).  X is the name used, Y any other one.
#include "vp.h"
#include "mpact/sim/decoder/resource.cc"
using namespace mpact::sim::machine_description::instruction_set;
namespace mpact { namespace sim { namespace machine_description { namespace instruction_set {
// contract of the conversion (names.cc): a function of the text
std::string ToPascalCase(absl::string_view name) { std::string s; s.id = name.id ^ 0x5555; return s; }
}}}}
static uint64_t g_x, g_y;
static bool g_px, g_py;
static Resource *g_rx, *g_ry;
namespace std {
template <> struct vp_lazy_entry<string, Resource*> {
  static bool present(const void*, const string& k) { return k.id == g_x ? g_px : k.id == g_y ? g_py : false; }
  static void init(const void*, const string& k, Resource** v) { *v = k.id == g_x ? g_rx : g_ry; }
};
}
static Resource* Some(uint64_t id) {
  std::string s; s.id = id;
  auto* r = new Resource(s);
  r->set_is_simple(vp_any<bool>("simple")); r->set_is_multi_valued(vp_any<bool>("multi")); r->set_is_array(vp_any<bool>("array"));
  return r;
}
static ResourceFactory* Setup() {
  g_x = vp_any<uint64_t>("x"); g_y = vp_any<uint64_t>("y");
  vp_assume(g_x != g_y);
  g_px = vp_any<bool>("px"); g_py = vp_any<bool>("py");
  g_rx = Some(g_x); g_ry = Some(g_y);
  auto* f = new ResourceFactory;
  f->resource_map_.lazy = true;
  vp_cover("pre");
  return f;
}
static std::string_view Name(uint64_t id) { std::string_view s; s.id = id; return s; }
static void Same(ResourceFactory* f, bool was_simple, bool was_multi, bool was_array) {
  vp_assert(f->resource_map().contains(Name(g_y)) == g_py, "other names are registered as before");
  if (g_py) vp_assert(f->resource_map().find(Name(g_y))->second == g_ry, "with the same resource");
  vp_assert(g_ry->is_simple() == was_simple && g_ry->is_multi_valued() == was_multi && g_ry->is_array() == was_array && g_ry->name().id == g_y, "which is unchanged");
}
static void Fresh(ResourceFactory* f, Resource* r) {
  vp_assert(r != g_rx && r != g_ry && r != nullptr, "a new resource");
  vp_assert(r->name().id == g_x && r->pascal_name().id == (g_x ^ 0x5555), "with the name and its Pascal-case form");
  vp_assert(r->is_simple() && !r->is_multi_valued() && !r->is_array(), "simple, single valued and no array");
  vp_assert(f->resource_map().contains(Name(g_x)) && f->resource_map().find(Name(g_x))->second == r, "registered under its name");
}
VP_HARNESS(create) {
  auto* f = Setup();
  bool s = g_ry->is_simple(), m = g_ry->is_multi_valued(), a = g_ry->is_array();
  int64_t h = __vp_heap_count();
  auto r = f->CreateResource(Name(g_x));
  vp_assert(r.ok() == !g_px, "creating fails exactly when the name is taken");
  if (g_px) {
    vp_assert(r.status().code() == absl::StatusCode::kAlreadyExists, "as already existing");
    vp_assert(f->resource_map().find(Name(g_x))->second == g_rx, "and the registered resource stays");
  } else Fresh(f, r.value());
  Same(f, s, m, a);
  vp_cover("post");
}
VP_HARNESS(get_or_insert) {
  auto* f = Setup();
  bool s = g_ry->is_simple(), m = g_ry->is_multi_valued(), a = g_ry->is_array();
  Resource* r = f->GetOrInsertResource(Name(g_x));
  if (g_px) vp_assert(r == g_rx, "the registered resource");
  else Fresh(f, r);
  vp_assert(f->GetOrInsertResource(Name(g_x)) == r, "the same one each time");
  vp_assert(!f->CreateResource(Name(g_x)).ok(), "the name is taken now");
  Same(f, s, m, a);
  vp_cover("post");
}
VP_BOUNDED(released) {
  int64_t h = __vp_heap_count();
  {
    ResourceFactory f;
    std::string a("a"), b("b"), c("c");
    bool x = vp_any<bool>("x"), y = vp_any<bool>("y");
    f.GetOrInsertResource(a);
    if (x) f.CreateResource(b);
    if (y) f.GetOrInsertResource(c);
    f.GetOrInsertResource(a);
    vp_assert(f.resource_map().size() == (size_t)(1 + x + y), "one resource per name");
  }
  vp_assert(__vp_heap_count() == h, "every resource is released with the registry, once");
  vp_cover("post");
}
