// C27: formats.  Names are unique, fields are found by their names, and the fields cover the format from the top bit down without gaps.
#include "vp.h"
#include <map>
#define map vp_map  // the ordered map of the library, replaced by the model
#include "mpact/sim/decoder/overlay.h"
#include "mpact/sim/decoder/format.h"
using mpact::sim::decoder::bin_format::Field;
using mpact::sim::decoder::bin_format::FieldOrFormat;
using mpact::sim::decoder::bin_format::Format;
using mpact::sim::decoder::bin_format::Overlay;
static bool g_watch;
static uint64_t g_k;
static FieldOrFormat* g_v;
static Field* g_fields;
static Field* g_other;
static Overlay* g_over;
namespace std {
// every field or format becomes an extractor under its name, in order
template <>
struct vp_insert_ghost<std::string, FieldOrFormat*> {
  static bool forgets(const void*, const std::string& k, FieldOrFormat* const& v) {
    if (!g_watch) return false;
    vp_assert(v == g_v + g_k, "each part of the format gets an extractor");
    vp_assert(v->is_field_ ? k == g_fields[g_k].name : k == v->format_alias_, "under its name");
    g_k++;
    return true;
  }
};
template <>
struct vp_lazy_entry<std::string, Field*> {
  static bool present(const void*, const std::string&) { return vp_any<bool>("field there"); }
  static void init(const void*, const std::string& k, Field** v) { *v = g_other; }
};
template <>
struct vp_lazy_entry<std::string, Overlay*> {
  static bool present(const void*, const std::string&) { return vp_any<bool>("overlay there"); }
  static void init(const void*, const std::string& k, Overlay** v) { *v = g_over; }
};
}  // namespace std
#include "mpact/sim/decoder/format.cc"
#include "mpact/sim/decoder/overlay.cc"
#include <new>
using namespace mpact::sim::decoder::bin_format;
static std::string Any(const char* n) { std::string s; s.id = vp_any<uint64_t>(n); return s; }
static Format* AnyFormat() {
  Format* f = new Format("f", vp_any<int>("declared"), nullptr);
  f->field_map_.lazy = f->overlay_map_.lazy = true;
  g_other = static_cast<Field*>(::operator new(sizeof(Field)));
  g_over = static_cast<Overlay*>(::operator new(sizeof(Overlay)));
  return f;
}
VP_HARNESS(add_field) {
  Format* f = AnyFormat();
  std::string n = Any("name"), m = Any("other name");
  Field *was = f->GetField(n), *was_m = f->GetField(m);
  Overlay* o = f->GetOverlay(m);
  bool sg = vp_any<bool>("signed");
  int w = vp_any<int>("width");
  vp_cover("pre");
  auto st = f->AddField(n, sg, w);
  vp_assert(st.ok() == (was == nullptr), "a field is added exactly if none has its name");
  if (st.ok()) {
    Field* x = f->GetField(n);
    vp_assert(x != nullptr && x->name == n && x->is_signed == sg && x->width == w && x->format == f, "it is found by its name");
    vp_assert(f->field_vec_.size() == 1 && f->field_vec_[0]->is_field() && f->field_vec_[0]->field() == x, "and comes after the other fields");
    vp_assert(m == n || f->GetField(m) == was_m, "other fields are as they were");
  } else {
    vp_assert(f->GetField(m) == was_m && f->field_vec_.size() == 0, "otherwise nothing changes");
  }
  vp_assert(f->GetOverlay(m) == o, "overlays are as they were");
  vp_cover("post");
}
VP_HARNESS(add_overlay) {
  Format* f = AnyFormat();
  std::string n = Any("name"), m = Any("other name");
  Field *fn = f->GetField(n), *fm = f->GetField(m);
  Overlay *was = f->GetOverlay(n), *was_m = f->GetOverlay(m);
  bool sg = vp_any<bool>("signed");
  int w = vp_any<int>("width");
  vp_cover("pre");
  auto st = f->AddFieldOverlay(n, sg, w);
  vp_assert(st.ok() == (was == nullptr && fn == nullptr), "an overlay is added exactly if no field or overlay has its name");
  if (st.ok()) {
    Overlay* x = *st;
    vp_assert(f->GetOverlay(n) == x && x->name() == n && x->is_signed() == sg && x->declared_width() == w && x->computed_width() == 0 && x->component_vec().size() == 0 && x->mask() == 0 && x->format() == f, "it is found by its name and is empty");
    vp_assert(m == n || f->GetOverlay(m) == was_m, "other overlays are as they were");
  } else {
    vp_assert(f->GetOverlay(m) == was_m, "otherwise nothing changes");
  }
  vp_assert(f->GetField(m) == fm, "fields are as they were");
  vp_cover("post");
}

static Format* g_formats;
static bool PtrAt(const void* p, uint64_t i) { return *(FieldOrFormat* const*)p == g_v + i; }
static bool PartAt(const void* p, uint64_t i) {
  const FieldOrFormat* x = (const FieldOrFormat*)p;
  return x->is_field_ ? x->field_ == g_fields + i && x->format_ == nullptr : x->field_ == nullptr && x->format_ == g_formats + i && x->size_ >= 1 && x->size_ <= 1000;
}
static bool Wide(const void* p) {
  int w = ((const Field*)p)->width;
  return w >= 1 && w <= 100000;
}
static bool WideFormat(const void* p) {
  int w = ((const Format*)p)->declared_width_;
  return w >= 1 && w <= 100000;
}
// the bits taken by the first k parts
static void FoldWidth(uint64_t k, const uint64_t* c, uint64_t* n, void* env) {
  const FieldOrFormat& x = g_v[k];
  uint32_t w = x.is_field_ ? (uint32_t)g_fields[k].width : (uint32_t)g_formats[k].declared_width_ * (uint32_t)x.size_;
  n[0] = (uint64_t)(uint32_t)((uint32_t)c[0] + w);
}
VP_HARNESS(layout) {
  Format* f = new Format("f", vp_any<int>("declared"), nullptr);
  vp_assume(f->declared_width_ >= 1 && f->declared_width_ <= 1000000);
  uint64_t n = vp_any<uint64_t>("n"), j = vp_any<uint64_t>("j");
  vp_assume(n < 1000000 && j < n);
  g_fields = vp_region<Field>(n, "fields");
  __vp_region_inv(g_fields, Wide);
  g_formats = vp_region<Format>(n, "formats");
  __vp_region_inv(g_formats, WideFormat);
  g_v = vp_region<FieldOrFormat>(n, "parts");
  __vp_region_inv_at(g_v, PartAt);
  f->field_vec_.n = n;
  f->field_vec_.d = vp_region<FieldOrFormat*>(n, "pointers");
  __vp_region_inv_at(f->field_vec_.d, PtrAt);
  g_watch = true;
  g_k = 0;
  uint64_t z[1] = {0};
  int g = __vp_mseq("taken", 1, z, FoldWidth, nullptr);
  uint32_t all = (uint32_t)__vp_mseq_at(g, 0, n), before = (uint32_t)__vp_mseq_at(g, 0, j);
  bool isf = g_v[j].is_field_;
  int w = g_fields[j].width;
  vp_cover("pre");
  auto st = f->ComputeAndCheckFormatWidth();
  vp_assert(st.ok() == ((uint32_t)f->declared_width_ == all), "a format is accepted exactly when its parts have the declared width");
  vp_assert(g_k == n, "every part gets an extractor");
  if (isf) vp_assert((uint32_t)g_fields[j].high == (uint32_t)f->declared_width_ - before - 1 && (uint32_t)g_fields[j].low == (uint32_t)f->declared_width_ - before - (uint32_t)w && g_fields[j].width == w, "a field comes right after the parts before it, from the top bit down");
  else vp_assert((uint32_t)g_v[j].high_ == (uint32_t)f->declared_width_ - before - 1, "a format comes right after the parts before it, from the top bit down");
  vp_cover("post");
}
