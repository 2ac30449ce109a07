// C27: overlays.  The value of an overlay is the concatenation of its components, taken from the format word or constant.
#include "vp.h"
#include "mpact/sim/decoder/overlay.h"
#include "mpact/sim/decoder/format.h"
using mpact::sim::decoder::bin_format::BitRange;
using mpact::sim::decoder::bin_format::BitsOrField;
using mpact::sim::decoder::bin_format::Field;
// what is appended to an overlay, as it happens: the ranges in order, of the field (or the format)
static const BitRange* g_ranges;
static uint64_t g_k;
static Field* g_of;
static bool g_watch;
namespace std {
template <>
struct vp_push_ghost<BitsOrField*> {
  static void push(BitsOrField* const& b) {
    if (!g_watch) return;
    const BitRange& r = g_ranges[g_k];
    vp_assert(b->field_ == g_of && b->high_ == r.first && b->low_ == r.last && b->width_ == r.first - r.last + 1, "each range becomes one component, in order");
    vp_assert(r.last >= 0 && r.first >= r.last, "and is not empty");
    g_k++;
  }
};
template <>
struct vp_push_forgets<BitsOrField*> {
  static bool now() { return g_watch; }
};
}  // namespace std
#include "mpact/sim/decoder/overlay.cc"
#include <new>
using namespace mpact::sim::decoder::bin_format;
static inline uint64_t shl(uint64_t a, uint64_t s) { return s > 63 ? 0 : a << (s & 63); }
static inline uint64_t shr(uint64_t a, uint64_t s) { return s > 63 ? 0 : a >> (s & 63); }
static inline uint64_t ones(uint64_t w) { return w > 63 ? ~0ull : (1ull << (w & 63)) - 1; }
// a component laid out by ComputeHighLow in a format and an overlay of at most 64 bits
static bool Legal(const void* p) {
  const BitsOrField* c = (const BitsOrField*)p;
  if (!(c->width_ >= 1 && c->position_ >= 0 && c->position_ < 64 && c->width_ <= c->position_ + 1)) return false;
  if (c->high_ < 0) return c->bin_num_.width == c->width_ && (shr((uint64_t)c->bin_num_.value, (uint64_t)c->width_) == 0);
  return c->high_ < 64 && c->low_ >= 0 && c->low_ <= c->high_ && c->width_ == c->high_ - c->low_ + 1;
}
// what a component contributes to the value: the selected bits, the lowest of them moved to `place`
static uint64_t Part(const BitsOrField& c, uint64_t x) {
  int place = c.position_ - c.width_ + 1;
  if (c.high_ < 0) return shl((uint64_t)c.bin_num_.value, (uint64_t)place);
  uint64_t bits = x & shl(ones((uint64_t)c.width_), (uint64_t)c.low_);
  return c.low_ >= place ? shr(bits, (uint64_t)(c.low_ - place)) : shl(bits, (uint64_t)(place - c.low_));
}
static uint64_t Field_(const BitsOrField& c, uint64_t x) {
  return c.high_ < 0 ? 0 : shl(shr(x, (uint64_t)(c.position_ - c.width_ + 1)) & ones((uint64_t)c.width_), (uint64_t)c.low_);
}
struct Env { uint64_t x; const BitsOrField* cs; };
static void FoldValue(uint64_t k, const uint64_t* c, uint64_t* n, void* env) {
  const Env& e = *(Env*)env;
  n[0] = c[0] | Part(e.cs[k], e.x);
}
static void FoldField(uint64_t k, const uint64_t* c, uint64_t* n, void* env) {
  const Env& e = *(Env*)env;
  n[0] = c[0] | Field_(e.cs[k], e.x);
}
static BitsOrField* g_cs;
static bool PtrAt(const void* p, uint64_t i) { return *(BitsOrField* const*)p == g_cs + i; }
static Overlay* AnyOverlay(uint64_t n) {
  Overlay* o = static_cast<Overlay*>(::operator new(sizeof(Overlay)));
  g_cs = vp_region<BitsOrField>(n, "components");
  __vp_region_inv(g_cs, Legal);
  o->component_vec_.n = n;
  o->component_vec_.d = vp_region<BitsOrField*>(n, "pointers");
  __vp_region_inv_at(o->component_vec_.d, PtrAt);
  o->declared_width_ = vp_any<int>("declared");
  o->computed_width_ = vp_any<int>("computed");
  return o;
}
VP_HARNESS(get_value) {
  uint64_t n = vp_any<uint64_t>("n");
  vp_assume(n < 1000000);
  Overlay* o = AnyOverlay(n);
  Env e{vp_any<uint64_t>("x"), g_cs};
  uint64_t init[1] = {0};
  int g = __vp_mseq("value", 1, init, FoldValue, &e);
  vp_cover("pre");
  auto r = o->GetValue(e.x);
  vp_assert(r.ok() == (o->declared_width_ == o->computed_width_), "an overlay has a value when its width is as declared");
  if (r.ok()) vp_assert(*r == __vp_mseq_at(g, 0, n), "the value is that of all components, each in its place");
  vp_cover("post");
}
VP_HARNESS(get_bit_field) {
  uint64_t n = vp_any<uint64_t>("n");
  vp_assume(n < 1000000);
  Overlay* o = AnyOverlay(n);
  Env e{vp_any<uint64_t>("x"), g_cs};
  uint64_t init[1] = {0};
  int g = __vp_mseq("field", 1, init, FoldField, &e);
  vp_cover("pre");
  auto r = o->GetBitField(e.x);
  vp_assert(r.ok() && *r == __vp_mseq_at(g, 0, n), "the bits of the value, each put where it comes from");
  vp_cover("post");
}

// the layout: components left to right from the top, field references moved to where the field is, once
struct LEnv { const BitsOrField* cs; const Field* fs; };
static void FoldLayout(uint64_t k, const uint64_t* c, uint64_t* n, void* env) {
  const LEnv& e = *(LEnv*)env;
  const BitsOrField& b = e.cs[k];
  uint64_t low = (uint64_t)(int64_t)(b.low_ + (b.field_ != nullptr ? e.fs[k].low : 0));
  n[0] = (uint64_t)(uint32_t)((uint32_t)c[0] - (uint32_t)b.width_);
  n[1] = b.high_ < 0 ? c[1] : c[1] | shl(ones((uint64_t)b.width_), low);
}
static Field* g_fs;
static bool Unplaced(const void* p, uint64_t i) {
  const BitsOrField* c = (const BitsOrField*)p;
  if (c->field_ != nullptr && c->field_ != g_fs + i) return false;
  if (!(c->width_ >= 1 && c->width_ <= 64)) return false;
  if (c->high_ < 0) return c->field_ == nullptr;
  int at = c->field_ != nullptr ? g_fs[i].low : 0;
  return at >= 0 && at < 64 && c->high_ < 64 && c->high_ + at < 64 && c->low_ >= 0 && c->low_ <= c->high_ && c->width_ == c->high_ - c->low_ + 1;
}
static bool InWord(const void* p) {
  const Field* f = (const Field*)p;
  return f->low >= 0 && f->low < 64;
}
VP_HARNESS(compute_high_low) {
  uint64_t n = vp_any<uint64_t>("n"), j = vp_any<uint64_t>("j");
  vp_assume(n < 1000000 && j < n);
  Overlay* o = static_cast<Overlay*>(::operator new(sizeof(Overlay)));
  g_fs = vp_region<Field>(n, "fields");
  __vp_region_inv(g_fs, InWord);
  g_cs = vp_region<BitsOrField>(n, "components");
  __vp_region_inv_at(g_cs, Unplaced);
  o->component_vec_.n = n;
  o->component_vec_.d = vp_region<BitsOrField*>(n, "pointers");
  __vp_region_inv_at(o->component_vec_.d, PtrAt);
  o->declared_width_ = vp_any<int>("declared");
  vp_assume(o->declared_width_ >= 1 && o->declared_width_ <= 64);
  o->mask_ = 0;
  o->high_low_computed_ = false;
  LEnv e{g_cs, g_fs};
  uint64_t init[2] = {(uint64_t)(uint32_t)(o->declared_width_ - 1), 0};
  int g = __vp_mseq("layout", 2, init, FoldLayout, &e);
  BitsOrField old = g_cs[j];
  int flow = old.field_ != nullptr ? g_fs[j].low : 0;
  vp_cover("pre");
  auto st = o->ComputeHighLow();
  vp_assert(st.ok(), "a layout is always found");
  vp_assert(o->mask_ == __vp_mseq_at(g, 1, n), "the mask has exactly the bits of the word the overlay refers to");
  BitsOrField& c = g_cs[j];
  vp_assert((uint32_t)c.position_ == (uint32_t)__vp_mseq_at(g, 0, j), "a component is placed right after the ones before it");
  vp_assert(c.high_ == (old.high_ < 0 ? old.high_ : old.high_ + flow) && c.low_ == (old.high_ < 0 ? old.low_ : old.low_ + flow), "and refers to the bits of its field in the format");
  vp_assert(c.width_ == old.width_ && c.field_ == old.field_, "the rest of it is as it was");
  vp_cover("post");
}

// a second time changes nothing
VP_HARNESS(compute_again) {
  uint64_t n = vp_any<uint64_t>("n"), j = vp_any<uint64_t>("j");
  vp_assume(n < 1000000 && j < n);
  Overlay* o = AnyOverlay(n);
  o->high_low_computed_ = true;
  uint64_t m = o->mask_ = vp_any<uint64_t>("mask");
  BitsOrField old = g_cs[j];
  vp_cover("pre");
  auto st = o->ComputeHighLow();
  BitsOrField& c = g_cs[j];
  vp_assert(st.ok() && o->mask_ == m && c.position_ == old.position_ && c.high_ == old.high_ && c.low_ == old.low_, "an overlay is laid out once");
}

static Field* g_found;
// contract of Format::GetField, proved in format.cc: the field of that name, if there is one
Field* mpact::sim::decoder::bin_format::Format::GetField(absl::string_view) const { return g_found; }
static Field* AnyField() {
  Field* f = static_cast<Field*>(::operator new(sizeof(Field)));
  f->width = vp_any<int>("field width");
  f->low = vp_any<int>("field low");
  vp_assume(f->width >= 1 && f->width <= 100000);
  return f;
}
static Format* AnyFormat() {
  Format* f = static_cast<Format*>(::operator new(sizeof(Format)));
  f->declared_width_ = vp_any<int>("format width");
  vp_assume(f->declared_width_ >= 1 && f->declared_width_ <= 100000);
  return f;
}
static Overlay* FreshOverlay(Format* f) {
  Overlay* o = new Overlay("o", vp_any<bool>("signed"), vp_any<int>("width"), f);
  o->computed_width_ = vp_any<int>("so far");
  vp_assume(o->computed_width_ >= 0 && o->computed_width_ <= 100000 && o->declared_width_ >= 0 && o->declared_width_ <= 100000);
  return o;
}
VP_HARNESS(add_field) {
  Overlay* o = FreshOverlay(AnyFormat());
  g_found = vp_any<bool>("is a field") ? AnyField() : nullptr;
  int was = o->computed_width_;
  vp_cover("pre");
  auto st = o->AddFieldReference("f");
  vp_assert(st.ok() == (g_found != nullptr), "a name is accepted exactly when it is a field");
  if (st.ok()) {
    BitsOrField* c = o->component_vec_[0];
    vp_assert(o->component_vec_.size() == 1 && c->field_ == g_found && c->high_ == g_found->width - 1 && c->low_ == 0 && c->width_ == g_found->width, "the whole field is appended");
    vp_assert(o->computed_width_ == was + g_found->width, "its width is added");
  } else {
    vp_assert(o->component_vec_.size() == 0 && o->computed_width_ == was, "nothing changes otherwise");
  }
  vp_cover("post");
}
VP_HARNESS(add_constant) {
  Overlay* o = FreshOverlay(AnyFormat());
  BinaryNum b;
  b.value = vp_any<int64_t>("value");
  b.width = vp_any<int>("bits");
  vp_assume(b.width >= 1 && b.width <= 1000);
  int was = o->computed_width_;
  vp_assert(!o->must_be_extracted(), "an overlay of bits of the word only need not be extracted");
  o->AddBitConstant(b);
  BitsOrField* c = o->component_vec_[0];
  vp_assert(o->component_vec_.size() == 1 && c->field_ == nullptr && c->high_ < 0 && c->width_ == b.width && c->bin_num_.value == b.value && c->bin_num_.width == b.width, "the constant is appended");
  vp_assert(o->computed_width_ == was + b.width && o->must_be_extracted(), "its width is added and the overlay has constant bits");
  vp_cover("post");
}
// field widths add up
static void FoldWidth(uint64_t k, const uint64_t* c, uint64_t* n, void* env) {
  const BitRange* r = *(const BitRange**)env;
  n[0] = (uint64_t)(uint32_t)((uint32_t)c[0] + (uint32_t)(r[k].first - r[k].last + 1));
}
static int g_limit;
static bool Good(const BitRange& r) { return r.first >= 0 && r.first < g_limit && r.last >= 0 && r.last < g_limit && r.first >= r.last; }
static void Ranges(bool field) {
  Overlay* o = FreshOverlay(AnyFormat());
  uint64_t n = vp_any<uint64_t>("n");
  vp_assume(n < 1000000);
  std::vector<BitRange> v;
  v.n = n;
  v.d = vp_region<BitRange>(n, "ranges");
  g_ranges = v.d;
  g_k = 0;
  g_watch = true;
  g_found = field && vp_any<bool>("is a field") ? AnyField() : nullptr;
  g_of = g_found;
  g_limit = field ? (g_found ? g_found->width : 0) : o->format_->declared_width_;
  uint64_t init[1] = {(uint64_t)(uint32_t)o->computed_width_};
  int g = __vp_mseq("width", 1, init, FoldWidth, &g_ranges);
  uint64_t j = vp_any<uint64_t>("j");
  vp_assume(j < n);
  __vp_hint(j);
  vp_cover("pre");
  auto st = field ? o->AddFieldReference("f", v) : o->AddFormatReference(v);
  if (st.ok()) {
    vp_assert(!field || g_found != nullptr, "the name is that of a field");
    vp_assert(g_k == n && o->component_vec_.size() == n, "every range is appended");
    vp_assert(Good(g_ranges[j]), "every range lies in it, high bit first");
    vp_assert((uint32_t)o->computed_width_ == (uint32_t)__vp_mseq_at(g, 0, n), "the widths are added");
  } else if (!field || g_found != nullptr) {
    vp_assert(g_k < n && !Good(g_ranges[g_k]), "a range is refused only when it does not lie in it");
  }
  vp_cover("post");
}
VP_HARNESS(add_field_ranges) { Ranges(true); }
VP_HARNESS(add_format_ranges) { Ranges(false); }
