// C27: instruction encodings.  Constraints are accepted exactly when the value can be one of the field, and masks and values collect exactly the bits constrained.
#include "vp.h"
#include "mpact/sim/decoder/overlay.h"
#include "mpact/sim/decoder/format.h"
#include "mpact/sim/decoder/instruction_encoding.cc"
#include <new>
using namespace mpact::sim::decoder::bin_format;
static Field *g_lf, *g_rf;
static Overlay *g_lo, *g_ro;
static int g_asked;
// contracts of Format::GetField and GetOverlay, proved in format.cc: what has that name, if anything (the second name asked for is the right hand side)
Field* mpact::sim::decoder::bin_format::Format::GetField(absl::string_view) const { return g_asked++ == 0 ? g_lf : g_rf; }
Overlay* mpact::sim::decoder::bin_format::Format::GetOverlay(absl::string_view) const { return g_asked <= 1 ? g_lo : g_ro; }
// contract of Overlay::GetBitField, proved in overlay.cc: a value depending on the overlay and the argument only (here: any function of the overlay, combined with the argument)
absl::StatusOr<uint64_t> mpact::sim::decoder::bin_format::Overlay::GetBitField(uint64_t x) { return x ^ *(const uint64_t*)&name_; }
static inline uint64_t shl(uint64_t a, uint64_t s) { return s > 63 ? 0 : a << (s & 63); }
static inline uint64_t ones(uint64_t w) { return w > 63 ? ~0ull : (1ull << (w & 63)) - 1; }
static Field* AnyField() {
  Field* f = static_cast<Field*>(::operator new(sizeof(Field)));
  f->width = vp_any<int>("field width");
  f->low = vp_any<int>("field low");
  f->is_signed = vp_any<bool>("field signed");
  vp_assume(f->width >= 1 && f->width <= 100000);
  return f;
}
static Overlay* AnyOverlay() {
  Overlay* o = static_cast<Overlay*>(::operator new(sizeof(Overlay)));
  o->is_signed_ = vp_any<bool>("overlay signed");
  o->declared_width_ = o->computed_width_ = vp_any<int>("overlay width");
  o->must_be_extracted_ = vp_any<bool>("extracted");
  o->mask_ = vp_any<uint64_t>("overlay mask");
  vp_assume(o->computed_width_ >= 1 && o->computed_width_ <= 100000);
  return o;
}
static InstructionEncoding* Encoding() {
  Format* f = static_cast<Format*>(::operator new(sizeof(Format)));
  InstructionEncoding* e = new InstructionEncoding("i", nullptr, false);
  e->format_ = f;
  e->mask_set_ = vp_any<bool>("masks known");
  return e;
}
static bool Fits(bool is_signed, int width, ConstraintType t, int64_t v) {
  if (width >= 64) return false;
  if (!is_signed) return v >= 0 && (uint64_t)v <= ones((uint64_t)width);
  if (t != ConstraintType::kEq && t != ConstraintType::kNe) return false;
  return v >= -(int64_t)(1ull << (width - 1)) && v < (int64_t)(1ull << (width - 1));
}
static void Create(int how) {
  g_lf = vp_any<bool>("names a field") ? AnyField() : nullptr;
  g_lo = vp_any<bool>("names an overlay") ? AnyOverlay() : nullptr;
  g_asked = 0;
  InstructionEncoding* e = Encoding();
  ConstraintType t = how == 0 ? ConstraintType::kEq : (ConstraintType)vp_any<int>("type");
  int64_t v = vp_any<int64_t>("value");
  vp_cover("pre");
  auto st = how == 0 ? e->AddEqualConstraint("f", v) : e->AddOtherConstraint(t, "f", v);
  bool fits = g_lf ? Fits(g_lf->is_signed, g_lf->width, t, v) : g_lo ? Fits(g_lo->is_signed_, g_lo->computed_width_, t, v) : false;
  vp_assert(st.ok() == fits, "a constraint is accepted exactly when the field or overlay can have the value");
  uint64_t n0 = e->equal_constraints_.size(), n1 = e->equal_extracted_constraints_.size(), n2 = e->other_constraints_.size();
  if (!st.ok()) {
    vp_assert(n0 == 0 && n1 == 0 && n2 == 0, "otherwise nothing is added");
    return;
  }
  vp_assert(!e->mask_set_, "the masks are computed anew");
  bool ex = !g_lf && g_lo->must_be_extracted_;
  vp_assert(how == 0 ? (n2 == 0 && n0 == (ex ? 0u : 1u) && n1 == (ex ? 1u : 0u)) : (n0 == 0 && n1 == 0 && n2 == 1), "it is added to the list it belongs to");
  Constraint* c = how != 0 ? e->other_constraints_[0] : ex ? e->equal_extracted_constraints_[0] : e->equal_constraints_[0];
  vp_assert(c->type == t && c->field == g_lf && c->overlay == (g_lf ? nullptr : g_lo) && c->rhs_field == nullptr && c->rhs_overlay == nullptr, "it is about what was named");
  vp_assert(c->value == ((uint64_t)v & ones((uint64_t)(g_lf ? g_lf->width : g_lo->computed_width_))), "the value is cut to the width");
  vp_cover("post");
}
VP_HARNESS(add_equal) { Create(0); }
VP_HARNESS(add_other) { Create(1); }
VP_HARNESS(add_compare) {
  g_lf = vp_any<bool>("left is a field") ? AnyField() : nullptr;
  g_lo = vp_any<bool>("left is an overlay") ? AnyOverlay() : nullptr;
  g_rf = vp_any<bool>("right is a field") ? AnyField() : nullptr;
  g_ro = vp_any<bool>("right is an overlay") ? AnyOverlay() : nullptr;
  g_asked = 0;
  InstructionEncoding* e = Encoding();
  ConstraintType t = (ConstraintType)vp_any<int>("type");
  vp_cover("pre");
  auto st = e->AddOtherConstraint(t, std::string("l"), std::string("r"));
  vp_assert(!st.ok() || ((g_lf || g_lo) && (g_rf || g_ro)), "both names are known");
  vp_assert(st.ok() || !((g_lf ? g_lf->width < 64 : g_lo && g_lo->computed_width_ < 64) && (g_rf ? g_rf->width < 64 : g_ro && g_ro->computed_width_ < 64)), "a comparison of what is known and less than 64 bits wide is accepted");
  vp_assert(e->equal_constraints_.size() == 0 && e->equal_extracted_constraints_.size() == 0 && e->other_constraints_.size() == (st.ok() ? 1u : 0u), "one is added when it is accepted");
  if (!st.ok()) return;
  vp_assert(!e->mask_set_, "the masks are computed anew");
  Constraint* c = e->other_constraints_[0];
  vp_assert(c->type == t && c->field == g_lf && c->overlay == (g_lf ? nullptr : g_lo) && c->rhs_field == g_rf && c->rhs_overlay == (g_rf ? nullptr : g_ro), "it compares what was named");
  vp_cover("post");
}

// any number of constraints of each kind, each on a field or overlay of its own
struct Set {
  Constraint* c;
  Field *f, *r;
  Overlay *o, *p;
};
struct Env { Set s[3]; };
static Env g_e;
template <int K>
static bool PtrAt(const void* p, uint64_t i) { return *(Constraint* const*)p == g_e.s[K].c + i; }
template <int K>
static bool LegalAt(const void* p, uint64_t i) {
  const Constraint* c = (const Constraint*)p;
  const Set& s = g_e.s[K];
  if (c->field != nullptr ? c->field != s.f + i || c->overlay != nullptr : c->overlay != s.o + i) return false;
  if (K < 2) return c->rhs_field == nullptr && c->rhs_overlay == nullptr;
  return (c->rhs_field == nullptr || (c->rhs_field == s.r + i && c->rhs_overlay == nullptr)) && (c->rhs_overlay == nullptr || c->rhs_overlay == s.p + i);
}
static bool InWord(const void* p) {
  const Field* f = (const Field*)p;
  return f->low >= 0 && f->low < 64 && f->width >= 1 && f->width < 64;
}
static uint64_t FMask(const Field& f) { return shl(ones((uint64_t)f.width), (uint64_t)f.low); }
static void FoldEqual(uint64_t k, const uint64_t* c, uint64_t* n, void* env) {
  const Set& s = ((Env*)env)->s[0];
  const Constraint& q = s.c[k];
  if (q.field != nullptr) {
    n[0] = c[0] | FMask(s.f[k]);
    n[1] = c[1] | (FMask(s.f[k]) & shl(q.value, (uint64_t)s.f[k].low));
  } else {
    n[0] = c[0] | s.o[k].mask_;
    n[1] = c[1] | (s.o[k].mask_ & (q.value ^ *(const uint64_t*)&s.o[k].name_));
  }
}
static void FoldExtracted(uint64_t k, const uint64_t* c, uint64_t* n, void* env) {
  const Set& s = ((Env*)env)->s[1];
  n[0] = c[0] | (s.c[k].field != nullptr ? FMask(s.f[k]) : s.o[k].mask_);
}
static void FoldOther(uint64_t k, const uint64_t* c, uint64_t* n, void* env) {
  const Set& s = ((Env*)env)->s[2];
  const Constraint& q = s.c[k];
  n[0] = c[0] | (q.field != nullptr ? FMask(s.f[k]) : s.o[k].mask_) | (q.rhs_field != nullptr ? FMask(s.r[k]) : q.rhs_overlay != nullptr ? s.p[k].mask_ : 0);
}
template <int K>
static void AnySet(std::vector<Constraint*>& v) {
  uint64_t n = vp_any<uint64_t>("n");
  vp_assume(n < 1000000);
  Set& s = g_e.s[K];
  s.f = vp_region<Field>(n, "fields");
  __vp_region_inv(s.f, InWord);
  s.o = vp_region<Overlay>(n, "overlays");
  if (K == 2) {
    s.r = vp_region<Field>(n, "rhs fields");
    __vp_region_inv(s.r, InWord);
    s.p = vp_region<Overlay>(n, "rhs overlays");
  }
  s.c = vp_region<Constraint>(n, "constraints");
  __vp_region_inv_at(s.c, LegalAt<K>);
  v.n = n;
  v.d = vp_region<Constraint*>(n, "pointers");
  __vp_region_inv_at(v.d, PtrAt<K>);
}
VP_HARNESS(compute_masks) {
  InstructionEncoding* e = Encoding();
  e->mask_set_ = false;
  AnySet<0>(e->equal_constraints_);
  AnySet<1>(e->equal_extracted_constraints_);
  AnySet<2>(e->other_constraints_);
  uint64_t z[2] = {0, 0};
  int eq = __vp_mseq("equal", 2, z, FoldEqual, &g_e);
  int ex = __vp_mseq("extracted", 1, z, FoldExtracted, &g_e);
  int ot = __vp_mseq("other", 1, z, FoldOther, &g_e);
  uint64_t value = __vp_mseq_at(eq, 1, e->equal_constraints_.n), mask = __vp_mseq_at(eq, 0, e->equal_constraints_.n);
  uint64_t exm = __vp_mseq_at(ex, 0, e->equal_extracted_constraints_.n), otm = __vp_mseq_at(ot, 0, e->other_constraints_.n);
  // what was computed before the last constraints were added
  e->mask_ = vp_any<uint64_t>("old mask");
  e->other_mask_ = vp_any<uint64_t>("old other mask");
  e->extracted_mask_ = vp_any<uint64_t>("old extracted mask");
  e->value_ = 0;
  vp_cover("pre");
  vp_assert(e->ComputeMaskAndValue().ok(), "masks are always found");
  vp_assert(e->mask_ == mask, "the mask has exactly the bits of the equality constraints");
  vp_assert(e->value_ == value, "the value is that of the equality constraints, each at its place");
  vp_assert((e->mask_ | e->extracted_mask_ | e->other_mask_) == (mask | exm | otm), "the combined mask has exactly the bits of all constraints");
  vp_assert(e->mask_set_, "and all are known now");
  vp_cover("post");
}
