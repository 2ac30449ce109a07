// C20: a complex resource is busy in exactly the cycles reserved and not yet released or passed.
#include "vp.h"
#include "mpact/sim/generic/data_buffer.cc"
#include "mpact/sim/generic/instruction.cc"
#include "mpact/sim/generic/complex_resource.cc"
#include "mpact/sim/generic/complex_resource_operand.cc"
#include "vpsim.h"
typedef ComplexResource R;
static ArchState* g_state;
// a resource of W words with any reservations, last looked at any time ago: less than 64 cycles, or its whole depth
template <int W> static R* AnyResource(uint64_t* passed) {
  g_state = State(nullptr, nullptr, nullptr);
  R* r = new R(g_state, "r", 64 * W);
  for (int i = 0; i < W; i++) {
    vp_assert(r->bit_array_[i] == 0, "a new resource is free in all cycles");
    r->bit_array_[i] = vp_any<uint64_t>("reserved");
  }
  uint64_t last = vp_any<uint64_t>("last");
  r->last_cycle_ = last;
  *passed = vp_any<uint64_t>("cycles passed");
  vp_assume(last < (1ull << 62) && *passed < (1ull << 62) && (*passed < 64 || *passed >= 64 * W));
  g_state->cycle_ = last + *passed;
  return r;
}
template <int W> struct Words { uint64_t w[W]; };
template <int W> static Words<W> Copy(R* r) { Words<W> x; for (int i = 0; i < W; i++) x.w[i] = r->bit_array_[i]; return x; }
template <int W> static bool Bit(const Words<W>& x, uint64_t i) { return i < 64 * W && ((x.w[i >> 6] >> (i & 63)) & 1); }
template <int W> static void Op(int kind) {
  uint64_t c;
  R* r = AnyResource<W>(&c);
  Words<W> was = Copy<W>(r);
  int n = vp_any<int>("mask words");
  vp_assume(n >= 0 && n <= W + 1);
  uint64_t* m = vp_region<uint64_t>(n, "mask");
  uint64_t i = vp_any<uint64_t>("i");
  vp_assume(i < 64 * W);
  absl::Span<const uint64_t> span(m, n);
  vp_cover("pre");
  bool free = true;
  if (kind == 0) free = r->IsFree(span);
  else if (kind == 1) r->Acquire(span);
  else r->Release(span);
  Words<W> now = Copy<W>(r);
  // cycle i from now was cycle i + c from the last time
  bool busy = c < 64 * W && Bit<W>(was, i + c), asked = (int)(i >> 6) < n && ((m[i >> 6] >> (i & 63)) & 1);
  if (kind == 0) {
    vp_assert(Bit<W>(now, i) == busy, "a reservation is for a point in time");
    uint64_t clash = 0;
    for (int k = 0; k < W; k++) if (k < n) clash |= m[k] & now.w[k];
    vp_assert(free == (clash == 0), "free means reserved in none of the cycles asked for");
  } else if (kind == 1) {
    vp_assert(Bit<W>(now, i) == (busy || asked), "the cycles asked for are reserved, the others stay");
  } else {
    vp_assert(Bit<W>(now, i) == (busy && !asked), "the cycles given back are free, the others stay");
  }
  vp_assert(r->last_cycle_ == g_state->cycle_, "the reservations are those from now on");
  vp_cover("post");
}
VP_HARNESS(is_free_64) { Op<1>(0); }
VP_HARNESS(acquire_64) { Op<1>(1); }
VP_HARNESS(release_64) { Op<1>(2); }
VP_BOUNDED(is_free_128) { Op<2>(0); }
VP_BOUNDED(acquire_128) { Op<2>(1); }
VP_BOUNDED(release_128) { Op<2>(2); }
VP_BOUNDED(is_free_256) { Op<4>(0); }
VP_BOUNDED(acquire_256) { Op<4>(1); }
VP_BOUNDED(release_256) { Op<4>(2); }
// --- the operand
template <int W> static ComplexResourceOperand* AnyOperand(R* r, int* size) {
  ComplexResourceOperand* o = new ComplexResourceOperand(r);
  *size = vp_any<int>("old mask words");
  vp_assume(*size >= 0 && *size <= W);
  if (*size > 0) {
    o->bit_array_ = new uint64_t[W];
    for (int k = 0; k < W; k++) o->bit_array_[k] = vp_any<uint64_t>("old mask");
  }
  o->span_size_ = *size;
  return o;
}
template <int W, int kLen> static void Mask() {
  g_state = State(nullptr, nullptr, nullptr);
  R* r = new R(g_state, "r", 64 * W);
  int size;
  ComplexResourceOperand* o = AnyOperand<W>(r, &size);
  uint64_t* old = o->bit_array_;
  uint64_t b = vp_any<uint64_t>("begin"), e = kLen ? b + (kLen - 1) : vp_any<uint64_t>("end"), i = vp_any<uint64_t>("i");
  vp_assume(b > e || kLen || e >= 64 * W);   // kLen: the number of cycles, 0 for a mask that is refused
  vp_cover("pre");
  bool ok = o->SetCycleMask(b, e).ok();
  vp_assert(ok == (b <= e && e < 64 * W), "a mask is accepted exactly when its cycles are in order and within the depth");
  auto s = o->bit_array();
  if (ok) {
    vp_assert(s.size() <= W && s.size() * 64 > e, "the mask has room for its cycles");
    if (i < 64 * s.size()) vp_assert(((s[i >> 6] >> (i & 63)) & 1) == (i >= b && i <= e), "exactly the cycles from begin to end are in it");
  } else vp_assert(o->bit_array_ == old && (int)s.size() == size, "a refused mask leaves the one before");
  vp_cover("post");
}
VP_HARNESS(mask_refused) { Mask<2, 0>(); }
VP_BOUNDED(mask_64_1) { Mask<1, 1>(); }
VP_BOUNDED(mask_192_1) { Mask<3, 1>(); }
VP_BOUNDED(mask_192_3) { Mask<3, 3>(); }
template <int W> static void SpanMask() {
  g_state = State(nullptr, nullptr, nullptr);
  R* r = new R(g_state, "r", 64 * W);
  int size;
  ComplexResourceOperand* o = AnyOperand<W>(r, &size);
  uint64_t* old = o->bit_array_;
  int n = vp_any<int>("mask words"), i = vp_any<int>("i");
  vp_assume(n >= 0 && n <= W + 1 && i >= 0 && i < n);
  uint64_t* m = vp_region<uint64_t>(n, "mask");
  bool any = false;
  for (int k = 0; k < W; k++) if (k < n && m[k]) any = true;
  vp_cover("pre");
  bool ok = o->SetCycleMask(absl::Span<const uint64_t>(m, n)).ok();
  vp_assert(ok == (n <= W && any), "a mask is accepted exactly when it is not empty and within the depth");
  auto s = o->bit_array();
  if (ok) vp_assert((int)s.size() == n && s[i] == m[i] && o->bit_array_ != old, "it is copied");
  else vp_assert(o->bit_array_ == old && (int)s.size() == size, "a refused mask leaves the one before");
  vp_cover("post");
}
VP_HARNESS(span_mask_64) { SpanMask<1>(); }
VP_BOUNDED(span_mask_192) { SpanMask<3>(); }
VP_HARNESS(null_operand) {
  ComplexResourceOperand* o = new ComplexResourceOperand(nullptr);
  vp_cover("pre");
  vp_assert(!o->SetCycleMask(vp_any<uint64_t>("begin"), vp_any<uint64_t>("end")).ok(), "an operand without a resource refuses");
  uint64_t x = vp_any<uint64_t>("mask");
  vp_assert(!o->SetCycleMask(absl::Span<const uint64_t>(&x, 1)).ok() && o->bit_array().size() == 0, "any mask");
  vp_cover("post");
}
// the operand asks for its mask, and can be acquired again only after it
VP_HARNESS(operand) {
  uint64_t c;
  R* r = AnyResource<1>(&c);
  uint64_t busy = c < 64 ? r->bit_array_[0] >> c : 0, b = vp_any<uint64_t>("mask");
  vp_assume(b != 0);
  ComplexResourceOperand* o = new ComplexResourceOperand(r);
  vp_assert(o->SetCycleMask(absl::Span<const uint64_t>(&b, 1)).ok(), "a mask is set");
  vp_cover("pre");
  vp_assert(o->IsFree() == ((busy & b) == 0), "free when no cycle of the mask is reserved");
  o->Acquire();
  vp_assert(r->bit_array_[0] == (busy | b) && !o->IsFree(), "acquiring reserves the cycles of the mask");
  delete o;
  vp_assert(r->bit_array_[0] == (busy | b), "an operand does not give its cycles back");
  vp_cover("post");
}
// --- known findings (see known_findings.txt): each states what should hold
VP_BOUNDED(known_advance_64_or_more) {
  g_state = State(nullptr, nullptr, nullptr);
  R* r = new R(g_state, "r", 256);
  r->bit_array_[1] = 1;
  uint64_t one = 1;
  g_state->cycle_ = 64;
  vp_assert(!r->IsFree(absl::Span<const uint64_t>(&one, 1)), "advancing a deep resource by 64 or more cycles keeps the reservations beyond");
}
VP_BOUNDED(known_partial_last_word) {
  g_state = State(nullptr, nullptr, nullptr);
  R* r = new R(g_state, "r", 10);
  uint64_t one = 1;
  r->Acquire(absl::Span<const uint64_t>(&one, 1));
  vp_assert(!r->IsFree(absl::Span<const uint64_t>(&one, 1)), "a resource of a depth that is not a multiple of 64 reserves its cycles");
}
