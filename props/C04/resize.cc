// C04 (2): growing a delay line (bounded: depths 1, 2, 4 and 8, latencies below 40) keeps every entry at its distance.  The list of one slot is abstracted to (contents, length):
// contents is an arbitrary 64-bit name of the sequence of entries, appending entry x yields name*P+x+1.
#include "vp.h"
struct Rec {
  uint64_t a;
  explicit Rec(uint64_t x) : a(x) {}
  void Apply() {}
};
#undef vector
namespace std {
template <>
class vp_vector<Rec> {
 public:
  uint64_t id;
  uint64_t n;
  vp_vector() : id(0), n(0) {}
  vp_vector(const vp_vector& o) : id(o.id), n(o.n) {}
  vp_vector(vp_vector&& o) : id(o.id), n(o.n) { o.id = 0; o.n = 0; }
  vp_vector& operator=(const vp_vector& o) { id = o.id; n = o.n; return *this; }
  vp_vector& operator=(vp_vector&& o) { uint64_t i = o.id, m = o.n; o.id = 0; o.n = 0; id = i; n = m; return *this; }
  ~vp_vector() {}
  size_t size() const { return n; }
  bool empty() const { return n == 0; }
  void clear() { id = 0; n = 0; }
  void swap(vp_vector& o) { uint64_t i = o.id, m = o.n; o.id = id; o.n = n; id = i; n = m; }
  void emplace_back(uint64_t x) { id = id * 1000003 + x + 1; n++; }
  void push_back(const Rec& r) { emplace_back(r.a); }
  Rec* begin() { return nullptr; }
  Rec* end() { return nullptr; }
};
}  // namespace std
#define vector vp_vector
#include "mpact/sim/generic/delay_line.h"
using namespace mpact::sim::generic;
using DL = DelayLine<Rec>;
template <unsigned D, unsigned C, unsigned L>
static void Resize() {
  DL* dl = new DL(1);
  uint64_t oid[D], on[D];
  for (uint32_t i = 0; i < D; i++) {
    on[i] = vp_any<uint64_t>("len");
    oid[i] = vp_any<uint64_t>("id");
    vp_assume(on[i] != 0 || oid[i] == 0);
    dl->delay_line_.d[i].id = oid[i];
    dl->delay_line_.d[i].n = on[i];
  }
  dl->delay_line_.n = D;
  dl->mask_ = (int)(D - 1);
  int cur = C;
  dl->current_ = cur;
  uint32_t cnt = vp_any<uint32_t>("entries");
  dl->num_entries_ = cnt;
  int l = L;
  uint64_t dist = vp_any<uint64_t>("dist");
  vp_assume(dist >= 1 && dist < 64);
  uint64_t x = vp_any<uint64_t>("x");
  vp_cover("pre");
  int r = dl->Add(l, x);
  uint64_t N = dl->delay_line_.size();
  vp_assert(N > (uint64_t)l && (N & (N - 1)) == 0 && (uint64_t)(uint32_t)dl->mask_ == N - 1, "the new depth is a power of two above the latency");
  vp_assert(dl->current_ >= 0 && (uint64_t)dl->current_ < N, "the position stays within the line");
  vp_assert((uint32_t)r == cnt + 1 && dl->num_entries_ == cnt + 1, "one more entry is counted");
  vp_cover("grown");
  if (dist < N) {
    uint64_t q = ((uint64_t)dl->current_ + dist) & (N - 1);
    uint64_t id = dl->delay_line_.d[q].id, n = dl->delay_line_.d[q].n;
    if (dist < D) {
      uint64_t oq = ((uint64_t)cur + dist) & (D - 1);
      vp_assert(n == on[oq] && (n == 0 || id == oid[oq]), "every pending entry keeps its distance and its place in the order");
    } else if (dist == (uint64_t)l) {
      vp_assert(n == 1 && id == x + 1, "the new entry is due after its latency");
    } else {
      vp_assert(n == 0, "nothing else is scheduled");
    }
  }
  vp_cover("post");
}
VP_BOUNDED(resize_1_1) {
  Resize<1, 0, 1>();
}
VP_BOUNDED(resize_1_2) {
  Resize<1, 0, 2>();
}
VP_BOUNDED(resize_1_3) {
  Resize<1, 0, 3>();
}
VP_BOUNDED(resize_1_19) {
  Resize<1, 0, 19>();
}
VP_BOUNDED(resize_2_2) {
  Resize<2, 0, 2>();
  Resize<2, 1, 2>();
}
VP_BOUNDED(resize_2_3) {
  Resize<2, 0, 3>();
  Resize<2, 1, 3>();
}
VP_BOUNDED(resize_2_4) {
  Resize<2, 0, 4>();
  Resize<2, 1, 4>();
}
VP_BOUNDED(resize_2_7) {
  Resize<2, 0, 7>();
  Resize<2, 1, 7>();
}
VP_BOUNDED(resize_2_19) {
  Resize<2, 0, 19>();
  Resize<2, 1, 19>();
}
VP_BOUNDED(resize_4_4) {
  Resize<4, 0, 4>();
  Resize<4, 1, 4>();
  Resize<4, 2, 4>();
  Resize<4, 3, 4>();
}
VP_BOUNDED(resize_4_5) {
  Resize<4, 0, 5>();
  Resize<4, 1, 5>();
  Resize<4, 2, 5>();
  Resize<4, 3, 5>();
}
VP_BOUNDED(resize_4_7) {
  Resize<4, 0, 7>();
  Resize<4, 1, 7>();
  Resize<4, 2, 7>();
  Resize<4, 3, 7>();
}
VP_BOUNDED(resize_4_8) {
  Resize<4, 0, 8>();
  Resize<4, 1, 8>();
  Resize<4, 2, 8>();
  Resize<4, 3, 8>();
}
VP_BOUNDED(resize_4_15) {
  Resize<4, 0, 15>();
  Resize<4, 1, 15>();
  Resize<4, 2, 15>();
  Resize<4, 3, 15>();
}
VP_BOUNDED(resize_4_19) {
  Resize<4, 0, 19>();
  Resize<4, 1, 19>();
  Resize<4, 2, 19>();
  Resize<4, 3, 19>();
}
VP_BOUNDED(resize_8_8) {
  Resize<8, 0, 8>();
  Resize<8, 1, 8>();
  Resize<8, 2, 8>();
  Resize<8, 3, 8>();
  Resize<8, 4, 8>();
  Resize<8, 5, 8>();
  Resize<8, 6, 8>();
  Resize<8, 7, 8>();
}
VP_BOUNDED(resize_8_9) {
  Resize<8, 0, 9>();
  Resize<8, 1, 9>();
  Resize<8, 2, 9>();
  Resize<8, 3, 9>();
  Resize<8, 4, 9>();
  Resize<8, 5, 9>();
  Resize<8, 6, 9>();
  Resize<8, 7, 9>();
}
VP_BOUNDED(resize_8_15) {
  Resize<8, 0, 15>();
  Resize<8, 1, 15>();
  Resize<8, 2, 15>();
  Resize<8, 3, 15>();
  Resize<8, 4, 15>();
  Resize<8, 5, 15>();
  Resize<8, 6, 15>();
  Resize<8, 7, 15>();
}
VP_BOUNDED(resize_8_16) {
  Resize<8, 0, 16>();
  Resize<8, 1, 16>();
  Resize<8, 2, 16>();
  Resize<8, 3, 16>();
  Resize<8, 4, 16>();
  Resize<8, 5, 16>();
  Resize<8, 6, 16>();
  Resize<8, 7, 16>();
}
VP_BOUNDED(resize_8_19) {
  Resize<8, 0, 19>();
  Resize<8, 1, 19>();
  Resize<8, 2, 19>();
  Resize<8, 3, 19>();
  Resize<8, 4, 19>();
  Resize<8, 5, 19>();
  Resize<8, 6, 19>();
  Resize<8, 7, 19>();
}
VP_BOUNDED(resize_8_31) {
  Resize<8, 0, 31>();
  Resize<8, 1, 31>();
  Resize<8, 2, 31>();
  Resize<8, 3, 31>();
  Resize<8, 4, 31>();
  Resize<8, 5, 31>();
  Resize<8, 6, 31>();
  Resize<8, 7, 31>();
}
