// C04 (1): one step of a delay line of any depth with any contents.  A line of depth D (a power of two) at position cur holds, for every
// distance 1..D-1, the list of entries due in that many cycles in slot (cur+distance) mod D.
#include "vp.h"
#include "mpact/sim/generic/delay_line.h"
#include "mpact/sim/generic/function_delay_line.h"
using namespace mpact::sim::generic;
struct Rec;
static Rec* g_base;
static uint64_t g_applied;
struct Rec {
  uint64_t a;
  uint32_t b;
  Rec(uint64_t x, uint32_t y) : a(x), b(y) {}
  void Apply() {
    vp_assert(this == g_base + g_applied, "entries of a cycle are applied in the order they were added, each once");
    g_applied++;
  }
};
using DL = DelayLine<Rec>;
static DL* Make(uint32_t* depth) {
  uint32_t lg = vp_any<uint32_t>("lg");
  vp_assume(lg <= 30);
  uint32_t D = 1u << lg;
  DL* dl = new DL(1);
  dl->delay_line_.n = D;
  dl->mask_ = (int)(D - 1);
  int cur = vp_any<int>("cur");
  vp_assume(cur >= 0 && (uint32_t)cur < D);
  dl->current_ = cur;
  dl->num_entries_ = vp_any<uint32_t>("entries");
  *depth = D;
  return dl;
}
static std::vector<Rec>* Slot(DL* dl, uint64_t i, uint64_t n) {
  auto* v = new (&dl->delay_line_.d[i]) std::vector<Rec>();
  v->n = n;
  return v;
}
VP_HARNESS(add) {
  uint32_t D;
  DL* dl = Make(&D);
  int cur = dl->current_;
  uint32_t cnt = dl->num_entries_;
  int l = vp_any<int>("latency");
  vp_assume(l >= 1 && (uint32_t)l < D);
  uint64_t p = ((uint64_t)cur + (uint64_t)l) & (D - 1);
  uint64_t n = vp_any<uint64_t>("n");
  vp_assume(n < 1000000);
  auto* v = Slot(dl, p, n);
  Rec* base = v->d;
  uint64_t x = vp_any<uint64_t>("x");
  uint32_t y = vp_any<uint32_t>("y");
  vp_cover("pre");
  int r = dl->Add(l, x, y);
  vp_assert(dl->delay_line_.d[p].n == n + 1 && dl->delay_line_.d[p].d == base, "the entry joins the list of the cycle it is due in");
  vp_assert(base[n].a == x && base[n].b == y, "behind the entries already there, with its arguments");
  vp_assert((uint32_t)r == cnt + 1 && dl->num_entries_ == cnt + 1, "one more entry is counted");
  vp_assert(dl->current_ == cur && dl->delay_line_.n == D && dl->mask_ == (int)(D - 1), "nothing else moves");
  vp_assert(dl->IsEmpty() == (cnt + 1 == 0), "IsEmpty reports the count");
  vp_cover("post");
}
VP_HARNESS(advance) {
  uint32_t D;
  DL* dl = Make(&D);
  int cur = dl->current_;
  uint32_t cnt = dl->num_entries_;
  uint64_t p = ((uint64_t)cur + 1) & (D - 1);
  uint64_t n = vp_any<uint64_t>("n");
  vp_assume(n < 1000000 && n <= cnt);
  auto* v = Slot(dl, p, n);
  g_base = v->d;
  g_applied = 0;
  vp_cover("pre");
  int r = dl->Advance();
  vp_assert(g_applied == n, "every entry due in this cycle is applied");
  vp_assert(dl->delay_line_.d[p].n == 0, "and removed");
  vp_assert((uint64_t)dl->current_ == p && dl->delay_line_.n == D && dl->mask_ == (int)(D - 1), "the line moves by one cycle");
  vp_assert((uint32_t)r == cnt - (uint32_t)n && dl->num_entries_ == cnt - (uint32_t)n, "Advance returns the number of entries left");
  vp_assert(dl->IsEmpty() == (cnt == n), "IsEmpty exactly when no entry is left");
  vp_cover("post");
}
// an entry due later is untouched by Advance and by Add of other cycles, and its distance drops by one
VP_HARNESS(frame) {
  uint32_t D;
  DL* dl = Make(&D);
  uint64_t cur = (uint64_t)dl->current_;
  uint64_t dist = vp_any<uint64_t>("dist");
  vp_assume(dist >= 1 && dist < D);
  uint64_t q = (cur + dist) & (D - 1);
  uint64_t n = vp_any<uint64_t>("n");
  vp_assume(n < 1000000);
  auto* v = Slot(dl, q, n);
  Rec* base = v->d;
  uint64_t k = vp_any<uint64_t>("k");
  vp_assume(k < n);
  base[k].a = 77;
  base[k].b = 5;
  vp_cover("pre");
  if (vp_any<bool>("adv")) {
    vp_assume(dist >= 2);
    Slot(dl, (cur + 1) & (D - 1), 0);
    dl->Advance();
    vp_assert(q == (((uint64_t)dl->current_ + (dist - 1)) & (D - 1)), "an entry due later comes one cycle closer");
  } else {
    int l = vp_any<int>("latency");
    vp_assume(l >= 1 && (uint32_t)l < D && (uint64_t)l != dist);
    uint64_t n2 = vp_any<uint64_t>("n2");
    vp_assume(n2 < 1000000);
    Slot(dl, (cur + (uint64_t)l) & (D - 1), n2);
    dl->Add(l, 1, 2);
  }
  vp_assert(dl->delay_line_.d[q].n == n && dl->delay_line_.d[q].d == base && base[k].a == 77 && base[k].b == 5, "lists of other cycles are unchanged");
  vp_cover("post");
}
VP_HARNESS(created_empty) {
  uint32_t m = vp_any<uint32_t>("m");
  vp_assume(m >= 1 && m <= 16);
  DL dl(m);
  vp_assert(dl.IsEmpty(), "a new line is empty");
  vp_assert(dl.delay_line_.size() >= m && (dl.delay_line_.size() & (dl.delay_line_.size() - 1)) == 0 && dl.mask_ == (int)dl.delay_line_.size() - 1, "the depth is a power of two covering the requested size");
  vp_assert(dl.current_ == 0 && dl.num_entries_ == 0, "at position 0");
  vp_assert(dl.Advance() == 0 && dl.IsEmpty(), "advancing an empty line does nothing");
  vp_cover("post");
}
static int g_called, g_arg;
VP_HARNESS(function_records) {
  FunctionDelayLine dl(2);
  int a = vp_any<int>("a");
  g_called = 0;
  dl.Add(1, [a]() { g_called += 1; g_arg = a; });
  vp_assert(g_called == 0, "not called when scheduled");
  dl.Advance();
  vp_assert(g_called == 1 && g_arg == a && dl.IsEmpty(), "called once when due");
  dl.Advance();
  dl.Advance();
  vp_assert(g_called == 1, "and never again");
  vp_cover("post");
}
