// C13: ResourceBitSet is a set of positions: union, difference, intersection test, search and size, for sets of any length.
#include "vp.h"
#include "mpact/sim/generic/resource_bitset.cc"
using namespace mpact::sim::generic;
static const int kMax = 1 << 24;
// a set of n words of arbitrary content
static void Any(ResourceBitSet* s, const char* n, const char* c) {
  int w = vp_any<int>(n);
  vp_assume(w >= 0 && w < kMax);
  s->size_ = w;
  s->bits_ = vp_region<uint64_t>(w, c);
}
static void Drop(ResourceBitSet* s) { s->bits_ = nullptr; s->size_ = 0; }   // the region is not the set's to delete
static bool Has(const uint64_t* bits, int n, int p) { return (p >> 6) < n && ((bits[p >> 6] >> (p & 63)) & 1); }
static bool Has(const ResourceBitSet& s, int p) { return Has(s.bits_, s.size_, p); }
static int Pos(const char* n) {
  int p = vp_any<int>(n);
  vp_assume(p >= 0 && p < kMax * 64);
  return p;
}
VP_HARNESS(construct) {
  int n = vp_any<int>("n"), p = Pos("p");
  vp_assume(n >= 0 && n < kMax);
  ResourceBitSet s(n), e;
  vp_assert(!Has(s, p) && !Has(e, p), "a new set is empty");
  int q = 7;
  vp_assert(!e.FindFirstSetBit(&q) && q == 7 && e.GetOnesCount() == 0, "an empty set has no first element");
  vp_cover("post");
}
VP_HARNESS(set) {
  ResourceBitSet s;
  Any(&s, "n", "bits");
  int p = Pos("p"), q = Pos("q");
  bool was = Has(s, q);
  vp_cover("pre");
  if ((p >> 6) >= s.size_) {   // growing deletes the old words: they must be heap words
    uint64_t* mine = s.bits_;
    s.bits_ = new uint64_t[s.size_];
    for (int i = 0; i < s.size_; i++) s.bits_[i] = mine[i];
    vp_cover("grow");
  }
  s.Set(p);
  vp_assert(Has(s, p), "the position is in the set");
  vp_assert(Has(s, q) == (q == p || was), "no other position changes");
  vp_cover("post");
}
VP_HARNESS(set_empty) {
  int p = Pos("p"), q = Pos("q");
  ResourceBitSet s;
  s.Set(p);
  vp_assert(Has(s, q) == (q == p), "adding to an empty set gives exactly that position");
  vp_cover("post");
}
static void Heap(ResourceBitSet* s) {
  uint64_t* mine = s->bits_;
  s->bits_ = new uint64_t[s->size_];
  for (int i = 0; i < s->size_; i++) s->bits_[i] = mine[i];
}
VP_HARNESS(or_) {
  ResourceBitSet a, b;
  Any(&a, "na", "a");
  Any(&b, "nb", "b");
  if (b.size_ > a.size_) { Heap(&a); vp_cover("grow"); }
  int p = Pos("p");
  bool x = Has(a, p), y = Has(b, p);
  vp_cover("pre");
  a.Or(b);
  vp_assert(Has(a, p) == (x || y), "union");
  vp_assert(Has(b, p) == y, "the other set is unchanged");
  vp_cover("post");
  Drop(&b);
}
VP_HARNESS(and_not) {
  ResourceBitSet a, b;
  Any(&a, "na", "a");
  Any(&b, "nb", "b");
  int p = Pos("p");
  bool x = Has(a, p), y = Has(b, p);
  vp_cover("pre");
  a.AndNot(b);
  vp_assert(Has(a, p) == (x && !y), "difference");
  vp_assert(Has(b, p) == y, "the other set is unchanged");
  vp_cover("post");
  Drop(&a); Drop(&b);
}
VP_HARNESS(self) {
  ResourceBitSet a;
  Any(&a, "na", "a");
  int p = Pos("p");
  bool x = Has(a, p);
  a.Or(a);
  vp_assert(Has(a, p) == x, "union with itself");
  a.AndNot(a);
  vp_assert(!Has(a, p), "difference with itself is empty");
  Drop(&a);
  vp_cover("post");
}
// intersection: the ghost machine follows the words seen so far
struct IEnv { const uint64_t *a, *b; };
VP_HARNESS(intersection_some) {   // a common element is found
  ResourceBitSet a, b;
  Any(&a, "na", "a");
  Any(&b, "nb", "b");
  int p = Pos("p");
  vp_assume(Has(a, p) && Has(b, p));
  static IEnv env; static int sp;
  env.a = a.bits_; env.b = b.bits_; sp = p;
  uint64_t init[1] = {0};
  int m = __vp_mseq("acc", 1, init, [](uint64_t k, const uint64_t* c, uint64_t* n, void* e) { IEnv* v = (IEnv*)e; n[0] = c[0] | (v->a[k] & v->b[k]); }, &env);
  __vp_mseq_inv(m, [](uint64_t k, const uint64_t* c, void* e) -> bool { return k <= (uint64_t)(sp >> 6) || ((c[0] >> (sp & 63)) & 1); }, "the common element is accumulated", 0);
  __vp_hint(p >> 6);
  vp_cover("pre");
  vp_assert(a.IsIntersectionNonEmpty(b), "sets with a common element intersect");
  vp_cover("post");
  Drop(&a); Drop(&b);
}
VP_HARNESS(intersection_none) {   // an intersection is not invented: any two sets without a common element
  ResourceBitSet a, b;
  Any(&a, "na", "a");
  Any(&b, "nb", "b");
  uint64_t* any = b.bits_;
  b.bits_ = new uint64_t[b.size_];
  // every set b disjoint from a is (b without a): the words outside a stay arbitrary
  const uint64_t* aw = a.bits_; uint64_t* bw = b.bits_; int an = a.size_;
  for (int i = 0; i < b.size_; i++) bw[i] = i < an ? any[i] & ~aw[i] : any[i];
  vp_cover("pre");
  vp_assert(!a.IsIntersectionNonEmpty(b), "sets without a common element do not intersect");
  vp_cover("post");
  Drop(&a);
}
VP_HARNESS(find_first) {
  ResourceBitSet a;
  Any(&a, "na", "a");
  int q = Pos("q");
  int pos = -1;
  __vp_hint(q >> 6);
  vp_cover("pre");
  bool f = a.FindFirstSetBit(&pos);
  if (f) {
    vp_cover("found");
    vp_assert(pos >= 0 && pos < a.size_ * 64 && Has(a, pos), "the position found is in the set");
    vp_assert(q >= pos || !Has(a, q), "no smaller position is in the set");
  } else {
    vp_cover("none");
    vp_assert(!Has(a, q) && pos == -1, "nothing found: the set is empty");
  }
  Drop(&a);
}
VP_HARNESS(find_next) {
  ResourceBitSet a;
  Any(&a, "na", "a");
  int q = Pos("q"), from = Pos("from");
  int pos = from;
  __vp_hint((q >> 6) - (from >> 6));
  uint64_t init[1] = {~(~0ull << (from & 63))};   // positions of the current word to skip
  __vp_mseq("skip", 1, init, [](uint64_t, const uint64_t*, uint64_t* n, void*) { n[0] = 0; }, nullptr);
  vp_cover("pre");
  bool f = a.FindNextSetBit(&pos);
  if (f) {
    vp_cover("found");
    vp_assert(pos >= from && pos < a.size_ * 64 && Has(a, pos), "the position found is in the set, at or after the start");
    vp_assert(q < from || q >= pos || !Has(a, q), "no position in between is in the set");
  } else {
    vp_cover("none");
    vp_assert((q < from || !Has(a, q)) && pos == from, "nothing found: no position at or after the start is in the set");
  }
  Drop(&a);
}
VP_HARNESS(count) {
  ResourceBitSet a;
  Any(&a, "na", "a");
  static IEnv env;
  env.a = a.bits_;
  uint64_t init[1] = {0};
  int m = __vp_mseq("ones", 1, init, [](uint64_t k, const uint64_t* c, uint64_t* n, void* e) { n[0] = c[0] + __builtin_popcountll(((IEnv*)e)->a[k]); }, &env);
  vp_cover("pre");
  vp_assert(a.GetOnesCount() == (int)__vp_mseq_at(m, 0, a.size_), "the count is the number of positions in the set");
  vp_cover("post");
  Drop(&a);
}
VP_HARNESS(resize) {
  ResourceBitSet a;
  Any(&a, "na", "a");
  int n = vp_any<int>("n"), p = Pos("p");
  vp_assume(n >= 0 && n < kMax * 64 - 64);
  if (n > a.size_ * 64) { Heap(&a); vp_cover("grow"); }
  bool x = Has(a, p);
  uint64_t init[1] = {~(~0ull << (n & 63))};   // positions of the current word to keep
  __vp_mseq("keep", 1, init, [](uint64_t, const uint64_t*, uint64_t* nx, void*) { nx[0] = 0; }, nullptr);
  vp_cover("pre");
  a.Resize(n);
  vp_assert(a.size_ * 64 >= n, "the set has room for the size");
  vp_assert(Has(a, p) == (x && p < n), "positions below the size are kept, others are dropped");
  vp_cover("post");
  Drop(&a);
}
VP_HARNESS(copy) {
  ResourceBitSet a;
  Any(&a, "na", "a");
  int p = Pos("p");
  bool x = Has(a, p);
  ResourceBitSet b(a);
  vp_assert(Has(b, p) == x && Has(a, p) == x && (b.bits_ != a.bits_ || a.size_ == 0), "a copy has the same elements and its own storage");
  ResourceBitSet c(3);
  c = a;
  vp_assert(Has(c, p) == x && Has(a, p) == x && (c.bits_ != a.bits_ || a.size_ == 0), "assignment copies the elements");
  const ResourceBitSet& cc = c;
  c = cc;
  vp_assert(Has(c, p) == x, "assignment to itself changes nothing");
  ResourceBitSet d(static_cast<ResourceBitSet&&>(c));
  vp_assert(Has(d, p) == x && !Has(c, p), "moving transfers the elements");
  Drop(&a);
  vp_cover("post");
}
