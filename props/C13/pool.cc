// C13: resource pools: a resource is free exactly while it is not acquired; resources and sets of any pool width do not interfere.
#include "vp.h"
#include "mpact/sim/generic/resource_bitset.cc"
#include "mpact/sim/generic/simple_resource.cc"
#include "mpact/sim/generic/simple_resource_operand.h"
using namespace mpact::sim::generic;
static const int kMax = 1 << 20;
static bool Has(const ResourceBitSet& s, int p) { return (p >> 6) < s.size_ && ((s.bits_[p >> 6] >> (p & 63)) & 1); }
static int Pos(const char* n, int w) {
  int p = vp_any<int>(n);
  vp_assume(p >= 0 && p < w);
  return p;
}
// a pool of any width with any subset of positions acquired
static SimpleResourcePool* AnyPool(int* w) {
  *w = vp_any<int>("width");
  vp_assume(*w >= 1 && *w < kMax);
  auto* p = new SimpleResourcePool("pool", *w);
  delete[] p->resource_vector_.bits_;
  p->resource_vector_.size_ = (*w + 63) / 64;
  p->resource_vector_.bits_ = vp_region<uint64_t>((*w + 63) / 64, "acquired");
  return p;
}
struct IEnv { const uint64_t *a, *b; };
static IEnv g_e; static int g_p;
// ghost machine of the intersection test of the pool with one word array b, and the facts used about it
static int Follow(const ResourceBitSet& a, const ResourceBitSet& b, int p) {
  g_e.a = a.bits_; g_e.b = b.bits_; g_p = p;
  uint64_t init[2] = {0, 0};
  __vp_hint(p >> 6);
  int m = __vp_mseq("acc", 2, init, [](uint64_t k, const uint64_t* c, uint64_t* n, void* e) {
    IEnv* v = (IEnv*)e; uint64_t x = v->a[k] & v->b[k]; n[0] = c[0] | x; n[1] = x ? k : c[1]; }, &g_e);
  __vp_mseq_inv(m, [](uint64_t k, const uint64_t* c, void* e) -> bool {
    IEnv* v = (IEnv*)e;
    return k <= (uint64_t)(g_p >> 6) || c[0] != 0 || (v->a[g_p >> 6] & v->b[g_p >> 6]) == 0; }, "words seen so far", 0);
  return m;
}
VP_HARNESS(resource_is_one_position) {
  int w;
  SimpleResourcePool* pool = AnyPool(&w);
  int i = Pos("i", w), q = vp_any<int>("q");
  vp_assume(q >= 0 && q < kMax);
  SimpleResource* x = new SimpleResource("x", i, pool);
  vp_assert(Has(x->resource_bit(), q) == (q == i), "a resource is exactly its own position");
  vp_assert(x->index() == i && x->pool() == pool, "index and pool");
  vp_cover("post");
}
VP_HARNESS(acquire_release) {
  int w;
  SimpleResourcePool* pool = AnyPool(&w);
  int i = Pos("i", w), q = Pos("q", w);
  SimpleResource* x = new SimpleResource("x", i, pool);
  bool was = Has(pool->resource_vector_, q);
  vp_cover("pre");
  x->Acquire();
  vp_assert(Has(pool->resource_vector_, q) == (was || q == i), "acquiring a resource marks it and no other");
  x->Acquire();
  vp_assert(Has(pool->resource_vector_, q) == (was || q == i), "acquiring again changes nothing");
  x->Release();
  vp_assert(Has(pool->resource_vector_, q) == (was && q != i), "releasing a resource frees it and no other");
  vp_cover("post");
}
VP_HARNESS(is_not_free) {
  int w;
  SimpleResourcePool* pool = AnyPool(&w);
  int i = Pos("i", w);
  SimpleResource* x = new SimpleResource("x", i, pool);
  vp_assume(Has(pool->resource_vector_, i));
  Follow(pool->resource_vector_, x->resource_bit_, i);
  vp_cover("pre");
  vp_assert(!x->IsFree(), "an acquired resource is not free");
  vp_cover("post");
}
VP_HARNESS(is_free) {
  int w;
  SimpleResourcePool* pool = AnyPool(&w);
  int i = Pos("i", w);
  SimpleResource* x = new SimpleResource("x", i, pool);
  vp_assume(!Has(pool->resource_vector_, i));
  vp_cover("pre");
  bool f = x->IsFree();
  vp_assert(f, "a resource that is not acquired is free");
  vp_cover("post");
}
// sets of resources
VP_HARNESS(sets) {
  int w;
  SimpleResourcePool* pool = AnyPool(&w);
  int i = Pos("i", w), j = Pos("j", w), q = Pos("q", w);
  SimpleResource* x = new SimpleResource("x", i, pool);
  SimpleResource* y = new SimpleResource("y", j, pool);
  SimpleResourceSet* s = pool->CreateResourceSet();
  vp_assert(!Has(s->resource_vector(), q), "a new set is empty");
  vp_assert(s->AddResource(x).ok() && s->AddResource(y).ok() && s->AddResource(static_cast<SimpleResource*>(nullptr)).ok(), "resources of the pool can be added");
  vp_assert(Has(s->resource_vector(), q) == (q == i || q == j), "a set has exactly the resources added");
  bool was = Has(pool->resource_vector_, q);
  s->Acquire();
  vp_assert(Has(pool->resource_vector_, q) == (was || q == i || q == j), "acquiring a set marks its resources and no other");
  s->Release();
  vp_assert(Has(pool->resource_vector_, q) == (was && q != i && q != j), "releasing a set frees its resources and no other");
  SimpleResourcePool other("other", 10);
  SimpleResource* z = new SimpleResource("z", 3, &other);
  vp_assert(!s->AddResource(z).ok(), "a resource of another pool is refused");
  vp_assert(Has(s->resource_vector(), q) == (q == i || q == j), "and not added");
  vp_cover("post");
}
// any set content
VP_HARNESS(set_is_free) {
  int w;
  SimpleResourcePool* pool = AnyPool(&w);
  int n = (w + 63) / 64, p = Pos("p", w);
  SimpleResourceSet* s = pool->CreateResourceSet();
  delete[] s->resource_vector_.bits_;
  s->resource_vector_.bits_ = vp_region<uint64_t>(n, "set");
  s->resource_vector_.size_ = n;
  Follow(pool->resource_vector_, s->resource_vector_, p);
  bool common = Has(pool->resource_vector_, p) && Has(s->resource_vector_, p);
  vp_cover("pre");
  bool f = s->IsFree();
  if (f) vp_assert(!common, "a set is not free while one of its resources is acquired");
  vp_cover("post");
}
VP_HARNESS(set_is_not_free) {
  int w;
  SimpleResourcePool* pool = AnyPool(&w);
  int n = (w + 63) / 64;
  SimpleResourceSet* s = pool->CreateResourceSet();
  delete[] s->resource_vector_.bits_;
  // every set without an acquired resource is (any set without the acquired ones)
  uint64_t* any = vp_region<uint64_t>(n, "set");
  const uint64_t* taken = pool->resource_vector_.bits_;
  uint64_t* words = new uint64_t[n];
  for (int i = 0; i < n; i++) words[i] = any[i] & ~taken[i];
  s->resource_vector_.bits_ = words;
  s->resource_vector_.size_ = n;
  vp_cover("pre");
  vp_assert(s->IsFree(), "a set is free when none of its resources is acquired");
  vp_cover("post");
}
// names and indices
VP_BOUNDED(names) {
  SimpleResourcePool pool("pool", 3);
  vp_assert(pool.GetResource("a") == nullptr && pool.GetResource(0) == nullptr, "no resources at first");
  vp_assert(pool.AddResource("a").ok() && !pool.AddResource("a").ok(), "a name is added once");
  SimpleResource* a = pool.GetResource("a");
  vp_assert(a != nullptr && a->index() == 0 && pool.GetResource(0) == a && pool.GetOrAddResource("a") == a, "found under its name and index");
  SimpleResource* b = pool.GetOrAddResource("b");
  SimpleResource* c = pool.GetOrAddResource("c");
  vp_assert(b && c && b->index() == 1 && c->index() == 2 && pool.GetResource("b") == b && pool.GetResource(2) == c && pool.GetResource("a") == a, "each name has its own resource");
  vp_assert(pool.GetOrAddResource("d") == nullptr && !pool.AddResource("d").ok() && pool.GetResource("d") == nullptr && pool.GetResource(3) == nullptr, "a full pool takes no more");
  SimpleResourceSet* s = pool.CreateResourceSet();
  vp_assert(s->AddResource("b").ok() && !s->AddResource("e").ok() && s->resource_vector().GetOnesCount() == 1, "a set takes resources by name");
  b->Acquire();
  vp_assert(!s->IsFree() && !b->IsFree() && a->IsFree() && c->IsFree(), "only b is taken");
  b->Release();
  vp_assert(s->IsFree() && b->IsFree(), "and released");
  vp_cover("post");
}
// operands: acquired now, released after the latency
template <int L> static void Operand() {
  SimpleResourcePool pool("pool", 70);
  SimpleResource* x = pool.GetOrAddResource("x");
  SimpleResource* y = pool.GetOrAddResource("y");
  SimpleResourceSet* s = pool.CreateResourceSet();
  (void)s->AddResource(x);
  SimpleResourceDelayLine dl(8);
  SimpleResourceOperand op(s, L, &dl);
  bool ay = vp_any<bool>("ay");
  if (ay) y->Acquire();
  vp_assert(op.IsFree() && op.latency() == L && op.resource_set() == s, "free at first");
  op.Acquire();
  for (int k = 0; k < L; k++) {
    vp_assert(!op.IsFree() && !x->IsFree(), "held for the latency");
    dl.Advance();
  }
  vp_assert(op.IsFree() && x->IsFree() && y->IsFree() == !ay, "released after the latency, and nothing else");
  op.Acquire();
  op.Release(0);
  vp_assert(op.IsFree(), "a release without latency is immediate");
  vp_cover("post");
}
VP_BOUNDED(operand1) { Operand<1>(); }
VP_BOUNDED(operand2) { Operand<2>(); }
VP_BOUNDED(operand5) { Operand<5>(); }
