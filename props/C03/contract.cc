// C03: reference counts decide lifetimes; Submit passes exactly one reference on and delivers exactly once.
#include "vp.h"
#include "mpact/sim/generic/ref_count.h"
#include "mpact/sim/generic/data_buffer.cc"
using namespace mpact::sim::generic;
struct Obj : public ReferenceCount {
  int zero = 0;
  int at_zero = -1;
  void OnRefCountIsZero() override { zero++; at_zero = ref_count(); }
};
// any state with r references (the two counters are arbitrary 64-bit numbers, wrap-around included)
static void SetRefs(ReferenceCount* o, uint64_t r) {
  uint64_t d = vp_any<uint64_t>("dec");
  o->dec_count_ = d;
  o->inc_count_ = d + r;
}
VP_HARNESS(created_with_one_reference) {
  Obj o;
  vp_assert(o.ref_count() == 1 && o.zero == 0, "a new object has one reference");
  o.DecRef();
  vp_assert(o.zero == 1, "releasing it ends the object's life");
  vp_cover("post");
}
VP_HARNESS(inc_dec) {
  Obj o;
  uint64_t r = vp_any<uint64_t>("refs");
  vp_assume(r >= 1 && r < 0x7fffffff);
  SetRefs(&o, r);
  vp_assert((uint64_t)o.ref_count() == r, "ref_count is references taken minus references released");
  vp_cover("pre");
  if (vp_any<bool>("inc")) {
    o.IncRef();
    vp_assert((uint64_t)o.ref_count() == r + 1 && o.zero == 0, "IncRef adds one reference and nothing else");
    o.DecRef();
    vp_assert((uint64_t)o.ref_count() == r && o.zero == 0, "DecRef undoes it without ending the object's life");
  } else {
    o.DecRef();
    vp_assert(o.zero == (r == 1 ? 1 : 0), "OnRefCountIsZero runs exactly when the last reference goes");
    vp_assert((uint64_t)o.ref_count() == r - 1, "DecRef releases one reference");
    if (r == 1) vp_assert(o.at_zero == 0, "the count is zero when it runs");
  }
  vp_cover("post");
}
VP_HARNESS(reset_counts) {
  Obj o;
  SetRefs(&o, vp_any<uint64_t>("refs"));
  o.ResetCounts();
  vp_assert(o.ref_count() == 1 && o.zero == 0, "ResetCounts leaves one reference");
  o.IncRef();
  o.DecRef();
  vp_assert(o.zero == 0, "not released while referenced");
  o.DecRef();
  vp_assert(o.zero == 1, "released with the last reference");
  vp_cover("post");
}
struct Plain : public ReferenceCount {
  int* flag;
  explicit Plain(int* f) : flag(f) {}
  ~Plain() override { (*flag)++; }
};
VP_HARNESS(default_action_deletes) {
  int deleted = 0;
  int64_t h = __vp_heap_count();
  Plain* p = new Plain(&deleted);
  uint64_t r = vp_any<uint64_t>("refs");
  vp_assume(r >= 1 && r < 0x7fffffff);
  SetRefs(p, r);
  vp_cover("pre");
  p->DecRef();
  vp_assert(deleted == (r == 1 ? 1 : 0), "the object is deleted exactly when the last reference goes");
  vp_assert(__vp_heap_count() == h + (r == 1 ? 0 : 1), "its storage is freed exactly then");
  vp_cover("post");
}
// ---- data buffers
static DataBuffer* g_db;
static int g_calls;
static DataBuffer* g_arg;
static int g_refs_in_call;
struct Dest : public DataBufferDestination {
  bool keep;
  void SetDataBuffer(DataBuffer* db) override {
    g_calls++;
    g_arg = db;
    g_refs_in_call = db->ref_count();
    if (keep) db->IncRef();
  }
};
struct Fac {
  DataBufferFactory* f;
  DataBuffer* b;
};
static DataBuffer* MakeBuffer(DataBufferFactory* f, uint64_t r) {
  DataBuffer* b = new DataBuffer(8u);
  b->db_factory_ = f;
  SetRefs(b, r);
  return b;
}
static DataBufferFactory* MakeFactory() {
  DataBufferFactory* f = static_cast<DataBufferFactory*>(::operator new(sizeof(DataBufferFactory)));
  new (&f->short_free_list_[8]) std::vector<DataBuffer*>();
  return f;
}
static size_t Recycled(DataBufferFactory* f) { return f->short_free_list_[8].size(); }
VP_HARNESS(submit_without_destination) {
  auto* f = MakeFactory();
  uint64_t r = vp_any<uint64_t>("refs");
  vp_assume(r >= 1 && r < 1000000);
  DataBuffer* b = MakeBuffer(f, r);
  b->set_destination(nullptr);
  b->set_latency(vp_any<int>("latency"));
  vp_cover("pre");
  if (vp_any<bool>("explicit")) b->Submit(vp_any<int>("l2"));
  else b->Submit();
  vp_assert((uint64_t)b->ref_count() == r - 1, "Submit releases exactly one reference");
  vp_assert(Recycled(f) == (r == 1 ? 1 : 0), "the buffer is recycled exactly when that was the last one");
  vp_cover("post");
}
VP_HARNESS(submit_latency_zero) {
  auto* f = MakeFactory();
  uint64_t r = vp_any<uint64_t>("refs");
  vp_assume(r >= 1 && r < 1000000);
  DataBuffer* b = MakeBuffer(f, r);
  Dest d;
  d.keep = vp_any<bool>("keep");
  g_calls = 0;
  b->set_destination(&d);
  b->set_latency(0);
  vp_cover("pre");
  int how = vp_any<int>("how");
  if (how == 0) b->Submit();
  else if (how == 1) b->Submit(0);
  else b->SetSubmit<uint32_t>(1, 7u);
  vp_assert(g_calls == 1 && g_arg == b, "delivered exactly once, immediately");
  vp_assert((uint64_t)g_refs_in_call == r, "the reference is still held during delivery");
  vp_assert((uint64_t)b->ref_count() == r - 1 + (d.keep ? 1 : 0), "Submit then releases exactly one reference");
  vp_assert(Recycled(f) == (b->ref_count() == 0 ? 1 : 0), "recycled exactly when nobody holds it");
  vp_cover("post");
}
VP_HARNESS(submit_delayed) {
  auto* f = MakeFactory();
  uint64_t r = vp_any<uint64_t>("refs");
  vp_assume(r >= 1 && r < 1000000);
  DataBuffer* b = MakeBuffer(f, r);
  Dest d;
  d.keep = vp_any<bool>("keep");
  Dest other;
  g_calls = 0;
  DataBufferDelayLine dl(4);
  b->set_destination(&d);
  b->set_delay_line(&dl);
  int lat = 1 + (vp_any<bool>("lat1") ? 1 : 0) + (vp_any<bool>("lat2") ? 2 : 0);
  b->set_latency(lat);
  vp_cover("pre");
  if (vp_any<bool>("explicit")) b->Submit(lat);
  else b->Submit();
  vp_assert(g_calls == 0 && (uint64_t)b->ref_count() == r, "nothing is delivered or released at submit time");
  vp_assert(!dl.IsEmpty(), "the delay line holds it");
  // the destination is the one at submit time
  b->set_destination(&other);
  int left = 1;
  for (int i = 1; i <= 4; i++) {
    left = dl.Advance();
    if (i < lat) vp_assert(g_calls == 0 && (uint64_t)b->ref_count() == r && left == 1, "not delivered early");
    else vp_assert(g_calls == 1 && left == 0, "delivered at its latency, once");
  }
  vp_assert(g_arg == b && (uint64_t)g_refs_in_call == r, "delivered with the reference still held");
  vp_assert((uint64_t)b->ref_count() == r - 1 + (d.keep ? 1 : 0), "then exactly one reference is released");
  vp_assert(Recycled(f) == (b->ref_count() == 0 ? 1 : 0), "recycled exactly when nobody holds it");
  vp_assert(dl.IsEmpty(), "the delay line is empty");
  vp_cover("post");
}
VP_HARNESS(delay_records) {
  auto* f = MakeFactory();
  uint64_t r = vp_any<uint64_t>("refs");
  vp_assume(r >= 1 && r < 1000000);
  DataBuffer* b = MakeBuffer(f, r);
  Dest d;
  d.keep = false;
  g_calls = 0;
  {
    DataBufferDelayRecord a(b, &d);
    vp_assert((uint64_t)b->ref_count() == r, "a record takes over the caller's reference");
    {
      DataBufferDelayRecord c(a);
      vp_assert((uint64_t)b->ref_count() == r + 1, "a copy of a record holds its own reference");
      c.Apply();
      vp_assert(g_calls == 1 && g_arg == b, "a copy delivers the same buffer to the same destination");
    }
    vp_assert((uint64_t)b->ref_count() == r, "and gives its reference back");
    vp_cover("mid");
  }
  vp_assert((uint64_t)b->ref_count() == r - 1, "a destroyed record releases its reference");
  vp_cover("post");
}
