// C02: DataBufferFactory hands out buffers of exactly the requested size, each to one owner at a time, and recycles by size.
// Invariant (for an arbitrary tracked buffer B): B is stored once in the free list of its own size exactly while its reference count is zero.
#include "vp.h"
#include "mpact/sim/generic/data_buffer.h"
using namespace mpact::sim::generic;
static DataBuffer* g_B;        // tracked buffer
static int g_in;               // positions of the free lists holding B
static void* g_list;           // list B was pushed to
namespace std {
template <>
struct vp_push_ghost<DataBuffer*> {
  static void push(DataBuffer* const& b) {
    if (b == g_B) g_in++;
  }
};
template <>
struct vp_pop_ghost<DataBuffer*> {
  static void pop(DataBuffer* const& b) {
    if (b == g_B) g_in--;
  }
};
}  // namespace std
static std::vector<DataBuffer*>* g_big;   // the free list of the size under test, when it is a large one
static bool g_big_present;
namespace std {
template <>
struct vp_lazy_entry<int, std::vector<DataBuffer*>> {
  static bool present(const void*, const int&) { return g_big_present; }
  static void init(const void*, const int&, std::vector<DataBuffer*>* v) {
    new (v) std::vector<DataBuffer*>();
    if (g_big) { v->d = g_big->d; v->n = g_big->n; }
  }
};
}  // namespace std
#include "mpact/sim/generic/data_buffer.cc"

// a factory whose free list for size s is `v`; the other lists are not initialised (reading one is an error)
static DataBufferFactory* MakeFactory(int s, std::vector<DataBuffer*>* v, bool present) {
  DataBufferFactory* f = static_cast<DataBufferFactory*>(::operator new(sizeof(DataBufferFactory)));
  new (&f->free_list_) DataBufferFactory::DataBufferFreeList();
  f->free_list_.lazy = true;
  g_big_present = present;
  if (s <= 4096) {
    auto* slot = new (&f->short_free_list_[s]) std::vector<DataBuffer*>();
    slot->d = v->d;
    slot->n = v->n;
  } else {
    g_big = v;
  }
  return f;
}
static size_t ListLen(DataBufferFactory* f, int s) {
  if (s <= 4096) return f->short_free_list_[s].n;
  auto it = f->free_list_.find(s);
  return it == f->free_list_.end() ? 0 : it->second.n;
}
static DataBuffer* ListBack(DataBufferFactory* f, int s) {
  if (s <= 4096) return f->short_free_list_[s].d[f->short_free_list_[s].n - 1];
  return f->free_list_.find(s)->second.back();
}
static DataBuffer* MakeDead(DataBufferFactory* f, int s, const char* cn) {
  DataBuffer* b = new DataBuffer(s);
  b->db_factory_ = f;
  uint64_t c = vp_any<uint64_t>(cn);
  b->inc_count_ = c;
  b->dec_count_ = c;
  return b;
}
static void alloc_recycled(bool small) {
  int s = vp_any<int>("size");
  if (small) vp_assume(s >= 0 && s <= 4096);
  else vp_assume(s > 4096);
  size_t n = vp_any<size_t>("n");
  vp_assume(n >= 1 && n < (1ull << 30));
  std::vector<DataBuffer*> v;
  v.n = n;
  DataBufferFactory* f = MakeFactory(s, &v, true);
  DataBuffer* b = MakeDead(f, s, "c");
  v.d[n - 1] = b;
  void* raw = b->raw_ptr_;
  g_B = b;
  g_in = 1;
  vp_cover("pre");
  int64_t heap = __vp_heap_count();
  DataBuffer* r = f->Allocate(s);
  vp_assert(r == b, "a recycled buffer of the size is reused");
  vp_assert(g_in == 0, "the buffer handed out has left the free list");
  vp_assert(ListLen(f, s) == n - 1, "exactly one buffer leaves the free list");
  vp_assert(r->ref_count() == 1, "the caller holds the only reference");
  vp_assert(r->size_ == (unsigned)s && r->size<uint8_t>() == s && r->raw_ptr_ == raw, "the buffer has the requested size and keeps its storage");
  vp_assert(__vp_heap_count() <= heap + 1, "no storage is leaked");
  vp_cover("allocated");
  // giving up the only reference returns it to the list of its size
  r->DecRef();
  vp_assert(g_in == 1 && ListLen(f, s) == n && ListBack(f, s) == r, "the last DecRef returns the buffer to the free list of its size, once");
  DataBuffer* q = f->Allocate(s);
  vp_assert(q == r && q->ref_count() == 1, "and the next Allocate hands it out again");
  vp_cover("post");
}
VP_HARNESS(allocate_recycled_small) { alloc_recycled(true); }
VP_HARNESS(allocate_recycled_large) { alloc_recycled(false); }

static void alloc_fresh(bool small, bool present) {
  int s = vp_any<int>("size");
  if (small) vp_assume(s >= 0 && s <= 4096);
  else vp_assume(s > 4096 && s < 0x40000000);
  std::vector<DataBuffer*> v;
  DataBufferFactory* f = MakeFactory(s, &v, present);
  g_B = nullptr;
  g_in = 0;
  vp_cover("pre");
  DataBuffer* r = f->Allocate(s);
  vp_assert(r != nullptr && r->ref_count() == 1, "a new buffer with one reference");
  vp_assert(r->size_ == (unsigned)s && r->size<uint8_t>() == s, "a new buffer has exactly the requested size");
  vp_assert(r->db_factory_ == f, "the buffer belongs to this factory");
  // every byte of the requested size is usable (bounds obligations), bytes are independent of other buffers
  uint64_t k = vp_any<uint64_t>("k");
  if (s > 0) {
    vp_assume(k < (uint64_t)s);
    static_cast<uint8_t*>(r->raw_ptr_)[k] = 0x5a;
  }
  DataBuffer* r2 = f->Allocate(s);
  vp_assert(r2 != r && r2->raw_ptr_ != r->raw_ptr_, "two owners never share a buffer");
  if (s > 0) {
    static_cast<uint8_t*>(r2->raw_ptr_)[k] = 0x11;
    vp_assert(static_cast<uint8_t*>(r->raw_ptr_)[k] == 0x5a, "writes to one buffer never show in another");
  }
  vp_assert(ListLen(f, s) == 0, "buffers in use are in no free list");
  g_B = r;
  r->IncRef();
  r->DecRef();
  vp_assert(g_in == 0 && ListLen(f, s) == 0, "a buffer still referenced is not recycled");
  r->DecRef();
  vp_assert(g_in == 1 && ListLen(f, s) == 1 && ListBack(f, s) == r, "the last DecRef recycles it once, under its own size");
  r2->DecRef();
  vp_assert(g_in == 1 && ListLen(f, s) == 2, "both buffers are stored");
  DataBuffer* a = f->Allocate(s);
  DataBuffer* b = f->Allocate(s);
  vp_assert(a != b && (a == r || a == r2) && (b == r || b == r2), "recycled buffers are handed out one owner each");
  vp_assert(a->ref_count() == 1 && b->ref_count() == 1 && a->size_ == (unsigned)s && b->size_ == (unsigned)s, "recycled buffers start with one reference and their size");
  vp_cover("post");
}
VP_HARNESS(allocate_fresh_small) { alloc_fresh(true, false); }
VP_HARNESS(allocate_fresh_large) { alloc_fresh(false, false); }
VP_HARNESS(allocate_fresh_large_known) { alloc_fresh(false, true); }

// typed allocation: num elements of T
template <class T> static void typed() {
  int n = vp_any<int>("num");
  vp_assume(n >= 0 && (uint64_t)n * sizeof(T) < 0x40000000);
  int s = n * (int)sizeof(T);
  std::vector<DataBuffer*> v;
  DataBufferFactory* f = MakeFactory(s, &v, false);
  DataBuffer* r = f->Allocate<T>(n);
  vp_assert(r->size<T>() == n && r->size_ == n * sizeof(T), "Allocate<T>(n) holds exactly n elements");
  vp_assert(r->ref_count() == 1 && r->db_factory_ == f, "one reference, owned by the factory");
  vp_cover("post");
}
VP_HARNESS(typed_u8) { typed<uint8_t>(); }
VP_HARNESS(typed_u16) { typed<uint16_t>(); }
VP_HARNESS(typed_u32) { typed<uint32_t>(); }
VP_HARNESS(typed_u64) { typed<uint64_t>(); }
VP_HARNESS(typed_double) { typed<double>(); }

// a buffer is recycled under its own size, not another's: reuse needs an equal size
VP_HARNESS(sizes_do_not_mix) {
  int s = vp_any<int>("s"), t = vp_any<int>("t");
  vp_assume(s >= 0 && t >= 0 && s <= 4096 && t <= 4096 && s != t);
  std::vector<DataBuffer*> v;
  DataBufferFactory* f = MakeFactory(s, &v, false);
  new (&f->short_free_list_[t]) std::vector<DataBuffer*>();
  DataBuffer* b = MakeDead(f, s, "c");
  b->inc_count_++;
  g_B = b;
  g_in = 0;
  vp_cover("pre");
  b->DecRef();
  vp_assert(f->short_free_list_[s].n == 1 && f->short_free_list_[s].d[0] == b, "recycled under its own size");
  vp_assert(f->short_free_list_[t].n == 0, "and under no other size");
  DataBuffer* r = f->Allocate(t);
  vp_assert(r != b && r->size_ == (unsigned)t, "a request for another size never gets it");
  vp_cover("post");
}
VP_HARNESS(sizes_do_not_mix_large) {
  int s = vp_any<int>("s"), t = vp_any<int>("t");
  vp_assume(s > 4096 && t > 4096 && s != t && s < 0x40000000 && t < 0x40000000);
  std::vector<DataBuffer*> v;
  DataBufferFactory* f = MakeFactory(s, &v, false);
  g_big = nullptr;
  DataBuffer* b = MakeDead(f, s, "c");
  b->inc_count_++;
  g_B = b;
  g_in = 0;
  vp_cover("pre");
  b->DecRef();
  vp_assert(ListLen(f, s) == 1 && ListBack(f, s) == b, "recycled under its own size");
  DataBuffer* r = f->Allocate(t);
  vp_assert(r != b && r->size_ == (unsigned)t, "a request for another size never gets it");
  vp_assert(ListLen(f, t) == 0, "nothing stored under the other size");
  vp_assert(f->Allocate(s) == b, "a request of its size does");
  vp_cover("post");
}
VP_HARNESS(sizes_do_not_mix_cross) {
  int s = vp_any<int>("s"), t = vp_any<int>("t");
  vp_assume(s >= 0 && s <= 4096 && t > 4096 && t < 0x40000000);
  std::vector<DataBuffer*> v;
  DataBufferFactory* f = MakeFactory(s, &v, false);
  g_big = nullptr;
  DataBuffer* b = MakeDead(f, t, "c");
  b->inc_count_++;
  g_B = b;
  b->DecRef();
  vp_assert(ListLen(f, t) == 1 && f->short_free_list_[s].n == 0, "a large buffer is stored under its size only");
  vp_assert(f->Allocate(s) != b, "a short request never gets a large buffer");
  vp_assert(f->Allocate(t) == b, "a large request gets it back");
  vp_cover("post");
}
VP_HARNESS(make_copy_of) {
  int s = vp_any<int>("size");
  vp_assume(s >= 0 && s < 0x40000000);
  std::vector<DataBuffer*> v;
  DataBufferFactory* f = MakeFactory(s, &v, false);
  DataBuffer src(s);
  uint8_t* raw = vp_region<uint8_t>(s, "src");
  src.raw_ptr_ = raw;
  uint64_t c = vp_any<uint64_t>("inc");
  vp_assume(c > 0);
  src.inc_count_ = c;
  uint64_t k = vp_any<uint64_t>("k");
  vp_assume(k < (uint64_t)s);
  uint8_t old = raw[k];
  vp_cover("pre");
  DataBuffer* r = f->MakeCopyOf(&src);
  vp_assert(r->size_ == (unsigned)s && r->ref_count() == 1 && r->db_factory_ == f && r != &src && r->raw_ptr_ != raw, "the copy is a new buffer of the same size");
  vp_assert(static_cast<uint8_t*>(r->raw_ptr_)[k] == old && raw[k] == old, "every byte is copied and the source is unchanged");
  static_cast<uint8_t*>(r->raw_ptr_)[k] = old + 1;
  vp_assert(raw[k] == old, "the copy does not share storage");
  vp_assert(src.inc_count_ == c && src.dec_count_ == 0 && src.raw_ptr_ == raw, "references of the source are unchanged");
  src.raw_ptr_ = nullptr;
  vp_cover("post");
}
