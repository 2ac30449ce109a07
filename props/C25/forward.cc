// C25: an enabled profiler records each access, each enabled element of a vector access, and passes every access on once.
#include "vprange.h"
namespace std { inline ostream& operator<<(ostream& o, const string&) { return o; } }
#include "mpact/sim/generic/data_buffer.cc"
#include "mpact/sim/generic/instruction.cc"
#include "mpact/sim/util/memory/memory_use_profiler.cc"
#include "vpsim.h"
using namespace mpact::sim::util;
#ifdef TAGGED
typedef TaggedMemoryInterface Iface;
typedef TaggedMemoryUseProfiler Profiler;
#else
typedef MemoryInterface Iface;
typedef MemoryUseProfiler Profiler;
#endif
// The contract of MarkUsed, proved in mark.cc, seen at one arbitrary word
static uint64_t g_word;
static uint64_t g_marked;
static bool Touches(uint64_t a, int size) {
  uint64_t w = a & ~3ull;
  return (size <= 8) & ((g_word == w) | ((size > 4) & (g_word == w + 4)));
}
extern "C" void vp_contract__ZN5mpact3sim4util8internal16MemoryUseTracker8MarkUsedEmi(void*, uint64_t a, int size) {
  g_marked |= Touches(a, size);
}
struct Memory : public Iface {
  int n = 0, kind = 0, el = 0;
  DataBuffer *db = nullptr, *tags = nullptr, *ad = nullptr, *mk = nullptr;
  Instruction* inst = nullptr;
  ReferenceCount* context = nullptr;
  uint64_t address = 0;
  void Load(uint64_t a, DataBuffer* b, Instruction* i, ReferenceCount* c) override { n++; kind = 1; address = a; db = b; inst = i; context = c; }
  void Store(uint64_t a, DataBuffer* b) override { n++; kind = 2; address = a; db = b; }
  void Load(DataBuffer* a, DataBuffer* m, int e, DataBuffer* b, Instruction* i, ReferenceCount* c) override { n++; kind = 3; ad = a; mk = m; el = e; db = b; inst = i; context = c; }
  void Store(DataBuffer* a, DataBuffer* m, int e, DataBuffer* b) override { n++; kind = 4; ad = a; mk = m; el = e; db = b; }
#ifdef TAGGED
  void Load(uint64_t a, DataBuffer* b, DataBuffer* t, Instruction* i, ReferenceCount* c) override { n++; kind = 5; address = a; db = b; tags = t; inst = i; context = c; }
  void Store(uint64_t a, DataBuffer* b, DataBuffer* t) override { n++; kind = 6; address = a; db = b; tags = t; }
#endif
};
static Memory* g_mem;
static bool g_on;
static Profiler* AnyProfiler() {
  g_mem = vp_any<bool>("memory") ? new Memory : nullptr;
  Profiler* p = vp_any<bool>("default constructor") && !g_mem ? new Profiler : new Profiler(g_mem);
  g_on = vp_any<bool>("enabled");
  bool set = vp_any<bool>("set");
  if (set) p->set_is_enabled(g_on);
  else g_on = false;         // a new profiler is not enabled
  g_word = vp_any<uint64_t>("word") & ~3ull;
  g_marked = 0;
  return p;
}
static void PassedOn(int kind, uint64_t a, DataBuffer* b, DataBuffer* t, DataBuffer* ad, DataBuffer* mk, int el, Instruction* i, Context* c) {
  if (!g_mem) return;
  bool vec = kind == 3 || kind == 4;
  vp_assert(g_mem->n == 1 && g_mem->kind == kind && g_mem->db == b && g_mem->tags == t && g_mem->inst == i && g_mem->context == c, "the access is passed on once, unchanged");
  if (vec) vp_assert(g_mem->ad == ad && g_mem->mk == mk && g_mem->el == el, "with its addresses, its mask and the size of its elements");
  else vp_assert(g_mem->address == a, "with its address");
}
template <int kKind> static void Access() {
  Profiler* p = AnyProfiler();
  int size = vp_any<int>("size");
  vp_assume(size >= 1);
  bool no_data = kKind >= 5 && vp_any<bool>("tags only");
  DataBuffer* b = no_data ? nullptr : AnyBuffer(size);
  DataBuffer* t = kKind >= 5 && (no_data || vp_any<bool>("tags")) ? AnyBuffer(2, "tags") : nullptr;
  ArchState* st = State(nullptr, nullptr, nullptr);
  Instruction* i = (kKind & 1) && vp_any<bool>("instruction") ? MakeInst(st) : nullptr;
  Context* c = (kKind & 1) && vp_any<bool>("context") ? new Context : nullptr;
  uint64_t a = vp_any<uint64_t>("address");
  vp_cover("pre");
  if (kKind == 1) p->Load(a, b, i, c);
  if (kKind == 2) p->Store(a, b);
#ifdef TAGGED
  if (kKind == 5) p->Load(a, b, t, i, c);
  if (kKind == 6) p->Store(a, b, t);
#endif
  vp_assert((g_marked != 0) == (g_on && !no_data && Touches(a, size)), "exactly the words of the access are recorded, if recording is enabled");
  PassedOn(kKind, a, b, t, nullptr, nullptr, 0, i, c);
  if (b) vp_assert(b->ref_count() == 1, "the profiler keeps no reference");
  vp_cover("post");
}
VP_HARNESS(load) { Access<1>(); }
VP_HARNESS(store) { Access<2>(); }
#ifdef TAGGED
VP_HARNESS(load_tags) { Access<5>(); }
VP_HARNESS(store_tags) { Access<6>(); }
#endif
// vector accesses: what is recorded after the first k elements
struct Env { uint64_t* a; uint8_t* m; bool gather; int el; };
static void Element(uint64_t k, const uint64_t* cur, uint64_t* next, void* env) {
  Env* e = static_cast<Env*>(env);
  next[0] = cur[0] | (e->m[k] != 0 && Touches(e->gather ? e->a[k] : e->a[0] + k * e->el, e->el));
}
template <int kKind, int kEl> static void Vector() {
  Profiler* p = AnyProfiler();
  int n = vp_any<int>("elements");
  vp_assume(n >= 1 && n <= (1 << 24));
  bool gather = vp_any<bool>("gather");
  if (gather) vp_assume(n >= 2);
  DataBuffer* ad = AnyBuffer(gather ? 8 * n : 8, "addresses");
  DataBuffer* mk = AnyBuffer(n, "mask");
  DataBuffer* b = AnyBuffer(n * kEl);
  ArchState* st = State(nullptr, nullptr, nullptr);
  Instruction* i = kKind == 3 && vp_any<bool>("instruction") ? MakeInst(st) : nullptr;
  Context* c = kKind == 3 && vp_any<bool>("context") ? new Context : nullptr;
  Env env{reinterpret_cast<uint64_t*>(Raw(ad)), Raw(mk), gather, kEl};
  uint64_t init[1] = {0};
  int g = __vp_mseq("recorded", 1, init, Element, &env);
  vp_cover("pre");
  if (kKind == 3) p->Load(ad, mk, kEl, b, i, c);
  if (kKind == 4) p->Store(ad, mk, kEl, b);
  if (!g_on) vp_assert(!g_marked, "nothing is recorded when recording is not enabled");
  else if (kEl > 8) vp_assert(!g_marked, "longer elements are not recorded");
  else vp_assert(g_marked == __vp_mseq_at(g, 0, n), "exactly the words of the enabled elements are recorded");
  PassedOn(kKind, 0, b, nullptr, ad, mk, kEl, i, c);
  vp_cover("post");
}
VP_HARNESS(load_vector_1) { Vector<3, 1>(); }
VP_HARNESS(load_vector_4) { Vector<3, 4>(); }
VP_HARNESS(load_vector_8) { Vector<3, 8>(); }
VP_HARNESS(store_vector_2) { Vector<4, 2>(); }
VP_HARNESS(store_vector_4) { Vector<4, 4>(); }
VP_HARNESS(store_vector_8) { Vector<4, 8>(); }
VP_HARNESS(store_vector_16) { Vector<4, 16>(); }
