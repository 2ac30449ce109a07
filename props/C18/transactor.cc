// C18: a tagged view of untagged memory passes every access on once, reads no tag as set, and completes every load.
#include "vp.h"
#include "mpact/sim/generic/data_buffer.cc"
#include "mpact/sim/generic/instruction.cc"
#include "mpact/sim/util/memory/tagged_to_untagged_memory_transactor.cc"
#include "vpsim.h"
using namespace mpact::sim::util;
struct Memory : public MemoryInterface {
  int n = 0, kind = 0;
  DataBuffer *db = nullptr, *ad = nullptr, *mk = nullptr;
  Instruction* inst = nullptr;
  ReferenceCount* context = nullptr;
  uint64_t address = 0;
  int el = 0;
  void Got(int k) { n++; kind = k; }
  void Load(uint64_t a, DataBuffer* b, Instruction* i, ReferenceCount* c) override { Got(1); address = a; db = b; inst = i; context = c; }
  void Store(uint64_t a, DataBuffer* b) override { Got(2); address = a; db = b; }
  void Load(DataBuffer* a, DataBuffer* m, int e, DataBuffer* b, Instruction* i, ReferenceCount* c) override { Got(3); ad = a; mk = m; el = e; db = b; inst = i; context = c; }
  void Store(DataBuffer* a, DataBuffer* m, int e, DataBuffer* b) override { Got(4); ad = a; mk = m; el = e; db = b; }
};
static Memory* g_mem;
static TaggedToUntaggedMemoryTransactor* Make() {
  g_mem = new Memory;
  return new TaggedToUntaggedMemoryTransactor(g_mem);
}
VP_HARNESS(pass_through) {
  auto* t = Make();
  uint64_t a = vp_any<uint64_t>("a");
  int es = vp_any<int>("element size");
  DataBuffer *b = AnyBuffer(8), *ad = AnyBuffer(8), *mk = AnyBuffer(1);
  Instruction* inst = MakeInst(State(nullptr, nullptr, nullptr));
  Context* ctx = new Context;
  vp_cover("pre");
  t->Load(a, b, inst, ctx);
  vp_assert(g_mem->n == 1 && g_mem->kind == 1 && g_mem->address == a && g_mem->db == b && g_mem->inst == inst && g_mem->context == ctx, "loads are passed on");
  t->Store(a, b);
  vp_assert(g_mem->n == 2 && g_mem->kind == 2 && g_mem->address == a && g_mem->db == b, "stores are passed on");
  g_mem->inst = nullptr;
  g_mem->context = nullptr;
  t->Load(ad, mk, es, b, inst, ctx);
  vp_assert(g_mem->n == 3 && g_mem->kind == 3 && g_mem->ad == ad && g_mem->mk == mk && g_mem->el == es && g_mem->db == b && g_mem->inst == inst && g_mem->context == ctx, "vector loads are passed on");
  g_mem->ad = g_mem->mk = g_mem->db = nullptr;
  g_mem->el = 0;
  t->Store(ad, mk, es, b);
  vp_assert(g_mem->n == 4 && g_mem->kind == 4 && g_mem->ad == ad && g_mem->mk == mk && g_mem->el == es && g_mem->db == b, "vector stores are passed on");
  vp_assert(g_executed == 0, "the instruction is left to the memory");
  vp_cover("post");
}
VP_HARNESS(load) {
  auto* t = Make();
  uint64_t a = vp_any<uint64_t>("a");
  int n = vp_any<int>("tags"), i = vp_any<int>("i");
  vp_assume(n >= 1 && n < (1 << 28) && i >= 0 && i < n);
  DataBuffer *b = AnyBuffer(16), *tg = AnyBuffer(n);
  tg->set_latency(vp_any<uint8_t>("latency"));
  Instruction* inst = vp_any<bool>("instruction") ? MakeInst(State(nullptr, nullptr, nullptr)) : nullptr;
  Context* ctx = new Context;
  vp_cover("pre");
  t->Load(a, b, tg, inst, ctx);
  vp_assert(Raw(tg)[i] == 0, "no tag is set");
  vp_assert(g_mem->n == 1 && g_mem->kind == 1 && g_mem->address == a && g_mem->db == b && g_mem->inst == inst && g_mem->context == ctx, "the load of the data is passed on once");
  vp_assert(g_executed == 0, "the instruction is left to the memory");
  vp_cover("post");
}
VP_HARNESS(store) {
  auto* t = Make();
  uint64_t a = vp_any<uint64_t>("a");
  int n = vp_any<int>("tags");
  vp_assume(n >= 1 && n < (1 << 28));
  bool data = vp_any<bool>("data"), tags = vp_any<bool>("tags given");
  DataBuffer *b = AnyBuffer(16), *tg = AnyBuffer(n);
  vp_cover("pre");
  t->Store(a, data ? b : nullptr, tags ? tg : nullptr);
  vp_assert(g_mem->n == (data ? 1 : 0), "a store of data is passed on once, one of tags is not");
  if (data) vp_assert(g_mem->kind == 2 && g_mem->address == a && g_mem->db == b, "as it is");
  vp_cover("post");
}
template <int kLatency> static void Complete() {
  FunctionDelayLine fl(4);
  auto* t = Make();
  Instruction* inst = MakeInst(State(nullptr, nullptr, &fl));
  DataBuffer* tg = AnyBuffer(2);
  tg->set_latency(kLatency);
  Context* ctx = vp_any<bool>("context") ? new Context : nullptr;
  if (ctx) { ctx->inc_count_ = 1; ctx->dec_count_ = 0; }
  uint64_t ri = inst->ref_count();
  vp_cover("pre");
  t->Load(vp_any<uint64_t>("a"), nullptr, tg, inst, ctx);
  if (kLatency > 0) {
    vp_assert(inst->ref_count() > 1, "the instruction is kept until then");
    if (ctx) vp_assert(ctx->ref_count() == 2, "the context is kept until then");
    for (int i = 0; i < kLatency; i++) {
      vp_assert(g_executed == 0, "not executed before the latency");
      fl.Advance();
    }
  }
  vp_assert(Raw(tg)[0] == 0 && Raw(tg)[1] == 0, "no tag is set");
  vp_assert(g_executed == 1 && g_inst == inst && g_context == ctx, "the instruction is executed once, with the context");
  vp_assert(inst->ref_count() == ri, "the instruction's references are as before");
  if (ctx) vp_assert(ctx->ref_count() == 1 && !ctx->disposed, "the context's references are as before");
  for (int i = 0; i < 5; i++) fl.Advance();
  vp_assert(g_executed == 1 && g_mem->n == 0, "and never again, and nothing is loaded");
  vp_cover("post");
}
VP_HARNESS(complete_tags_now) { Complete<0>(); }
VP_HARNESS(complete_tags_later) { Complete<2>(); }
