// Shared pieces of contracts over the simulator's memory classes.  Include after the real sources.
#ifndef VPSIM_H_
#define VPSIM_H_
using namespace mpact::sim::generic;
// an architecture state of which only the listed parts exist: reading any other part is an error
static ArchState* State(DataBufferFactory* f, DataBufferDelayLine* dl, FunctionDelayLine* fl) {
  ArchState* s = static_cast<ArchState*>(::operator new(sizeof(ArchState)));
  s->db_factory_ = f;
  s->data_buffer_delay_line_ = dl;
  s->function_delay_line_ = fl;
  return s;
}
// a buffer of n bytes of arbitrary content, referenced by the harness
static DataBuffer* AnyBuffer(int n, const char* name = "content") {
  DataBuffer* b = new DataBuffer(n);
  b->db_factory_ = nullptr;
  b->raw_ptr_ = vp_region<uint8_t>(n, name);
  b->inc_count_ = 1;
  b->dec_count_ = 0;
  b->latency_ = 0;
  return b;
}
static uint8_t* Raw(DataBuffer* b) { return static_cast<uint8_t*>(b->raw_ptr_); }
#ifdef VP_FACTORY_CONTRACT
// The contracts of DataBufferFactory::Allocate and Recycle, proved in C02: a buffer of the requested size and of any
// contents that nobody else has, with one reference; a released buffer is not used any more (here: it is gone).
static int g_buffers;   // handed out and not released
extern "C" DataBuffer* vp_contract__ZN5mpact3sim7generic17DataBufferFactory8AllocateEi(DataBufferFactory* f, int size) {
  vp_assert(size >= 0, "a buffer has a size");
  DataBuffer* b = AnyBuffer(size, "allocated");
  b->db_factory_ = f;
  b->latency_ = vp_any<int>("left-over latency");
  g_buffers++;
  return b;
}
extern "C" void vp_contract__ZN5mpact3sim7generic17DataBufferFactory7RecycleEPNS1_10DataBufferE(DataBufferFactory*, DataBuffer* b) {
  g_buffers--;
  ::operator delete(b);
}
// a factory is an object with a virtual destructor of which nothing else is looked at
struct FactoryShell { virtual ~FactoryShell() {} };
extern "C" void vp_contract__ZN5mpact3sim7generic17DataBufferFactoryC2Ev(DataBufferFactory* f) { new (static_cast<void*>(f)) FactoryShell; }
extern "C" void vp_contract__ZN5mpact3sim7generic17DataBufferFactoryC1Ev(DataBufferFactory* f) { new (static_cast<void*>(f)) FactoryShell; }
extern "C" void vp_contract__ZN5mpact3sim7generic17DataBufferFactoryD2Ev(DataBufferFactory*) {}
extern "C" void vp_contract__ZN5mpact3sim7generic17DataBufferFactoryD1Ev(DataBufferFactory*) {}
// a factory of which only the contracts are used
static DataBufferFactory* AnyFactory() { return static_cast<DataBufferFactory*>(::operator new(sizeof(DataBufferFactory))); }
#endif
// something whose references are counted (the context of a load)
struct Context : public ReferenceCount {
  bool disposed = false;
  void OnRefCountIsZero() override { disposed = true; }
};
static int g_executed;
static ReferenceCount* g_context;
static Instruction* g_inst;
static Instruction* MakeInst(ArchState* st) {
  Instruction* i = new Instruction(0, st);
  i->set_semantic_function([](Instruction* x) {
    g_executed++;
    g_inst = x;
    g_context = x->context();
  });
  g_executed = 0;
  g_context = nullptr;
  g_inst = nullptr;
  return i;
}
#endif
