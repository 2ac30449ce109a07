// C12: registers hold the last value written, with the geometry they were declared with, and keep exact ownership of their buffers.
#include "vp.h"
#include "mpact/sim/generic/data_buffer.cc"
#include "mpact/sim/generic/state_item_base.cc"
#include "mpact/sim/generic/resource_bitset.cc"
#include "mpact/sim/generic/simple_resource.cc"
#include "mpact/sim/generic/register.cc"
#include "mpact/sim/generic/control_register.cc"
using namespace mpact::sim::generic;
// an architecture state of which only the parts registers use exist: reading any other part is an error
static ArchState* State(DataBufferFactory* f, DataBufferDelayLine* dl) {
  ArchState* s = static_cast<ArchState*>(::operator new(sizeof(ArchState)));
  s->db_factory_ = f;
  s->data_buffer_delay_line_ = dl;
  return s;
}
// a buffer of n bytes of arbitrary content with any positive number of references
static DataBuffer* AnyBuffer(DataBufferFactory* f, int n) {
  DataBuffer* b = new DataBuffer(n);
  b->db_factory_ = f;
  b->raw_ptr_ = vp_region<uint8_t>(n, "content");
  uint64_t d = vp_any<uint64_t>("dec"), r = vp_any<uint64_t>("refs");
  vp_assume(r >= 1 && r < (1ull << 30) && d < (1ull << 40));
  b->dec_count_ = d;
  b->inc_count_ = d + r;
  return b;
}
template <class Reg> static void Geometry(int elements, int es, Reg& r, ArchState* st) {
  vp_assert(r.size() == elements * es, "the size is the element size times the shape");
  vp_assert(r.element_size() == es, "the element size");
  vp_assert(r.arch_state() == st, "the architecture state");
  uint8_t* raw = static_cast<uint8_t*>(r.data_buffer()->raw_ptr());
  vp_assert(r.data_buffer()->size_ == (unsigned)(elements * es) && r.data_buffer()->ref_count() == 1, "a new register owns one buffer of its size");
  int k = vp_any<int>("k");
  vp_assume(k >= 0 && k < elements * es);
  vp_assert(raw[k] == 0, "a new register reads 0");
}
template <class T> static void Geo() {
  DataBufferFactory f;
  ArchState* st = State(&f, nullptr);
  { Register<T> r(st, "r"); Geometry(1, sizeof(T), r, st); vp_assert(r.shape().size() == 1 && r.shape()[0] == 1, "shape of a scalar"); }
  { VectorRegister<T, 5> r(st, "v"); Geometry(5, sizeof(T), r, st); vp_assert(r.shape().size() == 1 && r.shape()[0] == 5, "shape of a vector"); }
  { MatrixRegister<T, 3, 7> r(st, "m"); Geometry(21, sizeof(T), r, st); vp_assert(r.shape().size() == 2 && r.shape()[0] == 3 && r.shape()[1] == 7, "shape of a matrix"); }
  vp_cover("post");
}
VP_HARNESS(geometry_u8) { Geo<uint8_t>(); }
VP_HARNESS(geometry_u32) { Geo<uint32_t>(); }
VP_HARNESS(geometry_u64) { Geo<uint64_t>(); }
// a byte register of any width; the factory has no free buffer of that size (its other lists are not initialised: reading one is an error)
static void Dynamic(bool small) {
  int w = vp_any<int>("w");
  if (small) vp_assume(w >= 1 && w <= 4096);
  else vp_assume(w > 4096 && w < (1 << 28));
  DataBufferFactory* f = static_cast<DataBufferFactory*>(::operator new(sizeof(DataBufferFactory)));
  new (&f->free_list_) DataBufferFactory::DataBufferFreeList();
  if (small) new (&f->short_free_list_[w]) std::vector<DataBuffer*>();
  ArchState* st = State(f, nullptr);
  auto* r = new StateItem<RegisterBase, uint8_t*, RegisterSourceOperand<uint8_t>, RegisterDestinationOperand<uint8_t>>(st, "d", w);
  vp_assert(r->shape().size() == 1 && r->shape()[0] == w, "shape of a byte register");
  Geometry(w, 1, *r, st);
  vp_cover("post");
}
VP_HARNESS(geometry_dynamic_small) { Dynamic(true); }
VP_HARNESS(geometry_dynamic_large) { Dynamic(false); }
// --- source operands read the register's current value
template <class T, int N> static void Source() {
  using S = typename std::make_signed<T>::type;
  DataBufferFactory f;
  ArchState* st = State(&f, nullptr);
  VectorRegister<T, N> r(st, "v");
  r.data_buffer_->DecRef();
  DataBuffer* b = AnyBuffer(&f, N * sizeof(T));
  r.data_buffer_ = b;
  int i = vp_any<int>("i");
  vp_assume(i >= 0 && i < N);
  SourceOperandInterface* op = r.CreateSourceOperand();
  T v = static_cast<T*>(b->raw_ptr_)[i];
  S s = (S)v;
  vp_cover("pre");
  for (int round = 0; round < 2; round++) {
    vp_assert(op->AsBool(i) == (v != 0), "as bool: nonzero");
    vp_assert(op->AsInt8(i) == (int8_t)s, "as int8");
    vp_assert(op->AsUint8(i) == (uint8_t)v, "as uint8");
    vp_assert(op->AsInt16(i) == (int16_t)s, "as int16: the low bits, or sign extended");
    vp_assert(op->AsUint16(i) == (uint16_t)v, "as uint16: the low bits, or zero extended");
    vp_assert(op->AsInt32(i) == (int32_t)s, "as int32: the low bits, or sign extended");
    vp_assert(op->AsUint32(i) == (uint32_t)v, "as uint32: the low bits, or zero extended");
    vp_assert(op->AsInt64(i) == (int64_t)s, "as int64: sign extended");
    vp_assert(op->AsUint64(i) == (uint64_t)v, "as uint64: zero extended");
    // a write to the register shows in the next read of the same operand
    DataBuffer* b2 = AnyBuffer(&f, N * sizeof(T));
    r.SetDataBuffer(b2);
    v = static_cast<T*>(b2->raw_ptr_)[i];
    s = (S)v;
  }
  vp_assert(op->shape().size() == 1 && op->shape()[0] == N, "the operand has the shape of the register");
  vp_assert(std::any_cast<RegisterBase*>(op->GetObject()) == &r, "the operand names its register");
  vp_cover("post");
}
VP_HARNESS(source_u8) { Source<uint8_t, 9>(); }
VP_HARNESS(source_u16) { Source<uint16_t, 9>(); }
VP_HARNESS(source_u32) { Source<uint32_t, 9>(); }
VP_HARNESS(source_u64) { Source<uint64_t, 9>(); }
VP_HARNESS(source_u32_scalar) { Source<uint32_t, 1>(); }
// --- replacing the buffer keeps exact references
VP_HARNESS(set_data_buffer) {
  DataBufferFactory f;
  ArchState* st = State(&f, nullptr);
  Register<uint32_t> r(st, "r");
  r.data_buffer_->DecRef();
  DataBuffer* a = AnyBuffer(&f, 4);
  DataBuffer* b = AnyBuffer(&f, 4);
  uint64_t ra = a->ref_count(), rb = b->ref_count();
  r.data_buffer_ = a;
  size_t freed = f.short_free_list_[4].n;
  vp_cover("pre");
  r.SetDataBuffer(b);
  vp_assert(r.data_buffer() == b, "the register holds the new buffer");
  vp_assert(b->ref_count() == rb + 1, "one reference is taken on the new buffer");
  if (ra > 1) {
    vp_assert(a->ref_count() == ra - 1, "one reference is given up on the old buffer");
    vp_assert(f.short_free_list_[4].n == freed, "a buffer still referenced is not recycled");
  } else {
    vp_assert(f.short_free_list_[4].n == freed + 1 && f.short_free_list_[4].d[freed] == a, "the old buffer is recycled when the register was its last owner");
  }
  vp_cover("post");
}
VP_HARNESS(set_same_buffer) {
  DataBufferFactory f;
  ArchState* st = State(&f, nullptr);
  Register<uint32_t> r(st, "r");
  r.data_buffer_->DecRef();
  DataBuffer* a = AnyBuffer(&f, 4);
  uint64_t ra = a->ref_count();
  r.data_buffer_ = a;
  size_t freed = f.short_free_list_[4].n;
  vp_cover("pre");
  r.SetDataBuffer(a);
  vp_assert(r.data_buffer() == a && a->ref_count() == ra, "writing the current buffer again changes no reference count");
  vp_assert(f.short_free_list_[4].n == freed, "the current buffer is not recycled");
  vp_cover("post");
}
VP_HARNESS(destroy) {
  DataBufferFactory f;
  ArchState* st = State(&f, nullptr);
  DataBuffer* a = AnyBuffer(&f, 4);
  uint64_t ra = a->ref_count();
  size_t freed;
  {
    Register<uint32_t> r(st, "r");
    r.data_buffer_->DecRef();
    r.data_buffer_ = a;
    freed = f.short_free_list_[4].n;
  }
  if (ra > 1) vp_assert(a->ref_count() == ra - 1 && f.short_free_list_[4].n == freed, "destroying a register gives up its reference");
  else vp_assert(f.short_free_list_[4].n == freed + 1, "and recycles a buffer nobody else owns");
  vp_cover("post");
}
// --- destination operands
template <class T, int N> static void Destination() {
  DataBufferFactory f;
  DataBufferDelayLine dl(8), other(8);
  ArchState* st = State(&f, &dl);
  VectorRegister<T, N> r(st, "v");
  r.data_buffer_->DecRef();
  DataBuffer* cur = AnyBuffer(&f, N * sizeof(T));
  uint64_t rc = cur->ref_count();
  r.data_buffer_ = cur;
  int lat = vp_any<int>("latency");
  vp_assume(lat >= 0);
  vp_cover("pre");
  DestinationOperandInterface* op = r.CreateDestinationOperand(lat);
  DestinationOperandInterface* op2 = new RegisterDestinationOperand<T>(&r, lat, &other);
  vp_assert(op->latency() == lat && op2->latency() == lat, "the operand has its latency");
  vp_assert(op->shape().size() == 1 && op->shape()[0] == N, "the operand has the shape of the register");
  vp_assert(std::any_cast<RegisterBase*>(op->GetObject()) == &r, "the operand names its register");
  DataBuffer* a = op->AllocateDataBuffer();
  vp_assert(a->size_ == N * sizeof(T) && a->ref_count() == 1 && a != cur && a->raw_ptr_ != cur->raw_ptr_, "an allocated buffer has the register's size and one owner");
  vp_assert(a->destination_ == &r && a->latency_ == lat && a->delay_line_ == &dl, "and is bound to the register, the latency and the delay line of the state");
  DataBuffer* c = op2->CopyDataBuffer();
  vp_assert(c->size_ == N * sizeof(T) && c->ref_count() == 1 && c != cur && c != a && c->raw_ptr_ != cur->raw_ptr_, "a copy is a new buffer");
  vp_assert(c->destination_ == &r && c->latency_ == lat && c->delay_line_ == &other, "bound to the register, the latency and the given delay line");
  int k = vp_any<int>("k");
  vp_assume(k >= 0 && k < N * (int)sizeof(T));
  vp_assert(static_cast<uint8_t*>(c->raw_ptr_)[k] == static_cast<uint8_t*>(cur->raw_ptr_)[k], "a copy holds the register's current value");
  vp_assert(r.data_buffer() == cur && cur->ref_count() == rc, "the register is unchanged until the buffer is submitted");
  vp_cover("post");
}
VP_HARNESS(destination_u8) { Destination<uint8_t, 4>(); }
VP_HARNESS(destination_u32) { Destination<uint32_t, 4>(); }
VP_HARNESS(destination_u64) { Destination<uint64_t, 1>(); }
// writing through an operand with latency 0: the register takes the value at once
VP_HARNESS(write_through) {
  DataBufferFactory f;
  DataBufferDelayLine dl(8);
  ArchState* st = State(&f, &dl);
  Register<uint32_t> r(st, "r");
  DestinationOperandInterface* op = r.CreateDestinationOperand(0);
  SourceOperandInterface* src = r.CreateSourceOperand();
  uint32_t v = vp_any<uint32_t>("v"), w = vp_any<uint32_t>("w");
  DataBuffer* a = op->AllocateDataBuffer();
  a->Set<uint32_t>(0, v);
  a->Submit();
  vp_assert(src->AsUint32(0) == v && r.data_buffer() == a && a->ref_count() == 1, "a submitted value is the register's value, owned by it alone");
  DataBuffer* b = op->CopyDataBuffer();
  vp_assert(b->Get<uint32_t>(0) == v && b != a, "a copy carries it");
  b->Set<uint16_t>(1, (uint16_t)w);
  vp_assert(src->AsUint32(0) == v, "changing the copy does not change the register");
  b->Submit();
  vp_assert(src->AsUint32(0) == ((v & 0xffff) | (w << 16)), "until it is submitted");
  vp_assert(r.data_buffer() == b && b->ref_count() == 1, "the register owns the buffer alone");
  vp_cover("post");
}
// --- control registers: a write only calls the callback
static ControlRegisterBase* g_creg; static DataBuffer* g_cdb; static int g_calls;
VP_HARNESS(control) {
  DataBufferFactory f;
  ArchState* st = State(&f, nullptr);
  g_calls = 0;
  ControlRegister<uint32_t> r(st, "c", [](ControlRegisterBase* c, DataBuffer* d) { g_creg = c; g_cdb = d; g_calls++; });
  vp_assert(g_calls == 0, "creating the register does not call back");
  DataBuffer* cur = r.data_buffer();
  uint64_t rc = cur->ref_count();
  DataBuffer* b = AnyBuffer(&f, 4);
  uint64_t rb = b->ref_count();
  vp_cover("pre");
  DataBufferDestination* d = &r;
  d->SetDataBuffer(b);
  vp_assert(g_calls == 1 && g_creg == &r && g_cdb == b, "a write calls the callback once with the register and the buffer");
  vp_assert(r.data_buffer() == cur && cur->ref_count() == rc && b->ref_count() == rb, "and changes nothing by itself");
  r.RegisterBase::SetDataBuffer(b);
  vp_assert(r.data_buffer() == b && b->ref_count() == rb + 1 && g_calls == 1, "the callback can store the value with the base class");
  vp_cover("post");
}
// --- reserved registers: a write also releases the resource
VP_HARNESS(reserved) {
  DataBufferFactory f;
  ArchState* st = State(&f, nullptr);
  SimpleResourcePool pool("pool", 40);
  SimpleResource* x = pool.GetOrAddResource("x");
  SimpleResource* y = pool.GetOrAddResource("y");
  ReservedRegister<uint32_t> r(st, "r", x);
  ReservedRegister<uint32_t> q(st, "q", nullptr);
  vp_assert(r.resource() == x && q.resource() == nullptr, "the resource");
  bool ax = vp_any<bool>("ax"), ay = vp_any<bool>("ay");
  if (ax) x->Acquire();
  if (ay) y->Acquire();
  DataBuffer* b = AnyBuffer(&f, 4);
  uint64_t rb = b->ref_count();
  vp_cover("pre");
  DataBufferDestination* d = &r;
  d->SetDataBuffer(b);
  vp_assert(r.data_buffer() == b && b->ref_count() == rb + 1, "the register takes the value");
  vp_assert(x->IsFree() && y->IsFree() == !ay, "its resource is released, others are not");
  d = &q;
  d->SetDataBuffer(b);
  vp_assert(q.data_buffer() == b && b->ref_count() == rb + 2 && y->IsFree() == !ay, "without a resource only the value is taken");
  vp_cover("post");
}
