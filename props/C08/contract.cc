// C08: a status register shows, at each read, the conditions attached to its bits.
#include "vp.h"
#include "mpact/sim/generic/state_item_base.cc"
#include "mpact/sim/generic/data_buffer.cc"
#include "mpact/sim/generic/status_register.h"
using namespace mpact::sim::generic;
static uint64_t g_bits, g_called;
template <class T> static void Attach(StatusRegisterBase<T>* s) {
  g_called = 0;
  for (int i = 0; i < (int)sizeof(T) * 8; i++) s->SetEvaluateFunction(i, [i]() -> bool {
    vp_assert(!((g_called >> i) & 1), "a condition is evaluated once per read");
    g_called |= 1ull << i;
    return (g_bits >> i) & 1;
  });
}
template <class T> static void Run() {
  using U = typename std::make_unsigned<T>::type;
  uint64_t all = (uint64_t)(U)~(U)0;
  StatusRegister<T> s(nullptr, "s");
  vp_assert(s.Read() == 0 && s.Read((T)vp_any<U>("m0")) == 0, "without conditions every bit reads 0");
  Attach<T>(&s);
  g_bits = vp_any<uint64_t>("bits") & all;
  T mask = (T)vp_any<U>("mask");
  vp_cover("pre");
  T v = s.Read();
  vp_assert((U)v == (U)g_bits, "bit i of a read is condition i");
  vp_assert(g_called == all, "every condition is evaluated");
  g_called = 0;
  T w = s.Read(mask);
  vp_assert((U)w == ((U)g_bits & (U)mask), "a masked read shows the selected bits and 0 elsewhere");
  vp_assert(g_called == (uint64_t)(U)mask, "exactly the selected conditions are evaluated");
  // conditions change between reads
  g_bits = vp_any<uint64_t>("bits2") & all;
  g_called = 0;
  vp_assert((U)s.Read() == (U)g_bits, "each read evaluates anew");
  // the source operand
  StatusRegisterSourceOperand<T> op(&s);
  int i = vp_any<int>("i");
  U b = (U)g_bits;
  g_called = 0; vp_assert(op.AsBool(i) == (b != 0), "as bool: any bit");
  g_called = 0; vp_assert(op.AsInt8(i) == (int8_t)(T)b, "as int8");
  g_called = 0; vp_assert(op.AsUint8(i) == (uint8_t)(T)b, "as uint8");
  g_called = 0; vp_assert(op.AsInt16(i) == (int16_t)(T)b, "as int16");
  g_called = 0; vp_assert(op.AsUint16(i) == (uint16_t)(T)b, "as uint16");
  g_called = 0; vp_assert(op.AsInt32(i) == (int32_t)(T)b, "as int32");
  g_called = 0; vp_assert(op.AsUint32(i) == (uint32_t)(T)b, "as uint32");
  g_called = 0; vp_assert(op.AsInt64(i) == (int64_t)(T)b, "as int64");
  g_called = 0; vp_assert(op.AsUint64(i) == (uint64_t)(T)b, "as uint64");
  vp_assert(op.shape().size() == 1 && op.shape()[0] == 1 && s.size() == (int)sizeof(T), "a scalar of the size of the type");
  vp_cover("post");
}
VP_HARNESS(u8) { Run<uint8_t>(); }
VP_HARNESS(u16) { Run<uint16_t>(); }
VP_HARNESS(u32) { Run<uint32_t>(); }
VP_HARNESS(u64) { Run<uint64_t>(); }
VP_HARNESS(i32) { Run<int32_t>(); }
// replacing one condition leaves the others
VP_HARNESS(replace) {
  for (int p = 0; p < 32; p++) {
    StatusRegister<uint32_t> s(nullptr, "s");
    Attach<uint32_t>(&s);
    g_bits = vp_any<uint32_t>("bits");
    bool nv = vp_any<bool>("nv");
    s.SetEvaluateFunction(p, [nv]() -> bool { return nv; });
    uint32_t v = s.Read();
    vp_assert(v == (((uint32_t)g_bits & ~(1u << p)) | ((uint32_t)nv << p)), "one condition is replaced, the others stay");
  }
  vp_cover("post");
}
// writes
VP_HARNESS(write_ignored) {
  DataBufferFactory f;
  StatusRegister<uint32_t> s(nullptr, "s");
  Attach<uint32_t>(&s);
  g_bits = vp_any<uint32_t>("bits");
  DataBuffer* db = f.Allocate(4);
  db->IncRef();
  db->set_destination(&s);
  db->set_latency(0);
  db->Submit();
  vp_assert(db->ref_count() == 1, "a write gives up the writer's reference and no other");
  vp_assert(s.Read() == (uint32_t)g_bits, "a write has no effect");
  db->DecRef();
  vp_cover("post");
}
