// C22: the helpers for semantic functions apply the operation to the operands (element by element) and submit the result once.
#include "vp.h"
#include "mpact/sim/generic/data_buffer.cc"
#include "mpact/sim/generic/instruction.cc"
#include "mpact/sim/generic/instruction_helpers.h"
#include "mpact/sim/generic/resource_operand_interface.h"
using namespace mpact::sim::generic;
// an operand with an arbitrary value per element
template <typename T>
struct Src : public SourceOperandInterface {
  T* v;
  int n;
  T get(int i) {
    vp_assert(i >= 0 && i < n, "an element of the operand");
    return v[i];
  }
  bool AsBool(int i) override { return get(i) & 1; }
  int8_t AsInt8(int i) override { return (int8_t)get(i); }
  uint8_t AsUint8(int i) override { return (uint8_t)get(i); }
  int16_t AsInt16(int i) override { return (int16_t)get(i); }
  uint16_t AsUint16(int i) override { return (uint16_t)get(i); }
  int32_t AsInt32(int i) override { return (int32_t)get(i); }
  uint32_t AsUint32(int i) override { return (uint32_t)get(i); }
  int64_t AsInt64(int i) override { return (int64_t)get(i); }
  uint64_t AsUint64(int i) override { return (uint64_t)get(i); }
  std::any GetObject() const override { return std::any(); }
  std::vector<int> shape() const override { return {}; }
  std::string AsString() const override { return ""; }
};
struct State : public DataBufferDestination {
  int calls = 0;
  DataBuffer* got = nullptr;
  uint64_t elem = 0;       // the watched element of the result when it arrives
  int k = 0, width = 1;
  void SetDataBuffer(DataBuffer* db) override {
    calls++;
    got = db;
    elem = 0;
    __builtin_memcpy(&elem, static_cast<char*>(db->raw_ptr()) + k * width, width);
  }
};
struct Dst : public DestinationOperandInterface {
  DataBuffer* db;
  int n;
  int allocated = 0;
  DataBuffer* AllocateDataBuffer() override { allocated++; return db; }
  void InitializeDataBuffer(DataBuffer*) override {}
  DataBuffer* CopyDataBuffer() override { return db; }
  int latency() const override { return 0; }
  std::any GetObject() const override { return std::any(); }
  std::vector<int> shape() const override { return {n}; }
  std::string AsString() const override { return ""; }
};
// buffers are not recycled here (C02)
extern "C" void vp_contract__ZN5mpact3sim7generic17DataBufferFactory7RecycleEPNS1_10DataBufferE(DataBufferFactory*, DataBuffer*) {}
template <typename R, typename A, int sources>
struct Setup {
  Instruction* inst;
  Src<A> s[3];
  Dst dst;
  State st;
  int n, k;
  explicit Setup(bool vec) {
    n = vec ? vp_any<int>("n") : 1;
    k = vec ? vp_any<int>("k") : 0;
    vp_assume(n >= 1 && n < (1 << 20) && k >= 0 && k < n);
    inst = new Instruction(0, nullptr);
    for (int i = 0; i < sources; i++) {
      s[i].v = vp_region<A>(n, "source");
      s[i].n = n;
      inst->AppendSource(&s[i]);
    }
    DataBuffer* b = new DataBuffer((int)sizeof(R) * n);
    b->raw_ptr_ = vp_region<uint8_t>(sizeof(R) * n, "result");
    b->db_factory_ = nullptr;
    b->inc_count_ = 2;      // one reference is kept here, the buffer is looked at afterwards
    b->dec_count_ = 0;
    b->set_latency(0);
    b->set_destination(&st);
    dst.db = b;
    dst.n = n;
    st.k = k;
    st.width = sizeof(R);
    inst->AppendDestination(&dst);
    if (vec) __vp_hint(k);
  }
  void Check(R want) {
    uint64_t w = 0;
    __builtin_memcpy(&w, &want, sizeof(R));
    vp_assert(dst.allocated == 1, "one result buffer of the destination is used");
    vp_assert(st.calls == 1 && st.got == dst.db, "the result is submitted once");
    vp_assert(st.elem == w, "and every element is the operation on the operands' elements");
    vp_assert(dst.db->ref_count() == 1, "the buffer's reference is passed on");
    vp_cover("post");
  }
};
// operations that tell their arguments and the order of them apart
static uint32_t f2(uint16_t a, uint16_t b) { return a * 65536u + b; }
VP_HARNESS(binary_mixed) {
  Setup<uint32_t, uint16_t, 2> t(false);
  BinaryOp<uint32_t, uint16_t, uint16_t>(t.inst, [](uint16_t a, uint16_t b) -> uint32_t { return f2(a, b); });
  t.Check(f2(t.s[0].v[0], t.s[1].v[0]));
}
VP_HARNESS(binary_mixed_types) {
  Setup<int64_t, int32_t, 2> t(false);
  BinaryOp<int64_t, int32_t, uint8_t>(t.inst, [](int32_t a, uint8_t b) -> int64_t { return a * 256ll + b; });
  t.Check(t.s[0].v[0] * 256ll + (uint8_t)t.s[1].v[0]);
}
VP_HARNESS(binary_two_types) {
  Setup<int64_t, int32_t, 2> t(false);
  BinaryOp<int64_t, int32_t>(t.inst, [](int32_t a, int32_t b) -> int64_t { return (int64_t)a * (1ll << 32) + b; });
  t.Check((int64_t)t.s[0].v[0] * (1ll << 32) + t.s[1].v[0]);
}
VP_HARNESS(binary_one_type) {
  Setup<uint16_t, uint16_t, 2> t(false);
  BinaryOp<uint16_t>(t.inst, [](uint16_t a, uint16_t b) -> uint16_t { return a - b; });
  t.Check((uint16_t)(t.s[0].v[0] - t.s[1].v[0]));
}
VP_HARNESS(unary_mixed) {
  Setup<int64_t, int8_t, 1> t(false);
  UnaryOp<int64_t, int8_t>(t.inst, [](int8_t a) -> int64_t { return a * 3; });
  t.Check(t.s[0].v[0] * 3);
}
VP_HARNESS(unary_one_type) {
  Setup<uint64_t, uint64_t, 1> t(false);
  UnaryOp<uint64_t>(t.inst, [](uint64_t a) -> uint64_t { return ~a; });
  t.Check(~t.s[0].v[0]);
}
VP_HARNESS(unary_vector_mixed) {
  Setup<int32_t, int16_t, 1> t(true);
  vp_cover("pre");
  UnaryVectorOp<int32_t, int16_t>(t.inst, [](int16_t a) -> int32_t { return a * 5; });
  t.Check(t.s[0].v[t.k] * 5);
}
VP_HARNESS(unary_vector_one_type) {
  Setup<uint8_t, uint8_t, 1> t(true);
  vp_cover("pre");
  UnaryVectorOp<uint8_t>(t.inst, [](uint8_t a) -> uint8_t { return ~a; });
  t.Check((uint8_t)~t.s[0].v[t.k]);
}
VP_HARNESS(binary_vector_mixed) {
  Setup<int64_t, int32_t, 2> t(true);
  vp_cover("pre");
  BinaryVectorOp<int64_t, int32_t, uint8_t>(t.inst, [](int32_t a, uint8_t b) -> int64_t { return a * 256ll + b; });
  t.Check(t.s[0].v[t.k] * 256ll + (uint8_t)t.s[1].v[t.k]);
}
VP_HARNESS(binary_vector_two_types) {
  Setup<uint32_t, uint16_t, 2> t(true);
  vp_cover("pre");
  BinaryVectorOp<uint32_t, uint16_t>(t.inst, [](uint16_t a, uint16_t b) -> uint32_t { return f2(a, b); });
  t.Check(f2(t.s[0].v[t.k], t.s[1].v[t.k]));
}
VP_HARNESS(binary_vector_one_type) {
  Setup<uint16_t, uint16_t, 2> t(true);
  vp_cover("pre");
  BinaryVectorOp<uint16_t>(t.inst, [](uint16_t a, uint16_t b) -> uint16_t { return a - b; });
  t.Check((uint16_t)(t.s[0].v[t.k] - t.s[1].v[t.k]));
}
VP_HARNESS(ternary_vector_mixed) {
  Setup<uint64_t, int32_t, 3> t(true);
  vp_cover("pre");
  TernaryVectorOp<uint64_t, int32_t, uint8_t, int16_t>(t.inst, [](int32_t a, uint8_t b, int16_t c) -> uint64_t { return (uint64_t)a * 65536 + b * 256ull + (uint64_t)c; });
  t.Check((uint64_t)t.s[0].v[t.k] * 65536 + (uint8_t)t.s[1].v[t.k] * 256ull + (uint64_t)(int16_t)t.s[2].v[t.k]);
}
VP_HARNESS(ternary_vector_two_types) {
  Setup<uint64_t, uint16_t, 3> t(true);
  vp_cover("pre");
  TernaryVectorOp<uint64_t, uint16_t>(t.inst, [](uint16_t a, uint16_t b, uint16_t c) -> uint64_t { return ((uint64_t)a << 32) | ((uint64_t)b << 16) | c; });
  t.Check(((uint64_t)t.s[0].v[t.k] << 32) | ((uint64_t)t.s[1].v[t.k] << 16) | t.s[2].v[t.k]);
}
VP_HARNESS(ternary_vector_one_type) {
  Setup<uint32_t, uint32_t, 3> t(true);
  vp_cover("pre");
  TernaryVectorOp<uint32_t>(t.inst, [](uint32_t a, uint32_t b, uint32_t c) -> uint32_t { return (a ^ (b << 1)) - c; });
  t.Check((t.s[0].v[t.k] ^ (t.s[1].v[t.k] << 1)) - t.s[2].v[t.k]);
}
