// C09: operands that stand for constants and for nothing.  Immediate and literal operands give their value, converted as C++ converts integers,
// through every accessor; the null destination hands out a buffer of its size and discards it.
#include "vp.h"
#include "mpact/sim/generic/data_buffer.cc"
#include "mpact/sim/generic/immediate_operand.h"
#include "mpact/sim/generic/literal_operand.h"
#include "mpact/sim/generic/devnull_operand.h"
using namespace mpact::sim::generic;
template <class T> static void Access(SourceOperandInterface* op, int i, T v) {
  vp_assert(op->AsBool(i) == (v != 0), "as bool");
  vp_assert(op->AsInt8(i) == (int8_t)v, "as int8");
  vp_assert(op->AsUint8(i) == (uint8_t)v, "as uint8");
  vp_assert(op->AsInt16(i) == (int16_t)v, "as int16");
  vp_assert(op->AsUint16(i) == (uint16_t)v, "as uint16");
  vp_assert(op->AsInt32(i) == (int32_t)v, "as int32");
  vp_assert(op->AsUint32(i) == (uint32_t)v, "as uint32");
  vp_assert(op->AsInt64(i) == (int64_t)v, "as int64");
  vp_assert(op->AsUint64(i) == (uint64_t)v, "as uint64");
  vp_assert(!op->GetObject().has_value(), "no machine state behind it");
}
static void ShapeIs(const std::vector<int>& s, int a, int b, size_t n) {
  vp_assert(s.size() == n, "number of dimensions");
  if (n > 0) vp_assert(s[0] == a, "first dimension");
  if (n > 1) vp_assert(s[1] == b, "second dimension");
}
template <class T> static void Imm() {
  T v = vp_any<T>("v");
  int i = vp_any<int>("i"), a = vp_any<int>("a"), b = vp_any<int>("b");
  uint64_t strid = vp_any<uint64_t>("str");
  std::string str; str.id = strid;
  { ImmediateOperand<T> op(v); Access<T>(&op, i, v); ShapeIs(op.shape(), 1, 0, 1); }
  { ImmediateOperand<T> op(v, str); Access<T>(&op, i, v); ShapeIs(op.shape(), 1, 0, 1); vp_assert(op.AsString().id == strid, "shown as given"); }
  std::vector<int> sh; sh.push_back(a); sh.push_back(b);
  { ImmediateOperand<T> op(v, sh); Access<T>(&op, i, v); ShapeIs(op.shape(), a, b, 2); }
  { ImmediateOperand<T> op(v, sh, str); Access<T>(&op, i, v); ShapeIs(op.shape(), a, b, 2); vp_assert(op.AsString().id == strid, "shown as given"); }
  vp_cover("post");
}
VP_HARNESS(imm_u8) { Imm<uint8_t>(); }
VP_HARNESS(imm_i8) { Imm<int8_t>(); }
VP_HARNESS(imm_u16) { Imm<uint16_t>(); }
VP_HARNESS(imm_i16) { Imm<int16_t>(); }
VP_HARNESS(imm_u32) { Imm<uint32_t>(); }
VP_HARNESS(imm_i32) { Imm<int32_t>(); }
VP_HARNESS(imm_u64) { Imm<uint64_t>(); }
VP_HARNESS(imm_i64) { Imm<int64_t>(); }
// a vector of any length with any contents; element i of the operand is element i of the vector
template <class T> static void Vec() {
  uint64_t n = vp_any<uint64_t>("n");
  vp_assume(n >= 1 && n < 100000);
  int i = vp_any<int>("i");
  vp_assume(i >= 0 && (uint64_t)i < n);
  T* r = vp_region<T>(n, "elements");
  VectorImmediateOperand<T>* op = new VectorImmediateOperand<T>(std::vector<T>());
  op->value_.d = r;
  op->value_.n = n;
  vp_cover("pre");
  Access<T>(op, i, r[i]);
  vp_cover("post");
}
VP_HARNESS(vec_u8) { Vec<uint8_t>(); }
VP_HARNESS(vec_i16) { Vec<int16_t>(); }
VP_HARNESS(vec_u32) { Vec<uint32_t>(); }
VP_HARNESS(vec_i32) { Vec<int32_t>(); }
VP_HARNESS(vec_i64) { Vec<int64_t>(); }
template <class T, int N> static void VecNew() {
  std::vector<T> v;
  T x[N];
  for (int k = 0; k < N; k++) { x[k] = vp_any<T>("x"); v.push_back(x[k]); }
  { VectorImmediateOperand<T> op(v); for (int k = 0; k < N; k++) Access<T>(&op, k, x[k]); ShapeIs(op.shape(), N, 0, 1); }
  std::vector<int> sh; sh.push_back(N);
  { VectorImmediateOperand<T> op(v, sh); for (int k = 0; k < N; k++) Access<T>(&op, k, x[k]); ShapeIs(op.shape(), N, 0, 1); }
  vp_cover("post");
}
VP_BOUNDED(vec_new1) { VecNew<uint32_t, 1>(); }
VP_BOUNDED(vec_new5) { VecNew<int16_t, 5>(); }
VP_BOUNDED(vec_new8) { VecNew<uint64_t, 8>(); }
template <int L> static void Lit() {
  int i = vp_any<int>("i"), a = vp_any<int>("a"), b = vp_any<int>("b");
  std::string str; str.id = vp_any<uint64_t>("str");
  std::vector<int> sh; sh.push_back(a); sh.push_back(b);
  { IntLiteralOperand<L> op; Access<int>(&op, i, L); }
  { IntLiteralOperand<L> op{absl::string_view(str)}; Access<int>(&op, i, L); vp_assert(op.AsString() == str, "shown as given"); }
  { IntLiteralOperand<L> op(sh); Access<int>(&op, i, L); ShapeIs(op.shape(), a, b, 2); }
  { IntLiteralOperand<L> op(sh, str); Access<int>(&op, i, L); ShapeIs(op.shape(), a, b, 2); vp_assert(op.AsString() == str, "shown as given"); }
}
VP_HARNESS(int_literal) { Lit<0>(); Lit<1>(); Lit<-1>(); Lit<127>(); Lit<128>(); Lit<255>(); Lit<256>(); Lit<32768>(); Lit<65535>(); Lit<-129>(); Lit<INT32_MAX>(); Lit<INT32_MIN>(); Lit<0x12345678>(); vp_cover("post"); }
template <bool L> static void BLit() {
  int i = vp_any<int>("i"), a = vp_any<int>("a"), b = vp_any<int>("b");
  std::string str; str.id = vp_any<uint64_t>("str");
  std::vector<int> sh; sh.push_back(a); sh.push_back(b);
  { BoolLiteralOperand<L> op; Access<int>(&op, i, L ? 1 : 0); }
  { BoolLiteralOperand<L> op{absl::string_view(str)}; Access<int>(&op, i, L ? 1 : 0); vp_assert(op.AsString() == str, "shown as given"); }
  { BoolLiteralOperand<L> op(sh); Access<int>(&op, i, L ? 1 : 0); ShapeIs(op.shape(), a, b, 2); }
  { BoolLiteralOperand<L> op(sh, str); Access<int>(&op, i, L ? 1 : 0); ShapeIs(op.shape(), a, b, 2); vp_assert(op.AsString() == str, "shown as given"); }
  BoolLiteralPredicateOperand<L> p;
  vp_assert(p.Value() == L, "the predicate has its value");
}
VP_HARNESS(bool_literal) { BLit<false>(); BLit<true>(); vp_cover("post"); }

template <class T, int A, int B> static void Null() {
  DataBufferFactory f;
  alignas(16) static unsigned char buf[sizeof(ArchState)];
  ArchState* st = reinterpret_cast<ArchState*>(buf);
  st->db_factory_ = &f;
  std::vector<int> sh; sh.push_back(A);
  if (B) sh.push_back(B);
  const int want = (int)sizeof(T) * A * (B ? B : 1);
  std::string str; str.id = vp_any<uint64_t>("str");
  DevNullOperand<T> op(st, sh, str);
  vp_assert(op.latency() == 0 && !op.GetObject().has_value() && op.AsString() == str, "no latency, no state");
  ShapeIs(op.shape(), A, B, B ? 2 : 1);
  vp_cover("pre");
  DataBuffer* db = op.AllocateDataBuffer();
  vp_assert(db->template size<uint8_t>() == want, "a buffer of the size of the shape");
  vp_assert(db->ref_count() == 1, "with one reference");
  vp_assert(db->latency() == 0, "going nowhere at once");
  db->IncRef();
  db->Submit();
  vp_assert(db->ref_count() == 1, "submitting it drops exactly the one reference");
  db->DecRef();
  DataBuffer* c = op.CopyDataBuffer();
  vp_assert(c->template size<uint8_t>() == want && c->latency() == 0 && c->ref_count() == 1, "a copy is such a buffer too");
  c->IncRef(); c->Submit(); vp_assert(c->ref_count() == 1, "and is discarded likewise"); c->DecRef();
  // a buffer that belonged to something else is detached
  static DelayLine<DataBufferDelayRecord> dl(4);
  DataBuffer* o = f.Allocate(want); int lat = vp_any<int>("lat"); o->set_latency(lat); o->set_delay_line(nullptr);
  op.InitializeDataBuffer(o);
  vp_assert(o->latency() == 0 && o->ref_count() == 1, "a buffer made over to the null operand goes nowhere");
  o->IncRef(); o->Submit(); vp_assert(o->ref_count() == 1, "and is discarded"); o->DecRef();
  vp_cover("post");
}
VP_BOUNDED(devnull0) { Null<uint8_t, 1, 0>(); }
VP_BOUNDED(devnull1) { Null<uint8_t, 7, 3>(); }
VP_BOUNDED(devnull2) { Null<uint32_t, 1, 0>(); }
VP_BOUNDED(devnull3) { Null<uint32_t, 4, 4>(); }
VP_BOUNDED(devnull4) { Null<uint64_t, 1, 0>(); }
VP_BOUNDED(devnull5) { Null<uint64_t, 5, 9>(); }
VP_BOUNDED(devnull6) { Null<int16_t, 3, 0>(); }
VP_BOUNDED(devnull7) { Null<int32_t, 64, 0>(); }
