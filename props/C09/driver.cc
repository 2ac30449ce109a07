// C09 bounded supplement: immediate, vector immediate, literal and null operands of every type.
#include "vpd.h"
#include "mpact/sim/generic/data_buffer.h"
#include "mpact/sim/generic/immediate_operand.h"
#include "mpact/sim/generic/literal_operand.h"
#include "mpact/sim/generic/devnull_operand.h"
using namespace mpact::sim::generic;
using vpd::Rng;
template <class T> static void Access(SourceOperandInterface* op, int i, T v) {
#define A(M, C) VPD_CHECK(op->M(i) == (C)v, #M " of ", (int64_t)v, " gives ", (int64_t)op->M(i))
  A(AsBool, bool); A(AsInt8, int8_t); A(AsUint8, uint8_t); A(AsInt16, int16_t); A(AsUint16, uint16_t); A(AsInt32, int32_t); A(AsUint32, uint32_t); A(AsInt64, int64_t); A(AsUint64, uint64_t);
#undef A
  VPD_CHECK(!op->GetObject().has_value(), "an object");
}
static std::vector<int> Shape(Rng& r) { std::vector<int> s; int n = r.below(4); for (int i = 0; i < n; i++) s.push_back(1 + r.below(5)); return s; }
template <class T> static void Case(Rng& r) {
  vpd::cases++; T v = (T)r.corner(); int i = r.below(100); auto sh = Shape(r); std::string str = vpd::cat("s", r.below(1000));
  vpd::distinct_case(vpd::mix((uint64_t)v, i));
  { ImmediateOperand<T> o(v); Access<T>(&o, i, v); VPD_CHECK(o.shape() == std::vector<int>{1}, "shape"); VPD_CHECK(sizeof(T) == 1 || o.AsString() == std::to_string(v), "text of ", (int64_t)v, " is ", o.AsString()); }
  { ImmediateOperand<T> o(v, str); Access<T>(&o, i, v); VPD_CHECK(o.AsString() == str, "text"); }
  { ImmediateOperand<T> o(v, sh); Access<T>(&o, i, v); VPD_CHECK(o.shape() == sh, "shape"); }
  { ImmediateOperand<T> o(v, sh, str); Access<T>(&o, i, v); VPD_CHECK(o.shape() == sh && o.AsString() == str, "shape or text"); }
  std::vector<T> vv; int n = 1 + r.below(20); for (int k = 0; k < n; k++) vv.push_back((T)r.corner());
  { VectorImmediateOperand<T> o(vv); for (int k = 0; k < n; k++) Access<T>(&o, k, vv[k]); VPD_CHECK(o.shape() == std::vector<int>{n}, "shape of a vector"); }
  std::vector<int> vs{n}; { VectorImmediateOperand<T> o(vv, vs); for (int k = 0; k < n; k++) Access<T>(&o, k, vv[k]); VPD_CHECK(o.shape() == vs, "shape of a vector"); }
}
template <int L> static void Lit(Rng& r) {
  int i = r.below(10); auto sh = Shape(r); std::string str = vpd::cat("s", r.below(1000)); IntLiteralOperand<L> a; IntLiteralOperand<L> b(str), c(sh), d(sh, str);
  for (SourceOperandInterface* o : {(SourceOperandInterface*)&a, (SourceOperandInterface*)&b, (SourceOperandInterface*)&c, (SourceOperandInterface*)&d}) Access<int>(o, i, L);
  VPD_CHECK(a.AsString() == std::to_string(L) && b.AsString() == str && c.AsString() == std::to_string(L) && d.AsString() == str && c.shape() == sh && d.shape() == sh, "text or shape of a literal");
}
template <bool L> static void BLit(Rng& r) {
  int i = r.below(10); auto sh = Shape(r); std::string str = vpd::cat("s", r.below(1000)); BoolLiteralOperand<L> a; BoolLiteralOperand<L> b(str), c(sh), d(sh, str); BoolLiteralPredicateOperand<L> p;
  for (SourceOperandInterface* o : {(SourceOperandInterface*)&a, (SourceOperandInterface*)&b, (SourceOperandInterface*)&c, (SourceOperandInterface*)&d}) Access<int>(o, i, L);
  VPD_CHECK(p.Value() == L && b.AsString() == str && d.AsString() == str && c.shape() == sh && d.shape() == sh, "a boolean literal");
}
template <class T> static void Null(Rng& r, DataBufferFactory* f) {
  alignas(16) static char buf[sizeof(ArchState)]; ArchState* st = reinterpret_cast<ArchState*>(buf); st->db_factory_ = f;
  std::vector<int> sh = Shape(r); if (sh.empty()) sh.push_back(1); int sz = sizeof(T); for (int s : sh) sz *= s; DevNullOperand<T> o(st, sh, "n");
  for (int k = 0; k < 3; k++) { DataBuffer* d = k == 0 ? o.AllocateDataBuffer() : k == 1 ? o.CopyDataBuffer() : f->Allocate(sz); if (k == 2) { d->set_latency(5); d->set_destination((DataBufferDestination*)16); o.InitializeDataBuffer(d); }
    VPD_CHECK(d->template size<uint8_t>() == sz && d->ref_count() == 1 && d->latency() == 0, "buffer of the null operand: ", d->template size<uint8_t>(), " bytes, ", d->ref_count(), " references, latency ", d->latency(), "; shape asks for ", sz);
    d->IncRef(); d->Submit(); VPD_CHECK(d->ref_count() == 1, "submitting to nowhere"); d->DecRef(); }
  VPD_CHECK(o.shape() == sh && o.AsString() == "n" && o.latency() == 0 && !o.GetObject().has_value(), "null operand attributes");
}
int main(int argc, char** argv) {
  Rng r(atoll(argv[1])); vpd::Clock clk(atof(argv[2])); int n = std::string(argv[3]) == "quick" ? 4000 : 300000; DataBufferFactory f;
  for (int i = 0; i < n && (i < 50 || clk.more()); i++) {
    Case<uint8_t>(r); Case<int8_t>(r); Case<uint16_t>(r); Case<int16_t>(r); Case<uint32_t>(r); Case<int32_t>(r); Case<uint64_t>(r); Case<int64_t>(r);
    Lit<0>(r); Lit<1>(r); Lit<-1>(r); Lit<127>(r); Lit<128>(r); Lit<255>(r); Lit<256>(r); Lit<32768>(r); Lit<65535>(r); Lit<-129>(r); Lit<INT32_MAX>(r); Lit<INT32_MIN>(r); BLit<true>(r); BLit<false>(r);
    Null<uint8_t>(r, &f); Null<uint16_t>(r, &f); Null<uint32_t>(r, &f); Null<uint64_t>(r, &f);
  }
  vpd::sample("values at type corners through every accessor, random shapes and texts; null buffers allocated, copied, re-initialised and submitted");
  VPD_DONE();
}
