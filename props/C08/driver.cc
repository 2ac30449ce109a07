// C08 bounded supplement: status registers of every type, random conditions, masks and writes.
#include "vpd.h"
#include "mpact/sim/generic/data_buffer.h"
#include "mpact/sim/generic/status_register.h"
using namespace mpact::sim::generic;
using vpd::Rng;
template <class T> static void Case(Rng& r, DataBufferFactory* f) {
  using U = typename std::make_unsigned<T>::type;
  vpd::log().clear(); vpd::cases++;
  const int W = sizeof(T) * 8; StatusRegister<T> s(nullptr, "status"); uint64_t bits = 0, called = 0, have = 0; bool twice = false;
  SourceOperandInterface* op = s.CreateSourceOperand(); SourceOperandInterface* op2 = s.CreateSourceOperand("alias");
  for (int k = 0; k < 40; k++) {
    if (r.coin(40)) { int i = r.below(W); have |= 1ull << i; s.SetEvaluateFunction(i, [&, i]() { if ((called >> i) & 1) twice = true; called |= 1ull << i; return ((bits >> i) & 1) != 0; }); vpd::note(vpd::cat("condition for bit ", i)); }
    bits = r.corner(); U want = (U)(bits & have); U mask = (U)r.corner(); called = 0;
    vpd::note(vpd::cat("bits ", want, " mask ", (uint64_t)mask)); vpd::distinct_case(vpd::mix(want, mask));
    T v = s.Read(); VPD_CHECK((U)v == want && called == have && !twice, "Read gives ", (uint64_t)(U)v, " expected ", (uint64_t)want);
    called = 0; v = s.Read((T)mask); VPD_CHECK((U)v == (U)(want & mask), "Read(mask) gives ", (uint64_t)(U)v, " expected ", (uint64_t)(U)(want & mask)); VPD_CHECK(called == (have & (uint64_t)mask) && !twice, "Read(mask) evaluates other conditions");
    T t = (T)want; int i = r.below(5);
#define A(M, C) called = 0; VPD_CHECK(op->M(i) == (C)t, #M); called = 0; VPD_CHECK(op2->M(i) == (C)t, #M)
    A(AsBool, bool); A(AsInt8, int8_t); A(AsUint8, uint8_t); A(AsInt16, int16_t); A(AsUint16, uint16_t); A(AsInt32, int32_t); A(AsUint32, uint32_t); A(AsInt64, int64_t); A(AsUint64, uint64_t);
    if (r.coin(20)) { auto* db = f->Allocate(sizeof(T)); db->IncRef(); db->set_destination(&s); db->set_latency(0); db->Submit(); VPD_CHECK(db->ref_count() == 1, "references after a write: ", db->ref_count()); db->DecRef(); called = 0; VPD_CHECK((U)s.Read() == want, "a write changed the register"); }
  }
  VPD_CHECK(op->shape() == std::vector<int>{1} && s.size() == sizeof(T) && op->AsString() == "status" && op2->AsString() == "alias", "shape, size or name");
  VPD_CHECK(std::any_cast<StatusRegisterBase<T>*>(op->GetObject()) == &s, "object");
  delete op; delete op2;
}
int main(int argc, char** argv) {
  Rng r(atoll(argv[1])); vpd::Clock clk(atof(argv[2])); int n = std::string(argv[3]) == "quick" ? 1500 : 100000; DataBufferFactory f;
  for (int i = 0; i < n && (i < 50 || clk.more()); i++) { Case<uint8_t>(r, &f); Case<uint16_t>(r, &f); Case<uint32_t>(r, &f); Case<uint64_t>(r, &f); Case<int32_t>(r, &f); Case<int8_t>(r, &f); Case<int64_t>(r, &f); if (i < 2) vpd::sample("40 rounds of condition changes, full and masked reads, operand reads and writes"); }
  VPD_DONE();
}
