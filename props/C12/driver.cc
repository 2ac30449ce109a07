// C12 bounded supplement: registers of many types in a whole architecture state; random writes with latencies against a reference.
#include "vpd.h"
#include <memory>
#include <map>
#include "mpact/sim/generic/arch_state.h"
#include "mpact/sim/generic/register.h"
#include "mpact/sim/generic/control_register.h"
#include "mpact/sim/generic/simple_resource.h"
using namespace mpact::sim::generic;
using vpd::Rng;
struct St : public ArchState { St() : ArchState("state") {} };
template <class Reg, class T> static void Run(Rng& r, std::vector<int> shape) {
  vpd::log().clear(); vpd::cases++;
  St st; Reg* reg = st.AddRegister<Reg>("reg"); int n = 1; for (int s : shape) n *= s;
  using S = typename std::make_signed<T>::type;
  VPD_CHECK(reg->shape() == shape && reg->size() == (int)(n * sizeof(T)) && reg->element_size() == (int)sizeof(T) && reg->name() == "reg" && reg->arch_state() == &st, "geometry");
  std::vector<T> val(n, 0); std::multimap<int, std::vector<T>> pend; int now = 0;
  std::unique_ptr<SourceOperandInterface> src(reg->CreateSourceOperand()), src2(reg->CreateSourceOperand("alias"));
  VPD_CHECK(src->AsString() == "reg" && src2->AsString() == "alias" && src->shape() == shape, "operand names or shape");
  std::vector<std::unique_ptr<DestinationOperandInterface>> dst; for (int l = 0; l < 4; l++) dst.emplace_back(l & 1 ? reg->CreateDestinationOperand(l, "named") : reg->CreateDestinationOperand(l));
  for (int k = 0; k < 30; k++) {
    int op = r.below(4), l = r.below(4); DestinationOperandInterface* d = dst[l].get();
    VPD_CHECK(d->latency() == l && d->shape() == shape && d->AsString() == (l & 1 ? "named" : "reg"), "destination operand");
    if (op == 0) {
      DataBuffer* db = d->AllocateDataBuffer(); VPD_CHECK(db->size<T>() == n, "allocated size"); std::vector<T> nv(n); for (int i = 0; i < n; i++) { nv[i] = (T)r.corner(); db->template Set<T>(i, nv[i]); }
      vpd::note(vpd::cat("write latency ", l)); db->Submit(); if (l == 0) val = nv; else pend.emplace(now + l, nv);
    } else if (op == 1) {
      DataBuffer* db = d->CopyDataBuffer(); std::vector<T> nv = val; for (int i = 0; i < n; i++) VPD_CHECK(db->template Get<T>(i) == val[i], "copied element ", i);
      int i = r.below(n); nv[i] = (T)r.corner(); db->template Set<T>(i, nv[i]); vpd::note(vpd::cat("partial write latency ", l)); db->Submit(); if (l == 0) val = nv; else pend.emplace(now + l, nv);
    } else if (op == 2) {
      vpd::note("cycle"); st.AdvanceDelayLines(); now++; auto [b, e] = pend.equal_range(now); for (auto it = b; it != e; ++it) val = it->second; pend.erase(b, e);
    } else { DataBuffer* db = reg->data_buffer(); int rc = db->ref_count(); vpd::note("write the current buffer again"); reg->SetDataBuffer(db); VPD_CHECK(reg->data_buffer() == db && (int)db->ref_count() == rc && rc >= 1, "writing the current buffer again: references ", rc, " -> ", db->ref_count()); }
    vpd::distinct_case(vpd::mix(val[0], k * 100 + op * 10 + l));
    for (int i = 0; i < n; i++) { T v = val[i]; S s = (S)v;
#define A(M, C, X) VPD_CHECK(src->M(i) == (C)(X) && src2->M(i) == (C)(X), #M " of element ", i)
      A(AsBool, bool, v); A(AsInt8, int8_t, s); A(AsUint8, uint8_t, v); A(AsInt16, int16_t, s); A(AsUint16, uint16_t, v); A(AsInt32, int32_t, s); A(AsUint32, uint32_t, v); A(AsInt64, int64_t, s); A(AsUint64, uint64_t, v); }
    VPD_CHECK(reg->data_buffer()->ref_count() == 1, "references on the current value: ", reg->data_buffer()->ref_count());
  }
  // writes still pending are dropped by draining
  for (int k = 0; k < 5; k++) { st.AdvanceDelayLines(); now++; auto [b, e] = pend.equal_range(now); for (auto it = b; it != e; ++it) val = it->second; }
  for (int i = 0; i < n; i++) VPD_CHECK(reg->data_buffer()->template Get<T>(i) == val[i], "final value of element ", i);
}
static void Special(Rng& r) {
  vpd::log().clear(); vpd::cases++; St st; int calls = 0; DataBuffer* got = nullptr;
  auto* c = st.AddRegister<ControlRegister<uint32_t>>("ctl", ControlRegisterBase::UpdateCallbackFunction([&](ControlRegisterBase* reg, DataBuffer* db) { calls++; got = db; if (calls & 1) reg->RegisterBase::SetDataBuffer(db); }));
  std::unique_ptr<DestinationOperandInterface> d(c->CreateDestinationOperand(0)); uint32_t val = 0;
  for (int k = 0; k < 6; k++) { DataBuffer* db = d->AllocateDataBuffer(); uint32_t v = r.corner(); db->Set<uint32_t>(0, v); int before = calls; db->Submit(); VPD_CHECK(calls == before + 1 && got == db, "control register callback"); if (calls & 1) val = v; VPD_CHECK(c->data_buffer()->Get<uint32_t>(0) == val, "control register value"); }
  int width = 1 + r.below(100); SimpleResourcePool pool("pool", width); std::vector<SimpleResource*> rs; for (int i = 0; i < width; i++) rs.push_back(pool.GetOrAddResource(vpd::cat("r", i)));
  int w = r.below(width); auto* rr = st.AddRegister<ReservedRegister<uint64_t>>("res", rs[w]); std::unique_ptr<DestinationOperandInterface> rd(rr->CreateDestinationOperand(0));
  std::vector<bool> used(width); for (int i = 0; i < width; i++) if (r.coin(50)) { rs[i]->Acquire(); used[i] = true; }
  DataBuffer* db = rd->AllocateDataBuffer(); db->Set<uint64_t>(0, 77); db->Submit(); used[w] = false;
  for (int i = 0; i < width; i++) VPD_CHECK(rs[i]->IsFree() == !used[i], "resource ", i, " after a write to the register reserving ", w);
  VPD_CHECK(rr->data_buffer()->Get<uint64_t>(0) == 77, "value of a reserved register");
}
int main(int argc, char** argv) {
  Rng r(atoll(argv[1])); vpd::Clock clk(atof(argv[2])); int n = std::string(argv[3]) == "quick" ? 600 : 60000;
  for (int i = 0; i < n && (i < 20 || clk.more()); i++) {
    Run<Register<uint8_t>, uint8_t>(r, {1}); Run<Register<uint16_t>, uint16_t>(r, {1}); Run<Register<uint32_t>, uint32_t>(r, {1}); Run<Register<uint64_t>, uint64_t>(r, {1});
    Run<VectorRegister<uint16_t, 6>, uint16_t>(r, {6}); Run<VectorRegister<uint64_t, 3>, uint64_t>(r, {3}); Run<MatrixRegister<uint32_t, 2, 5>, uint32_t>(r, {2, 5}); Run<MatrixRegister<uint8_t, 4, 3>, uint8_t>(r, {4, 3});
    Special(r); if (i < 2) vpd::sample("registers of 8 geometries under 30 random writes, partial writes, cycles and rewrites");
  }
  VPD_DONE();
}
