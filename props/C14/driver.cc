// C14 bounded supplement: random histories over plain, token and notifying fifos against a reference queue.
#include "vpd.h"
#include <deque>
#include <map>
#include <memory>
#include "mpact/sim/generic/arch_state.h"
#include "mpact/sim/generic/fifo.h"
#include "mpact/sim/generic/fifo_with_notify.h"
#include "mpact/sim/generic/token_fifo.h"
using namespace mpact::sim::generic;
using vpd::Rng;
struct St : public ArchState { St() : ArchState("state") {} };
struct Ref { std::deque<DataBuffer*> q; unsigned res = 0; };
template <class F> static void Errors(F* f, ProgramErrorController* c, const std::string& p) {
  c->AddProgramErrorName(p + "over"); c->AddProgramErrorName(p + "under");
  auto o = c->GetProgramError(p + "over"), u = c->GetProgramError(p + "under"); f->SetOverflowProgramError(&o); f->SetUnderflowProgramError(&u);
}
static void Run(Rng& r) {
  vpd::log().clear(); vpd::cases++;
  St st; ProgramErrorController* pc = st.program_error_controller();
  unsigned cap = r.below(6), tokens = r.below(6);
  FifoTokenStore store(tokens);
  auto* plain = st.AddFifo<VectorFifo<uint16_t, 3>>("plain", (int)cap);
  auto* note = st.AddFifo<FifoWithNotify<uint64_t>>("note", (int)cap);
  auto* t1 = st.AddFifo<TokenFifo<uint32_t>>("t1", 100u, &store);
  auto* t2 = st.AddFifo<TokenFifo<uint32_t>>("t2", 100u, &store);
  FifoBase* f[4] = {plain, note, t1, t2}; int size[4] = {6, 8, 4, 4}; const char* nm[4] = {"plain", "note", "t1", "t2"};
  bool errs = r.coin(70); if (errs) for (int i = 0; i < 4; i++) Errors(f[i], pc, nm[i]);
  int ne = 0, em = 0; bool hne = r.coin(80), hem = r.coin(80); if (hne) note->SetOnNotEmpty([&](FifoWithNotifyBase* w) { VPD_CHECK(w == note && w->Available() == 1, "state seen by the not-empty callback"); ne++; });
  if (hem) note->SetOnEmpty([&](FifoWithNotifyBase* w) { VPD_CHECK(w == note && w->Available() == 0, "state seen by the empty callback"); em++; });
  Ref ref[4]; std::map<DataBuffer*, int> mine; std::multimap<int, std::pair<int, DataBuffer*>> pend; int now = 0; size_t over[4] = {}, under[4] = {};
  std::unique_ptr<SourceOperandInterface> src[4]; std::unique_ptr<DestinationOperandInterface> dst[4][3];
  src[0].reset(plain->CreateSourceOperand()); src[1].reset(note->CreateSourceOperand()); src[2].reset(t1->CreateSourceOperand()); src[3].reset(t2->CreateSourceOperand());
  for (int l = 0; l < 3; l++) { dst[0][l].reset(plain->CreateDestinationOperand(l)); dst[1][l].reset(note->CreateDestinationOperand(l)); dst[2][l].reset(t1->CreateDestinationOperand(l)); dst[3][l].reset(t2->CreateDestinationOperand(l)); }
  auto used = [&] { return ref[2].q.size() + ref[3].q.size(); };
  auto push = [&](int i, DataBuffer* db) -> bool {   // what a push does to the reference
    bool token = i >= 2; unsigned av = tokens - (unsigned)used();
    unsigned left = ref[i].res ? ref[i].res - 1 : 0; bool ok = token ? left < av : ref[i].q.size() + left < cap;
    if (token && av == 0) {} else ref[i].res = left;
    if (ok) ref[i].q.push_back(db); else if (errs) over[i]++;
    return ok;
  };
  int xne = ne, xem = em;
  for (int k = 0; k < 40; k++) {
    int i = r.below(4), op = r.below(7); FifoBase* F = f[i]; Ref& R = ref[i]; bool was = ref[1].q.empty() && ref[1].res == 0;
    if (op <= 1) {
      DataBuffer* db = mine.empty() || r.coin(70) ? st.db_factory()->Allocate(size[i]) : nullptr;
      if (db) { VPD_CHECK(!mine.count(db), "a buffer in use was handed out again"); for (int b = 0; b < size[i]; b++) db->Set<uint8_t>(b, r.corner()); mine[db] = i; }
      else { for (auto& m : mine) if (m.second == i || size[m.second] == size[i]) db = m.first; if (!db) continue; }
      vpd::note(vpd::cat("push ", nm[i])); bool xok = push(i, db); bool ok = F->Push(db); VPD_CHECK(ok == xok, "push on ", nm[i], " returns ", ok, " instead of ", xok);
      if (i == 1 && was && xok) xne++;
    } else if (op == 2) { vpd::note(vpd::cat("pop ", nm[i])); F->Pop(); if (R.q.empty()) { if (errs) under[i]++; } else { R.q.pop_front(); if (i == 1 && R.q.empty() && R.res == 0) xem++; } }
    else if (op == 3) { int c = r.below(3); vpd::note(vpd::cat("reserve ", c, " in ", nm[i])); F->Reserve(c); R.res += c; }
    else if (op == 4) { int l = r.below(3); DataBuffer* db = dst[i][l]->AllocateDataBuffer(); VPD_CHECK(!mine.count(db) && db->ref_count() == 1 && (int)db->size<uint8_t>() == size[i] && dst[i][l]->latency() == l, "allocated buffer"); for (int b = 0; b < size[i]; b++) db->Set<uint8_t>(b, r.corner());
      mine[db] = i; db->IncRef(); vpd::note(vpd::cat("submit to ", nm[i], " latency ", l)); if (l == 0) { if (push(i, db) && i == 1 && was) xne++; } else pend.emplace(now + l, std::make_pair(i, db)); db->Submit(); }
    else if (op == 5) { vpd::note("cycle"); st.AdvanceDelayLines(); now++; auto [b, e] = pend.equal_range(now); for (auto it = b; it != e; ++it) { bool w = ref[1].q.empty() && ref[1].res == 0; int j = it->second.first; if (push(j, it->second.second) && j == 1 && w) xne++; } pend.erase(b, e); }
    else { vpd::note(vpd::cat("front of ", nm[i])); DataBuffer* x = F->Front(); VPD_CHECK(x == (R.q.empty() ? nullptr : R.q.front()), "front of ", nm[i]); if (R.q.empty() && errs) under[i]++;
      uint64_t u = 0; int64_t s = 0; int el = 0; if (x) { if (i == 0) { el = r.below(3); u = x->Get<uint16_t>(el); s = (int16_t)u; } else if (i == 1) { u = x->Get<uint64_t>(0); s = u; } else { u = x->Get<uint32_t>(0); s = (int32_t)u; } } else if (errs) under[i] += 4;
      VPD_CHECK(src[i]->AsUint64(el) == u && src[i]->AsInt64(el) == s && src[i]->AsUint8(el) == (uint8_t)u && src[i]->AsInt16(el) == (int16_t)s, "value of the front of ", nm[i]); }
    for (int j = 0; j < 4; j++) {
      unsigned n = ref[j].q.size(), rs = ref[j].res, av = tokens - (unsigned)used();
      VPD_CHECK(f[j]->Available() == n && f[j]->Reserved() == rs && f[j]->Capacity() == (j < 2 ? cap : 100u), "counts of ", nm[j], ": ", f[j]->Available(), " entries, ", f[j]->Reserved(), " reserved instead of ", n, ", ", rs);
      VPD_CHECK(f[j]->IsEmpty() == (n == 0 && rs == 0) && f[j]->IsFull() == (j < 2 ? n + rs >= cap : rs >= av) && f[j]->IsOverSubscribed() == (j < 2 ? n + rs > cap : rs > av), "state of ", nm[j]);
      if (errs) VPD_CHECK(pc->GetErrorMessages(std::string(nm[j]) + "over").size() == over[j] && pc->GetErrorMessages(std::string(nm[j]) + "under").size() == under[j], "errors of ", nm[j]);
    }
    VPD_CHECK(store.available() == tokens - used() && store.capacity() == tokens, "tokens: ", store.available(), " left, ", used(), " of ", tokens, " in use");
    VPD_CHECK((!hne || ne == xne) && (!hem || em == xem), "notifications");
    for (auto& m : mine) { unsigned want = 1; for (auto& R2 : ref) for (auto* b : R2.q) want += b == m.first; for (auto& p : pend) want += p.second.second == m.first; VPD_CHECK(m.first->ref_count() == want, "references on an entry: ", m.first->ref_count(), " instead of ", want); }
    vpd::distinct_case(vpd::mix(vpd::mix(i, op), vpd::mix(R.q.size() * 10 + R.res, cap * 10 + tokens)));
  }
  for (int k = 0; k < 3; k++) { st.AdvanceDelayLines(); now++; auto [b, e] = pend.equal_range(now); for (auto it = b; it != e; ++it) push(it->second.first, it->second.second); }
  for (int i = 0; i < 4; i++) { note->SetOnEmpty(nullptr); while (!ref[i].q.empty()) { VPD_CHECK(f[i]->Front() == ref[i].q.front(), "order of ", nm[i]); if (r.coin(30)) break; f[i]->Pop(); ref[i].q.pop_front(); } }
  note->SetOnEmpty(nullptr); note->SetOnNotEmpty(nullptr);
  for (int i = 0; i < 4; i++) st.RemoveFifo(nm[i]);
  for (int i = 0; i < 4; i++) { auto held = ref[i].q; ref[i].q.clear(); (void)st.RemoveChildComponent(nm[i]); delete f[i]; }
  for (auto& m : mine) { VPD_CHECK(m.first->ref_count() == 1, "destroying the fifos leaves ", m.first->ref_count(), " references"); m.first->DecRef(); }
}
// a token returned behind the fifo's back: the entry still goes, the failed release is reported when there is somewhere to report it
static void Unmatched(bool errs) {
  vpd::log().clear(); vpd::cases++; vpd::note(vpd::cat("token returned behind the fifo's back, errors ", errs));
  St st; ProgramErrorController* pc = st.program_error_controller(); FifoTokenStore store(2); auto* t = st.AddFifo<TokenFifo<uint32_t>>("t", 100u, &store); if (errs) Errors(t, pc, "t");
  DataBuffer* db = st.db_factory()->Allocate(4); VPD_CHECK(t->Push(db) && store.available() == 1, "push"); VPD_CHECK(store.Release().ok() && !store.Release().ok() && store.available() == 2, "release");
  t->Pop(); VPD_CHECK(t->Available() == 0 && store.available() == 2 && db->ref_count() == 1, "pop"); if (errs) VPD_CHECK(pc->GetErrorMessages("tunder").size() == 1 && pc->GetErrorMessages("tover").empty(), "the failed release is reported");
  VPD_CHECK(store.Acquire().ok() && store.Acquire().ok() && !store.Acquire().ok() && store.available() == 0, "acquire"); VPD_CHECK(!t->Push(db) && db->ref_count() == 1, "push without a token"); if (errs) VPD_CHECK(pc->GetErrorMessages("tover").size() == 1, "the refused push is reported");
  db->DecRef();
}
int main(int argc, char** argv) {
  Rng r(atoll(argv[1])); vpd::Clock clk(atof(argv[2])); int n = std::string(argv[3]) == "quick" ? 6000 : 600000; Unmatched(false); Unmatched(true);
  for (int i = 0; i < n && (i < 100 || clk.more()); i++) { Run(r); if (i < 2) vpd::sample("40 random pushes, pops, reservations, submissions and cycles over a plain, a notifying and two token fifos"); }
  VPD_DONE(); return 0;
}
