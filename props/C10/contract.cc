// C10: program errors.  The controller knows any number of errors; three of them are tracked: the internal one (I), X and Y (arbitrary, distinct).
// Each has a mask flag m and a number c of messages; invariant: it is in the set of active masked errors iff m and c > 0, in the set of active
// unmasked errors iff !m and c > 0, and the internal error is never masked.  U is a name that is not registered.
#include "vp.h"
#include "mpact/sim/generic/program_error.cc"
using namespace mpact::sim::generic;
using PC = ProgramErrorController;
enum { I = 0, X = 1, Y = 2, U = 3 };
struct E { uint64_t id; int ix; bool m; uint64_t c; };
static E g[4];
static const void* g_map; static const void* g_mset; static const void* g_uset;
namespace std {
template <> struct vp_lazy_entry<string, int> {
  static bool present(const void*, const string& k) { return k.id == g[I].id || k.id == g[X].id || k.id == g[Y].id; }
  static void init(const void*, const string& k, int* v) { *v = k.id == g[I].id ? g[I].ix : k.id == g[X].id ? g[X].ix : g[Y].ix; }
};
template <> struct vp_lazy_entry<int, char> {
  static bool present(const void* s, const int& k) {
    bool want = s == g_mset;
    for (int j = 0; j < 3; j++) if (k == g[j].ix) return g[j].c > 0 && g[j].m == want;
    return vp_any<bool>("other");
  }
  static void init(const void*, const int&, char* v) { *v = 0; }
};
}
static PC* pc;
static uint64_t nm, nu;
static std::string_view Name(int who) { std::string_view s; s.id = g[who].id; return s; }
static void Setup() {
  pc = new PC("c");
  int n = vp_any<int>("n");
  vp_assume(n >= 3 && n < 1000000);
  std::string_view in(PC::kInternalErrorName);
  g[I].id = in.id;
  g[X].id = vp_any<uint64_t>("x"); g[Y].id = vp_any<uint64_t>("y"); g[U].id = vp_any<uint64_t>("u");
  vp_assume(g[X].id != g[I].id && g[Y].id != g[I].id && g[X].id != g[Y].id && g[U].id != g[I].id && g[U].id != g[X].id && g[U].id != g[Y].id);
  g[I].ix = 0; g[X].ix = vp_any<int>("ix"); g[Y].ix = vp_any<int>("iy");
  vp_assume(g[X].ix > 0 && g[X].ix < n && g[Y].ix > 0 && g[Y].ix < n && g[X].ix != g[Y].ix);
  for (int j = 0; j < 3; j++) {
    g[j].m = j == I ? false : vp_any<bool>("masked");
    g[j].c = vp_any<uint64_t>("messages");
    vp_assume(g[j].c < 1000000);
    auto* e = new (&pc->program_error_info_.d[g[j].ix]) PC::ProgramErrorInfo(Name(j));
    e->is_masked = g[j].m;
    e->error_messages.n = g[j].c;
  }
  pc->program_error_info_.n = (uint64_t)n;
  pc->program_error_map_.clear();
  pc->program_error_map_.lazy = true;
  g_map = &pc->program_error_map_;
  pc->masked_program_errors_.m.lazy = true; pc->masked_program_errors_.m.counted = true;
  pc->unmasked_program_errors_.m.lazy = true; pc->unmasked_program_errors_.m.counted = true;
  g_mset = &pc->masked_program_errors_.m; g_uset = &pc->unmasked_program_errors_.m;
  // active errors other than the three tracked ones
  nm = vp_any<uint64_t>("nm"); nu = vp_any<uint64_t>("nu");
  vp_assume(nm < 1000000 && nu < 1000000);
  uint64_t tm = 0, tu = 0;
  for (int j = 0; j < 3; j++) { if (g[j].c > 0 && g[j].m) tm++; if (g[j].c > 0 && !g[j].m) tu++; }
  pc->masked_program_errors_.m.unk = nm + tm;
  pc->unmasked_program_errors_.m.unk = nu + tu;
}
static void Check() {
  uint64_t tm = nm, tu = nu;
  for (int j = 0; j < 3; j++) {
    auto& e = pc->program_error_info_.d[g[j].ix];
    vp_assert(e.name.id == g[j].id, "names stay");
    vp_assert(e.is_masked == g[j].m, "masked exactly when last masked, the internal error never");
    vp_assert(e.error_messages.n == g[j].c, "the messages of an error are those raised since it was cleared");
    bool a = g[j].c > 0;
    vp_assert(pc->masked_program_errors_.contains(g[j].ix) == (a && g[j].m), "active masked errors");
    vp_assert(pc->unmasked_program_errors_.contains(g[j].ix) == (a && !g[j].m), "active unmasked errors");
    if (a && g[j].m) tm++;
    if (a && !g[j].m) tu++;
  }
  vp_assert(pc->HasMaskedError() == (tm != 0), "a masked error is reported exactly when one is active");
  vp_assert(pc->HasUnmaskedError() == (tu != 0), "an unmasked error is reported exactly when one is active");
  vp_assert(pc->HasError() == (tm + tu != 0), "an error is reported exactly when one is active");
}
static void Internal() { g[I].c++; }
template <int W> static void RaiseOp() {
  Setup();
  std::string_view msg; msg.id = vp_any<uint64_t>("msg");
  vp_cover("pre");
  pc->Raise(Name(W), msg);
  int t = W == U ? I : W;
  g[t].c++;
  Check();
  auto& l = pc->program_error_info_.d[g[t].ix].error_messages;
  if (W != U) vp_assert(l.d[g[t].c - 1].id == msg.id, "the message is the last one");
  vp_cover("post");
}
VP_HARNESS(raise_internal) { RaiseOp<I>(); }
VP_HARNESS(raise_known) { RaiseOp<X>(); }
VP_HARNESS(raise_unknown) { RaiseOp<U>(); }
template <int W> static void ClearOp() {
  Setup(); vp_cover("pre");
  pc->Clear(Name(W));
  if (W == U) Internal(); else g[W].c = 0;
  Check(); vp_cover("post");
}
VP_HARNESS(clear_internal) { ClearOp<I>(); }
VP_HARNESS(clear_known) { ClearOp<X>(); }
VP_HARNESS(clear_unknown) { ClearOp<U>(); }
template <int W> static void MaskOp() {
  Setup(); vp_cover("pre");
  pc->Mask(Name(W));
  if (W == X) g[X].m = true; else Internal();
  Check(); vp_cover("post");
}
VP_HARNESS(mask_internal) { MaskOp<I>(); }
VP_HARNESS(mask_known) { MaskOp<X>(); }
VP_HARNESS(mask_unknown) { MaskOp<U>(); }
template <int W> static void UnmaskOp() {
  Setup(); vp_cover("pre");
  pc->Unmask(Name(W));
  if (W == U) Internal(); else g[W].m = false;
  Check(); vp_cover("post");
}
VP_HARNESS(unmask_internal) { UnmaskOp<I>(); }
VP_HARNESS(unmask_known) { UnmaskOp<X>(); }
VP_HARNESS(unmask_unknown) { UnmaskOp<U>(); }
template <int W> static void Queries() {
  Setup(); vp_cover("pre");
  bool r = pc->IsMasked(Name(W));
  vp_assert(r == (W == U ? false : g[W].m), "IsMasked tells the mask");
  if (W == U) Internal();
  const auto& l = pc->GetErrorMessages(Name(W));
  if (W == U) Internal();
  vp_assert(&l == &pc->program_error_info_.d[W == U ? 0 : g[W].ix].error_messages, "the messages of the error asked for, of the internal error if there is no such error");
  vp_assert(pc->HasProgramErrorName(Name(W)) == (W != U), "knows the registered names");
  auto p = pc->GetProgramError(Name(W));
  vp_assert((p != nullptr) == (W != U), "a handle for each registered name");
  Check();
  if (p) {
    vp_assert(p->name().id == g[W].id, "the handle has the name");
    std::string_view msg; msg.id = vp_any<uint64_t>("msg");
    p->Raise(msg);
    g[W == U ? I : W].c++;
    Check();
    vp_assert(pc->program_error_info_.d[g[W == U ? I : W].ix].error_messages.d[g[W == U ? I : W].c - 1].id == msg.id, "raised through the handle");
  }
  vp_cover("post");
}
VP_HARNESS(queries_internal) { Queries<I>(); }
VP_HARNESS(queries_known) { Queries<X>(); }
VP_HARNESS(queries_unknown) { Queries<U>(); }
template <int W> static void AddOp() {
  Setup(); vp_cover("pre");
  uint64_t n = pc->program_error_info_.n;
  bool r = pc->AddProgramErrorName(Name(W));
  vp_assert(r == (W == U), "only a new name is added");
  if (W != U) { Internal(); vp_assert(pc->program_error_info_.n == n, "no second entry"); }
  else {
    vp_assert(pc->program_error_info_.n == n + 1, "one more error");
    auto& e = pc->program_error_info_.d[n];
    vp_assert(e.name.id == g[U].id && !e.is_masked && e.error_messages.n == 0, "unmasked and without messages");
    vp_assert(pc->HasProgramErrorName(Name(U)), "registered");
    std::string_view msg; msg.id = vp_any<uint64_t>("msg");
    g[U].ix = (int)n;
  }
  Check(); vp_cover("post");
}
VP_HARNESS(add_internal) { AddOp<I>(); }
VP_HARNESS(add_known) { AddOp<X>(); }
VP_HARNESS(add_unknown) { AddOp<U>(); }
VP_HARNESS(created) {
  PC p("c");
  vp_assert(!p.HasError() && !p.HasMaskedError() && !p.HasUnmaskedError(), "no errors at first");
  vp_assert(p.HasProgramErrorName(PC::kInternalErrorName) && !p.IsMasked(PC::kInternalErrorName) && p.GetErrorMessages(PC::kInternalErrorName).size() == 0, "the internal error is registered, unmasked and silent");
  vp_assert(p.program_error_map_.size() == 1 && p.program_error_info_.size() == 1 && p.program_error_info_[0].name == PC::kInternalErrorName, "and the only one, at index 0");
  vp_cover("post");
}
// Bounded: the operations that visit every error, on controllers with 1..4 errors in any state.
template <int N> static void All() {
  PC p("c");
  bool act[N], msk[N];
  std::string nm_[N];
  for (int j = 1; j < N; j++) { nm_[j].id = (uint64_t)j; vp_assert(p.AddProgramErrorName(nm_[j]), "added"); }
  nm_[0].id = std::string_view(PC::kInternalErrorName).id;
  int na = 0, nmk = 0;
  for (int j = 0; j < N; j++) {
    act[j] = vp_any<bool>("active"); msk[j] = j > 0 && vp_any<bool>("masked");
    __vp_split(act[j]); __vp_split(msk[j]);
    if (act[j]) { p.Raise(nm_[j], "m"); p.Raise(nm_[j], "k"); }
    if (msk[j]) p.Mask(nm_[j]);
    if (act[j] && msk[j]) nmk++;
    if (act[j] && !msk[j]) na++;
  }
  auto a = p.GetMaskedErrorNames(); auto b = p.GetUnmaskedErrorNames();
  vp_assert((int)a.size() == nmk && (int)b.size() == na, "each active error is listed once");
  for (int j = 0; j < N; j++) {
    int ca = 0, cb = 0;
    for (auto& s : a) if (s == nm_[j]) ca++;
    for (auto& s : b) if (s == nm_[j]) cb++;
    vp_assert(ca == (act[j] && msk[j] ? 1 : 0) && cb == (act[j] && !msk[j] ? 1 : 0), "in the list of its kind");
  }
  p.ClearAll();
  vp_assert(!p.HasError() && !p.HasMaskedError() && !p.HasUnmaskedError(), "ClearAll leaves no active error");
  for (int j = 0; j < N; j++) vp_assert(p.GetErrorMessages(nm_[j]).size() == 0 && p.IsMasked(nm_[j]) == msk[j], "no messages, and the masks as they were");
  vp_cover("post");
}
VP_BOUNDED(all1) { All<1>(); }
VP_BOUNDED(all2) { All<2>(); }
VP_BOUNDED(all3) { All<3>(); }
VP_BOUNDED(all4) { All<4>(); }
