// C06 bounded supplement: random expression trees on the real abseil, against a reference evaluator; leaks and double frees by the sanitizer.
#include <memory>
#include <optional>
#include "vpd.h"
#include "absl/status/status.h"
#include "mpact/sim/decoder/template_expression.h"
using namespace mpact::sim::machine_description::instruction_set;
using vpd::Rng;
struct Ref { char op; int64_t v = 0; int pos = 0; std::vector<std::shared_ptr<Ref>> k; };
using R = std::shared_ptr<Ref>;
static std::vector<std::unique_ptr<TemplateFormal>> g_formals;
static absl::StatusOr<TemplateValue> Sum(TemplateInstantiationArgs* a) { int64_t s = 7; int i = 1; for (auto* x : *a) { auto v = x->GetValue(); if (!v.ok()) return v.status(); s += i++ * (int64_t)std::get<int>(v.value()); } if (s > INT32_MAX || s < INT32_MIN) return absl::OutOfRangeError("overflow"); if (s % 5 == 0) return absl::InvalidArgumentError("refused"); return TemplateValue((int)s); }
static R Gen(Rng& r, int d, int np) {
  auto n = std::make_shared<Ref>(); int c = d <= 0 ? r.below(2) : r.below(9);
  if (c == 0 || np == 0 && c == 1) { n->op = 'c'; n->v = r.coin(20) ? 0 : r.coin(10) ? (int32_t)r.corner() : (int64_t)r.below(40) - 20; }
  else if (c == 1) { n->op = 'p'; n->pos = r.below(np); }
  else if (c <= 5) { n->op = "+-*/"[c - 2]; n->k = {Gen(r, d - 1, np), Gen(r, d - 1, np)}; }
  else if (c == 6) { n->op = 'n'; n->k = {Gen(r, d - 1, np)}; }
  else if (c == 7) { n->op = 's'; n->k = {Gen(r, d - 1, np)}; }
  else { n->op = 'f'; int m = r.below(4); for (int i = 0; i < m; i++) n->k.push_back(Gen(r, d - 1, np)); }
  return n;
}
static TemplateExpression* Build(const R& n) {
  switch (n->op) {
    case 'c': return n->v & 1 ? new TemplateConstant((int)n->v) : new TemplateConstant(TemplateValue((int)n->v));
    case 'p': return new TemplateParam(g_formals[n->pos].get());
    case '+': return new TemplateAdd(Build(n->k[0]), Build(n->k[1]));
    case '-': return new TemplateSubtract(Build(n->k[0]), Build(n->k[1]));
    case '*': return new TemplateMultiply(Build(n->k[0]), Build(n->k[1]));
    case '/': return new TemplateDivide(Build(n->k[0]), Build(n->k[1]));
    case 'n': return new TemplateNegate(Build(n->k[0]));
    case 's': return new SlotConstant(Build(n->k[0]));
    default: { auto* a = new TemplateInstantiationArgs; for (auto& x : n->k) a->push_back(Build(x)); return new TemplateFunction(Sum, a); }
  }
}
static std::string Show(const R& n) { if (n->op == 'c') return std::to_string(n->v); if (n->op == 'p') return "p" + std::to_string(n->pos); std::string s(1, n->op); s += "("; for (auto& x : n->k) s += Show(x) + " "; return s + ")"; }
static bool Parametric(const R& n) { if (n->op == 'p') return true; for (auto& x : n->k) if (Parametric(x)) return true; return false; }
struct Overflow {};
// value with parameters bound; nullopt = error
static std::optional<int64_t> Val(const R& n, const std::vector<R>* env) {
  std::vector<int64_t> v; if (n->op == 'c') return n->v;
  if (n->op == 'p') { if (!env || n->pos >= (int)env->size()) return std::nullopt; return Val((*env)[n->pos], nullptr); }
  bool bad = false; for (auto& x : n->k) { auto o = Val(x, env); if (!o) bad = true; v.push_back(o.value_or(0)); }
  if (bad) return std::nullopt;
  int64_t s;
  switch (n->op) { case '+': s = v[0] + v[1]; break; case '-': s = v[0] - v[1]; break; case '*': s = v[0] * v[1]; break; case '/': if (!v[1]) return std::nullopt; s = v[0] / v[1]; break; case 'n': s = -v[0]; break; case 's': s = v[0]; break;
    default: s = 7; for (size_t i = 0; i < v.size(); i++) s += (int64_t)(i + 1) * v[i]; if (s > INT32_MAX || s < INT32_MIN || s % 5 == 0) return std::nullopt; return s; }
  if (s > INT32_MAX || s < INT32_MIN) throw Overflow();
  return s;
}
static bool HasOutOfRange(const R& n, int na) { if (n->op == 'p') return n->pos >= na; for (auto& x : n->k) if (HasOutOfRange(x, na)) return true; return false; }
static void Check(TemplateExpression* e, const R& n, const std::vector<R>* env, const char* what) {
  bool par = Parametric(n);
  if (!env) VPD_CHECK(e->IsConstant() == !par, what, ": IsConstant is ", e->IsConstant(), " for ", Show(n));
  auto v = e->GetValue();
  if (!env && par) { VPD_CHECK(!v.ok(), what, ": value of a parametric expression ", Show(n)); return; }
  auto w = Val(n, env);
  VPD_CHECK(v.ok() == w.has_value(), what, ": ", Show(n), v.ok() ? " has a value" : " has no value");
  if (w) VPD_CHECK(std::get<int>(v.value()) == *w, what, ": ", Show(n), " is ", std::get<int>(v.value()), ", expected ", *w);
}
static void Case(Rng& r, int d) {
  vpd::cases++; vpd::log().clear();
  int np = r.below(4); R n = Gen(r, d, np); int na = r.coin(85) ? np : r.below(np + 1);
  std::vector<R> env; for (int i = 0; i < na; i++) env.push_back(Gen(r, 1, r.coin(70) ? 0 : 2));
  vpd::note(Show(n)); vpd::distinct_case(std::hash<std::string>()(Show(n)));
  try {
    bool envpar = false; for (auto& x : env) envpar |= Parametric(x);
    Val(n, &env); for (auto& x : env) Val(x, nullptr); Val(n, nullptr);
    std::unique_ptr<TemplateExpression> e(Build(n)); Check(e.get(), n, nullptr, "as built");
    TemplateInstantiationArgs args; std::vector<std::unique_ptr<TemplateExpression>> own; for (auto& x : env) { own.emplace_back(Build(x)); args.push_back(own.back().get()); }
    auto q = e->Evaluate(&args);
    auto w = envpar ? std::optional<int64_t>() : Val(n, &env);
    if (q.ok()) {
      std::unique_ptr<TemplateExpression> o(q.value()); VPD_CHECK(!HasOutOfRange(n, na), "parameter without argument evaluated: ", Show(n));
      if (!envpar) { VPD_CHECK(o->IsConstant(), "all arguments constant but the result is parametric: ", Show(n)); Check(o.get(), n, &env, "evaluated"); }
      std::unique_ptr<TemplateExpression> c(o->DeepCopy()); VPD_CHECK(c->IsConstant() == o->IsConstant(), "copy of the result");
      if (!envpar) Check(c.get(), n, &env, "copy of evaluated");
    } else if (!envpar) { VPD_CHECK(!w, "evaluation failed: ", Show(n), " -> ", q.status().ToString(), ", expected ", w.value_or(0)); }
    // residual: evaluate without arguments, then with
    auto p = e->Evaluate(nullptr);
    if (p.ok()) { std::unique_ptr<TemplateExpression> o(p.value()); Check(o.get(), n, nullptr, "residual"); auto s = o->Evaluate(&args); if (s.ok()) { std::unique_ptr<TemplateExpression> t(s.value()); if (!envpar) Check(t.get(), n, &env, "evaluated residual"); } else if (!envpar) VPD_CHECK(!w, "residual evaluation failed: ", Show(n)); }
    else VPD_CHECK(true, "");
    std::unique_ptr<TemplateExpression> c(e->DeepCopy()); e.reset(); Check(c.get(), n, nullptr, "copy");
  } catch (Overflow&) {}
}
int main(int argc, char** argv) {
  Rng r(atoll(argv[1])); vpd::Clock clk(atof(argv[2])); int n = std::string(argv[3]) == "quick" ? 60000 : 5000000;
  for (int i = 0; i < 8; i++) g_formals.push_back(std::make_unique<TemplateFormal>("p" + std::to_string(i), i));
  for (int i = 0; i < n && (i < 1000 || clk.more()); i++) { Case(r, i % 6); if (i >= 10 && i < 13) vpd::sample(vpd::log().empty() ? "" : vpd::log()[0]); }
  VPD_DONE();
}
