// C06: template expressions, by structural induction.  Child is an arbitrary subexpression described only by what it denotes: in generation 0
// it is what the tree holds; evaluating generation g yields an error or an owned expression of generation g+1.  Each node is checked against
// every behaviour of its children, so the result holds for trees of any depth.
#include "vp.h"
#include "mpact/sim/decoder/template_expression.cc"
using namespace mpact::sim::machine_description::instruction_set;
struct Spec { bool eval_ok; int eval_code; bool cst; bool ok; int code; int val; };
static Spec g_spec[4][3];
static TemplateInstantiationArgs* g_args[3];
static void Describe(int who) {
  for (int g = 0; g < 3; g++) {
    Spec& s = g_spec[who][g];
    s.eval_ok = vp_any<bool>("eval_ok"); s.cst = vp_any<bool>("cst"); s.ok = vp_any<bool>("ok"); s.val = vp_any<int>("val");
    s.eval_code = 1 + (vp_any<uint8_t>("ecode") & 15); s.code = 1 + (vp_any<uint8_t>("code") & 15);
    vp_assume(s.cst || !s.ok);  // a value exists only without unresolved parameters
    if (g > 0) {  // a constant stays the same constant, or its evaluation reports an error
      Spec& p = g_spec[who][g - 1];
      vp_assume(!p.cst || (s.cst && s.ok == p.ok && s.val == p.val && s.code == p.code));
      vp_assume(!p.cst || !p.ok || p.eval_ok);
    }
  }
}
struct Child : public TemplateExpression {
  int who, gen;
  Child(int w, int g) : who(w), gen(g) {}
  absl::StatusOr<TemplateValue> GetValue() const override { const Spec& s = g_spec[who][gen]; if (!s.ok) return absl::Status(s.code); return TemplateValue(s.val); }
  absl::StatusOr<TemplateExpression*> Evaluate(TemplateInstantiationArgs* a) override {
    vp_assert(a == g_args[gen], "subexpressions are evaluated with the arguments of the whole expression");
    const Spec& s = g_spec[who][gen];
    if (!s.eval_ok) return absl::Status(s.eval_code);
    return static_cast<TemplateExpression*>(new Child(who, gen + 1));
  }
  bool IsConstant() const override { return g_spec[who][gen].cst; }
  TemplateExpression* DeepCopy() const override { return new Child(who, gen); }
};
struct Mul { using N = TemplateMultiply; static bool Def(int a, int b) { return true; } static int Of(int a, int b) { return a * b; } };
struct Div { using N = TemplateDivide; static bool Def(int a, int b) { return b != 0; } static int Of(int a, int b) { return a / b; } };
struct Add { using N = TemplateAdd; static bool Def(int a, int b) { return true; } static int Of(int a, int b) { return a + b; } };
struct Sub { using N = TemplateSubtract; static bool Def(int a, int b) { return true; } static int Of(int a, int b) { return a - b; } };
// results outside int have no defined value; the quotient of the extreme values traps
template <class O> static void Representable(int g) {
  if (sizeof(typename O::N) && std::is_same<O, Div>::value) { vp_assume(!(g_spec[0][g].val == INT32_MIN && g_spec[1][g].val == -1)); }
}
template <class O> static void CheckValue(const absl::StatusOr<TemplateValue>& v, int g) {
  const Spec &a = g_spec[0][g], &b = g_spec[1][g];
  if (!a.ok || !b.ok) {
    vp_assert(!v.ok() && ((!a.ok && v.status().raw_code() == a.code) || (!b.ok && v.status().raw_code() == b.code)), "an operand's error is the error of the operation");
  } else if (!O::Def(a.val, b.val)) {
    vp_assert(!v.ok() && v.status().code() == absl::StatusCode::kInternal, "division by zero is an error");
  } else {
    vp_assert(v.ok() && std::get<int>(v.value()) == O::Of(a.val, b.val), "the value is that of the operation on the operands' values, in order");
  }
}
template <class O> static void CheckEval(TemplateExpression* e, int g) {
  int64_t h0 = __vp_heap_count();
  auto r = e->Evaluate(g_args[g]);
  const Spec &a = g_spec[0][g], &b = g_spec[1][g];
  if (!a.eval_ok || !b.eval_ok) {
    vp_assert(!r.ok() && ((!a.eval_ok && r.status().raw_code() == a.eval_code) || (!b.eval_ok && r.status().raw_code() == b.eval_code)), "an operand that cannot be evaluated fails the whole");
  } else {
    const Spec &c = g_spec[0][g + 1], &d = g_spec[1][g + 1];
    if (c.cst && d.cst) {
      if (!c.ok || !d.ok || !O::Def(c.val, d.val)) {
        vp_assert(!r.ok(), "a constant expression without a value evaluates to an error");
      } else {
        vp_assert(r.ok(), "a constant expression evaluates");
        vp_assert(r.value()->IsConstant(), "to a constant");
        auto v = r.value()->GetValue();
        vp_assert(v.ok() && std::get<int>(v.value()) == O::Of(c.val, d.val), "with the value of the operation");
      }
    } else {
      vp_assert(r.ok(), "a parametric expression evaluates");
      vp_assert(!r.value()->IsConstant(), "to one that is still parametric");
      vp_assert(!r.value()->GetValue().ok(), "and has no value");
      if (g == 0) CheckEval<O>(r.value(), 1);  // evaluating it later gives the operation on the operands' later values
    }
  }
  if (r.ok()) { vp_assert(r.value() != e, "the result is a new expression"); delete r.value(); }
  vp_assert(__vp_heap_count() == h0, "evaluation leaks nothing and the result owns its parts");
}
template <class O> static void Binary() {
  Describe(0); Describe(1);
  Representable<O>(0); Representable<O>(1); Representable<O>(2);
  TemplateInstantiationArgs a0, a1; g_args[0] = vp_any<bool>("noargs") ? nullptr : &a0; g_args[1] = &a1;
  int64_t h0 = __vp_heap_count();
  TemplateExpression* e = new typename O::N(new Child(0, 0), new Child(1, 0));
  vp_cover("pre");
  vp_assert(e->IsConstant() == (g_spec[0][0].cst && g_spec[1][0].cst), "constant iff both operands are");
  CheckValue<O>(e->GetValue(), 0);
  CheckEval<O>(e, 0);
  CheckValue<O>(e->GetValue(), 0);
  TemplateExpression* c = e->DeepCopy();
  vp_assert(c != e, "a copy is a new expression");
  delete e;
  vp_assert(c->IsConstant() == (g_spec[0][0].cst && g_spec[1][0].cst), "a copy is constant iff the original is");
  CheckValue<O>(c->GetValue(), 0);
  delete c;
  vp_assert(__vp_heap_count() == h0, "an expression owns its subexpressions");
  vp_cover("post");
}
VP_HARNESS(multiply) { Binary<Mul>(); }
VP_HARNESS(divide) { Binary<Div>(); }
VP_HARNESS(add) { Binary<Add>(); }
VP_HARNESS(subtract) { Binary<Sub>(); }

// unary nodes: sign = -1 for negation, +1 for a slot constant
static int Sgn(int s, int v) { return s < 0 ? -v : v; }
static void CheckUValue(const absl::StatusOr<TemplateValue>& v, int s, int g) {
  const Spec& a = g_spec[0][g];
  if (!a.ok) vp_assert(!v.ok() && v.status().raw_code() == a.code, "the operand's error is the error of the expression");
  else vp_assert(v.ok() && std::get<int>(v.value()) == Sgn(s, a.val), "the value follows the operand's");
}
static void CheckUEval(TemplateExpression* e, int s, int g) {
  int64_t h0 = __vp_heap_count();
  auto r = e->Evaluate(g_args[g]);
  const Spec& a = g_spec[0][g];
  if (!a.eval_ok) {
    vp_assert(!r.ok() && r.status().raw_code() == a.eval_code, "an operand that cannot be evaluated fails the whole");
  } else {
    const Spec& c = g_spec[0][g + 1];
    if (c.cst && !c.ok) {
      if (r.ok()) vp_assert(r.value()->IsConstant() && !r.value()->GetValue().ok(), "an operand without a value gives none");
      else vp_assert(r.status().raw_code() == c.code, "the operand's error is reported");
    } else {
      vp_assert(r.ok(), "evaluates");
      vp_assert(r.value()->IsConstant() == c.cst, "constant iff the operand's result is");
      CheckUValue(r.value()->GetValue(), s, g + 1);
      if (!c.cst && g == 0) CheckUEval(r.value(), s, 1);
    }
  }
  if (r.ok()) { vp_assert(r.value() != e, "the result is a new expression"); delete r.value(); }
  vp_assert(__vp_heap_count() == h0, "evaluation leaks nothing and the result owns its parts");
}
template <class N> static void Unary(int s) {
  Describe(0);
  TemplateInstantiationArgs a0, a1; g_args[0] = vp_any<bool>("noargs") ? nullptr : &a0; g_args[1] = &a1;
  int64_t h0 = __vp_heap_count();
  TemplateExpression* e = new N(new Child(0, 0));
  vp_cover("pre");
  vp_assert(e->IsConstant() == g_spec[0][0].cst, "constant iff the operand is");
  CheckUValue(e->GetValue(), s, 0);
  CheckUEval(e, s, 0);
  TemplateExpression* c = e->DeepCopy();
  vp_assert(c != e, "a copy is a new expression");
  delete e;
  vp_assert(c->IsConstant() == g_spec[0][0].cst, "a copy is constant iff the original is");
  CheckUValue(c->GetValue(), s, 0);
  delete c;
  vp_assert(__vp_heap_count() == h0, "an expression owns its subexpression");
  vp_cover("post");
}
VP_HARNESS(negate) { Unary<TemplateNegate>(-1); }
VP_HARNESS(slot_constant) { Unary<SlotConstant>(1); }
VP_HARNESS(constant) {
  int v = vp_any<int>("v");
  int64_t h0 = __vp_heap_count();
  TemplateExpression* e = vp_any<bool>("int") ? new TemplateConstant(v) : new TemplateConstant(TemplateValue(v));
  TemplateInstantiationArgs a;
  auto r = e->Evaluate(vp_any<bool>("noargs") ? nullptr : &a);
  vp_assert(e->IsConstant() && std::get<int>(e->GetValue().value()) == v, "a constant has its value");
  vp_assert(r.ok() && r.value() != e && r.value()->IsConstant() && std::get<int>(r.value()->GetValue().value()) == v, "and evaluates to itself");
  TemplateExpression* c = e->DeepCopy();
  delete e; delete r.value();
  vp_assert(c->IsConstant() && std::get<int>(c->GetValue().value()) == v, "as does its copy");
  delete c;
  vp_assert(__vp_heap_count() == h0, "nothing is leaked");
  vp_cover("post");
}
VP_HARNESS(parameter) {
  Describe(0);
  uint64_t pos = vp_any<uint64_t>("pos");
  vp_assume(pos < (1u << 31));
  TemplateFormal formal("p", (int)pos);
  TemplateInstantiationArgs args, none;
  uint64_t n = vp_any<uint64_t>("n");
  vp_assume(n < 1000000);
  args.n = n;
  Child* child = new Child(0, 0);
  if (pos < n) args.d[pos] = child;
  g_args[0] = nullptr;  // the argument belongs to the surrounding context
  int64_t h0 = __vp_heap_count();
  TemplateExpression* e = new TemplateParam(&formal);
  vp_cover("pre");
  vp_assert(!e->IsConstant() && !e->GetValue().ok(), "a parameter has no value by itself");
  auto r = e->Evaluate(&args);
  if (pos >= n) {
    vp_assert(!r.ok(), "a parameter without an argument is an error");
  } else {
    const Spec &s = g_spec[0][0], &t = g_spec[0][1];
    if (s.cst) {
      if (s.ok) {
        vp_assert(r.ok() && r.value()->IsConstant(), "a constant argument gives a constant");
        auto v = r.value()->GetValue();
        vp_assert(v.ok() && std::get<int>(v.value()) == s.val, "with the argument's value");
      } else if (r.ok()) { vp_assert(!r.value()->GetValue().ok(), "no value"); }
    } else if (s.eval_ok) {
      vp_assert(r.ok() && r.value()->IsConstant() == t.cst, "the argument is evaluated in its own context");
      auto v = r.value()->GetValue();
      vp_assert(v.ok() == t.ok && (!t.ok || std::get<int>(v.value()) == t.val), "and stands for the parameter");
    } else {
      vp_assert(!r.ok() && r.status().raw_code() == s.eval_code, "an argument that cannot be evaluated fails");
    }
  }
  if (r.ok()) { vp_assert(r.value() != child, "the result does not share the argument"); delete r.value(); }
  auto q = e->Evaluate(nullptr);
  vp_assert(q.ok() && q.value() != e && !q.value()->IsConstant(), "without arguments a parameter stays a parameter");
  auto q2 = q.value()->Evaluate(&args);
  vp_assert(q2.ok() == r.ok(), "of the same position");
  if (q2.ok()) delete q2.value();
  delete q.value();
  TemplateExpression* c = e->DeepCopy();
  delete e;
  auto q3 = c->Evaluate(&args);
  vp_assert(!c->IsConstant() && q3.ok() == r.ok(), "a copy is the same parameter");
  if (q3.ok()) delete q3.value();
  delete c;
  vp_assert(__vp_heap_count() == h0, "nothing is leaked and the arguments are not owned");
  vp_cover("post");
}
// function nodes with K arguments (bounded in the number of arguments only)
static int g_k, g_gen;
static bool g_fok; static int g_fval, g_fcode, g_calls;
static absl::StatusOr<TemplateValue> Fn(TemplateInstantiationArgs* a) {
  vp_assert((int)a->size() == g_k, "the function gets all its arguments");
  for (int i = 0; i < g_k; i++) { Child* c = static_cast<Child*>((*a)[i]); vp_assert(c->who == i && c->gen == g_gen, "in order"); }
  g_calls++;
  if (!g_fok) return absl::Status(g_fcode);
  return TemplateValue(g_fval);
}
template <int K> static void Function() {
  g_k = K; g_gen = 0; g_calls = 0;
  for (int i = 0; i < K; i++) Describe(i);
  g_fok = vp_any<bool>("fok"); g_fval = vp_any<int>("fval"); g_fcode = 1 + (vp_any<uint8_t>("fcode") & 15);
  TemplateInstantiationArgs a0, a1; g_args[0] = vp_any<bool>("noargs") ? nullptr : &a0; g_args[1] = &a1;
  int64_t h0 = __vp_heap_count();
  auto* fa = new TemplateInstantiationArgs;
  for (int i = 0; i < K; i++) fa->push_back(new Child(i, 0));
  TemplateExpression* e = new TemplateFunction(Fn, fa);
  bool allc = true, alle = true, allc1 = true;
  for (int i = 0; i < K; i++) { allc &= g_spec[i][0].cst; alle &= g_spec[i][0].eval_ok; allc1 &= g_spec[i][1].cst; }
  vp_cover("pre");
  vp_assert(e->IsConstant() == allc, "constant iff all arguments are");
  auto v = e->GetValue();
  if (allc) vp_assert(v.ok() == g_fok && (g_fok ? std::get<int>(v.value()) == g_fval : v.status().raw_code() == g_fcode), "the value is the function's result");
  else vp_assert(!v.ok() && g_calls == 0, "no value while an argument is parametric");
  int64_t h1 = __vp_heap_count();
  auto r = e->Evaluate(g_args[0]);
  vp_assert(r.ok() == alle, "evaluates iff all arguments do");
  if (r.ok()) {
    vp_assert(r.value() != e && r.value()->IsConstant() == allc1, "constant iff all evaluated arguments are");
    g_gen = 1;
    auto w = r.value()->GetValue();
    if (allc1) vp_assert(w.ok() == g_fok && (!g_fok || std::get<int>(w.value()) == g_fval), "with the function's result on the evaluated arguments");
    else vp_assert(!w.ok(), "no value while an argument is parametric");
    delete r.value();
  }
  vp_assert(__vp_heap_count() == h1, "evaluation leaks nothing, also when an argument fails");
  g_gen = 0;
  TemplateExpression* c = e->DeepCopy();
  delete e;
  vp_assert(c->IsConstant() == allc, "a copy is constant iff the original is");
  auto cv = c->GetValue();
  if (allc) vp_assert(cv.ok() == g_fok, "a copy has the same value");
  delete c;
  vp_assert(__vp_heap_count() == h0, "a function owns its arguments");
  vp_cover("post");
}
VP_BOUNDED(function0) { Function<0>(); }
VP_BOUNDED(function1) { Function<1>(); }
VP_BOUNDED(function2) { Function<2>(); }
VP_BOUNDED(function3) { Function<3>(); }
