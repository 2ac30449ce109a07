// C27 bounded supplement: random formats, overlays and encodings against a bit by bit reference; the extractor text is evaluated by a small interpreter.
#include <cctype>
#include <cstring>
#include <functional>
#include <map>
#include <memory>
#include <vector>
#include "vpd.h"
#include "mpact/sim/decoder/bin_encoding_info.h"
#include "mpact/sim/decoder/decoder_error_listener.h"
#include "mpact/sim/decoder/format.h"
#include "mpact/sim/decoder/instruction_encoding.h"
#include "mpact/sim/decoder/overlay.h"
namespace bf = mpact::sim::decoder::bin_format;
using bf::BinaryNum; using bf::BinEncodingInfo; using bf::BitRange; using bf::Constraint; using bf::ConstraintType; using bf::Field; using bf::Format; using bf::InstructionEncoding; using bf::Overlay;
using mpact::sim::decoder::DecoderErrorListener;
using vpd::Rng;
// interprets  result (=||=) expr;  with >> << & | ( ) numbers, the input, and ExtractBits<..>(value, high, width)
struct Ev {
  const char* p; uint64_t val; const std::string& vn; bool bad = false;
  void ws() { while (*p == ' ' || *p == '\t') p++; }
  bool eat(const char* s) { ws(); if (strncmp(p, s, strlen(s))) return false; p += strlen(s); return true; }
  uint64_t prim() {
    ws();
    if (*p == '(') { p++; uint64_t r = ior(); if (!eat(")")) bad = true; return r; }
    if (eat("ExtractBits<")) { while (*p && *p != '>') p++; p++; if (!eat("(") || !eat(vn.c_str()) || !eat(",")) bad = true; uint64_t h = ior(); if (!eat(",")) bad = true; uint64_t w = ior(); if (!eat(")")) bad = true; if (w < 1 || w > 64 || h > 63 || w > h + 1) { bad = true; return 0; } return (val >> (h - w + 1)) & (w == 64 ? ~0ull : (1ull << w) - 1); }
    if (isdigit(*p)) { char* e; uint64_t r = strtoull(p, &e, 0); p = e; while (*p == 'u' || *p == 'U' || *p == 'l' || *p == 'L') p++; return r; }
    if (!strncmp(p, vn.c_str(), vn.size())) { p += vn.size(); return val; }
    bad = true; return 0;
  }
  uint64_t sh() { uint64_t r = prim(); for (;;) { ws(); if (!strncmp(p, ">>", 2)) { p += 2; uint64_t s = prim(); if (s > 63) bad = true; r = s > 63 ? 0 : r >> s; } else if (!strncmp(p, "<<", 2)) { p += 2; uint64_t s = prim(); if (s > 63) bad = true; r = s > 63 ? 0 : r << s; } else return r; } }
  uint64_t iand() { uint64_t r = sh(); for (;;) { ws(); if (*p == '&') { p++; r &= sh(); } else return r; } }
  uint64_t ior() { uint64_t r = iand(); for (;;) { ws(); if (*p == '|' && p[1] != '=') { p++; r |= iand(); } else return r; } }
};
static bool EvalText(const std::string& t, uint64_t val, const std::string& vn, const std::string& rn, uint64_t* out) {
  Ev e{t.c_str(), val, vn}; bool init = false; uint64_t res = 0;
  for (;;) {
    while (isspace((unsigned char)*e.p)) e.p++;
    if (!*e.p) break;
    if (strncmp(e.p, rn.c_str(), rn.size())) return false;
    e.p += rn.size(); e.ws();
    bool o = *e.p == '|'; if (o) e.p++;
    if (*e.p != '=') return false;
    e.p++;
    uint64_t x = e.ior(); e.ws();
    if (e.bad || *e.p != ';') return false;
    e.p++;
    if (o) { if (!init) return false; res |= x; } else { res = x; init = true; }
  }
  *out = res;
  return true;
}
static uint64_t ones(int w) { return w >= 64 ? ~0ull : (1ull << w) - 1; }
struct F { std::string n; bool sg; int w, low; };
struct Bit { bool konst; int at; };     // at: bit of the word, or the constant's value
struct O { std::string n; bool sg; std::vector<Bit> bits; bool has_const = false; Overlay* o; uint64_t mask = 0; };
static uint64_t ValueOf(const O& o, uint64_t x) { uint64_t v = 0; for (auto& b : o.bits) v = (v << 1) | (b.konst ? b.at : (x >> b.at) & 1); return v; }
static uint64_t WordOf(const O& o, uint64_t v) { uint64_t x = 0; int n = o.bits.size(); for (int i = 0; i < n; i++) if (!o.bits[i].konst && ((v >> (n - 1 - i)) & 1)) x |= 1ull << o.bits[i].at; return x; }
struct C { int f = -1, o = -1; ConstraintType t; int64_t v; int rf = -1, ro = -1; };
static bool Fits(bool sg, int w, ConstraintType t, int64_t v) {
  if (w >= 64) return false;
  if (!sg) return v >= 0 && (uint64_t)v <= ones(w);
  if (t != ConstraintType::kEq && t != ConstraintType::kNe) return false;
  return v >= -(1ll << (w - 1)) && v < (1ll << (w - 1));
}
static void Run(Rng& r) {
  vpd::log().clear(); vpd::cases++;
  DecoderErrorListener lst; BinEncodingInfo info("Op", &lst);
  int W = r.coin(30) ? 64 : r.coin() ? 32 : 1 + r.below(64); auto fr = info.AddFormat("fmt", W); VPD_CHECK(fr.ok(), "format"); Format* fmt = *fr; VPD_CHECK(!info.AddFormat("fmt", W).ok(), "two formats with one name"); VPD_CHECK(info.GetFormat("fmt") == fmt && info.GetFormat("gmt") == nullptr, "format by name");
  std::vector<F> fs; int left = W; bool wrong = r.coin(5);
  while (left > 0) { int w = 1 + r.below(r.coin(20) ? left : left < 9 ? left : 9); F f{vpd::cat("f", fs.size()), r.coin(30), w, left - w}; vpd::note(vpd::cat("field ", f.n, " width ", w, f.sg ? " signed" : "")); VPD_CHECK(fmt->AddField(f.n, f.sg, w).ok(), "field refused"); fs.push_back(f); left -= w; }
  VPD_CHECK(!fmt->AddField(fs[r.below(fs.size())].n, false, 3).ok(), "two fields with one name");
  if (wrong) { (void)fmt->AddField("extra", false, 1 + r.below(5)); VPD_CHECK(!fmt->ComputeAndCheckFormatWidth().ok(), "format wider than declared"); return; }
  std::vector<O> os; int no = 1 + r.below(5);
  for (int i = 0; i < no; i++) {
    O o; o.n = vpd::cat("o", i); o.sg = r.coin(30); int want = r.coin(10) ? 64 : 1 + r.below(40); bool consts = r.coin(40), overlap = r.coin(15); uint64_t used = 0;
    std::vector<std::function<void(Overlay*)>> todo; auto take = [&](int lo, int w) { uint64_t m = ones(w) << lo; if (!overlap && (used & m)) return false; used |= m; return true; };
    for (int k = 0; k < 12 && (int)o.bits.size() < want; k++) {
      int room = want - o.bits.size(); int what = r.below(4);
      if (what == 0 && consts) { int w = 1 + r.below(room < 8 ? room : 8); int64_t v = r.next() & ones(w); for (int b = w - 1; b >= 0; b--) o.bits.push_back({true, (int)((v >> b) & 1)}); o.has_const = true; vpd::note(vpd::cat(o.n, ": constant ", v, " of ", w)); todo.push_back([=](Overlay* x) { BinaryNum b; b.value = v; b.width = w; x->AddBitConstant(b); }); }
      else if (what == 1) { const F& f = fs[r.below(fs.size())]; if (f.w > room || !take(f.low, f.w)) continue; for (int b = f.w - 1; b >= 0; b--) o.bits.push_back({false, f.low + b}); vpd::note(vpd::cat(o.n, ": ", f.n)); todo.push_back([&f](Overlay* x) { VPD_CHECK(x->AddFieldReference(f.n).ok(), "field reference refused"); }); }
      else { const F& f = fs[r.below(fs.size())]; bool whole = what == 3; int base = whole ? 0 : f.low, w = whole ? W : f.w; std::vector<BitRange> v; int nr = 1 + r.below(3); for (int q = 0; q < nr; q++) { int lo = r.below(w), hi = lo + r.below(w - lo); int len = hi - lo + 1; if (len > want - (int)o.bits.size() || !take(base + lo, len)) continue; v.push_back({hi, lo}); for (int b = hi; b >= lo; b--) o.bits.push_back({false, base + b}); vpd::note(vpd::cat(o.n, ": ", whole ? "format" : f.n, "[", hi, "..", lo, "]")); } if (v.empty()) continue;
        todo.push_back([=, &f](Overlay* x) { auto st = whole ? x->AddFormatReference(v) : x->AddFieldReference(f.n, v); VPD_CHECK(st.ok(), "bit ranges refused"); }); }
    }
    if (o.bits.empty()) continue;
    vpd::note(vpd::cat("overlay ", o.n, " width ", o.bits.size(), o.sg ? " signed" : "")); auto ov = fmt->AddFieldOverlay(o.n, o.sg, o.bits.size()); VPD_CHECK(ov.ok(), "overlay refused"); o.o = *ov; for (auto& t : todo) t(o.o);
    VPD_CHECK(!fmt->AddFieldOverlay(o.n, false, 3).ok() && !fmt->AddFieldOverlay(fs[0].n, false, 3).ok(), "overlay with a name in use");
    { const F& f = fs[r.below(fs.size())]; int bad = r.below(3); std::vector<BitRange> v{bad == 0 ? BitRange{f.w, 0} : bad == 1 ? BitRange{0, f.w} : BitRange{0, 1 + (int)r.below(3)}}; auto* t = new Overlay("t", false, 8, fmt); VPD_CHECK(!t->AddFieldReference(f.n, v).ok(), "bits outside of the field accepted"); VPD_CHECK(!t->AddFieldReference("none").ok(), "unknown field"); if (bad == 0) v[0] = {W, 0}; VPD_CHECK(bad != 0 || !t->AddFormatReference(v).ok(), "bits outside of the format accepted"); delete t; }
    for (auto& b : o.bits) if (!b.konst) o.mask |= 1ull << b.at;
    os.push_back(o);
  }
  VPD_CHECK(fmt->ComputeAndCheckFormatWidth().ok(), "format with the declared width refused");
  if (r.coin(20)) for (auto& o : os) VPD_CHECK(o.o->ComputeHighLow().ok(), "laid out again");
  for (auto& f : fs) { Field* x = fmt->GetField(f.n); VPD_CHECK(x && x->low == f.low && x->high == f.low + f.w - 1 && x->width == f.w, "place of field ", f.n); }
  for (auto& o : os) {
    VPD_CHECK(fmt->GetOverlay(o.n) == o.o && o.o->computed_width() == (int)o.bits.size(), "width of overlay ", o.n); VPD_CHECK(o.o->mask() == o.mask, std::hex, "mask of overlay ", o.n, " is 0x", o.o->mask(), " expected 0x", o.mask); VPD_CHECK(o.o->must_be_extracted() == o.has_const, "constant bits of ", o.n);
    std::string simple = o.o->WriteSimpleValueExtractor("value", "result"), wide = o.o->WriteComplexValueExtractor("value", "result", "uint64_t");
    for (int k = 0; k < 6; k++) {
      uint64_t x = k == 0 ? ~0ull : k == 1 ? 0 : r.next(); if (W < 64) x &= ones(W); auto v = o.o->GetValue(x); uint64_t want = ValueOf(o, x); VPD_CHECK(v.ok() && *v == want, std::hex, "value of ", o.n, " for 0x", x, " is 0x", v.ok() ? *v : 0, " expected 0x", want);
      uint64_t t; VPD_CHECK(EvalText(simple, x, "value", "result", &t) && t == want, std::hex, "extractor of ", o.n, " for 0x", x, " computes 0x", t, " expected 0x", want, ": ", simple); VPD_CHECK(EvalText(wide, x, "value", "result", &t) && t == want, std::hex, "wide extractor of ", o.n, " for 0x", x, " computes 0x", t, " expected 0x", want, ": ", wide);
      uint64_t y = r.next() & ones(o.bits.size()); auto b = o.o->GetBitField(y); VPD_CHECK(b.ok() && *b == WordOf(o, y), std::hex, "bits of ", o.n, " for 0x", y, " are 0x", b.ok() ? *b : 0);
    }
  }
  // an encoding
  auto enc = std::make_unique<InstructionEncoding>("insn", fmt, false); std::vector<C> eq, ex, other; bool overlapping = false; uint64_t taken = 0;
  static const ConstraintType kT[] = {ConstraintType::kEq, ConstraintType::kNe, ConstraintType::kLt, ConstraintType::kLe, ConstraintType::kGt, ConstraintType::kGe};
  auto check = [&]() {
    uint64_t mask = 0, value = 0, all = 0; auto m = [&](int f, int o) -> uint64_t { return f >= 0 ? ones(fs[f].w) << fs[f].low : o >= 0 ? os[o].mask : 0; };
    for (auto& c : eq) { uint64_t b = c.f >= 0 ? ((uint64_t)c.v & ones(fs[c.f].w)) << fs[c.f].low : WordOf(os[c.o], (uint64_t)c.v & ones(os[c.o].bits.size())); mask |= m(c.f, c.o); value |= b; }
    all = mask; for (auto& c : ex) all |= m(c.f, c.o); for (auto& c : other) all |= m(c.f, c.o) | m(c.rf, c.ro);
    int order = r.below(3); for (int i = 0; i < 3; i++) { int w = (order + i) % 3; uint64_t got = w == 0 ? enc->GetMask() : w == 1 ? enc->GetValue() : enc->GetCombinedMask(), want = w == 0 ? mask : w == 1 ? value : all; VPD_CHECK(got == want, std::hex, w == 0 ? "mask 0x" : w == 1 ? "value 0x" : "combined mask 0x", got, " expected 0x", want); if (r.coin(30)) break; }
    if (overlapping) return;
    // the masked word has the value exactly if every equality holds
    for (int k = 0; k < 8; k++) { uint64_t x = r.next(); if (r.coin()) x = (x & ~mask) | value; if (r.coin(40)) x ^= 1ull << r.below(64); if (W < 64) x &= ones(W); bool all_eq = true; for (auto& c : eq) { uint64_t have = c.f >= 0 ? (x >> fs[c.f].low) & ones(fs[c.f].w) : ValueOf(os[c.o], x); uint64_t want = (uint64_t)c.v & ones(c.f >= 0 ? fs[c.f].w : (int)os[c.o].bits.size()); all_eq &= have == want; } VPD_CHECK(((x & enc->GetMask()) == enc->GetValue()) == all_eq, std::hex, "word 0x", x, all_eq ? " does not match" : " matches"); }
  };
  for (int i = r.below(8); i > 0; i--) {
    C c; bool of = r.coin(30) && !os.empty(); if (of) c.o = r.below(os.size()); else c.f = r.below(fs.size()); int w = of ? os[c.o].bits.size() : fs[c.f].w; bool sg = of ? os[c.o].sg : fs[c.f].sg; std::string n = of ? os[c.o].n : fs[c.f].n; c.v = r.coin(80) ? (int64_t)(r.next() & ones(sg ? w - 1 : w)) : r.coin() ? (int64_t)r.corner() : (r.coin() ? 1 : -1) * (int64_t)(1ull << std::min<int>(w - 1 + r.below(2), 62)) - (int64_t)r.below(2); if (sg && r.coin(30)) c.v = ~c.v;
    int what = r.below(3);
    if (what == 0) { c.t = ConstraintType::kEq; vpd::note(vpd::cat(n, " == ", c.v)); bool ok = enc->AddEqualConstraint(n, c.v).ok(), want = Fits(sg, w, c.t, c.v); VPD_CHECK(ok == want, "constraint ", n, " == ", c.v, ok ? " accepted" : " refused"); if (ok) { bool e = of && os[c.o].has_const; (e ? ex : eq).push_back(c); if (!e) { uint64_t m = of ? os[c.o].mask : ones(w) << fs[c.f].low; if ((taken & m) || (of && __builtin_popcountll(m) != w)) overlapping = true; taken |= m; } } }
    else if (what == 1) { c.t = kT[r.below(6)]; vpd::note(vpd::cat(n, " compared (", (int)c.t, ") with ", c.v)); bool ok = enc->AddOtherConstraint(c.t, n, c.v).ok(), want = Fits(sg, w, c.t, c.v); VPD_CHECK(ok == want, "constraint on ", n, " with ", c.v, ok ? " accepted" : " refused"); if (ok) other.push_back(c); }
    else { bool ro = r.coin(30) && !os.empty(); if (ro) c.ro = r.below(os.size()); else c.rf = r.below(fs.size()); int w2 = ro ? os[c.ro].bits.size() : fs[c.rf].w; if (w >= 64 || w2 >= 64) continue; c.t = kT[r.below(6)]; std::string n2 = ro ? os[c.ro].n : fs[c.rf].n; vpd::note(vpd::cat(n, " compared (", (int)c.t, ") with ", n2)); VPD_CHECK(enc->AddOtherConstraint(c.t, n, n2).ok(), "comparison refused"); VPD_CHECK(!enc->AddOtherConstraint(c.t, n, std::string("none")).ok() && !enc->AddOtherConstraint(c.t, std::string("none"), n).ok(), "comparison with what is not there"); other.push_back(c); }
    VPD_CHECK(!enc->AddEqualConstraint("none", 0).ok(), "constraint on what is not there");
    if (r.coin()) check();
  }
  check();
  auto same = [](const std::vector<Constraint*>& v, const std::vector<C>& c, const std::vector<F>& fs, std::vector<O>& os, Format* fmt) { VPD_CHECK(v.size() == c.size(), "number of constraints"); for (size_t i = 0; i < c.size(); i++) { VPD_CHECK(v[i]->type == c[i].t && v[i]->field == (c[i].f >= 0 ? fmt->GetField(fs[c[i].f].n) : nullptr) && v[i]->overlay == (c[i].o >= 0 ? os[c[i].o].o : nullptr) && v[i]->rhs_field == (c[i].rf >= 0 ? fmt->GetField(fs[c[i].rf].n) : nullptr) && v[i]->rhs_overlay == (c[i].ro >= 0 ? os[c[i].ro].o : nullptr), "constraint ", i); if (c[i].rf < 0 && c[i].ro < 0) VPD_CHECK(v[i]->value == ((uint64_t)c[i].v & ones(c[i].f >= 0 ? fs[c[i].f].w : (int)os[c[i].o].bits.size())), "value of constraint ", i); } };
  auto lists = [&]() { same(enc->equal_constraints(), eq, fs, os, fmt); same(enc->equal_extracted_constraints(), ex, fs, os, fmt); same(enc->other_constraints(), other, fs, os, fmt); };
  lists(); auto copy = std::make_unique<InstructionEncoding>(*enc); enc = std::move(copy); vpd::note("copied"); lists(); check();
  auto* sp = new InstructionEncoding("special", fmt, false); VPD_CHECK(!enc->HasSpecialization() && enc->AddSpecialization("special", sp).ok() && enc->HasSpecialization() && enc->specializations().at("special") == sp, "specialization");
  vpd::distinct_case(r.next());
}
int main(int argc, char** argv) {
  Rng r(atoll(argv[1])); vpd::Clock clk(atof(argv[2])); uint64_t iters = std::string(argv[3]) == "quick" ? 30000 : 2000000;
  vpd::sample("random formats of up to 64 bits with overlays of fields, bit ranges and constants, and encodings of up to 8 constraints; values around the limits of the width");
  for (uint64_t it = 0; it < iters && clk.more(); it++) Run(r);
  VPD_DONE();
}
