// C05 bounded supplement: recipes for many masks checked against a bit-by-bit gather, and the emitted C text evaluated by a small interpreter.
#include <cctype>
#include <cstring>
#include "vpd.h"
#include "mpact/sim/decoder/extract.h"
using namespace mpact::sim::decoder::bin_format;
using vpd::Rng;
static uint64_t Gather(uint64_t v, uint64_t m) {
  uint64_t r = 0; int o = 0;
  for (int i = 0; i < 64; i++) if ((m >> i) & 1) { r |= ((v >> i) & 1) << o; o++; }
  return r;
}
// interprets statements  <indent>res (=||=) <expr>;  with the C operators >> << & | ( ) and numbers, the input being `val`
struct Ev {
  const char* p; uint64_t val; const std::string& vn; bool bad = false;
  void ws() { while (*p == ' ' || *p == '\t') p++; }
  uint64_t prim() {
    ws();
    if (*p == '(') { p++; uint64_t r = ior(); ws(); if (*p == ')') p++; else bad = true; return r; }
    if (isdigit(*p)) { char* e; uint64_t r = strtoull(p, &e, 0); p = e; while (*p == 'u' || *p == 'U' || *p == 'l' || *p == 'L') p++; return r; }
    if (!strncmp(p, vn.c_str(), vn.size())) { p += vn.size(); return val; }
    bad = true; return 0;
  }
  uint64_t sh() { uint64_t r = prim(); for (;;) { ws(); if (!strncmp(p, ">>", 2)) { p += 2; uint64_t s = prim(); if (s > 63) bad = true; r = s > 63 ? 0 : r >> s; } else if (!strncmp(p, "<<", 2)) { p += 2; uint64_t s = prim(); if (s > 63) bad = true; r = s > 63 ? 0 : r << s; } else return r; } }
  uint64_t iand() { uint64_t r = sh(); for (;;) { ws(); if (*p == '&') { p++; r &= sh(); } else return r; } }
  uint64_t ior() { uint64_t r = iand(); for (;;) { ws(); if (*p == '|' && p[1] != '=') { p++; r |= iand(); } else return r; } }
};
static bool EvalText(const std::string& t, uint64_t val, const std::string& vn, const std::string& rn, uint64_t* out) {
  Ev e{t.c_str(), val, vn}; bool init = false; uint64_t res = 0;
  for (;;) {
    while (isspace((unsigned char)*e.p)) e.p++;
    if (!*e.p) break;
    if (strncmp(e.p, rn.c_str(), rn.size())) return false;
    e.p += rn.size(); e.ws();
    bool o = *e.p == '|'; if (o) e.p++;
    if (*e.p != '=') return false;
    e.p++;
    uint64_t x = e.ior(); e.ws();
    if (e.bad || *e.p != ';') return false;
    e.p++;
    if (o) { if (!init) return false; res |= x; } else { res = x; init = true; }
  }
  *out = res;
  return init || t.empty();
}
static void One(Rng& r, uint64_t m) {
  vpd::cases++;
  auto rec = GetExtractionRecipe(m);
  vpd::log().clear();
  vpd::note(vpd::cat("mask 0x", std::hex, m, " steps ", std::dec, rec.size()));
  for (auto& s : rec) VPD_CHECK(s.shift >= 0 && s.shift < 64, "shift count ", s.shift, " out of range");
  std::string ind(r.below(5), ' ');
  std::string vn = r.coin() ? "value" : "inst_word", rn = r.coin() ? "result" : "out";
  std::string text = WriteExtraction(rec, vn, rn, ind);
  // no requirement on layout, but an empty recipe emits nothing that would read the value
  for (int k = 0; k < 6; k++) {
    uint64_t x = k == 0 ? ~0ull : k == 1 ? 0 : k == 2 ? 0xaaaaaaaaaaaaaaaaull : k == 3 ? ~m : r.next();
    uint64_t want = Gather(x, m), got = ExtractValue(x, rec);
    VPD_CHECK(got == want, std::hex, "ExtractValue(0x", x, ") with recipe of mask 0x", m, " is 0x", got, " expected 0x", want);
    uint64_t t;
    VPD_CHECK(EvalText(text, x, vn, rn, &t), "emitted text is not a sequence of assignments starting with '=': ", text);
    VPD_CHECK(m == 0 || t == want, std::hex, "emitted text for mask 0x", m, " computes 0x", t, " expected 0x", want, " on 0x", x);
  }
  vpd::distinct_case(m);
}
int main(int argc, char** argv) {
  Rng r(atoll(argv[1])); vpd::Clock clk(atof(argv[2]));
  uint64_t iters = std::string(argv[3]) == "quick" ? 60000 : 4000000;
  for (int i = 0; i < 64; i++) { One(r, 1ull << i); One(r, ~(1ull << i)); One(r, (1ull << i) - 1); One(r, ~((1ull << i) - 1)); for (int j = 0; j < 64; j++) One(r, (1ull << i) | (1ull << j)); }
  One(r, 0); One(r, ~0ull); One(r, 0x5555555555555555ull); One(r, 0xaaaaaaaaaaaaaaaaull);
  for (uint64_t m = 0; m < 4096; m++) { One(r, m); One(r, m << 52); }
  vpd::sample("all masks with one or two bits, prefixes, suffixes, all 12-bit masks at both ends, then random masks of 1..64 runs");
  for (uint64_t it = 0; it < iters && clk.more(); it++) {
    uint64_t m = r.next(); int k = r.below(4);
    if (k == 1) m &= r.next(); else if (k == 2) m |= r.next(); else if (k == 3) m &= m << 1;
    One(r, m);
  }
  // an arbitrary recipe (not produced by the analysis) is folded step by step
  for (int it = 0; it < 2000; it++) {
    std::vector<ExtractionStep> rec; uint64_t x = r.next(), want = 0; int n = r.below(70);
    for (int i = 0; i < n; i++) { ExtractionStep s{r.next(), (int)r.below(64)}; rec.push_back(s); want |= (x >> s.shift) & s.mask; }
    vpd::cases++;
    VPD_CHECK(ExtractValue(x, rec) == want, "fold of ", n, " steps differs");
  }
  VPD_DONE();
}
