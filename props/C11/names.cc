// C11 (1): name conversions on texts of any length.  Ghost machine over the input position k: field 0 counts the characters produced so far,
// field 1 the state the conversion depends on, field 2 the character produced at the (arbitrary) tracked output position q.
#include "vp.h"
#include "mpact/sim/decoder/format_name.cc"
using namespace mpact::sim::machine_description::instruction_set;
struct Env { const char* s; uint64_t q; };
static inline uint64_t up(char c) { return (unsigned char)(c >= 'a' && c <= 'z' ? c - 32 : c); }
static inline uint64_t lo(char c) { return (unsigned char)(c >= 'A' && c <= 'Z' ? c + 32 : c); }
static void Pascal(uint64_t k, const uint64_t* c, uint64_t* n, void* env) {
  const Env& e = *(const Env*)env;
  char x = e.s[k];
  bool u = x == '_';
  uint64_t out = c[1] ? up(x) : (uint64_t)(unsigned char)x;
  n[0] = u ? c[0] : c[0] + 1;
  n[1] = u;
  n[2] = !u && c[0] == e.q ? out : c[2];
}
static void Snake(uint64_t k, const uint64_t* c, uint64_t* n, void* env) {
  const Env& e = *(const Env*)env;
  char x = e.s[k];
  bool extra = c[0] != 0 && x >= 'A' && x <= 'Z';
  n[0] = c[0] + (extra ? 2 : 1);
  n[1] = 0;
  n[2] = c[0] == e.q ? (extra ? (uint64_t)'_' : lo(x)) : extra && c[0] + 1 == e.q ? lo(x) : c[2];
}
static void Guard(uint64_t k, const uint64_t* c, uint64_t* n, void* env) {
  const Env& e = *(const Env*)env;
  char x = e.s[k];
  n[0] = c[0] + 1;
  n[1] = 0;
  n[2] = k == e.q ? (x == '/' || x == '.' ? (uint64_t)'_' : up(x)) : c[2];
}
static void Lower(uint64_t k, const uint64_t* c, uint64_t* n, void* env) {
  const Env& e = *(const Env*)env;
  n[0] = c[0] + 1;
  n[1] = 0;
  n[2] = k == e.q ? lo(e.s[k]) : c[2];
}
static bool Bound(uint64_t k, const uint64_t* c, void*) { return c[0] <= 2 * k; }
static bool Exact(uint64_t k, const uint64_t* c, void*) { return c[0] == k; }
static void Conv(std::string (*f)(absl::string_view), vp_step step, uint64_t start, vp_inv inv) {
  Env e;
  uint64_t n = vp_any<uint64_t>("n");
  vp_assume(n < 1000000);
  e.s = vp_region<char>(n, "text");
  e.q = vp_any<uint64_t>("q");
  uint64_t init[3] = {0, start, 0};
  int g = __vp_mseq("conv", 3, init, step, &e);
  __vp_mseq_inv(g, inv, "length", 0);
  std::vp_trk_pos = e.q; std::vp_trk_rec = 0;
  vp_cover("pre");
  std::string r = f(absl::string_view(e.s, n));
  uint64_t len = __vp_mseq_at(g, 0, n);
  vp_assert(r.n == len, "the converted name has as many characters as the conversion produces");
  if (e.q < len) vp_assert(std::vp_trk_rec == __vp_mseq_at(g, 2, n), "and each of them is the one it produces");
  vp_cover("post");
}
VP_HARNESS(pascal) { Conv(ToPascalCase, Pascal, 1, Bound); }
VP_HARNESS(snake) { Conv(ToSnakeCase, Snake, 0, Bound); }
VP_HARNESS(guard) { Conv(ToHeaderGuard, Guard, 0, Exact); }
VP_HARNESS(lower) { Conv(ToLowerCase, Lower, 0, Exact); }
static void Blank(uint64_t k, const uint64_t* c, uint64_t* n, void* env) {
  n[0] = c[0] + 1;
  n[1] = 0;
  n[2] = k == ((const Env*)env)->q ? (uint64_t)' ' : c[2];
}
static bool Blanks(uint64_t k, const uint64_t* c, void* env) { return c[0] == k && (!(((const Env*)env)->q < k) || c[2] == ' '); }
template <class F> static void Ind(uint64_t n, F f) {
  Env e;
  e.q = vp_any<uint64_t>("q");
  uint64_t init[3] = {0, 0, 0};
  int g = __vp_mseq("blank", 3, init, Blank, &e);
  __vp_mseq_inv(g, Blanks, "blanks", 0);
  std::vp_trk_pos = e.q; std::vp_trk_rec = 0;
  std::string r = f();
  vp_assert(r.n == n, "as many characters as asked for");
  if (e.q < n) vp_assert(__vp_mseq_at(g, 2, n) == ' ' && std::vp_trk_rec == __vp_mseq_at(g, 2, n), "all of them blanks");
  vp_cover("post");
}
VP_HARNESS(indent) {
  int n = vp_any<int>("n");
  vp_assume(n >= 0 && n < 1000000);
  Ind((uint64_t)n, [n]() { return Indent(n); });
}
VP_HARNESS(indent_text) {
  uint64_t n = vp_any<uint64_t>("n");
  vp_assume(n < 1000000);
  const char* t = vp_region<char>(n, "text");
  Ind(n, [n, t]() { return Indent(absl::string_view(t, n)); });
}
