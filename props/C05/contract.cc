// C05: extraction recipes.  The recipe computed for a bit mask V, applied to any X, gathers exactly the bits of X selected by V, in order,
// into the low bits of the result.
// Ghost machine over the bit position k (X and V are arbitrary):
//   0 V>>k   1 mask of the pending run   2 its width   3 total width t of completed runs   4 E: OR of the completed steps applied to X
//   5 unselected bits below k   6 1<<t   7 pending mask in place   8 1<<(t+width)   9 completed runs   10 selected bits below k
#include "vp.h"
#include "mpact/sim/decoder/extract.h"
using mpact::sim::decoder::bin_format::ExtractionStep;
static uint64_t g_X, g_E, g_cnt;
static inline uint64_t shl(uint64_t a, uint64_t s) { return s > 63 ? 0 : a << (s & 63); }
static inline uint64_t shr(uint64_t a, uint64_t s) { return s > 63 ? 0 : a >> (s & 63); }
namespace std {
template <>
struct vp_push_ghost<ExtractionStep> {
  static void push(const ExtractionStep& s) {
    vp_assert(s.shift >= 0 && s.shift < 64, "every step shifts by 0..63");
    g_E |= shr(g_X, (uint64_t)s.shift) & s.mask;
    g_cnt++;
  }
};
}  // namespace std
#include "mpact/sim/decoder/extract.cc"
using namespace mpact::sim::decoder::bin_format;

static void Step(uint64_t k, const uint64_t* c, uint64_t* n, void* env) {
  uint64_t X = *(uint64_t*)env;
  bool b = c[0] & 1;
  bool done = !b && c[1] != 0;
  n[0] = c[0] >> 1;
  n[1] = b ? (c[1] << 1) | 1 : 0;
  n[2] = b ? c[2] + 1 : 0;
  n[3] = done ? c[3] + c[2] : c[3];
  n[4] = done ? c[4] | (shr(X, c[5]) & c[7]) : c[4];
  n[5] = b ? c[5] : c[5] + 1;
  n[6] = done ? c[8] : c[6];
  n[7] = b ? (c[7] << 1) | c[6] : 0;
  n[8] = b ? c[8] << 1 : c[8];
  n[9] = done ? c[9] + 1 : c[9];
  n[10] = b ? c[10] + 1 : c[10];
}
struct Env {
  uint64_t x, v, p, r;
};
static inline uint64_t low(uint64_t k) { return k > 63 ? ~0ull : (1ull << k) - 1; }
static inline uint64_t pop(uint64_t a) { return (uint64_t)__builtin_popcountll(a); }
static bool Sizes(uint64_t k, const uint64_t* c, void* env) {
  const Env& e = *(Env*)env;
  return c[0] == shr(e.v, k) && c[2] + c[3] == c[10] && c[2] <= 64 && c[3] <= 64 && c[5] + c[10] == k && c[10] <= 64 && c[10] <= k && c[5] <= k && c[9] <= k && (k < 64 || c[0] == 0) &&
         (c[1] != 0) == (c[2] != 0) && (c[2] != 0 || c[7] == 0);
}
static bool Masks(uint64_t k, const uint64_t* c, void* env) {
  return c[7] == shl(c[1], c[3]) && c[6] == shl(1, c[3]) && c[8] == shl(1, c[10]) && c[7] == c[8] - c[6];
}
static inline uint64_t upto(uint64_t pw) { return pw - 1; }
static bool Above(uint64_t k, const uint64_t* c, void* env) {
  return (c[4] & ~upto(c[6])) == 0 && (c[7] & ~upto(c[8])) == 0 && (c[4] & ~upto(c[8])) == 0;
}
// r is the rank of p: the number of selected bits below p
static bool Rank(uint64_t k, const uint64_t* c, void* env) {
  const Env& e = *(Env*)env;
  uint64_t G = c[4] | (shr(e.x, c[5]) & c[7]);
  return !(e.p < k && (shr(e.v, e.p) & 1)) || ((shr(G, e.r) & 1) == (shr(e.x, e.p) & 1) && e.r < c[10]);
}
VP_HARNESS(recipe_gathers) {
  Env e;
  e.x = vp_any<uint64_t>("x");
  e.v = vp_any<uint64_t>("v");
  e.p = vp_any<uint64_t>("p");
  vp_assume(e.p < 64);
  e.r = vp_any<uint64_t>("r");
  g_X = e.x;
  g_E = 0;
  g_cnt = 0;
  uint64_t init[11] = {e.v, 0, 0, 0, 0, 0, 1, 0, 1, 0, 0};
  int g = __vp_mseq("bits", 11, init, Step, &e);
  __vp_mseq_inv(g, Sizes, "run widths add up", 0);
  __vp_mseq_inv(g, Masks, "run masks", 0);
  __vp_mseq_inv(g, Above, "nothing above the gathered bits", 0);
  vp_assume(e.r == __vp_mseq_at(g, 10, e.p));
  __vp_mseq_inv(g, Rank, "rank invariant", 0);
  // K: the bit length of v
  uint64_t K = vp_any<uint64_t>("K");
  vp_assume(K <= 64 && shr(e.v, K) == 0 && (K == 0 || shr(e.v, K - 1) != 0));
  uint64_t total = __vp_mseq_at(g, 10, K);
  vp_cover("pre");
  auto recipe = GetExtractionRecipe(e.v);
  if (shr(e.v, e.p) & 1)
    vp_assert((shr(g_E, e.r) & 1) == (shr(e.x, e.p) & 1), "selected bit p of the input appears at its rank in the output");
  vp_assert(shr(g_E, total) == 0, "bits above the number of selected bits are zero");
  vp_assert(recipe.size() == g_cnt, "recipe holds the pushed steps");
  vp_cover("post");
}
// the interpreter: for an arbitrary recipe (any steps with legal shift counts) the result is the OR of the steps
static void Fold(uint64_t k, const uint64_t* c, uint64_t* n, void* env) {
  const Env& e = *(Env*)env;
  const ExtractionStep* st = (const ExtractionStep*)e.p;
  n[0] = c[0] | (shr(e.x, (uint64_t)st[k].shift) & st[k].mask);
}
static bool LegalShift(const void* s) {
  int sh = ((const ExtractionStep*)s)->shift;
  return sh >= 0 && sh < 64;
}
VP_HARNESS(extract_value_folds) {
  Env e;
  e.x = vp_any<uint64_t>("x");
  uint64_t n = vp_any<uint64_t>("n");
  vp_assume(n < 1000000);
  std::vector<ExtractionStep> r;
  ExtractionStep* st = vp_region<ExtractionStep>(n, "steps");
  r.d = st;
  r.n = n;
  e.p = (uint64_t)st;
  __vp_region_inv(st, LegalShift);
  uint64_t init[1] = {0};
  int g = __vp_mseq("fold", 1, init, Fold, &e);
  uint64_t v = ExtractValue(e.x, r);
  vp_assert(v == __vp_mseq_at(g, 0, n), "the value extracted is the OR of all steps");
  vp_cover("post");
}
