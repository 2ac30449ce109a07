// C21: the decode cache returns the instruction of the address, owns one reference per entry, and forgets what it is told to.
#include "vp.h"
#include "mpact/sim/generic/decode_cache.cc"
#include "mpact/sim/generic/instruction.cc"
using namespace mpact::sim::generic;
// instructions are observed through their address and their references; the end of their life is recorded (C03 and C22 are about that)
struct Shell : public Instruction {
  explicit Shell(uint64_t a) : Instruction(a, nullptr) {}
  void OnRefCountIsZero() override {}
};
static Instruction* AnyInst(uint64_t address) {
  Instruction* i = new Shell(address);
  uint64_t d = vp_any<uint64_t>("dec"), r = vp_any<uint64_t>("refs");
  vp_assume(r >= 1 && r < (1ull << 30) && d < (1ull << 40));
  i->dec_count_ = d;
  i->inc_count_ = d + r;
  return i;
}
struct Decoder : public DecoderInterface {
  Instruction* result = nullptr;
  int calls = 0;
  uint64_t asked = 0;
  Instruction* DecodeInstruction(uint64_t a) override {
    calls++;
    asked = a;
    return result;
  }
  int GetNumOpcodes() const override { return 0; }
  const char* GetOpcodeName(int) const override { return ""; }
};
// an arbitrary cache: 2^e entries, increment 2^s; entry 'index' (of address a) and an arbitrary other entry are looked at
struct Any {
  DecodeCache* c;
  uint64_t n;
  unsigned s;
};
static Any AnyCache(Decoder* dec) {
  Any a;
  unsigned e = vp_any<unsigned>("log entries");
  a.s = vp_any<unsigned>("log increment");
  vp_assume(e <= 24 && a.s < 32);
  a.n = 1ull << e;
  a.c = static_cast<DecodeCache*>(::operator new(sizeof(DecodeCache)));
  a.c->decoder_ = dec;
  a.c->num_entries_ = (int)a.n;
  a.c->address_shift_ = (int)a.s;
  a.c->address_inc_ = 1u << a.s;
  a.c->address_mask_ = (a.n - 1) << a.s;
  a.c->instruction_cache_ = vp_region<Instruction*>(a.n, "cache");
  return a;
}
static uint64_t Slot(const Any& a, uint64_t address) { return (address >> a.s) & (a.n - 1); }
VP_HARNESS(create) {
  DecodeCacheProperties p;
  p.num_entries = vp_any<uint32_t>("entries");
  p.minimum_pc_increment = vp_any<uint32_t>("inc");
  vp_assume(p.num_entries <= (1u << 24));
  Decoder d;
  int64_t h = __vp_heap_count();
  vp_cover("pre");
  DecodeCache* c = DecodeCache::Create(p, &d);
  bool ok = p.minimum_pc_increment != 0 && (p.minimum_pc_increment & (p.minimum_pc_increment - 1)) == 0;
  vp_assert((c != nullptr) == ok, "a cache exists exactly for increments that are a power of two");
  if (!ok) {
    vp_assert(__vp_heap_count() == h, "nothing is left behind otherwise");
    return;
  }
  uint64_t n = c->num_entries();
  vp_assert(n >= p.num_entries && n >= 1 && (n & (n - 1)) == 0, "at least the requested number of entries, a power of two");
  vp_assert(n == 1 || n / 2 < p.num_entries, "and the smallest such");
  vp_assert((uint32_t)c->address_inc() == p.minimum_pc_increment, "the increment");
  vp_assert((uint64_t)(uint32_t)c->address_inc() == 1ull << c->address_shift(), "the shift is its logarithm");
  vp_assert(c->address_mask() == (n - 1) * (uint64_t)p.minimum_pc_increment, "the mask selects the index bits");
  uint64_t k = vp_any<uint64_t>("k");
  vp_assume(k < n);
  vp_assert(c->instruction_cache_[k] == nullptr, "a new cache is empty");
  vp_assert(d.calls == 0, "nothing is decoded yet");
  vp_cover("post");
}
VP_HARNESS(get) {
  Decoder d;
  Any a = AnyCache(&d);
  uint64_t address = vp_any<uint64_t>("address");
  uint64_t old_address = vp_any<uint64_t>("old address");
  bool has = vp_any<bool>("has");
  uint64_t i = Slot(a, address), j = vp_any<uint64_t>("other");
  vp_assume(j < a.n && j != i);
  vp_assume(Slot(a, old_address) == i);
  Instruction* old = has ? AnyInst(old_address) : nullptr;
  Instruction* other = AnyInst(vp_any<uint64_t>("other address"));
  Instruction* made = vp_any<bool>("decodes") ? AnyInst(address) : nullptr;
  d.result = made;
  a.c->instruction_cache_[i] = old;
  a.c->instruction_cache_[j] = other;
  int r_old = has ? old->ref_count() : 0, r_made = made ? made->ref_count() : 0, r_other = other->ref_count();
  vp_cover("pre");
  Instruction* got = a.c->GetDecodedInstruction(address);
  bool hit = has && old_address == address;
  if (hit) {
    vp_assert(got == old && d.calls == 0, "a cached instruction is returned without decoding");
    vp_assert(old->ref_count() == r_old && a.c->instruction_cache_[i] == old, "and stays cached, its references unchanged");
  } else {
    vp_assert(d.calls == 1 && d.asked == address, "otherwise the address is decoded, once");
    vp_assert(got == made, "and what the decoder made is returned");
    if (made) {
      vp_assert(a.c->instruction_cache_[i] == made && made->ref_count() == r_made, "the new instruction is cached with the reference it came with");
      if (has) vp_assert(old->ref_count() == r_old - 1, "the instruction it displaces is released once");
    } else {
      vp_assert(a.c->instruction_cache_[i] == old, "a failed decode leaves the cache as it was");
      if (has) vp_assert(old->ref_count() == r_old, "with its reference");
    }
  }
  if (got) vp_assert(got->address() == address, "the instruction returned is the one of the address");
  vp_assert(a.c->instruction_cache_[j] == other && other->ref_count() == r_other, "other entries are untouched");
  vp_cover("post");
}
VP_HARNESS(invalidate) {
  Decoder d;
  Any a = AnyCache(&d);
  uint64_t address = vp_any<uint64_t>("address");
  uint64_t old_address = vp_any<uint64_t>("old address");
  bool has = vp_any<bool>("has");
  uint64_t i = Slot(a, address), j = vp_any<uint64_t>("other");
  vp_assume(j < a.n && j != i);
  vp_assume(Slot(a, old_address) == i);
  Instruction* old = has ? AnyInst(old_address) : nullptr;
  Instruction* other = AnyInst(vp_any<uint64_t>("other address"));
  a.c->instruction_cache_[i] = old;
  a.c->instruction_cache_[j] = other;
  int r_old = has ? old->ref_count() : 0, r_other = other->ref_count();
  vp_cover("pre");
  a.c->Invalidate(address);
  if (has && old_address == address) {
    vp_assert(a.c->instruction_cache_[i] == nullptr && old->ref_count() == r_old - 1, "the instruction of the address is removed and released once");
  } else {
    vp_assert(a.c->instruction_cache_[i] == old, "an instruction of another address stays");
    if (has) vp_assert(old->ref_count() == r_old, "with its reference");
  }
  vp_assert(a.c->instruction_cache_[j] == other && other->ref_count() == r_other, "other entries are untouched");
  vp_assert(d.calls == 0, "nothing is decoded");
  vp_cover("post");
}
template <int N, bool all>
static void Range() {
  Decoder d;
  Any a = AnyCache(&d);
  vp_assume(a.n == N);
  a.c->num_entries_ = N;
  a.c->address_mask_ = (uint64_t)(N - 1) << a.s;
  Instruction* inst[N];
  uint64_t at[N];
  int refs[N];
  for (int i = 0; i < N; i++) {
    at[i] = vp_any<uint64_t>("at");
    vp_assume(Slot(a, at[i]) == (uint64_t)i);
    inst[i] = vp_any<bool>("has") ? AnyInst(at[i]) : nullptr;
    refs[i] = inst[i] ? inst[i]->ref_count() : 0;
    a.c->instruction_cache_[i] = inst[i];
  }
  uint64_t s = vp_any<uint64_t>("start"), e = vp_any<uint64_t>("end");
  vp_cover("pre");
  if (all) a.c->InvalidateAll();
  else a.c->InvalidateRange(s, e);
  for (int i = 0; i < N; i++) {
    bool gone = all || (at[i] >= s && at[i] < e);
    if (!inst[i]) {
      vp_assert(a.c->instruction_cache_[i] == nullptr, "an empty entry stays empty");
    } else if (gone) {
      vp_assert(a.c->instruction_cache_[i] == nullptr, "every instruction in the range is removed");
      vp_assert(inst[i]->ref_count() == refs[i] - 1, "and released once");
    } else {
      vp_assert(a.c->instruction_cache_[i] == inst[i] && inst[i]->ref_count() == refs[i], "instructions outside the range stay");
    }
  }
  vp_assert(d.calls == 0, "nothing is decoded");
  vp_cover("post");
}
VP_BOUNDED(range_1) { Range<1, false>(); }
VP_BOUNDED(range_2) { Range<2, false>(); }
VP_BOUNDED(all_1) { Range<1, true>(); }
VP_BOUNDED(all_4) { Range<4, true>(); }
VP_HARNESS(destroy) {
  Decoder d;
  DecodeCacheProperties p;
  p.num_entries = 2;
  p.minimum_pc_increment = 4;
  int64_t h = __vp_heap_count();
  DecodeCache* c = DecodeCache::Create(p, &d);
  Instruction* x = AnyInst(0x1000);
  Instruction* y = vp_any<bool>("second") ? AnyInst(0x1004) : nullptr;
  int rx = x->ref_count(), ry = y ? y->ref_count() : 0;
  d.result = x;
  c->GetDecodedInstruction(0x1000);
  d.result = y;
  c->GetDecodedInstruction(0x1004);
  delete c;
  vp_assert(x->ref_count() == rx - 1, "the cache releases what it holds when it goes");
  if (y) vp_assert(y->ref_count() == ry - 1, "each entry once");
  vp_assert(__vp_heap_count() == h + 1 + (y ? 1 : 0), "and frees its own storage");
  vp_cover("post");
}
