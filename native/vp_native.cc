#include <sys/mman.h>
// Native runtime for contract harnesses: replays a solver model against the real code.
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <new>
#include <string>
#include <vector>

#include "vp.h"

namespace {
struct In {
  std::string kind, name;
  uint64_t bits = 0, value = 0;
  uint64_t unit = 0, n = 0;
  std::vector<std::string> data;
};
std::vector<In>* ins;
size_t pos;
std::map<std::string, void (*)()>* regs;
int64_t heap;
bool abort_ok;
struct Seq {
  int nf;
  std::vector<uint64_t> init;
  vp_step step;
  void* env;
};
std::vector<Seq>* seqs;
[[noreturn]] void Done(int rc) {
  fflush(stdout);
  _Exit(rc);
}
void OnAbort(int) { Done(abort_ok ? 79 : 134); }
In& Next(const char* kind, const char* name) {
  if (!ins || pos >= ins->size()) {
    printf("DIVERGED: out of inputs at %s\n", name);
    Done(77);
  }
  In& i = (*ins)[pos++];
  if (i.kind != kind || i.name != name) {
    printf("DIVERGED: expected %s %s, have %s %s\n", kind, name, i.kind.c_str(), i.name.c_str());
    Done(77);
  }
  return i;
}
}  // namespace

VpReg::VpReg(const char* n, void (*f)()) {
  if (!regs) regs = new std::map<std::string, void (*)()>;
  (*regs)[n] = f;
}

static bool counting;
void* operator new(size_t n) {
  if (counting) heap++;
  return malloc(n ? n : 1);
}
void* operator new[](size_t n) { return operator new(n); }
void operator delete(void* p) noexcept {
  if (counting && p) heap--;
  free(p);
}
void operator delete[](void* p) noexcept { operator delete(p); }
void operator delete(void* p, size_t) noexcept { operator delete(p); }
void operator delete[](void* p, size_t) noexcept { operator delete(p); }

extern "C" {
uint64_t __vp_any(const char* name, int bits) { return Next("any", name).value; }
void __vp_assume(bool c) {
  if (!c) {
    printf("ASSUME-FALSE\n");
    Done(78);
  }
}
void __vp_assert(bool c, const char* label) {
  if (!c) {
    printf("ASSERT-FAIL %s\n", label);
    Done(1);
  }
}
void __vp_cover(const char* label) { printf("COVER %s\n", label); }
void* __vp_region(size_t count, size_t unit, const char* name) {
  bool c = counting;
  counting = false;
  In& i = Next("region", name);
  if (count != i.n) {
    printf("DIVERGED: region %s size\n", name);
    Done(77);
  }
  unsigned char* p = static_cast<unsigned char*>(calloc(count * unit ? count * unit : 1, 1));
  if (!p) Done(77);
  for (size_t k = 0; k < i.data.size() && k < count; k++) {
    // hex, most significant first
    const std::string& h = i.data[k];
    size_t nb = unit;
    for (size_t b = 0; b < nb; b++) {
      size_t at = h.size() - 2 * (b + 1);
      p[k * unit + b] = static_cast<unsigned char>(strtoul(h.substr(at, 2).c_str(), nullptr, 16));
    }
  }
  counting = c;
  heap++;
  return p;
}
void __vp_region_inv(void*, bool (*)(const void*)) {}
void __vp_region_inv_at(void*, bool (*)(const void*, uint64_t)) {}
void* __vp_arena(size_t unit) {
  // address space only: pages are committed when touched
  void* p = mmap(nullptr, (size_t)unit << 22, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  return p == MAP_FAILED ? calloc(65536, unit) : p;
}
int64_t __vp_heap_count() { return heap; }
bool __vp_is_live(const void*) { return true; }
void __vp_stop() { Done(0); }
void __vp_abort_ok(bool ok) { abort_ok = ok; }
bool __vp_symbolic() { return false; }
void __vp_split(bool) {}
void __vp_hint(uint64_t) {}
uint64_t __vp_fresh_id() {
  static uint64_t n;
  return ++n + (1ull << 32);
}
void __vp_note(const char*) {}
int __vp_mseq(const char*, int nf, const uint64_t* init, vp_step step, void* env) {
  bool c = counting;
  counting = false;
  if (!seqs) seqs = new std::vector<Seq>;
  seqs->push_back({nf, std::vector<uint64_t>(init, init + nf), step, env});
  counting = c;
  return seqs->size() - 1;
}
void __vp_mseq_inv(int, vp_inv, const char*, int) {}
uint64_t __vp_mseq_at(int id, int field, uint64_t k) {
  bool c = counting;
  counting = false;
  Seq& s = (*seqs)[id];
  std::vector<uint64_t> v = s.init, w(s.nf);
  for (uint64_t i = 0; i < k && i < 1000000; i++) {
    s.step(i, v.data(), w.data(), s.env);
    v = w;
  }
  uint64_t r = v[field];
  counting = c;
  return r;
}
}

int main(int argc, char** argv) {
  if (argc < 3) return 80;
  signal(SIGABRT, OnAbort);
  ins = new std::vector<In>;
  FILE* f = fopen(argv[2], "r");
  if (!f) return 80;
  char kind[32], name[256];
  while (fscanf(f, "%31s %255s", kind, name) == 2) {
    In i;
    i.kind = kind;
    i.name = name;
    if (i.kind == "any") {
      unsigned long long b, v;
      if (fscanf(f, "%llu %llu", &b, &v) != 2) return 80;
      i.bits = b;
      i.value = v;
    } else {
      unsigned long long u, n, m;
      if (fscanf(f, "%llu %llu %llu", &u, &n, &m) != 3) return 80;
      i.unit = u;
      i.n = n;
      for (unsigned long long k = 0; k < m; k++) {
        char buf[600];
        if (fscanf(f, "%599s", buf) != 1) return 80;
        i.data.push_back(buf);
      }
    }
    ins->push_back(i);
  }
  fclose(f);
  auto it = regs->find(argv[1]);
  if (it == regs->end()) return 80;
  counting = true;
  it->second();
  counting = false;
  printf("DONE\n");
  Done(0);
}
