// Specification primitives for contract harnesses (dual mode: symbolic in the verifier, native for replay).
#ifndef VP_H_
#define VP_H_
#include <cstddef>
#include <cstdint>
extern "C" {
uint64_t __vp_any(const char* name, int bits);
void __vp_assume(bool c);
void __vp_assert(bool c, const char* label);
void __vp_cover(const char* label);
void* __vp_region(size_t count, size_t unit, const char* name);
void __vp_region_inv(void* p, bool (*inv)(const void* element));
void __vp_region_inv_at(void* p, bool (*inv)(const void* element, uint64_t index));
void* __vp_arena(size_t unit);
int64_t __vp_heap_count();
bool __vp_is_live(const void* p);
[[noreturn]] void __vp_stop();
void __vp_abort_ok(bool ok);
bool __vp_symbolic();
void __vp_split(bool c);
void __vp_hint(uint64_t k);   // instantiate the facts of later loops at iteration k
uint64_t __vp_fresh_id();
void __vp_note(const char* s);
// ghost state machine s(0)=init, s(k+1)=step(k,s(k)) with n 64-bit fields; natively evaluated by iteration
typedef void (*vp_step)(uint64_t k, const uint64_t* cur, uint64_t* next, void* env);
typedef bool (*vp_inv)(uint64_t k, const uint64_t* cur, void* env);
int __vp_mseq(const char* name, int n, const uint64_t* init, vp_step step, void* env);
// inductive invariant of the machine, proved (base and step) where it is declared
void __vp_mseq_inv(int id, vp_inv inv, const char* label, int split);
uint64_t __vp_mseq_at(int id, int field, uint64_t k);
}
template <typename T>
inline T vp_any(const char* name) {
  return static_cast<T>(__vp_any(name, sizeof(T) * 8));
}
template <>
inline bool vp_any<bool>(const char* name) {
  return __vp_any(name, 1) != 0;
}
template <typename T>
inline T* vp_region(size_t n, const char* name) {
  return static_cast<T*>(__vp_region(n, sizeof(T), name));
}
#define vp_assume(c) __vp_assume(static_cast<bool>(c))
#define vp_assert(c, l) __vp_assert(static_cast<bool>(c), l)
#define vp_cover(l) __vp_cover(l)
#ifdef VP_SYMBOLIC
#define VP_HARNESS(name) extern "C" void vp_h_##name()
// bounded stand-in: obligations are reported as bounded, never as proved
#define VP_BOUNDED(name) extern "C" void vp_b_##name()
#else
struct VpReg {
  VpReg(const char* n, void (*f)());
};
#define VP_HARNESS(name)                        \
  extern "C" void vp_h_##name();                \
  static VpReg vp_r_##name("vp_h_" #name, vp_h_##name); \
  extern "C" void vp_h_##name()
#define VP_BOUNDED(name)                        \
  extern "C" void vp_b_##name();                \
  static VpReg vp_r_##name("vp_b_" #name, vp_b_##name); \
  extern "C" void vp_b_##name()
#endif
#endif
