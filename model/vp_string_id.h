// Verification model (trusted): strings by identity.  A string is a 64-bit name of its contents (equal contents <=> equal names; the literals
// of one program have distinct names).  Only construction, copying, comparison and concatenation exist.
#pragma once
namespace std {
inline uint64_t vp_str_id(const char* p) {
  uint64_t h = 0;
  for (; *p; p++) h = h * 0x100000001b3ull + (unsigned char)*p;
  return h;
}
#ifdef VP_STR_TEXT
uint64_t vp_str_size(uint64_t id);
uint64_t vp_str_part(uint64_t id, uint64_t pos, uint64_t n);
#endif
struct vp_str_base {
  uint64_t id;
};
class vp_sv : public vp_str_base {
 public:
  vp_sv() { id = 0; }
  vp_sv(const char* p) { id = vp_str_id(p); }
  vp_sv(const vp_str_base& o) { id = o.id; }
  vp_sv(const vp_sv& o) { id = o.id; }
  vp_sv& operator=(const vp_sv& o) { id = o.id; return *this; }
  bool empty() const { return id == 0; }
};
class vp_str : public vp_str_base {
 public:
  vp_str() { id = 0; }
  vp_str(const char* p) { id = vp_str_id(p); }
  explicit vp_str(const vp_sv& o) { id = o.id; }
  vp_str(const vp_str& o) { id = o.id; }
  vp_str& operator=(const vp_str& o) { id = o.id; return *this; }
  vp_str& operator=(const vp_sv& o) { id = o.id; return *this; }
  vp_str& operator=(const char* o) { id = vp_str_id(o); return *this; }
  bool empty() const { return id == 0; }
  void clear() { id = 0; }
  vp_str& operator+=(const vp_str_base& o) { id = id * 0x9E3779B97F4A7C15ull + o.id; return *this; }
  vp_str& append(const vp_str_base& o) { return *this += o; }
#ifdef VP_STR_TEXT   // lengths and parts of texts as chosen by the contract
  using size_type = size_t;
  size_type size() const { return vp_str_size(id); }
  size_type length() const { return vp_str_size(id); }
  vp_str substr(size_type p, size_type n = ~0ull) const { vp_str r; r.id = vp_str_part(id, p, n); return r; }
#endif
  void swap(vp_str& o) { uint64_t t = id; id = o.id; o.id = t; }
};
inline bool operator==(const vp_str_base& a, const vp_str_base& b) { return a.id == b.id; }
inline bool operator!=(const vp_str_base& a, const vp_str_base& b) { return a.id != b.id; }
inline bool operator<(const vp_str_base& a, const vp_str_base& b) { return a.id < b.id; }
inline bool operator==(const vp_str_base& a, const char* b) { return a.id == vp_str_id(b); }
inline bool operator!=(const vp_str_base& a, const char* b) { return a.id != vp_str_id(b); }
inline vp_str operator+(const vp_str& a, const vp_str_base& b) { vp_str r(a); r += b; return r; }
inline vp_str operator+(const vp_str& a, const char* b) { vp_str r(a); r += vp_sv(b); return r; }
inline vp_str operator+(const char* a, const vp_str_base& b) { vp_str r(a); r += b; return r; }
// the text of a number: some text
template <class T> inline vp_str vp_to_string(T) { vp_str r; r.id = __vp_fresh_id(); return r; }
}  // namespace std
#define to_string vp_to_string
#define string vp_str
#define string_view vp_sv
