// Verification model (trusted): strings as character sequences of any length with unlimited capacity.  Appending character number vp_trk_pos
// is recorded in vp_trk_rec (ghost observer for contracts).  <cctype> functions as in the C locale.
#pragma once
namespace std {
static uint64_t vp_trk_pos = ~0ull, vp_trk_rec = 0;
class vp_sv {
 public:
  const char* p;
  size_t n;
  using const_iterator = const char*;
  static constexpr size_t npos = ~(size_t)0;
  vp_sv() : p(nullptr), n(0) {}
  vp_sv(const char* s) : p(s), n(0) { while (s[n]) n++; }
  vp_sv(const char* s, size_t k) : p(s), n(k) {}
  const char* begin() const { return p; }
  const char* end() const { return p + n; }
  size_t size() const { return n; }
  size_t length() const { return n; }
  bool empty() const { return n == 0; }
  char operator[](size_t i) const { __vp_assert(i < n, "string_view index in range"); return p[i]; }
  char front() const { __vp_assert(n > 0, "front of a non-empty string_view"); return p[0]; }
  char back() const { __vp_assert(n > 0, "back of a non-empty string_view"); return p[n - 1]; }
  const char* data() const { return p; }
};
class vp_str {
 public:
  char* d;
  size_t n;
  vp_str() : d(static_cast<char*>(__vp_arena(1))), n(0) {}
  vp_str(const char* s) : vp_str() { while (*s) push_back(*s++); }
  vp_str(size_t k, char c) : vp_str() { append(k, c); }
  explicit vp_str(vp_sv s) : vp_str() { for (size_t i = 0; i < s.n; i++) push_back(s.p[i]); }
  vp_str(const vp_str& o) : vp_str() { for (size_t i = 0; i < o.n; i++) d[i] = o.d[i]; n = o.n; }
  vp_str(vp_str&& o) : d(o.d), n(o.n) { o.d = static_cast<char*>(__vp_arena(1)); o.n = 0; }
  vp_str& operator=(const vp_str& o) { if (this != &o) { for (size_t i = 0; i < o.n; i++) d[i] = o.d[i]; n = o.n; } return *this; }
  operator vp_sv() const { return vp_sv(d, n); }
  void push_back(char c) {
    vp_trk_rec = n == vp_trk_pos ? (uint64_t)(unsigned char)c : vp_trk_rec;
    d[n] = c;
    n++;
  }
  vp_str& append(size_t k, char c) { for (size_t i = 0; i < k; i++) push_back(c); return *this; }
  vp_str& operator+=(char c) { push_back(c); return *this; }
  void reserve(size_t) {}
  void clear() { n = 0; }
  bool empty() const { return n == 0; }
  size_t size() const { return n; }
  size_t length() const { return n; }
  char& operator[](size_t i) { __vp_assert(i <= n, "string index in range"); return d[i]; }
  char operator[](size_t i) const { return d[i]; }
  char& back() { __vp_assert(n > 0, "back of a non-empty string"); return d[n - 1]; }
  char& front() { __vp_assert(n > 0, "front of a non-empty string"); return d[0]; }
  char* begin() { return d; }
  char* end() { return d + n; }
  const char* begin() const { return d; }
  const char* end() const { return d + n; }
};
inline bool operator==(const vp_str& a, const vp_str& b) {
  if (a.n != b.n) return false;
  for (size_t i = 0; i < a.n; i++) if (a.d[i] != b.d[i]) return false;
  return true;
}
}  // namespace std
inline int vp_toupper(int c) { return c >= 'a' && c <= 'z' ? c - 32 : c; }
inline int vp_tolower(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
inline int vp_isupper(int c) { return c >= 'A' && c <= 'Z'; }
inline int vp_islower(int c) { return c >= 'a' && c <= 'z'; }
inline int vp_isdigit(int c) { return c >= '0' && c <= '9'; }
inline int vp_isalpha(int c) { return vp_isupper(c) || vp_islower(c); }
inline int vp_isalnum(int c) { return vp_isalpha(c) || vp_isdigit(c); }
namespace std { using ::vp_toupper; using ::vp_tolower; using ::vp_isupper; using ::vp_islower; using ::vp_isdigit; using ::vp_isalpha; using ::vp_isalnum; }
#define toupper vp_toupper
#define tolower vp_tolower
#define isupper vp_isupper
#define islower vp_islower
#define isdigit vp_isdigit
#define isalpha vp_isalpha
#define isalnum vp_isalnum
#define string vp_str
#define string_view vp_sv
