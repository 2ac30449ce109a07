// Support for native drivers: seeded histories of public API calls checked against a reference model.
#ifndef VPD_H_
#define VPD_H_
#include <chrono>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <set>
#include <sstream>
#include <string>
#include <vector>
#include <csignal>
#include <sys/time.h>
namespace vpd {
struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567) {}
  uint64_t next() {
    s ^= s << 13; s ^= s >> 7; s ^= s << 17;
    uint64_t z = s * 0x2545F4914F6CDD1Dull;
    return z ^ (z >> 29);
  }
  uint64_t below(uint64_t n) { return n ? next() % n : 0; }
  int64_t range(int64_t a, int64_t b) { return a + static_cast<int64_t>(below(static_cast<uint64_t>(b - a + 1))); }
  bool coin(int pct = 50) { return static_cast<int>(below(100)) < pct; }
  // values biased to corners
  uint64_t corner() {
    switch (below(8)) {
      case 0: return 0;
      case 1: return ~0ull;
      case 2: return 1ull << below(64);
      case 3: return (1ull << below(64)) - 1;
      case 4: return below(16);
      case 5: return ~below(16);
      default: return next();
    }
  }
};
inline std::vector<std::string>& log() { static std::vector<std::string> l; return l; }
inline uint64_t ticks = 0;
inline void note(const std::string& s) { ticks++; log().push_back(s); if (log().size() > 4000) log().erase(log().begin(), log().begin() + 2000); }
inline uint64_t cases = 0;
inline std::set<uint64_t> distinct;
inline void distinct_case(uint64_t h) { if (distinct.size() < 2000000) distinct.insert(h); }
inline uint64_t mix(uint64_t a, uint64_t b) { a ^= b + 0x9E3779B97F4A7C15ull + (a << 6) + (a >> 2); return a * 0xff51afd7ed558ccdull; }
[[noreturn]] inline void fail(const char* file, int line, const std::string& what) {
  printf("FAIL %s\n at %s:%d case %llu; history (latest last):\n", what.c_str(), file, line, (unsigned long long)cases);
  size_t n = log().size();
  for (size_t i = n > 60 ? n - 60 : 0; i < n; i++) printf("  %s\n", log()[i].c_str());
  fflush(stdout);
  _Exit(1);
}
// a case that uses 25 s of processor time without getting any further does not end (cases take milliseconds)
inline void watch(int) {
  static uint64_t last = 0; static int n = 0; uint64_t now = cases + ticks + distinct.size();
  if (now != last) { last = now; n = 0; return; }
  if (++n >= 25) fail("driver", 0, "an operation does not terminate");
}
struct Watch { Watch() { signal(SIGPROF, watch); itimerval t = {{1, 0}, {1, 0}}; setitimer(ITIMER_PROF, &t, nullptr); } };
inline Watch watch_;
struct Clock {
  std::chrono::steady_clock::time_point end;
  explicit Clock(double s) : end(std::chrono::steady_clock::now() + std::chrono::milliseconds(static_cast<int64_t>(s * 1000))) {}
  bool more() const { return std::chrono::steady_clock::now() < end; }
};
inline void sample(const std::string& s) { static int n = 0; if (n++ < 3) printf("SAMPLE %s\n", s.c_str()); }
template <typename... A> std::string cat(const A&... a) { std::ostringstream o; (void)std::initializer_list<int>{((o << a), 0)...}; return o.str(); }
}  // namespace vpd
#define VPD_CHECK(c, ...) do { if (!(c)) vpd::fail(__FILE__, __LINE__, vpd::cat(__VA_ARGS__)); } while (0)
#define VPD_DONE() do { printf("CASES %llu DISTINCT %llu\n", (unsigned long long)vpd::cases, (unsigned long long)vpd::distinct.size()); } while (0)
#endif
