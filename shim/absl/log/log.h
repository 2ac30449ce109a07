// Stand-in for absl/log/log.h (absent from the distribution's abseil): messages are discarded, FATAL aborts.
#pragma once
#include <cstdlib>
namespace vp_log {
struct Null { template <class T> const Null& operator<<(const T&) const { return *this; } };
struct Fatal { template <class T> const Fatal& operator<<(const T&) const { return *this; } [[noreturn]] ~Fatal() { abort(); } };
inline Null MakeINFO() { return Null(); }
inline Null MakeWARNING() { return Null(); }
inline Null MakeERROR() { return Null(); }
}  // namespace vp_log
#define VP_LOG_INFO ::vp_log::Null()
#define VP_LOG_WARNING ::vp_log::Null()
#define VP_LOG_ERROR ::vp_log::Null()
#define VP_LOG_FATAL ::vp_log::Fatal()
#define VP_LOG_DFATAL ::vp_log::Null()
#define LOG(X) VP_LOG_##X
#define LOG_IF(X, C) if (C) VP_LOG_##X
#define LOG_FIRST_N(X, N) VP_LOG_##X
#define VLOG(X) ::vp_log::Null()
#define DLOG(X) ::vp_log::Null()
