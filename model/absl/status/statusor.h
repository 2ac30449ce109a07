// Verification model (trusted): a status or a value; the misuses that abort in the real class are obligations.
#pragma once
#include <type_traits>
#include <utility>
#include "absl/status/status.h"
namespace absl {
template <class T>
class StatusOr {
 public:
  using value_type = T;
  StatusOr() : s_(static_cast<int>(StatusCode::kUnknown)) {}
  StatusOr(const Status& s) : s_(s) { vp_assert(!s.ok(), "a StatusOr without a value carries an error"); }
  template <class U, typename std::enable_if<std::is_convertible<U&&, T>::value && !std::is_same<typename std::decay<U>::type, Status>::value && !std::is_same<typename std::decay<U>::type, StatusOr>::value, int>::type = 0>
  StatusOr(U&& u) : s_(), has_(true) { new (b_) T(std::forward<U>(u)); }
  StatusOr(const StatusOr& o) : s_(o.s_), has_(o.has_) { if (has_) new (b_) T(o.ref()); }
  StatusOr(StatusOr&& o) : s_(o.s_), has_(o.has_) { if (has_) new (b_) T(std::move(o.ref())); }
  StatusOr& operator=(const StatusOr& o) { if (this != &o) { reset(); s_ = o.s_; has_ = o.has_; if (has_) new (b_) T(o.ref()); } return *this; }
  StatusOr& operator=(StatusOr&& o) { if (this != &o) { reset(); s_ = o.s_; has_ = o.has_; if (has_) new (b_) T(std::move(o.ref())); } return *this; }
  ~StatusOr() { reset(); }
  bool ok() const { return has_; }
  const Status& status() const { return s_; }
  T& value() { need(); return ref(); }
  const T& value() const { need(); return ref(); }
  T& operator*() { need(); return ref(); }
  const T& operator*() const { need(); return ref(); }
  T* operator->() { need(); return &ref(); }
  const T* operator->() const { need(); return &ref(); }
  template <class U> T value_or(U&& d) const { return has_ ? ref() : static_cast<T>(std::forward<U>(d)); }
 private:
  void need() const { vp_assert(has_, "the value of a StatusOr is only taken when there is one"); }
  void reset() { if (has_) { ref().~T(); has_ = false; } }
  T& ref() { return *reinterpret_cast<T*>(b_); }
  const T& ref() const { return *reinterpret_cast<const T*>(b_); }
  Status s_;
  bool has_ = false;
  alignas(T) unsigned char b_[sizeof(T)];
};
}  // namespace absl
