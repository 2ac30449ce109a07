// Verification model (trusted): a status is its code; messages are not modelled.
#pragma once
#include <string>
#include <string_view>
#include "vp.h"
namespace absl {
enum class StatusCode : int { kOk = 0, kCancelled = 1, kUnknown = 2, kInvalidArgument = 3, kDeadlineExceeded = 4, kNotFound = 5, kAlreadyExists = 6, kPermissionDenied = 7,
  kResourceExhausted = 8, kFailedPrecondition = 9, kAborted = 10, kOutOfRange = 11, kUnimplemented = 12, kInternal = 13, kUnavailable = 14, kDataLoss = 15, kUnauthenticated = 16 };
class Status {
 public:
  Status() : c_(0) {}
  template <class S> Status(StatusCode c, const S&) : c_(static_cast<int>(c)) {}
  explicit Status(int c) : c_(c) {}
  bool ok() const { return c_ == 0; }
  StatusCode code() const { return static_cast<StatusCode>(c_); }
  int raw_code() const { return c_; }
  std::string_view message() const { return std::string_view(); }
  std::string ToString() const { return std::string(); }
  void IgnoreError() const {}
  void Update(const Status& s) { if (c_ == 0) c_ = s.c_; }
  bool operator==(const Status& o) const { return c_ == o.c_; }
  bool operator!=(const Status& o) const { return c_ != o.c_; }
  int c_;
};
inline Status OkStatus() { return Status(); }
#define VP_ST(N) template <class S> Status N##Error(const S&) { return Status(static_cast<int>(StatusCode::k##N)); } inline bool Is##N(const Status& s) { return s.code() == StatusCode::k##N; }
VP_ST(Cancelled) VP_ST(Unknown) VP_ST(InvalidArgument) VP_ST(DeadlineExceeded) VP_ST(NotFound) VP_ST(AlreadyExists) VP_ST(PermissionDenied) VP_ST(ResourceExhausted)
VP_ST(FailedPrecondition) VP_ST(Aborted) VP_ST(OutOfRange) VP_ST(Unimplemented) VP_ST(Internal) VP_ST(Unavailable) VP_ST(DataLoss) VP_ST(Unauthenticated)
#undef VP_ST
}  // namespace absl
