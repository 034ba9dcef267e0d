// Offline stand-in for mpc_utils/status.h (mpc_utils is not available in this
// sandbox). Mirrors the public API of the original: an Abseil-style Status.
#ifndef MPC_UTILS_STATUS_H_
#define MPC_UTILS_STATUS_H_
#include <ostream>
#include <string>
#include <utility>

#include "absl/strings/str_cat.h"
#include "absl/strings/string_view.h"

namespace mpc_utils {
enum class StatusCode : int {
  kOk = 0, kCancelled = 1, kUnknown = 2, kInvalidArgument = 3,
  kDeadlineExceeded = 4, kNotFound = 5, kAlreadyExists = 6,
  kPermissionDenied = 7, kResourceExhausted = 8, kFailedPrecondition = 9,
  kAborted = 10, kOutOfRange = 11, kUnimplemented = 12, kInternal = 13,
  kUnavailable = 14, kDataLoss = 15, kUnauthenticated = 16,
};
inline std::string StatusCodeToString(StatusCode c) {
  static const char* const n[] = {"OK", "CANCELLED", "UNKNOWN", "INVALID_ARGUMENT",
    "DEADLINE_EXCEEDED", "NOT_FOUND", "ALREADY_EXISTS", "PERMISSION_DENIED",
    "RESOURCE_EXHAUSTED", "FAILED_PRECONDITION", "ABORTED", "OUT_OF_RANGE",
    "UNIMPLEMENTED", "INTERNAL", "UNAVAILABLE", "DATA_LOSS", "UNAUTHENTICATED"};
  return n[static_cast<int>(c)];
}
inline std::ostream& operator<<(std::ostream& os, StatusCode c) {
  return os << StatusCodeToString(c);
}
class Status {
 public:
  Status() = default;
  Status(StatusCode code, absl::string_view msg)
      : code_(code), msg_(code == StatusCode::kOk ? "" : std::string(msg)) {}
  static Status OK() { return Status(); }
  bool ok() const { return code_ == StatusCode::kOk; }
  StatusCode code() const { return code_; }
  int raw_code() const { return static_cast<int>(code_); }
  int error_code() const { return static_cast<int>(code_); }
  absl::string_view message() const { return msg_; }
  absl::string_view error_message() const { return msg_; }
  std::string ToString() const {
    return ok() ? "OK" : absl::StrCat(StatusCodeToString(code_), ": ", msg_);
  }
  void IgnoreError() const {}
  void Update(const Status& s) { if (ok()) *this = s; }
  friend bool operator==(const Status& a, const Status& b) {
    return a.code_ == b.code_ && a.msg_ == b.msg_;
  }
  friend bool operator!=(const Status& a, const Status& b) { return !(a == b); }
  friend std::ostream& operator<<(std::ostream& os, const Status& s) {
    return os << s.ToString();
  }

 private:
  StatusCode code_ = StatusCode::kOk;
  std::string msg_;
};
inline Status OkStatus() { return Status(); }
}  // namespace mpc_utils
#endif
