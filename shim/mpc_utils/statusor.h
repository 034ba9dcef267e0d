#ifndef MPC_UTILS_STATUSOR_H_
#define MPC_UTILS_STATUSOR_H_
#include <cstdio>
#include <cstdlib>
#include <memory>
#include <type_traits>

#include "absl/memory/memory.h"
#include "absl/types/optional.h"
#include "absl/types/variant.h"
#include "mpc_utils/canonical_errors.h"
#include "mpc_utils/status.h"
namespace mpc_utils {
template <typename T>
class StatusOr {
  template <typename U>
  friend class StatusOr;

 public:
  using element_type = T;
  using value_type = T;
  StatusOr() : status_(StatusCode::kUnknown, "") {}
  StatusOr(const StatusOr&) = default;
  StatusOr(StatusOr&&) = default;
  StatusOr& operator=(const StatusOr&) = default;
  StatusOr& operator=(StatusOr&&) = default;
  template <typename U, typename std::enable_if<
                            std::is_convertible<U, T>::value &&
                            !std::is_same<U, T>::value, int>::type = 0>
  StatusOr(const StatusOr<U>& o) : status_(o.status_) {
    if (o.value_) value_.emplace(*o.value_);
  }
  template <typename U, typename std::enable_if<
                            std::is_convertible<U, T>::value &&
                            !std::is_same<U, T>::value, int>::type = 0>
  StatusOr(StatusOr<U>&& o) : status_(o.status_) {
    if (o.value_) value_.emplace(std::move(*o.value_));
  }
  StatusOr(const T& v) : value_(v) {}
  StatusOr(T&& v) : value_(std::move(v)) {}
  StatusOr(const Status& s) : status_(s) { Ensure(); }
  StatusOr(Status&& s) : status_(std::move(s)) { Ensure(); }
  template <typename U = T,
            typename std::enable_if<
                std::is_convertible<U&&, T>::value &&
                    !std::is_same<typename std::decay<U>::type, T>::value &&
                    !std::is_same<typename std::decay<U>::type, Status>::value &&
                    !std::is_same<typename std::decay<U>::type, StatusOr>::value,
                int>::type = 0>
  StatusOr(U&& v) : value_(T(std::forward<U>(v))) {}

  bool ok() const { return status_.ok() && value_.has_value(); }
  explicit operator bool() const { return ok(); }
  const Status& status() const& { return status_; }
  Status status() && { return status_; }
  const T& ValueOrDie() const& { Check(); return *value_; }
  T& ValueOrDie() & { Check(); return *value_; }
  T&& ValueOrDie() && { Check(); return std::move(*value_); }
  const T& value() const& { Check(); return *value_; }
  T& value() & { Check(); return *value_; }
  T&& value() && { Check(); return std::move(*value_); }
  const T& operator*() const& { Check(); return *value_; }
  T& operator*() & { Check(); return *value_; }
  T&& operator*() && { Check(); return std::move(*value_); }
  const T* operator->() const { Check(); return &*value_; }
  T* operator->() { Check(); return &*value_; }
  template <typename U>
  T value_or(U&& d) const& { return ok() ? *value_ : T(std::forward<U>(d)); }
  template <typename U>
  T ValueOr(U&& d) const& { return ok() ? *value_ : T(std::forward<U>(d)); }
  void IgnoreError() const {}

 private:
  void Ensure() {
    if (status_.ok()) status_ = InternalError("OK is not a valid StatusOr error");
  }
  void Check() const {
    if (!ok()) {
      std::fprintf(stderr, "StatusOr::ValueOrDie on %s\n", status_.ToString().c_str());
      std::abort();
    }
  }
  Status status_;
  absl::optional<T> value_;
};
}  // namespace mpc_utils
#endif
