#ifndef MPC_UTILS_CANONICAL_ERRORS_H_
#define MPC_UTILS_CANONICAL_ERRORS_H_
#include "mpc_utils/status.h"
namespace mpc_utils {
#define MPC_UTILS_DEF_ERR_(N)                                   \
  inline Status N##Error(absl::string_view m) {                 \
    return Status(StatusCode::k##N, m);                         \
  }                                                             \
  inline bool Is##N(const Status& s) { return s.code() == StatusCode::k##N; }
MPC_UTILS_DEF_ERR_(Aborted)
MPC_UTILS_DEF_ERR_(AlreadyExists)
MPC_UTILS_DEF_ERR_(Cancelled)
MPC_UTILS_DEF_ERR_(DataLoss)
MPC_UTILS_DEF_ERR_(DeadlineExceeded)
MPC_UTILS_DEF_ERR_(FailedPrecondition)
MPC_UTILS_DEF_ERR_(Internal)
MPC_UTILS_DEF_ERR_(InvalidArgument)
MPC_UTILS_DEF_ERR_(NotFound)
MPC_UTILS_DEF_ERR_(OutOfRange)
MPC_UTILS_DEF_ERR_(PermissionDenied)
MPC_UTILS_DEF_ERR_(ResourceExhausted)
MPC_UTILS_DEF_ERR_(Unauthenticated)
MPC_UTILS_DEF_ERR_(Unavailable)
MPC_UTILS_DEF_ERR_(Unimplemented)
MPC_UTILS_DEF_ERR_(Unknown)
#undef MPC_UTILS_DEF_ERR_
}  // namespace mpc_utils
#endif
