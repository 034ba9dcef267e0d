#ifndef MPC_UTILS_STATUS_MACROS_H_
#define MPC_UTILS_STATUS_MACROS_H_
#include "mpc_utils/status.h"
#include "mpc_utils/statusor.h"
#define MPC_UTILS_CONCAT_I_(a, b) a##b
#define MPC_UTILS_CONCAT_(a, b) MPC_UTILS_CONCAT_I_(a, b)
#define RETURN_IF_ERROR(expr)                      \
  do {                                             \
    const ::mpc_utils::Status s_macro_ = (expr);   \
    if (!s_macro_.ok()) return s_macro_;           \
  } while (0)
#define ASSIGN_OR_RETURN(lhs, rexpr) \
  MPC_UTILS_AOR_(MPC_UTILS_CONCAT_(statusor_macro_, __COUNTER__), lhs, rexpr)
#define MPC_UTILS_AOR_(so, lhs, rexpr)  \
  auto so = (rexpr);                    \
  if (!so.ok()) return so.status();     \
  lhs = std::move(so).ValueOrDie();
#endif
