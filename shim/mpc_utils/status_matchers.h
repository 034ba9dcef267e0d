#ifndef MPC_UTILS_STATUS_MATCHERS_H_
#define MPC_UTILS_STATUS_MATCHERS_H_
#include "gtest/gtest.h"
#include "mpc_utils/status_macros.h"
#define ASSERT_OK(e) ASSERT_TRUE((e).ok())
#define EXPECT_OK(e) EXPECT_TRUE((e).ok())
#define ASSERT_OK_AND_ASSIGN(lhs, rexpr) \
  MPC_UTILS_AOAA_(MPC_UTILS_CONCAT_(statusor_matcher_, __COUNTER__), lhs, rexpr)
#define MPC_UTILS_AOAA_(so, lhs, rexpr)                  \
  auto so = (rexpr);                                     \
  ASSERT_TRUE(so.ok()) << so.status().ToString();        \
  lhs = std::move(so).ValueOrDie();
#endif
