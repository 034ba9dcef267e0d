// Used only when the repository's own (unbuildable-here) tests are compiled
// against the stand-ins to validate them; the checks do not use it.
#ifndef MPC_UTILS_TESTING_COMM_CHANNEL_TEST_HELPER_HPP_
#define MPC_UTILS_TESTING_COMM_CHANNEL_TEST_HELPER_HPP_
#include <thread>
#include "mpc_utils/comm_channel.hpp"
namespace mpc_utils { namespace testing {
class CommChannelTestHelper {
 public:
  explicit CommChannelTestHelper(bool measured = false)
      : a_(&link_, 0, measured), b_(&link_, 1, measured) {}
  comm_channel* GetChannel(int i) { return i == 0 ? &a_ : &b_; }
 private:
  mc::Link link_;
  comm_channel a_, b_;
};
}}
#endif
