#ifndef MPC_UTILS_COMM_CHANNEL_EMP_ADAPTER_HPP_
#define MPC_UTILS_COMM_CHANNEL_EMP_ADAPTER_HPP_
#include <memory>

#include "mpc_utils/comm_channel.hpp"
#include "mpc_utils/statusor.h"
namespace mpc_utils {
class CommChannelEMPAdapter {
 public:
  static StatusOr<std::unique_ptr<CommChannelEMPAdapter>> Create(
      comm_channel* ch, bool direct_connection = false, int max_retries = 5,
      bool = false) {
    (void)max_retries;
    int k = direct_connection ? ch->link()->open_direct(ch->get_id()) : 0;
    return std::unique_ptr<CommChannelEMPAdapter>(new CommChannelEMPAdapter(ch, k));
  }
  void send_data(const void* p, int n) { l_->send(id_, k_, false, p, n); }
  void recv_data(void* p, int n) { l_->recv_raw(id_, k_, p, n); }
  void send_block(const void* p, int n) { send_data(p, n * 16); }
  void recv_block(void* p, int n) { recv_data(p, n * 16); }
  void flush() { l_->flush(id_, k_); }
  void sync() { l_->sync(id_); }
  mc::Link* link() const { return l_; }
  int id() const { return id_; }
  int conn() const { return k_; }

 private:
  CommChannelEMPAdapter(comm_channel* ch, int k) : l_(ch->link()), id_(ch->get_id()), k_(k) {}
  mc::Link* l_;
  int id_, k_;
};
}  // namespace mpc_utils
#endif
