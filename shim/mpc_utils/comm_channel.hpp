// Offline stand-in for mpc_utils::comm_channel on the in-memory network of the
// model checker. Messages sent with send() are framed; send_data() is raw.
#ifndef MPC_UTILS_COMM_CHANNEL_HPP_
#define MPC_UTILS_COMM_CHANNEL_HPP_
#include <sstream>
#include <string>
#include <type_traits>
#include <typeinfo>
#include <utility>
#include <vector>

#include "boost/archive/binary_iarchive.hpp"
#include "boost/archive/binary_oarchive.hpp"
#include "boost/serialization/array.hpp"
#include "boost/serialization/string.hpp"
#include "boost/serialization/utility.hpp"
#include "boost/serialization/vector.hpp"
#include "mc/net.h"

namespace mpc_utils {
class comm_channel {
 public:
  comm_channel(mc::Link* l, int id, bool measured) : l_(l), id_(id), measured_(measured) {}
  comm_channel(comm_channel&&) = default;
  comm_channel(const comm_channel&) = delete;
  template <typename T>
  void send(const T& v) {
    std::ostringstream os;
    {
      boost::archive::binary_oarchive ar(os, boost::archive::no_header);
      ar << v;
    }
    std::string s = os.str();
    l_->send(id_, 0, true, s.data(), s.size(), typeid(T).name());
  }
  template <typename T>
  void recv(T& v) {
    std::string s = l_->recv_typed(id_, 0);
    std::istringstream is(s);
    bool bad = false;
    try {
      boost::archive::binary_iarchive ar(is, boost::archive::no_header);
      ar >> v;
      bad = is.peek() != std::char_traits<char>::eof();
    } catch (const std::exception&) {
      bad = true;
    }
    if (bad)
      mc::violation("parties out of step: party %d reads a message of another type than was sent", id_);
  }
  template <typename S, typename R>
  void send_recv(const S& s, R& r) { send(s); flush(); recv(r); }
  void send_data(const void* p, size_t n) { l_->send(id_, 0, false, p, n); }
  void recv_data(void* p, size_t n) { l_->recv_raw(id_, 0, p, n); }
  void write(const void* p, size_t n) { send_data(p, n); }
  void read(void* p, size_t n) { recv_data(p, n); }
  void flush() { l_->flush(id_, 0); }
  void sync() { l_->sync(id_); }
  int get_id() const { return id_; }
  int get_peer_id() const { return 1 - id_; }
  bool is_measured() const { return measured_; }
  uint64_t get_num_bytes_sent() const { return l_->bytes[id_]; }
  uint64_t get_num_bytes_received() const { return l_->bytes[1 - id_]; }
  comm_channel clone() { return comm_channel(l_, id_, measured_); }
  comm_channel clone(bool measured) { return comm_channel(l_, id_, measured); }
  mc::Link* link() const { return l_; }

 private:
  mc::Link* l_;
  int id_;
  bool measured_;
};
}  // namespace mpc_utils
using mpc_utils::comm_channel;  // as the original header does
#endif
