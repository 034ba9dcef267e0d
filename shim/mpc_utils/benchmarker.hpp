#ifndef MPC_UTILS_BENCHMARKER_HPP_
#define MPC_UTILS_BENCHMARKER_HPP_
#include <chrono>
#include <iostream>
#include <map>
#include <string>
namespace mpc_utils {
class Benchmarker {
 public:
  using time_point = std::chrono::steady_clock::time_point;
  static time_point StartTimer() { return std::chrono::steady_clock::now(); }
  void AddSecondsSinceStart(const std::string& k, time_point s) {
    m_[k] += std::chrono::duration<double>(StartTimer() - s).count();
  }
  template <typename F>
  void BenchmarkFunction(const std::string& k, F f) {
    auto s = StartTimer(); f(); AddSecondsSinceStart(k, s);
  }
  void AddAmount(const std::string& k, double v) { m_[k] += v; }
  double Get(const std::string& k) { return m_[k]; }
  void Set(const std::string& k, double v) { m_[k] = v; }
 private:
  std::map<std::string, double> m_;
};
}  // namespace mpc_utils
#endif
