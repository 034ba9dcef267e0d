#ifndef MPC_UTILS_BOOST_SERIALIZATION_EIGEN_HPP_
#define MPC_UTILS_BOOST_SERIALIZATION_EIGEN_HPP_
#include "Eigen/Dense"
#include "Eigen/Sparse"
#include "boost/serialization/split_free.hpp"
#include "mpc_utils/boost_serialization/abseil.hpp"
#include "mpc_utils/boost_serialization/ntl.hpp"
namespace boost { namespace serialization {
template <class A, class S, int R, int C, int O, int MR, int MC>
void save(A& ar, const Eigen::Matrix<S, R, C, O, MR, MC>& x, unsigned) {
  long r = x.rows(), c = x.cols(); ar & r; ar & c;
  for (long i = 0; i < r; i++) for (long j = 0; j < c; j++) { const S& e = x(i, j); ar & e; }
}
template <class A, class S, int R, int C, int O, int MR, int MC>
void load(A& ar, Eigen::Matrix<S, R, C, O, MR, MC>& x, unsigned) {
  long r, c; ar & r; ar & c; x.resize(r, c);
  for (long i = 0; i < r; i++) for (long j = 0; j < c; j++) ar & x(i, j);
}
template <class A, class S, int R, int C, int O, int MR, int MC>
void serialize(A& ar, Eigen::Matrix<S, R, C, O, MR, MC>& x, unsigned v) {
  split_free(ar, x, v);
}
}}
#endif
