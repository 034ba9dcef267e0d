#ifndef MPC_UTILS_BOOST_SERIALIZATION_ABSEIL_HPP_
#define MPC_UTILS_BOOST_SERIALIZATION_ABSEIL_HPP_
#include "absl/numeric/int128.h"
#include "boost/serialization/split_free.hpp"
namespace boost { namespace serialization {
template <class A> void save(A& ar, const absl::uint128& x, unsigned) {
  uint64_t h = absl::Uint128High64(x), l = absl::Uint128Low64(x);
  ar & h; ar & l;
}
template <class A> void load(A& ar, absl::uint128& x, unsigned) {
  uint64_t h, l; ar & h; ar & l; x = absl::MakeUint128(h, l);
}
}}
BOOST_SERIALIZATION_SPLIT_FREE(absl::uint128)
#endif
