#ifndef MPC_UTILS_BOOST_SERIALIZATION_NTL_HPP_
#define MPC_UTILS_BOOST_SERIALIZATION_NTL_HPP_
#include <vector>
#include "NTL/ZZ_p.h"
#include "NTL/lzz_p.h"
#include "NTL/vector.h"
#include "boost/serialization/split_free.hpp"
#include "boost/serialization/vector.hpp"
namespace boost { namespace serialization {
template <class A> void save(A& ar, const NTL::ZZ& x, unsigned) {
  int neg = NTL::sign(x) < 0;
  std::vector<unsigned char> b(NTL::NumBytes(x));
  NTL::BytesFromZZ(b.data(), x, (long)b.size());
  ar & neg; ar & b;
}
template <class A> void load(A& ar, NTL::ZZ& x, unsigned) {
  int neg; std::vector<unsigned char> b;
  ar & neg; ar & b;
  x = NTL::ZZFromBytes(b.data(), (long)b.size());
  if (neg) NTL::negate(x, x);
}
template <class A> void save(A& ar, const NTL::ZZ_p& x, unsigned) {
  const NTL::ZZ& r = NTL::rep(x); ar & r;
}
template <class A> void load(A& ar, NTL::ZZ_p& x, unsigned) {
  NTL::ZZ r; ar & r; NTL::conv(x, r);
}
template <class A> void save(A& ar, const NTL::zz_p& x, unsigned) {
  long r = NTL::rep(x); ar & r;
}
template <class A> void load(A& ar, NTL::zz_p& x, unsigned) {
  long r; ar & r; NTL::conv(x, r);
}
template <class A, class T> void save(A& ar, const NTL::Vec<T>& x, unsigned) {
  long n = x.length(); ar & n; for (long i = 0; i < n; i++) ar & x[i];
}
template <class A, class T> void load(A& ar, NTL::Vec<T>& x, unsigned) {
  long n; ar & n; x.SetLength(n); for (long i = 0; i < n; i++) ar & x[i];
}
template <class A, class T> void serialize(A& ar, NTL::Vec<T>& x, unsigned v) {
  split_free(ar, x, v);
}
}}
BOOST_SERIALIZATION_SPLIT_FREE(NTL::ZZ)
BOOST_SERIALIZATION_SPLIT_FREE(NTL::ZZ_p)
BOOST_SERIALIZATION_SPLIT_FREE(NTL::zz_p)
#endif
