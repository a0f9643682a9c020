// Read before every source. std::find_if and what builds on it, without the
// library's unrolling by four: the overloads are more specialised than its own.
#include <algorithm>
#include <vector>
#include "google/protobuf/repeated_field.h"
namespace std {
template <class T, class P> inline T* __find_if(T* f, T* l, P p, random_access_iterator_tag) {
  while (f != l && !p(f)) ++f;
  return f;
}
template <class T, class C, class P>
inline __gnu_cxx::__normal_iterator<T, C> __find_if(__gnu_cxx::__normal_iterator<T, C> f, __gnu_cxx::__normal_iterator<T, C> l, P p, random_access_iterator_tag) {
  while (f != l && !p(f)) ++f;
  return f;
}
template <class T, class P>
inline google::protobuf::internal::RepeatedPtrIterator<T> __find_if(google::protobuf::internal::RepeatedPtrIterator<T> f, google::protobuf::internal::RepeatedPtrIterator<T> l, P p, random_access_iterator_tag) {
  while (f != l && !p(f)) ++f;
  return f;
}
template <class T, class P>
inline google::protobuf::internal::RepeatedIterator<T> __find_if(google::protobuf::internal::RepeatedIterator<T> f, google::protobuf::internal::RepeatedIterator<T> l, P p, random_access_iterator_tag) {
  while (f != l && !p(f)) ++f;
  return f;
}
}
