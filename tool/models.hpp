// Included before the repository's sources (clang -include): plain loops for the
// algorithms which libstdc++ unrolls by hand, so that the analysis sees one loop.
#include <algorithm>
#include <vector>
#include <string>
namespace std {
template <class P, class C, class Pred>
inline __gnu_cxx::__normal_iterator<P, C>
__find_if(__gnu_cxx::__normal_iterator<P, C> f, __gnu_cxx::__normal_iterator<P, C> l,
          Pred p, random_access_iterator_tag) {
  while (f != l && !p(f)) ++f;
  return f;
}
}
