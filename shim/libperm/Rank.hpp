#pragma once
#include "Permutation.hpp"
namespace perm {
inline Permutation unrank(std::size_t r, std::size_t n) {
  std::vector<std::size_t> v(n);
  std::iota(v.begin(), v.end(), 0);
  while (r--) std::next_permutation(v.begin(), v.end());
  return Permutation(v);
}
inline std::size_t rank(const Permutation& p, std::size_t n) {
  std::vector<std::size_t> v(n), w(n);
  std::iota(v.begin(), v.end(), 0);
  for (std::size_t i = 0; i < n; ++i) w[i] = p->image(i);
  std::size_t r = 0;
  while (v != w) { ++r; if (!std::next_permutation(v.begin(), v.end())) break; }
  return r;
}
}  // namespace perm
