#pragma once
#include "Permutation.hpp"
namespace perm {
/// p with current[i] == reference[p(i)] (as compared by less)
template <typename A, typename B, typename Less>
Permutation computeTransformationPermutation(const A& reference, const B& current, Less less) {
  std::vector<std::size_t> v;
  std::vector<bool> used(reference.size());
  for (std::size_t i = 0; i < current.size(); ++i)
    for (std::size_t k = 0; k < reference.size(); ++k)
      if (!used[k] && !less(current[i], reference[k]) && !less(reference[k], current[i])) {
        used[k] = true; v.push_back(k); break;
      }
  return Permutation(v);
}
}  // namespace perm
