// Stand-in for libperm (not installed): permutations of 0..n-1 with
// lexicographic ranks (identity has rank 0).
#pragma once
#include <algorithm>
#include <cstddef>
#include <numeric>
#include <vector>
namespace perm {
class ExplicitPermutation {
 public:
  std::vector<std::size_t> im;
  std::size_t image(std::size_t i) const { return i < im.size() ? im[i] : i; }
  std::size_t operator[](std::size_t i) const { return image(i); }
  void grow(std::size_t n) { while (im.size() < n) im.push_back(im.size()); }
  /// this <- p * this   (first this, then p)
  void preMultiply(const ExplicitPermutation& p) {
    grow(p.im.size());
    for (auto& x : im) x = p.image(x);
  }
  /// this <- this * p   (first p, then this)
  void postMultiply(const ExplicitPermutation& p) {
    grow(p.im.size());
    std::vector<std::size_t> r(im.size());
    for (std::size_t i = 0; i < im.size(); ++i) r[i] = image(p.image(i));
    im = r;
  }
  void invert() {
    std::vector<std::size_t> r(im.size());
    for (std::size_t i = 0; i < im.size(); ++i) r[im[i]] = i;
    im = r;
  }
  std::vector<std::vector<std::size_t>> toDisjointCycles(std::size_t n) const {
    std::vector<std::vector<std::size_t>> cs;
    std::vector<bool> seen(n);
    for (std::size_t i = 0; i < n; ++i) {
      if (seen[i]) continue;
      cs.emplace_back();
      for (std::size_t k = i; !seen[k]; k = image(k)) { seen[k] = true; cs.back().push_back(k); }
    }
    return cs;
  }
};
class Permutation {
  ExplicitPermutation p_;
 public:
  Permutation() = default;
  explicit Permutation(std::vector<std::size_t> v) { p_.im = std::move(v); }
  ExplicitPermutation* operator->() { return &p_; }
  const ExplicitPermutation* operator->() const { return &p_; }
  operator const ExplicitPermutation&() const { return p_; }
  std::size_t operator[](std::size_t i) const { return p_.image(i); }
};
}  // namespace perm
