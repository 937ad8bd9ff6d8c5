// default contexts and small builders shared by the harnesses
#pragma once
#include "lib/oracle.hpp"
#include <SeQuant/core/runtime.hpp>
namespace orc {
inline std::shared_ptr<IndexSpaceRegistry> basic_registry() {
  auto isr = std::make_shared<IndexSpaceRegistry>();
  isr->add(L"i", 0b01, is_vacuum_occupied, is_reference_occupied, is_hole)
      .add(L"a", 0b10, is_particle)
      .add_union(L"p", {L"i", L"a"}, is_complete)
      .add(L"x", 0b100, IndexSpace::QuantumNumbers(8));
  isr->physical_particle_attribute_mask(0);
  return isr;
}
inline void use_context(Vacuum v, std::shared_ptr<IndexSpaceRegistry> isr = basic_registry()) {
  set_num_threads(1);
  set_default_context(Context({.index_space_registry_shared_ptr = isr, .vacuum = v}));
}
using Val = std::vector<Lin>;
inline Val operator+(Val a, const Val& b) { for (std::size_t k = 0; k < a.size(); ++k) for (auto& [s, c] : b[k].t) a[k].add(s, c); return a; }
inline Val neg(const Val& a) { Val r(a.size()); for (std::size_t k = 0; k < a.size(); ++k) for (auto& [s, c] : a[k].t) r[k].add(s, -c); return r; }
inline Val operator-(const Val& a, const Val& b) { return a + neg(b); }
inline Val operator*(const Val& a, const Val& b) { Val r; for (std::size_t k = 0; k < a.size(); ++k) r.push_back(a[k] * b[k]); return r; }
inline Val adj(const Val& a) {
  Val r(a.size());
  for (std::size_t k = 0; k < a.size(); ++k)
    for (auto& [s, c] : a[k].t) { Str u; for (auto it = s.rbegin(); it != s.rend(); ++it) u.push_back(*it ^ 1); normal_form(u, c.conj(), r[k]); }
  return r;
}
inline Val num(F c, std::size_t n) { return Val(n, scalar(c)); }
inline F q(long n, long d = 1) { return from(rational(n, d)); }
}  // namespace orc
