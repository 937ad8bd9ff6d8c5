// A dense evaluation backend over the oracle's exact scalars: every array is
// indexed by orbital position, contraction is a plain loop over labels.
#pragma once
#include <SeQuant/core/eval/eval.hpp>
#include <SeQuant/core/eval/eval_expr.hpp>
#include <SeQuant/core/expressions/result_expr.hpp>
#include "lib/setup.hpp"
namespace orc {
using Labels = std::vector<std::string>;
struct FS {  // scalar type for ResultScalar
  F v;
  FS() = default;
  FS(F f) : v(f) {}
  explicit FS(std::int8_t k) : v(k < 0 ? -F{uint64_t(-k), 0} : F{uint64_t(k), 0}) {}
  friend FS operator+(FS a, FS b) { return FS(a.v + b.v); }
  friend FS operator*(FS a, FS b) { return FS(a.v * b.v); }
  FS& operator+=(FS o) { v += o.v; return *this; }
  friend std::ostream& operator<<(std::ostream& o, FS f) { return o << f.v.str(); }
  friend std::wostream& operator<<(std::wostream& o, FS) { return o; }
};
class EvalExprV final : public EvalExpr {
 public:
  template <typename... A>
    requires(std::is_constructible_v<EvalExpr, A...>)
  explicit EvalExprV(A&&... a) : EvalExpr(std::forward<A>(a)...) {
    for (auto& i : canon_indices()) an.push_back(u8(i.full_label()));
  }
  Labels const& annot() const { return an; }
 private:
  Labels an;
};
using NodeV = EvalNode<EvalExprV>;
/// first index fastest
struct Arr {
  std::vector<int> dim;
  std::vector<F> d;
  bool operator==(const Arr&) const = default;
  std::size_t stride(int k) const { std::size_t s = 1; for (int j = 0; j < k; ++j) s *= dim[j]; return s; }
};
/// result[to] = sum over everything else of a[la] * b[lb]   (b optional)
inline Arr einsum(const Arr& a, const Labels& la, const Arr* b, const Labels& lb, const Labels& to) {
  if (la.size() != a.dim.size() || (b && lb.size() != b->dim.size())) throw vf::Fail{"annotation does not have as many labels as the array has modes"};
  Labels all = to;
  for (auto* l : {&la, &lb}) for (auto& x : *l) if (std::find(all.begin(), all.end(), x) == all.end()) all.push_back(x);
  std::vector<int> dim(all.size(), -1);
  std::vector<std::size_t> sa(all.size()), sb(all.size());
  auto put = [&](const Arr& x, const Labels& l, std::vector<std::size_t>& st) {
    for (std::size_t k = 0; k < l.size(); ++k) {
      std::size_t p = std::find(all.begin(), all.end(), l[k]) - all.begin();
      if (dim[p] >= 0 && dim[p] != x.dim[k]) throw vf::Fail{"modes of different extent are given the same label " + l[k]};
      dim[p] = x.dim[k];
      st[p] += x.stride(int(k));
    }
  };
  put(a, la, sa);
  if (b) put(*b, lb, sb);
  Arr r;
  std::size_t n = 1, tot = 1;
  for (std::size_t k = 0; k < to.size(); ++k) {
    if (dim[k] < 0) throw vf::Fail{"result label " + to[k] + " is in neither operand"};
    r.dim.push_back(dim[k]);
    n *= dim[k];
  }
  r.d.assign(n, F{});
  for (int x : dim) tot *= x;
  std::vector<int> c(all.size());
  for (std::size_t q = 0; q < tot; ++q) {
    std::size_t x = q, oa = 0, ob = 0, orr = 0, st = 1;
    for (std::size_t k = 0; k < all.size(); ++k) {
      std::size_t v = x % dim[k];
      x /= dim[k];
      oa += v * sa[k]; ob += v * sb[k];
      if (k < to.size()) { orr += v * st; st *= dim[k]; }
    }
    r.d[orr] += b ? a.d[oa] * b->d[ob] : a.d[oa];
  }
  return r;
}
class ResultV final : public Result {
 public:
  explicit ResultV(Arr a) : Result(std::move(a)) {}
  const Arr& arr() const { return get<Arr>(); }
  static ResultPtr make(Arr a) { return std::make_shared<ResultV>(std::move(a)); }
  using A3 = std::array<std::any, 3>;
  using A2 = std::array<std::any, 2>;
  ResultPtr sum(Result const& o, A3 const& an) const override {
    auto l = std::any_cast<Labels>(an[0]), r = std::any_cast<Labels>(an[1]), t = std::any_cast<Labels>(an[2]);
    if (!o.is<ResultV>()) throw vf::Fail{"sum of an array and something else"};
    if (l.size() != t.size() || r.size() != t.size()) throw vf::Fail{"sum of arrays of different rank"};
    Arr x = einsum(arr(), l, nullptr, {}, t), y = einsum(o.as<ResultV>().arr(), r, nullptr, {}, t);
    if (x.dim != y.dim) throw vf::Fail{"sum of arrays of different extents"};
    for (std::size_t k = 0; k < x.d.size(); ++k) x.d[k] += y.d[k];
    return make(x);
  }
  ResultPtr prod(Result const& o, A3 const& an, DeNest) const override {
    auto l = std::any_cast<Labels>(an[0]), r = std::any_cast<Labels>(an[1]), t = std::any_cast<Labels>(an[2]);
    if (o.is<ResultScalar<FS>>()) {
      Arr x = einsum(arr(), l, nullptr, {}, t);
      F f = o.as<ResultScalar<FS>>().value().v;
      for (auto& e : x.d) e = e * f;
      return make(x);
    }
    auto& y = o.as<ResultV>().arr();
    Arr x = einsum(arr(), l, &y, r, t);
    if (t.empty()) return eval_result<ResultScalar<FS>>(FS(x.d[0]));
    return make(x);
  }
  ResultPtr permute(A2 const& an) const override {
    auto l = std::any_cast<Labels>(an[0]), t = std::any_cast<Labels>(an[1]);
    if (l.size() != t.size()) throw vf::Fail{"permutation between different ranks"};
    return make(einsum(arr(), l, nullptr, {}, t));
  }
  ResultPtr adjoint(A2 const& an) const override {
    auto l = std::any_cast<Labels>(an[0]), t = std::any_cast<Labels>(an[1]);
    if (l.size() != t.size()) throw vf::Fail{"adjoint between different ranks"};
    Arr x = einsum(arr(), l, nullptr, {}, t);
    for (auto& e : x.d) e = e.conj();
    return make(x);
  }
  ResultPtr slice_mode(std::size_t m, std::size_t lo, std::size_t hi) const override {
    auto& a = arr();
    Arr r;
    r.dim = a.dim;
    if (m >= a.dim.size() || hi > std::size_t(a.dim[m]) || lo > hi) throw vf::Fail{"slice out of range"};
    r.dim[m] = int(hi - lo);
    std::size_t s = a.stride(int(m));
    for (std::size_t q = 0; q < a.d.size(); ++q) {
      std::size_t v = q / s % a.dim[m];
      if (v >= lo && v < hi) r.d.push_back(a.d[q]);
    }
    return make(r);
  }
  container::svector<std::pair<std::size_t, std::size_t>> mode_batches(std::size_t m, std::size_t target) const override {
    container::svector<std::pair<std::size_t, std::size_t>> r;
    std::size_t n = arr().dim.at(m);
    if (!target) target = n;
    for (std::size_t k = 0; k < n; k += target) r.push_back({k, std::min(n, k + target)});
    return r;
  }
  void add_inplace(Result const& o) override {
    if (!o.is<ResultV>() || o.as<ResultV>().arr().dim != arr().dim) throw vf::Fail{"in-place sum of arrays of different shapes"};
    auto& y = o.as<ResultV>().arr();
    auto& x = get<Arr>();
    for (std::size_t k = 0; k < x.d.size(); ++k) x.d[k] += y.d[k];
  }
  template <typename Fn>
  ResultPtr perms(const Fn& each) const {
    auto& a = arr();
    Arr r;
    r.dim = a.dim;
    r.d.assign(a.d.size(), F{});
    each([&](const auto& perm, int par) {
      Labels from, to;
      for (std::size_t k = 0; k < a.dim.size(); ++k) { from.push_back(std::to_string(k)); to.push_back(std::to_string(perm[k])); }
      Arr x = einsum(a, from, nullptr, {}, to);
      for (std::size_t k = 0; k < x.d.size(); ++k) { if (par) r.d[k] -= x.d[k]; else r.d[k] += x.d[k]; }
    });
    return make(r);
  }
  ResultPtr symmetrize() const override {
    std::size_t n = arr().dim.size();
    return perms([&](const auto& f) {
      detail::perm_t p(n);
      std::iota(p.begin(), p.end(), 0);
      detail::symmetric_permutation(detail::SymmetricParticleRange{p.begin(), p.begin() + n / 2, n / 2}, [&] { f(p, 0); });
    });
  }
  ResultPtr antisymmetrize(std::size_t nb) const override {
    std::size_t n = arr().dim.size();
    return perms([&](const auto& f) {
      detail::perm_t p(n);
      std::iota(p.begin(), p.end(), 0);
      detail::antisymmetric_permutation(detail::ParticleRange{p.begin(), nb}, [&](int pb) {
        detail::antisymmetric_permutation(detail::ParticleRange{p.begin() + nb, n - nb}, [&](int pk) { f(p, (pb + pk) & 1); });
      });
    });
  }
  ResultPtr mult_by_phase(std::int8_t p) const override {
    Arr x = arr();
    F f = FS(p).v;
    for (auto& e : x.d) e = e * f;
    return make(x);
  }
  std::size_t size_in_bytes() const override { return arr().d.size() * sizeof(F); }
 private:
  id_t type_id() const noexcept override { return id_for_type<ResultV>(); }
};
/// leaf data, shared between all leaves that denote the same array
struct Leaves {
  Model& m;
  std::map<std::string, ResultPtr> store;
  std::map<std::string, Arr> pristine;
  std::size_t calls = 0;
  explicit Leaves(Model& mm) : m(mm) {}
  Arr compute(const ExprPtr& e, const std::vector<Index>& ix) const {
    Arr a;
    for (auto& i : ix) a.dim.push_back(int(m.values(i.space()).size()));
    for (auto& l : value(m, e, ix, 1 << 20)) a.d.push_back(l.t.empty() ? F{} : l.t.begin()->second);
    return a;
  }
  ResultPtr operator()(NodeV const& n) {
    ++calls;
    if (!n.leaf()) throw vf::Fail{"the leaf evaluator is called on an inner node"};
    auto e = n->expr();
    if (!n->is_tensor()) {
      auto v = value(m, e, {});
      return eval_result<ResultScalar<FS>>(FS(v[0].t.empty() ? F{} : v[0].t.begin()->second));
    }
    auto& t = n->as_tensor();
    std::string k = u8(t.label());
    std::vector<Index> ix(n->canon_indices().begin(), n->canon_indices().end());
    // names do not matter, only which slot is which mode
    std::map<std::string, int> pos;
    for (auto& i : ix) pos.emplace(u8(i.full_label()), int(pos.size()));
    for (auto& i : t.const_slots()) {
      k += "|";
      if (!i.nonnull()) continue;
      k += u8(i.space().base_key()) + std::to_string(i.space().qns().to_int32());
      auto it = pos.find(u8(i.full_label()));
      k += ":" + std::to_string(it == pos.end() ? -1 : it->second);
      for (auto& p : i.proto_indices()) { auto jt = pos.find(u8(p.full_label())); k += "," + std::to_string(jt == pos.end() ? -1 : jt->second); }
    }
    k += "#" + std::to_string(t.bra_rank()) + "," + std::to_string(t.ket_rank());
    k += "s" + std::to_string(int(t.symmetry())) + std::to_string(int(t.braket_symmetry())) + std::to_string(int(t.column_symmetry()));
    auto it = store.find(k);
    if (it == store.end()) {
      Arr a = compute(e, ix);
      pristine[k] = a;
      it = store.emplace(k, ResultV::make(a)).first;
    }
    return it->second;
  }
  bool intact() const {
    for (auto& [k, r] : store) if (!(r->as<ResultV>().arr() == pristine.at(k))) return false;
    return true;
  }
};
inline Arr flat(const ResultPtr& r) {
  if (r->is<ResultScalar<FS>>()) return Arr{{}, {r->as<ResultScalar<FS>>().value().v}};
  return r->as<ResultV>().arr();
}
inline Labels labels(const std::vector<Index>& v) { Labels a; for (auto& i : v) a.push_back(u8(i.full_label())); return a; }
/// the array an expression denotes, over the given externals
inline Arr want(Model& m, const ExprPtr& e, const std::vector<Index>& ix) {
  Leaves l(m);
  return l.compute(e, ix);
}
inline Arr operator+(Arr a, const Arr& b) { for (std::size_t k = 0; k < a.d.size(); ++k) a.d[k] += b.d[k]; return a; }
inline std::string show(const Arr& a) { std::string s = "["; for (std::size_t k = 0; k < a.d.size() && k < 4; ++k) s += (k ? "," : "") + a.d[k].str(); return s + (a.d.size() > 4 ? ",...]" : "]"); }
inline std::string show(NodeV const& n) {
  if (n.leaf()) return show(n->expr()) + (n->canon_phase() < 0 ? "~-" : "");
  std::string an;
  for (auto& x : n->annot()) an += x + " ";
  return "(" + show(n.left()) + (n->is_sum() ? " + " : n->is_product() ? " * " : " adj ") + show(n.right()) + ")[" + an + "]" + (n->canon_phase() < 0 ? "~-" : "");
}
}  // namespace orc
