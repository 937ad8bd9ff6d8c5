// Reference semantics of SeQuant expressions, independent of SeQuant's own
// algebra: scalars are exact elements of the field F_p[i] (p = 2^31-1, so -1
// is no square and conjugation is the Frobenius map); every index ranges over
// a few orbitals of its space; every tensor is a fixed pseudo-random function
// of its slots that has the symmetries the Tensor declares (and no others);
// creation/annihilation operators are reduced to sorted normal form with the
// canonical (anti)commutation relations.
#pragma once
#include <SeQuant/core/context.hpp>
#include <SeQuant/core/expr.hpp>
#include <SeQuant/core/expressions/power.hpp>
#include <SeQuant/core/index.hpp>
#include <SeQuant/core/index_space_registry.hpp>
#include <SeQuant/core/op.hpp>
#include <SeQuant/core/reserved.hpp>
#include <SeQuant/core/space.hpp>

#include <boost/version.hpp>
#include <algorithm>
#include <cstdint>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <vector>

#include "lib/vf.hpp"

namespace orc {
using namespace sequant;
constexpr uint64_t P = 2147483647ull;

struct F {
  uint64_t re = 0, im = 0;
  bool operator==(const F&) const = default;
  bool zero() const { return !re && !im; }
  F& operator+=(F o) { re = (re + o.re) % P; im = (im + o.im) % P; return *this; }
  F& operator-=(F o) { re = (re + P - o.re) % P; im = (im + P - o.im) % P; return *this; }
  friend F operator+(F a, F b) { return a += b; }
  friend F operator-(F a, F b) { return a -= b; }
  friend F operator-(F a) { return F{} - a; }
  friend F operator*(F a, F b) {
    if (!a.im && !b.im) return {a.re * b.re % P, 0};
    return {(a.re * b.re + (P - a.im) * b.im) % P, (a.re * b.im + a.im * b.re) % P};
  }
  F conj() const { return {re, (P - im) % P}; }
  std::string str() const { return "(" + std::to_string(re) + "," + std::to_string(im) + ")"; }
};
inline uint64_t powm(uint64_t b, uint64_t e) { uint64_t r = 1; for (b %= P; e; e >>= 1, b = b * b % P) if (e & 1) r = r * b % P; return r; }
inline F inv(F a) {
  uint64_t n = (a.re * a.re + a.im * a.im) % P;
  uint64_t k = powm(n, P - 2);
  return F{a.re * k % P, (P - a.im) % P * k % P};
}
inline F pow(F b, long e) { if (e < 0) return pow(inv(b), -e); F r{1, 0}; while (e--) r = r * b; return r; }
template <typename Int>
uint64_t int_mod(const Int& n) { Int m = n % Int(P); if (m < 0) m += Int(P); return static_cast<uint64_t>(m); }
inline F from(const rational& r) {
  uint64_t d = int_mod(denominator(r));
  return {int_mod(numerator(r)) * powm(d, P - 2) % P, 0};
}
inline F from(const Complex<rational>& c) { return {from(c.real()).re, from(c.imag()).re}; }
inline F rnd(uint64_t h, bool real) { h = vf::mix(h); F r{h % P, 0}; if (!real) r.im = vf::mix(h + 77) % P; return r; }

/// orbitals: one set per (type bit, spin bit or 0, other quantum numbers)
struct Model {
  int per = 2;                       // orbitals per set
  std::map<int, int> per_bit;        // override per type bit (bit position)
  bool spin_resolved = true;         // spin bits of the QNs select orbitals
  int spin_mask = 3;
  struct Orb { int bit, spin, other, k; };
  std::vector<Orb> orbs;
  std::map<std::tuple<int, int, int, int>, int> ids;
  std::map<std::pair<int, int>, std::vector<int>> cache;
  int orb(int bit, int spin, int other, int k) {
    auto [it, n] = ids.try_emplace({bit, spin, other, k}, int(orbs.size()));
    if (n) orbs.push_back({bit, spin, other, k});
    return it->second;
  }
  const std::vector<int>& values(const IndexSpace& s) {
    int t = s.type().to_int32(), q = s.qns().to_int32();
    auto [it, n] = cache.try_emplace({t, q});
    if (n) {
      for (int b = 0; b < 31; ++b)
        if (t >> b & 1) {
          int m = per_bit.count(b) ? per_bit[b] : per;
          int sp = q & spin_mask;
          if (!spin_resolved || !sp) sp = 0;
          for (int k = 0; k < m; ++k) {
            if (!sp) it->second.push_back(orb(b, 0, q & ~spin_mask, k));
            else for (int s1 = 1; s1 <= 2; s1 <<= 1) if (sp & s1) it->second.push_back(orb(b, s1, q & ~spin_mask, k));
          }
        }
    }
    return it->second;
  }
};

/// element of the operator algebra: normal-ordered strings -> coefficient.
/// an op is 2*orb (create) or 2*orb+1 (annihilate); +4096 if bosonic
using Str = std::vector<int>;
struct Lin {
  std::map<Str, F> t;
  void add(const Str& s, F c) {
    if (c.zero()) return;
    auto [it, n] = t.try_emplace(s, c);
    if (!n) { it->second += c; if (it->second.zero()) t.erase(it); }
  }
  bool operator==(const Lin&) const = default;
  std::string str() const {
    std::string o;
    int n = 0;
    for (auto& [s, c] : t) {
      if (++n > 6) { o += " ..."; break; }
      o += " " + c.str() + "[";
      for (int x : s) o += (x & 1 ? " a" : " c") + std::to_string((x & 4095) >> 1);
      o += "]";
    }
    return o.empty() ? "0" : o;
  }
};
/// adds c * (ops in the order written) to out, brought to sorted normal form
inline void normal_form(Str s, F c, Lin& out) {
  // bubble: creators first, then annihilators, each ascending; bosons after fermions
  for (;;) {
    bool moved = false;
    for (std::size_t i = 0; i + 1 < s.size(); ++i) {
      int l = s[i], r = s[i + 1];
      bool lb = l & 4096, rb = r & 4096;
      bool la = l & 1, ra = r & 1;
      int lo = (l & 4095) >> 1, ro = (r & 4095) >> 1;
      if (lb != rb) { if (lb && !rb) { std::swap(s[i], s[i + 1]); moved = true; } continue; }
      const bool fermi = !lb;
      if (la && !ra) {
        if (lo == ro) {
          Str t(s.begin(), s.begin() + i);
          t.insert(t.end(), s.begin() + i + 2, s.end());
          normal_form(t, c, out);
        }
        std::swap(s[i], s[i + 1]);
        if (fermi) c = -c;
        moved = true;
      } else if (la == ra) {
        if (lo > ro) { std::swap(s[i], s[i + 1]); if (fermi) c = -c; moved = true; }
        else if (lo == ro && fermi) return;
      }
    }
    if (!moved) break;
  }
  out.add(s, c);
}
inline Lin operator*(const Lin& a, const Lin& b) {
  Lin r;
  for (auto& [s, c] : a.t)
    for (auto& [u, d] : b.t) {
      if (u.empty()) { r.add(s, c * d); continue; }
      if (s.empty()) { r.add(u, c * d); continue; }
      Str v = s; v.insert(v.end(), u.begin(), u.end());
      normal_form(v, c * d, r);
    }
  return r;
}
inline Lin scalar(F c) { Lin r; r.add({}, c); return r; }

using IdxKey = std::wstring;
inline IdxKey key(const Index& i) { return std::wstring(i.full_label()) + L"|" + std::to_wstring(i.space().type().to_int32()) + L"|" + std::to_wstring(i.space().qns().to_int32()); }

inline bool is_adjoint_label(std::wstring_view l) { return !l.empty() && l.back() == L'⁺'; }

struct Options {
  bool symmetrizers_expand = false;   // A/S tensors act on the rest of their product
  bool overlap_is_delta = true;
  bool roots = false;                 // true square roots of rationals
  bool spinfree = false;              // operators are summed over spin column by column
  /// replaces the operator product (normal-ordered strings, creators first,
  /// annihilators last-to-first) of a product node
  std::function<Lin(const std::vector<Str>&)> product;
};

/// compiled expression
class Eval {
 public:
  Model& m;
  Options o;
  struct Ix { int space; std::vector<int> protos; bool sym; Index idx; };
  std::vector<Ix> ix;
  std::map<IdxKey, int> ixid;
  std::vector<const std::vector<int>*> spaces;  // values of index
  std::set<int> ext;
  std::vector<int> extv;
  struct Node {
    enum K { C, T, O, Prod, Sum } k = C;
    F c{1, 0};
    uint64_t lab = 0;
    bool adj = false, delta = false;
    Symmetry s{}; BraKetSymmetry b{}; ColumnSymmetry cs{};
    std::vector<int> bra, ket, aux;       // index ids, -1 null
    std::vector<std::pair<int, int>> ops; // index id, flags(1 annih, 4096 bose)
    bool sp = false;                      // single-product vacuum
    std::vector<Node> ch;
    std::vector<int> summed;
    bool noncomm = false;
    std::vector<std::pair<Node, int>> dummy_;
  };
  Node root;
  const std::set<int>* occ_bits = nullptr;
  std::set<int> vac_occ;                   // orbitals occupied in the vacuum

  int id(const Index& i) {
    if (!i.nonnull()) return -1;
    auto k = key(i);
    auto it = ixid.find(k);
    if (it != ixid.end()) return it->second;
    std::vector<int> pr;
    for (auto& p : i.proto_indices()) pr.push_back(id(p));
    int n = int(ix.size());
    ix.push_back({0, pr, i.symmetric_proto_indices(), i});
    ixid[k] = n;
    spaces.push_back(&m.values(i.space()));
    return n;
  }

  Eval(Model& mm, const ExprPtr& e, const std::vector<Index>& externals, Options oo = {}) : m(mm), o(oo) {
    for (auto& x : externals) { int k = id(x); if (ext.insert(k).second) extv.push_back(k); }
    auto isr = get_default_context().index_space_registry();
    if (isr && get_default_context().vacuum() == Vacuum::SingleProduct && isr->vacuum_occupied_space(true))
      for (auto q : {1, 2, 3, 0}) {
        IndexSpace sp(L"occ", isr->vacuum_occupied_space(true), IndexSpace::QuantumNumbers(q));
        for (int v : m.values(sp)) {
          if (!o.spinfree) vac_occ.insert(v);
          else { vac_occ.insert(2 * v); vac_occ.insert(2 * v + 1); }
        }
      }
    root = compile(e);
    scope(root, {});
    // everything free at the top that is not external is summed there
    std::map<int, int> cnt = free_of(root);
    std::vector<int> left;
    for (auto& [k, n] : cnt) if (!ext.count(k)) left.push_back(k);
    if (!left.empty()) {
      Node p; p.k = Node::Prod; p.ch.push_back(root); p.noncomm = root.noncomm;
      p.summed = left;
      root = p;
      for (int k : left) free_top.push_back(k);
    }
  }
  std::vector<int> free_top;

  void add_ix(std::map<int, int>& cnt, int i) {
    if (i < 0) return;
    cnt[i]++;
    for (int p : ix[i].protos) add_ix(cnt, p);
  }
  // index -> number of open occurrences (externals included)
  std::map<int, int> free_of(const Node& n) {
    std::map<int, int> c;
    switch (n.k) {
      case Node::C: break;
      case Node::T: for (auto* v : {&n.bra, &n.ket, &n.aux}) for (int i : *v) add_ix(c, i); break;
      case Node::O: for (auto& [i, f] : n.ops) add_ix(c, i); break;
      case Node::Prod:
        for (auto& x : n.ch) for (auto& [i, k] : free_of(x)) c[i] += k;
        for (int i : n.summed) c.erase(i);
        break;
      case Node::Sum:
        for (auto& x : n.ch) for (auto& [i, k] : free_of(x)) c[i] = std::max(c[i], 1);
        break;
    }
    return c;
  }

  static uint64_t whash(std::wstring_view w) {
    uint64_t h = 99;
    for (wchar_t c : w) h = vf::mix(h * 131 + uint64_t(c));
    return h;
  }

  Node compile(const ExprPtr& e) { return compile(*e); }
  Node compile(const Expr& e) {
    Node n;
    if (e.is<Constant>()) { n.k = Node::C; n.c = from(e.as<Constant>().value()); }
    else if (e.is<Variable>()) {
      n.k = Node::C;
      auto& v = e.as<Variable>();
      n.c = rnd(whash(v.label()) + 1, false);
      if (v.conjugated()) n.c = n.c.conj();
    } else if (e.is<Power>()) {
      auto& p = e.as<Power>();
      Node b = compile(p.base());
      n.k = Node::C;
      const auto& x = p.exponent();
      bool real = false;
      if (o.roots && denominator(x) == 2 && p.base()->is<Constant>()) {
        // consistent square roots of products of powers of 2 and 3
        const auto& v = p.base()->as<Constant>().value();
        real = v.imag() == 0 && v.real() > 0;
        auto root = [](long a) { uint64_t r = powm(a, (P + 1) / 4); return r * r % P == uint64_t(a) ? F{r, 0} : F{0, powm(P - a, (P + 1) / 4)}; };
        F r{1, 0};
        auto split = [&](auto m, bool den) { for (long q : {2L, 3L}) while (m % q == 0) { m /= q; r = r * (den ? inv(root(q)) : root(q)); } if (m != 1) throw std::runtime_error("oracle: square root"); };
        if (!real) throw std::runtime_error("oracle: square root");
        split(numerator(v.real()), false); split(denominator(v.real()), true);
        n.c = pow(r, static_cast<long>(numerator(x)));
        return n;
      }
      if (denominator(x) == 1) n.c = pow(b.c, static_cast<long>(numerator(x)));
      else n.c = rnd(b.c.re * 31 + b.c.im + int_mod(numerator(x)) * 17 + int_mod(denominator(x)), false);
      if (p.conjugated()) n.c = n.c.conj();
    } else if (e.is<Tensor>()) {
      auto& t = e.as<Tensor>();
      n.k = Node::T;
      auto lab = t.label();
      while (is_adjoint_label(lab)) { n.adj = !n.adj; lab.remove_suffix(1); }
      n.delta = lab == reserved::kronecker_label() || (o.overlap_is_delta && lab == reserved::overlap_label());
      n.lab = whash(lab);
      n.s = t.symmetry(); n.b = t.braket_symmetry(); n.cs = t.column_symmetry();
      for (auto& i : t.bra()) n.bra.push_back(id(i));
      for (auto& i : t.ket()) n.ket.push_back(id(i));
      for (auto& i : t.aux()) n.aux.push_back(id(i));
    } else if (e.is<NormalOperator<Statistics::FermiDirac>>()) {
      auto& t = e.as<NormalOperator<Statistics::FermiDirac>>();
      n.k = Node::O; n.noncomm = true; n.sp = t.vacuum() == Vacuum::SingleProduct;
      for (auto& x : t) n.ops.push_back({id(x.index()), x.action() == Action::Annihilate ? 1 : 0});
    } else if (e.is<NormalOperator<Statistics::BoseEinstein>>()) {
      auto& t = e.as<NormalOperator<Statistics::BoseEinstein>>();
      n.k = Node::O; n.noncomm = true;
      for (auto& x : t) n.ops.push_back({id(x.index()), (x.action() == Action::Annihilate ? 1 : 0) | 4096});
    } else if (e.is<NormalOperatorSequence<Statistics::FermiDirac>>()) {
      n.k = Node::Prod; n.noncomm = true;
      for (auto& x : e.as<NormalOperatorSequence<Statistics::FermiDirac>>()) n.ch.push_back(compile(static_cast<const Expr&>(x)));
    } else if (e.is<NormalOperatorSequence<Statistics::BoseEinstein>>()) {
      n.k = Node::Prod; n.noncomm = true;
      for (auto& x : e.as<NormalOperatorSequence<Statistics::BoseEinstein>>()) n.ch.push_back(compile(static_cast<const Expr&>(x)));
    } else if (e.is<Product>()) {
      auto& p = e.as<Product>();
      n.k = Node::Prod;
      n.c = from(p.scalar());
      for (auto& f : p.factors()) { n.ch.push_back(compile(f)); n.noncomm |= n.ch.back().noncomm; }
      if (p.template is<CProduct>() && false) n.noncomm = false;
    } else if (e.is<Sum>()) {
      n.k = Node::Sum;
      for (auto& s : e.as<Sum>().summands()) { n.ch.push_back(compile(s)); n.noncomm |= n.ch.back().noncomm; }
    } else throw std::runtime_error("oracle: cannot interpret expression " + e.type_name());
    return n;
  }
  // every repeated non-external index is summed at the innermost node that has all its occurrences
  void scope(Node& n, const std::set<int>& outside) {
    auto here = [&] {
      std::vector<int> r;
      for (auto& [i, k] : free_of(n)) if (k >= 2 && !ext.count(i) && !outside.count(i)) r.push_back(i);
      return r;
    };
    switch (n.k) {
      case Node::C: case Node::O: break;
      case Node::T: {
        auto r = here();
        if (!r.empty()) { Node p; p.k = Node::Prod; p.ch.push_back(n); p.summed = r; n = p; }
        break;
      }
      case Node::Sum:
        for (auto& x : n.ch) {
          if (x.k == Node::O) { Node p; p.k = Node::Prod; p.noncomm = true; p.c = F{1, 0}; p.ch.push_back(x); x = p; }
          scope(x, outside);
        }
        break;
      case Node::Prod: {
        std::map<int, int> in;  // index -> number of children with it
        std::vector<std::map<int, int>> f;
        for (auto& x : n.ch) { f.push_back(free_of(x)); for (auto& [i, k] : f.back()) in[i]++; }
        std::vector<int> sum;
        for (auto& [i, k] : in)
          if (!ext.count(i) && !outside.count(i)) {
            bool op = false;  // operators do not sum
            for (std::size_t c = 0; c < n.ch.size(); ++c) op |= n.ch[c].k == Node::O && f[c].count(i) && f[c][i] >= 2;
            if (k >= 2 || op) sum.push_back(i);
          }
        for (std::size_t c = 0; c < n.ch.size(); ++c) {
          std::set<int> o = outside;
          for (std::size_t d = 0; d < n.ch.size(); ++d) if (d != c) for (auto& [i, k] : f[d]) o.insert(i);
          scope(n.ch[c], o);
        }
        n.summed = sum;
        break;
      }
    }
  }

  std::vector<int> val;  // index id -> orbital id
  uint64_t code(int i) const {
    if (i < 0) return 0;
    auto& x = ix[i];
    if (x.protos.empty()) return uint64_t(val[i]) + 1;
    std::vector<uint64_t> ps;
    for (int p : x.protos) ps.push_back(code(p));
    if (x.sym) std::sort(ps.begin(), ps.end());
    uint64_t h = vf::mix(val[i] + 1000003);
    for (auto p : ps) h = vf::mix(h * 31 + p);
    return h | (1ull << 63);
  }
  static int sort_sign(std::vector<uint64_t>& v) {  // 0 if repeated
    int s = 1;
    for (std::size_t i = 0; i < v.size(); ++i)
      for (std::size_t j = 0; j + 1 < v.size() - i; ++j)
        if (v[j] > v[j + 1]) { std::swap(v[j], v[j + 1]); s = -s; }
    for (std::size_t i = 0; i + 1 < v.size(); ++i) if (v[i] == v[i + 1]) return 0;
    return s;
  }
  F tensor(const Node& n) const {
    std::vector<uint64_t> b, k, a;
    for (int i : n.bra) b.push_back(code(i));
    for (int i : n.ket) k.push_back(code(i));
    for (int i : n.aux) a.push_back(code(i));
    if (n.delta && b.size() == k.size() && a.empty() && (b.empty() || !(b[0] >> 63 || k[0] >> 63)))
      return b == k ? F{1, 0} : F{};
    if (n.adj) std::swap(b, k);
    int sign = 1;
    auto canon = [&](std::vector<uint64_t>& x, std::vector<uint64_t>& y) {
      int s = 1;
      if (n.s == Symmetry::Antisymm) s = sort_sign(x) * sort_sign(y);
      else if (n.s == Symmetry::Symm) { std::sort(x.begin(), x.end()); std::sort(y.begin(), y.end()); }
      else if (n.cs == ColumnSymmetry::Symm) {
        std::size_t r = std::max(x.size(), y.size());
        std::vector<std::pair<uint64_t, uint64_t>> c(r);
        for (std::size_t i = 0; i < x.size(); ++i) c[i].first = x[i];
        for (std::size_t i = 0; i < y.size(); ++i) c[i].second = y[i];
        std::sort(c.begin(), c.end());
        x.assign(r, 0); y.assign(r, 0);
        for (std::size_t i = 0; i < r; ++i) { x[i] = c[i].first; y[i] = c[i].second; }
      }
      return s;
    };
    sign = canon(b, k);
    if (!sign) return {};
    bool cj = false, real = n.b == BraKetSymmetry::Symm;
    if (n.b != BraKetSymmetry::Nonsymm) {
      std::vector<uint64_t> b2 = k, k2 = b;
      // swapped form, canonicalized (columns may have to be re-sorted)
      if (n.s == Symmetry::Nonsymm) canon(b2, k2);
      if (std::tie(b2, k2) < std::tie(b, k)) { b = b2; k = k2; cj = true; }
      else if (b2 == b && k2 == k) real = true;
    }
    uint64_t h = n.lab;
    h = vf::mix(h + b.size() * 64 + k.size() * 8 + a.size());
    for (auto x : b) h = vf::mix(h * 31 + x);
    h = vf::mix(h + 5);
    for (auto x : k) h = vf::mix(h * 31 + x);
    h = vf::mix(h + 9);
    for (auto x : a) h = vf::mix(h * 31 + x);
    F r = rnd(h, real);
    if (cj && n.b == BraKetSymmetry::Conjugate) r = r.conj();
    if (n.adj) r = r.conj();
    return sign < 0 ? -r : r;
  }

  template <typename Fn>
  void loop(const std::vector<int>& ids, std::size_t d, const Fn& f) {
    if (d == ids.size()) { f(); return; }
    for (int v : *spaces[ids[d]]) { val[ids[d]] = v; loop(ids, d + 1, f); }
  }
  F num(const Node& n) {
    switch (n.k) {
      case Node::C: return n.c;
      case Node::T: return tensor(n);
      case Node::O: throw std::runtime_error("oracle: operator in c-number evaluation");
      case Node::Sum: { F r; for (auto& x : n.ch) r += num(x); return r; }
      case Node::Prod: {
        F r;
        if (n.c.zero()) return r;
        loop(n.summed, 0, [&] {
          F p{1, 0};
          for (auto& x : n.ch) { p = p * num(x); if (p.zero()) return; }
          r += p;
        });
        return n.c * r;
      }
    }
    return {};
  }
  /// spin: bit k is the spin of column k, -1: no spin
  Str raw(const Node& n, int spin) {
    Str r;
    int sz = int(n.ops.size()), k = 0;
    for (auto& [i, f] : n.ops) {
      int ob = val[i];
      if (spin >= 0) ob = 2 * ob + (spin >> (k < sz / 2 ? k : sz - 1 - k) & 1);
      r.push_back(2 * ob + (f & 1) + (f & 4096));
      ++k;
    }
    return r;
  }
  bool qp_ann(int x) const { bool an = x & 1; return vac_occ.count((x & 4095) >> 1) ? !an : an; }
  Lin string(const Node& n, int spin) {
    // quasiparticle creators to the left (single-product vacuum)
    std::vector<std::pair<int, int>> s;  // op, is qp annihilator
    for (int x : raw(n, spin)) s.push_back({x, n.sp ? qp_ann(x) : (x & 1)});
    F c{1, 0};
    for (std::size_t a = 0; a < s.size(); ++a)
      for (std::size_t b = 0; b + 1 < s.size(); ++b)
        if (s[b].second && !s[b + 1].second) {
          std::swap(s[b], s[b + 1]);
          if (!(s[b].first & 4096)) c = -c;
        }
    Str str;
    for (auto& x : s) str.push_back(x.first);
    Lin r;
    normal_form(str, c, r);
    return r;
  }
  Lin op(const Node& n) {
    if (!n.noncomm) return scalar(num(n));
    switch (n.k) {
      case Node::O: {
        if (o.spinfree) {
          int k = int(n.ops.size()) / 2;
          Lin r;
          for (int b = 0; b < 1 << k; ++b)
            for (auto& [s, c] : string(n, b).t) r.add(s, c);
          return r;
        }
        return string(n, -1);
      }
      case Node::Sum: { Lin r; for (auto& x : n.ch) for (auto& [s, c] : op(x).t) r.add(s, c); return r; }
      case Node::Prod: {
        Lin r;
        if (n.c.zero()) return r;
        loop(n.summed, 0, [&] {
          F p = n.c;
          for (auto& x : n.ch) if (!x.noncomm) { p = p * num(x); if (p.zero()) return; }
          Lin q = scalar(p);
          if (o.product) {
            std::vector<Str> v;
            for (auto& x : n.ch) if (x.noncomm) { if (x.k != Node::O) throw std::runtime_error("oracle: nested operator product"); v.push_back(raw(x, -1)); }
            for (auto& [s, c] : o.product(v).t) r.add(s, c * p);
            return;
          }
          for (auto& x : n.ch) if (x.noncomm) { q = q * op(x); if (q.t.empty()) return; }
          for (auto& [s, c] : q.t) r.add(s, c);
        });
        return r;
      }
      default: break;
    }
    throw std::runtime_error("oracle: bad operator node");
  }

  /// values at (up to max) assignments of the externals, in the order given
  std::vector<Lin> all(std::size_t max = 64) {
    val.assign(ix.size(), 0);
    std::size_t total = 1;
    for (int e : extv) total *= spaces[e]->size();
    std::vector<Lin> r;
    std::size_t stride = total > max ? (total / max) | 1 : 1;
    for (std::size_t k = 0, at = 0; k < std::min(total, max); ++k, at += stride) {
      std::size_t x = at % total;
      for (int e : extv) { val[e] = (*spaces[e])[x % spaces[e]->size()]; x /= spaces[e]->size(); }
      r.push_back(root.noncomm ? op(root) : scalar(num(root)));
    }
    return r;
  }
};

inline std::string show(const std::vector<Lin>& v) {
  std::string s;
  for (std::size_t i = 0; i < v.size() && i < 4; ++i) s += (i ? "; " : "") + v[i].str();
  return s;
}
inline std::vector<Lin> value(Model& m, const ExprPtr& e, const std::vector<Index>& ext = {}, std::size_t max = 64, Options o = {}) {
  Eval ev(m, e, ext, o);
  return ev.all(max);
}

/// vacuum expectation value with respect to the orbitals in occ
inline F vev(const Lin& l, const std::set<int>& occ) {
  F r;
  for (auto& [s, c] : l.t) {
    // c_{p1}<c_{p2}.. a_{q1}<a_{q2}..
    std::vector<int> p, q;
    bool ok = true;
    for (int x : s) {
      int ob = (x & 4095) >> 1;
      if ((x & 4096) || !occ.count(ob)) { ok = false; break; }
      (x & 1 ? q : p).push_back(ob);
    }
    if (!ok || p != q) continue;
    // <c1..cn a1..an> = sign of reversal
    std::size_t n = p.size();
    r += (n * (n - 1) / 2) % 2 ? -c : c;
  }
  return r;
}

inline std::string u8(std::wstring_view w) {
  std::string o;
  for (wchar_t wc : w) {
    uint32_t c = wc;
    if (c < 0x80) o += char(c);
    else if (c < 0x800) { o += char(0xC0 | c >> 6); o += char(0x80 | (c & 63)); }
    else { o += char(0xE0 | c >> 12); o += char(0x80 | (c >> 6 & 63)); o += char(0x80 | (c & 63)); }
  }
  return o;
}
/// plain printer, independent of SeQuant's printers
inline std::string show(const Expr& e);
inline std::string show(const Index& i) { return i.nonnull() ? u8(i.full_label()) : "_"; }
inline std::string show(const ExprPtr& e) { return e ? show(*e) : "null"; }
inline std::string show(const Expr& e) {
  if (e.is<Constant>()) {
    auto v = e.as<Constant>().value();
    std::ostringstream s;
    s << v.real(); if (v.imag() != 0) s << "+i*" << v.imag();
    return s.str();
  }
  if (e.is<Variable>()) return u8(e.as<Variable>().label()) + (e.as<Variable>().conjugated() ? "^*" : "");
  if (e.is<Power>()) { std::ostringstream s; s << "pow(" << show(e.as<Power>().base()) << "," << e.as<Power>().exponent() << ")" << (e.as<Power>().conjugated() ? "^*" : ""); return s.str(); }
  if (e.is<Tensor>()) {
    auto& t = e.as<Tensor>();
    std::string s = u8(t.label()) + "{";
    bool f = true;
    for (auto& i : t.bra()) { s += (f ? "" : ",") + show(i); f = false; }
    s += ";"; f = true;
    for (auto& i : t.ket()) { s += (f ? "" : ",") + show(i); f = false; }
    if (t.aux_rank()) { s += ";"; f = true; for (auto& i : t.aux()) { s += (f ? "" : ",") + show(i); f = false; } }
    s += "}";
    s += t.symmetry() == Symmetry::Antisymm ? ":A" : t.symmetry() == Symmetry::Symm ? ":S" : ":N";
    s += t.braket_symmetry() == BraKetSymmetry::Conjugate ? "C" : t.braket_symmetry() == BraKetSymmetry::Symm ? "S" : "N";
    s += t.column_symmetry() == ColumnSymmetry::Symm ? "S" : "N";
    return s;
  }
  auto nop = [](auto& t) {
    std::string s = t.vacuum() == Vacuum::Physical ? "a(" : "ã(";
    for (auto& o : t) s += show(o.index()) + (o.action() == Action::Create ? "+ " : " ");
    return s + ")";
  };
  if (e.is<NormalOperator<Statistics::FermiDirac>>()) return nop(e.as<NormalOperator<Statistics::FermiDirac>>());
  if (e.is<NormalOperator<Statistics::BoseEinstein>>()) return "b" + nop(e.as<NormalOperator<Statistics::BoseEinstein>>());
  if (e.is<Product>()) {
    auto& p = e.as<Product>();
    std::ostringstream s;
    s << "[" << p.scalar().real();
    if (p.scalar().imag() != 0) s << "+i*" << p.scalar().imag();
    for (auto& f : p.factors()) s << " " << show(f);
    return s.str() + "]";
  }
  if (e.is<Sum>()) {
    std::string s = "(";
    bool f = true;
    for (auto& x : e.as<Sum>().summands()) { s += (f ? "" : " + ") + show(x); f = false; }
    return s + ")";
  }
  return "<" + e.type_name() + ">";
}
}  // namespace orc
