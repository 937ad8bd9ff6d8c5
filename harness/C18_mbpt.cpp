// LINK: mbpt
// Many-body operators: operator-level algebra, screening, expectation values
// and the coupled-cluster equations against matrices over a small Fock space.
#include <SeQuant/core/expr.hpp>
#include <SeQuant/core/io/shorthands.hpp>
#include <SeQuant/core/tensor_canonicalizer.hpp>
#include <SeQuant/domain/mbpt/context.hpp>
#include <SeQuant/domain/mbpt/convention.hpp>
#include <SeQuant/domain/mbpt/models/cc.hpp>
#include <SeQuant/domain/mbpt/op.hpp>
#include <SeQuant/domain/mbpt/op_registry.hpp>
#include <SeQuant/domain/mbpt/utils.hpp>
#include <SeQuant/domain/mbpt/vac_av.hpp>

#include "lib/setup.hpp"
using namespace sequant;
using namespace sequant::mbpt;
namespace {
using orc::F;
using orc::from;
using orc::Lin;
using orc::Model;
using orc::Options;
using orc::value;
using orc::show;
using orc::u8;
// ------------------------------------------------------------------ Fock space
struct Space {
  Model m;
  std::vector<int> occ, virt;        // orbital ids
  int n = 0;
  uint64_t vac = 0;                  // the vacuum determinant
  Space(int o, int v) {
    m.spin_resolved = false;
    m.per_bit[0] = o; m.per_bit[1] = v;
    for (auto* l : {L"i", L"a"}) {
      auto sp = get_default_context().index_space_registry()->retrieve(l);
      m.per_bit[31 - __builtin_clz(sp.type().to_int32())] = *l == L'i' ? o : v;
      for (int x : m.values(sp)) (*l == L'i' ? occ : virt).push_back(x);
    }
    n = o + v;
    for (int x : occ) vac |= 1u << x;
  }
};
using Vec = std::map<uint64_t, F>;
struct Mat {                          // columns
  int n = 0;
  std::vector<Vec> c;
  bool operator==(const Mat& o) const { return c.size() == o.c.size() && std::equal(c.begin(), c.end(), o.c.begin()); }
};
void put(Vec& v, uint64_t k, F x) {
  if (x.zero()) return;
  auto [it, nw] = v.try_emplace(k, x);
  if (!nw) { it->second += x; if (it->second.zero()) v.erase(it); }
}
Vec act(const Mat& a, const Vec& v) { Vec r; for (auto& [k, x] : v) for (auto& [l, y] : a.c[k]) put(r, l, x * y); return r; }
Mat unit(int n, F x = {1, 0}) { Mat m{n, std::vector<Vec>(1u << n)}; if (!x.zero()) for (uint64_t k = 0; k < m.c.size(); ++k) m.c[k][k] = x; return m; }
Mat operator*(const Mat& a, const Mat& b) { Mat r{a.n, {}}; for (auto& v : b.c) r.c.push_back(act(a, v)); return r; }
Mat operator+(Mat a, const Mat& b) { for (std::size_t k = 0; k < a.c.size(); ++k) for (auto& [l, x] : b.c[k]) put(a.c[k], l, x); return a; }
Mat operator*(F f, const Mat& a) { Mat r = a; for (auto& v : r.c) { Vec w; for (auto& [l, x] : v) put(w, l, f * x); v = w; } return r; }
Mat operator-(const Mat& a, const Mat& b) { return a + F{orc::P - 1, 0} * b; }
Mat comm(const Mat& a, const Mat& b) { return a * b - b * a; }
Mat dagger(const Mat& a) { Mat r = unit(a.n, {}); for (std::size_t k = 0; k < a.c.size(); ++k) for (auto& [l, x] : a.c[k]) put(r.c[l], k, x.conj()); return r; }
Mat matrix(const Lin& l, int n) {
  Mat m = unit(n, {});
  for (uint64_t d = 0; d < m.c.size(); ++d)
    for (auto& [s, x] : l.t) {
      uint64_t k = d;
      bool neg = false, dead = false;
      for (auto it = s.rbegin(); it != s.rend() && !dead; ++it) {
        int o = *it >> 1;
        uint64_t bit = 1u << o;
        bool an = *it & 1;
        if (bool(k & bit) != an) { dead = true; break; }
        neg ^= __builtin_popcountll(k & (bit - 1)) & 1;
        k ^= bit;
      }
      if (!dead) put(m.c[d], k, neg ? -x : x);
    }
  return m;
}
Options opts() { Options o; o.roots = true; return o; }
struct Fock {
  Space s;
  std::map<std::wstring, Mat> cache;
  Fock(int o, int v) : s(o, v) {}
  Mat lowered(const ExprPtr& e) { auto v = value(s.m, e, {}, 1, opts()); return matrix(v.at(0), s.n); }
  /// any expression over operators
  Mat operator()(const ExprPtr& e) {
    if (e->is<op_t>()) {
      auto key = e->to_latex();
      auto tf = e->as<op_t>().tensor_form();
      auto note = [&](const ExprPtr& x) {
        if (x->is<Product>()) key += L"|" + sequant::to_latex(x->as<Product>().scalar());
        if (x->is<Tensor>()) key += L"|" + std::wstring(x->as<Tensor>().label()) + std::to_wstring(x->as<Tensor>().bra_rank()) + std::to_wstring(x->as<Tensor>().ket_rank());
        if (x->is<Power>()) { auto& p = x->as<Power>(); key += L"|pow" + p.base()->to_latex() + sequant::to_latex(p.exponent()); }
      };
      note(tf);
      tf->visit(note, false);
      auto it = cache.find(key);
      if (it == cache.end()) it = cache.emplace(key, lowered(tf)).first;
      return it->second;
    }
    if (e->is<Sum>()) { Mat r = unit(s.n, {}); for (auto& x : *e) r = r + (*this)(x); return r; }
    if (e->is<Product>()) {
      Mat r = unit(s.n, from(e->as<Product>().scalar()));
      for (auto& x : *e) r = r * (*this)(x);
      return r;
    }
    if (e->is<Constant>() || e->is<Variable>() || e->is<Power>()) return unit(s.n, number(e));
    return lowered(e);
  }
  F number(const ExprPtr& e) {
    auto v = value(s.m, e, {}, 1, opts());
    F r;
    for (auto& [k, x] : v.at(0).t) { if (!k.empty()) throw vf::Fail{"the result contains operators"}; r += x; }
    return r;
  }
  F vev(const Mat& a) { auto it = a.c[s.vac].find(s.vac); return it == a.c[s.vac].end() ? F{} : it->second; }
  /// (particles, holes) of a determinant
  std::pair<int, int> rank(uint64_t d) { int p = 0, h = 0; for (int x : s.virt) p += d >> x & 1; for (int x : s.occ) h += !(d >> x & 1); return {p, h}; }
};
void context(bool legacy = true) {
  set_num_threads(1);
  set_default_context(sequant::Context({.index_space_registry_shared_ptr = make_min_sr_spaces(), .vacuum = Vacuum::SingleProduct, .spbasis = SPBasis::Spinor}));
  set_default_mbpt_context(mbpt::Context({.csv = CSV::No, .op_registry_ptr = legacy ? make_legacy_registry() : make_minimal_registry()}));
  TensorCanonicalizer::register_instance(std::make_shared<DefaultTensorCanonicalizer>());
  static bool once = (TensorCanonicalizer::set_cardinal_tensor_labels(mbpt::cardinal_tensor_labels()), true);
  (void)once;
}
Fock& fock(int o, int v) {
  static std::map<std::pair<int, int>, std::unique_ptr<Fock>> f;
  auto& p = f[{o, v}];
  if (!p) p = std::make_unique<Fock>(o, v);
  return *p;
}
struct Op { const char* name; std::function<ExprPtr()> f; };
const std::vector<Op>& menu() {
  static const std::vector<Op> m{
      {"h1", [] { return mbpt::h(1); }}, {"h2", [] { return mbpt::h(2); }},
      {"t1", [] { return mbpt::t(1); }}, {"t2", [] { return mbpt::t(2); }},
      {"l1", [] { return mbpt::λ(1); }}, {"l2", [] { return mbpt::λ(2); }},
      {"P1", [] { return mbpt::P(nₚ(1)); }}, {"P2", [] { return mbpt::P(nₚ(2)); }}, {"P-1", [] { return mbpt::P(nₚ(-1)); }},
      {"t1+", [] { return adjoint(mbpt::t(1)); }}, {"t2+", [] { return adjoint(mbpt::t(2)); }},
      {"r10", [] { return mbpt::r(nₚ(1), nₕ(0)); }}, {"r01", [] { return mbpt::r(nₚ(0), nₕ(1)); }}, {"r21", [] { return mbpt::r(nₚ(2), nₕ(1)); }},
      {"l10", [] { return mbpt::l(nₚ(1), nₕ(0)); }}, {"l12", [] { return mbpt::l(nₚ(1), nₕ(2)); }},
      {"th1", [] { return mbpt::θ(1); }}, {"th2", [] { return mbpt::θ(2); }},
      {"V", [] { return mbpt::Hʼ(1); }}, {"t'1", [] { return mbpt::tʼ(1); }}, {"l'1", [] { return mbpt::λʼ(1); }},
      {"F", [] { return mbpt::F(); }},
      {"dl", [] { return mbpt::δl(nₚ(1), nₕ(2)); }}, {"rs", [] { return mbpt::r(nₚ(1), nₕ(2), Normalization::SquareRoot); }},
      {"A2", [] { return mbpt::A(nₚ(2), nₕ(2)); }}, {"t3", [] { return mbpt::t(3); }}};
  return m;
}
template <typename G> auto guarded(const char* what, const G& g) {
  try { return g(); } catch (vf::Fail&) { throw; } catch (vf::Skip&) { throw; } catch (std::exception& x) { throw vf::Fail{std::string(what) + " throws " + x.what()}; }
}
ExprPtr product(const std::vector<ExprPtr>& v) { return v.size() == 1 ? v[0] : ex<Product>(1, v, Product::Flatten::No); }
std::string names;
std::vector<ExprPtr> ops(vf::Case& c, int n, int m) { std::vector<ExprPtr> v; names.clear(); for (int k = 0; k < n; ++k) { auto& o = menu()[c.choose(m)]; v.push_back(o.f()); names += std::string(k ? " " : "") + o.name; } return v; }

// expectation values of products of operators
void vev_case(vf::Case& c, int n, int m) {
  context();
  auto v = ops(c, n, m);
  c.describe(names);
  c.mine();
  auto& f = fock(2, 3);
  auto e = product(v);
  F want = f.vev(f(e));
  for (int k = 0; k < (vf::thorough() ? 6 : 3); ++k) {
    int q = vf::thorough() ? k : k == 0 ? 0 : k == 1 ? 3 : 4;
    ExprPtr r = guarded("the expectation value", [&]() -> ExprPtr {
      if (q == 4) return mbpt::tensor::vac_av(lower_to_tensor_form(e));
      if (q == 5) return mbpt::tensor::ref_av(lower_to_tensor_form(e));
      return (q & 1 ? mbpt::ref_av(e->clone(), {.connect = {}, .screen = q < 2, .use_topology = q != 3}) : mbpt::vac_av(e->clone(), {.connect = {}, .screen = q < 2, .use_topology = q != 2}));
    });
    if (e->is<op_t>() && q < 4) { c.require(r->is_zero(), "a normal-ordered operator has an expectation value"); continue; }
    F got = f.number(r);
    c.require(got == want, [&] { return std::string("vacuum expectation value (variant ") + std::to_string(q) + ") " + got.str() + ", expected " + want.str() + ": " + show(r).substr(0, 500); });
  }
}
SCENARIO("vev", c) { int n = 1 + c.choose(2); vev_case(c, n, int(menu().size()) - 1); }
SCENARIO("vev3", c) { vev_case(c, 3, vf::thorough() ? 22 : 16); }
SCENARIO("vev4", c) {
  context();
  static const std::vector<int> sub{1, 2, 4, 5, 3, 0, 7};
  std::vector<ExprPtr> v;
  names.clear();
  int m = vf::thorough() ? 7 : 5;
  for (int k = 0; k < 4; ++k) { auto& o = menu()[sub[c.choose(m)]]; v.push_back(o.f()); names += std::string(o.name) + " "; }
  c.describe(names);
  c.mine();
  auto& f = fock(2, 3);
  auto e = product(v);
  F want = f.vev(f(e));
  ExprPtr r = guarded("the expectation value", [&] { return mbpt::vac_av(e->clone(), {.connect = {}}); });
  F got = f.number(r);
  c.require(got == want, [&] { return "vacuum expectation value " + got.str() + ", expected " + want.str() + ": " + show(r).substr(0, 500); });
}
// connections by label are connections between all operators so labelled, left to right
SCENARIO("connect", c) {
  context();
  static const std::vector<int> sub{1, 2, 4, 3, 0, 5, 7};
  int n = 3 + c.choose(2), m = n == 3 ? 7 : vf::thorough() ? 6 : 5;
  std::vector<ExprPtr> v;
  names.clear();
  for (int k = 0; k < n; ++k) { auto& o = menu()[sub[c.choose(m)]]; v.push_back(o.f()); names += std::string(o.name) + " "; }
  int w = c.choose(5);
  using C = OpConnections<std::wstring>;
  C on, off;
  if (w == 0) on = {{L"g", L"t"}};
  if (w == 1) on = {{L"λ", L"g"}, {L"f", L"t"}, {L"t", L"g"}};
  if (w == 2) on = {{L"λ", L"t"}, {L"g", L"g"}};
  if (w == 3) off = {{L"λ", L"t"}};
  if (w == 4) { on = {{L"t", L"λ"}}; off = {{L"g", L"t"}, {L"λ", L"f"}}; }
  c.describe(names + ", connections " + std::to_string(w));
  c.mine();
  auto e = product(v);
  auto lower = [&](const C& x) {
    OpConnections<int> r;
    for (auto& [a, b] : x) for (int i = 0; i < n; ++i) for (int j = i + 1; j < n; ++j)
      if (v[i]->as<op_t>().label() == a && v[j]->as<op_t>().label() == b) r.emplace_back(i, j);
    return r;
  };
  auto& f = fock(2, 3);
  ExprPtr a = guarded("the connected expectation value", [&] { return mbpt::vac_av(e->clone(), {.connect = on, .do_not_connect = off}); });
  ExprPtr b = guarded("the connected expectation value of tensors", [&] { return mbpt::tensor::vac_av(lower_to_tensor_form(e), {.connect = lower(on), .do_not_connect = lower(off), .use_topology = false}); });
  F x = f.number(a), y = f.number(b);
  c.require(x == y, [&] { return "connected by label: " + x.str() + ", by position: " + y.str() + ": " + show(a).substr(0, 300); });
}
// quantum numbers: what a product does to the vacuum is within its declared reach
SCENARIO("reach", c) {
  context();
  int n = 1 + c.choose(vf::thorough() ? 4 : 3);
  auto v = ops(c, n, n > 2 ? 18 : int(menu().size()) - 1);
  auto e = product(v);
  c.describe(names);
  c.mine();
  auto& f = fock(2, 3);
  Vec w{{f.s.vac, F{1, 0}}};
  for (auto it = v.rbegin(); it != v.rend(); ++it) w = act(f(*it), w);
  std::set<std::pair<int, int>> up, down;
  for (auto& [k, x] : w) up.insert(f.rank(k));
  // <0|e : transpose
  Vec u{{f.s.vac, F{1, 0}}};
  for (auto& o : v) { Mat a = f(o); Vec y; for (uint64_t k = 0; k < a.c.size(); ++k) { F s; for (auto& [l, x] : a.c[k]) { auto z = u.find(l); if (z != u.end()) s += z->second * x; } if (!s.zero()) y[k] = s; } u = y; }
  for (auto& [k, x] : u) down.insert(f.rank(k));
  auto q = apply_to_vac(e);
  auto isr = get_default_context().index_space_registry();
  auto& base = isr->base_spaces();
  for (auto& [p, h] : up) {
    for (std::size_t b = 0; b < base.size(); ++b) {
      if (base[b].qns() != IndexSpace::QuantumNumbers(Spin::any)) continue;
      bool o = isr->is_pure_occupied(base[b]);
      int cre = o ? 0 : p, an = o ? h : 0;
      c.require(boost::numeric::in(std::int64_t(cre), q[2 * b]) && boost::numeric::in(std::int64_t(an), q[2 * b + 1]), [&] { return "applied to the vacuum it makes " + std::to_string(p) + " particles and " + std::to_string(h) + " holes, outside of its quantum numbers"; });
    }
    c.require(can_change_qns(e, generic_excitation_qns(p, h, get_particle_space(Spin::any), get_hole_space(Spin::any), Spin::any)), [&] { return "can_change_qns denies a change by " + std::to_string(p) + " particles and " + std::to_string(h) + " holes"; });
    if (p == h)
      for (int k = 0; k <= 3; ++k) {
        if (p == k) c.require(raises_vacuum_to_rank(e, k), [&] { return "raises_vacuum_to_rank(" + std::to_string(k) + ") is false, but it does"; });
        if (p <= k) c.require(raises_vacuum_up_to_rank(e, k), [&] { return "raises_vacuum_up_to_rank(" + std::to_string(k) + ") is false, but it does"; });
      }
  }
  for (auto& [p, h] : down) if (p == h)
    for (int k = 1; k <= 3; ++k) {
      if (p == k) c.require(lowers_rank_to_vacuum(e, k), [&] { return "lowers_rank_to_vacuum(" + std::to_string(k) + ") is false, but it does"; });
      if (p <= k && p > 0) c.require(lowers_rank_or_lower_to_vacuum(e, k), [&] { return "lowers_rank_or_lower_to_vacuum(" + std::to_string(k) + ") is false, but it does"; });
    }
  if (up.count({0, 0}) && n > 1) c.require(!screen_vac_av(e)->is_zero(), "screen_vac_av removes a contributing term");
  if (n > 1) { auto s = screen_vac_av(ex<Sum>(std::vector<ExprPtr>{e, product({v[0], v[0]})})); F a = f.vev(f(s)), b = f.vev(f(e)) + f.vev(f(product({v[0], v[0]}))); c.require(a == b, "screen_vac_av changes the expectation value of a sum"); }
}
// operator-level algebra
SCENARIO("algebra", c) {
  context();
  int n = 1 + c.choose(3);
  auto v = ops(c, n, n > 2 ? 16 : int(menu().size()) - 1);
  auto e = product(v);
  c.describe(names);
  c.mine();
  auto& f = fock(2, 3);
  Mat m = f(e);
  auto x = e->clone();
  guarded("simplify", [&] { simplify(x); return 0; });
  c.require(f(x) == m, [&] { return "simplify(" + names + ") = " + u8(x->to_latex()) + " is another operator"; });
  // sum with the reversed product
  std::vector<ExprPtr> rv(v.rbegin(), v.rend());
  auto s = ex<Sum>(std::vector<ExprPtr>{e->clone(), ex<Product>(rational(-1, 2), rv, Product::Flatten::No)});
  Mat sm = f(s);
  guarded("simplify", [&] { simplify(s); return 0; });
  c.require(f(s) == sm, [&] { return "simplifying the sum of " + names + " and of its reverse gives another operator: " + u8(s->to_latex()); });
  auto y = adjoint(e);
  c.require(f(y) == dagger(m), [&] { return "the adjoint is wrong: " + u8(y->to_latex()); });
  ExprPtr z = guarded("the adjoint of the adjoint", [&] { return adjoint(y); });
  c.require(f(z) == m, [&] { return "the adjoint of the adjoint is another operator: " + u8(z->to_latex()); });
  for (auto& o : v) for (auto& p : v) {
    bool eq = *o == *p;
    if (eq) c.require(f(o) == f(p) && o->hash_value() == p->hash_value(), "equal operators differ in value or hash");
    if (!eq) c.require(!(o->to_latex() == p->to_latex()), "operators with the same name are unequal");
  }
}
// the operators themselves
SCENARIO("maker", c) {
  context(c.choose(2));
  struct D { const char* n; std::function<ExprPtr()> f; const wchar_t* lab; std::wstring cr, an; rational norm; bool root; };
  static const std::vector<D> ds = [] {
    std::vector<D> d;
    auto F = [](int k) { long f = 1; for (int i = 2; i <= k; ++i) f *= i; return f; };
    for (int k = 1; k <= 3; ++k) {
      d.push_back({"t", [k] { return mbpt::t(k); }, L"t", std::wstring(k, 'a'), std::wstring(k, 'i'), rational(1, F(k) * F(k)), false});
      d.push_back({"lambda", [k] { return mbpt::λ(k); }, L"λ", std::wstring(k, 'i'), std::wstring(k, 'a'), rational(1, F(k) * F(k)), false});
      d.push_back({"theta", [k] { return mbpt::θ(k); }, L"θ", std::wstring(k, 'p'), std::wstring(k, 'p'), rational(1, F(k) * F(k)), false});
      d.push_back({"t'", [k] { return mbpt::tʼ(k); }, L"t¹", std::wstring(k, 'a'), std::wstring(k, 'i'), rational(1, F(k) * F(k)), false});
      d.push_back({"lambda'", [k] { return mbpt::λʼ(k); }, L"λ¹", std::wstring(k, 'i'), std::wstring(k, 'a'), rational(1, F(k) * F(k)), false});
      if (k < 3) d.push_back({"h'", [k] { return mbpt::Hʼ(k); }, L"h¹", std::wstring(k, 'p'), std::wstring(k, 'p'), rational(1, F(k) * F(k)), false});
    }
    for (int p = 0; p <= 2; ++p) for (int h = 0; h <= 2; ++h) if (p + h) {
      for (int r = 0; r < 2; ++r) {
        auto nm = r ? Normalization::SquareRoot : Normalization::Default;
        d.push_back({"r", [=] { return mbpt::r(nₚ(p), nₕ(h), nm); }, L"R", std::wstring(p, 'a'), std::wstring(h, 'i'), rational(1, F(p) * F(h)), bool(r)});
        d.push_back({"l", [=] { return mbpt::l(nₚ(p), nₕ(h), nm); }, L"L", std::wstring(h, 'i'), std::wstring(p, 'a'), rational(1, F(p) * F(h)), bool(r)});
      }
      d.push_back({"P+", [=] { return mbpt::P(nₚ(p), nₕ(h)); }, reserved::antisymm_label().c_str(), std::wstring(h, 'i'), std::wstring(p, 'a'), 1, false});
      d.push_back({"P-", [=] { return mbpt::P(nₚ(-p), nₕ(-h)); }, reserved::antisymm_label().c_str(), std::wstring(p, 'a'), std::wstring(h, 'i'), 1, false});
      d.push_back({"A+", [=] { return mbpt::A(nₚ(p), nₕ(h)); }, reserved::antisymm_label().c_str(), std::wstring(p, 'a'), std::wstring(h, 'i'), 1, false});
      d.push_back({"delta_r", [=] { return mbpt::δr(nₚ(p), nₕ(h)); }, reserved::antisymm_label().c_str(), std::wstring(p, 'a'), std::wstring(h, 'i'), rational(1, F(p) * F(h)), true});
      d.push_back({"delta_l", [=] { return mbpt::δl(nₚ(p), nₕ(h)); }, reserved::antisymm_label().c_str(), std::wstring(h, 'i'), std::wstring(p, 'a'), rational(1, F(p) * F(h)), true});
    }
    return d;
  }();
  auto& d = c.pick(ds);
  c.describe(std::string(d.n) + " " + u8(d.cr) + ";" + u8(d.an));
  c.mine();
  auto& f = fock(2, 3);
  ExprPtr o = guarded(d.n, [&] { return d.f(); });
  c.require(o->is<op_t>(), "not an operator");
  Mat m = f(o);
  // by hand
  std::vector<Index> b, k;
  int q = 0;
  for (auto ch : d.cr) b.emplace_back(std::wstring(1, ch) + L"_" + std::to_wstring(++q));
  for (auto ch : d.an) k.emplace_back(std::wstring(1, ch) + L"_" + std::to_wstring(++q));
  ExprPtr tf = o->as<op_t>().tensor_form();
  BraKetSymmetry bk = BraKetSymmetry::Nonsymm;
  tf->visit([&](const ExprPtr& x) { if (x->is<Tensor>()) bk = x->as<Tensor>().braket_symmetry(); }, true);
  auto t = ex<Tensor>(d.lab, bra(b), ket(k), Symmetry::Antisymm, bk);
  auto e = t * ex<FNOperator>(cre(b), ann(k), Vacuum::SingleProduct);
  Mat w = f.lowered(e);
  ExprPtr nf = d.root ? ExprPtr(ex<Power>(ex<Constant>(d.norm), rational(1, 2))) : ExprPtr(ex<Constant>(d.norm));
  w = f.number(nf) * w;
  c.require(m == w, [&] { return "is " + u8(tf->to_latex()) + ", expected " + u8((nf * e)->to_latex()); });
}
// similarity transformations
SCENARIO("lst", c) {
  context();
  static const std::vector<Op> As{{"h1", [] { return mbpt::h(1); }}, {"h2", [] { return mbpt::h(2); }}, {"H", [] { return mbpt::H(); }}, {"l1", [] { return mbpt::λ(1); }}, {"th1 t1", [] { return mbpt::θ(1) * mbpt::t(1); }}, {"h1 (1/2 t1 + l1)", [] { return mbpt::h(1) * (ex<Constant>(rational(1, 2)) * mbpt::t(1) + mbpt::λ(1)); }}, {"t1", [] { return mbpt::t(1); }}, {"3 + h1", [] { return ex<Constant>(3) + mbpt::h(1); }}};
  static const std::vector<Op> Bs{{"t1", [] { return mbpt::t(1); }}, {"t2", [] { return mbpt::t(2); }}, {"T2", [] { return mbpt::T(2); }}, {"l1", [] { return mbpt::λ(1); }}, {"t1+l1", [] { return mbpt::t(1) + mbpt::λ(1); }}};
  auto& a = c.pick(As);
  auto& b = c.pick(Bs);
  int k = c.choose(vf::thorough() ? 6 : 5);
  bool un = c.choose(2);
  c.describe(std::string(a.name) + " by " + b.name + " to rank " + std::to_string(k) + (un ? ", unitary" : ""));
  c.mine();
  if (un && k > (vf::thorough() ? 3 : 2)) return;
  auto& f = fock(2, 2);
  auto A = a.f(), B = b.f();
  auto keep = A->clone();
  ExprPtr r = guarded("lst", [&] { return mbpt::lst(A, B, k, {.unitary = un}); });
  Mat m = f(keep), s = f(B), w = m;
  if (un) s = s - dagger(s);
  for (int q = 1; q <= k; ++q) { m = F{orc::powm(q, orc::P - 2), 0} * comm(m, s); w = w + m; }
  c.require(f(r) == w, [&] { return "the similarity transformation is " + u8(r->to_latex()).substr(0, 600); });
  c.require(f(A) == f(keep), "lst changes its argument");
  ExprPtr r2 = guarded("lst", [&] { return mbpt::lst(keep, B, k, {.unitary = un, .skip_clone = true}); });
  c.require(f(r2) == w, "lst in place differs");
}
// ------------------------------------------------------------------ coupled cluster
Mat bch(const Mat& h, const Mat& s, int k) { Mat m = h, w = h; for (int q = 1; q <= k; ++q) { m = F{orc::powm(q, orc::P - 2), 0} * comm(m, s); w = w + m; } return w; }
void cc_case(vf::Case& c, int N, CC::Ansatz an, std::optional<size_t> rank, int what, bool screen, bool topo, bool skip1, int o, int v) {
  auto& f = fock(o, v);
  CC cc(N, {.ansatz = an, .skip_singles = skip1, .screen = screen, .use_topology = topo, .hbar_comm_rank = rank, .pertbar_comm_rank = an == CC::Ansatz::U || an == CC::Ansatz::oU ? std::optional<size_t>(2) : std::nullopt});
  bool un = cc.unitary();
  Mat H = f(mbpt::H()), T = f(mbpt::T(N, cc.skip_singles())), S = un ? T - dagger(T) : T;
  Mat L = N && !un ? unit(f.s.n) + f(mbpt::Λ(N, cc.skip_singles())) : unit(f.s.n);
  int hr = rank ? int(*rank) : 4;
  auto chk = [&](const char* w, int p, const ExprPtr& r, F want) {
    c.require(bool(r), [&] { return std::string(w) + " has no element " + std::to_string(p); });
    F got = f.number(r);
    c.require(got == want, [&] { return std::string(w) + "[" + std::to_string(p) + "] projects to " + got.str() + ", expected " + want.str() + ": " + show(r).substr(0, 400); });
  };
  auto go = [&](const char* w, const auto& g) { return guarded(w, g); };
  if (what == 0) {
    auto r = go("CC::t", [&] { return cc.t(); });
    Mat hb = bch(H, S, hr);
    for (int p = 0; p <= N; ++p) chk("t", p, r.at(p), f.vev(p ? f(mbpt::P(nₚ(p))) * hb : hb));
    auto e = go("CC::energy", [&] { return cc.energy(); });
    chk("energy", 0, e, f.vev(hb));
    auto e2 = go("CC::energy", [&] { return cc.energy(1); });
    chk("energy to first order", 0, e2, f.vev(bch(H, S, 1)));
    if (N > 1) { auto r1 = go("CC::t", [&] { return cc.t(1, 1); }); chk("t up to rank 1", 1, r1.at(1), f.vev(f(mbpt::P(nₚ(1))) * hb)); }
  }
  if (what == 1) {
    if (un) return;
    auto r = go("CC::lambda", [&] { return cc.λ(); });
    Mat hb = bch(H, S, hr - 1);
    for (int p = 1; p <= N; ++p) chk("lambda", p, r.at(p), f.vev(L * comm(bch(H, S, hr - 1), f(mbpt::P(nₚ(-p))))));
    Mat la = dagger(f(mbpt::Λ(N, cc.skip_singles())));
    chk("lambda", 0, r.at(0), f.vev(bch(H, la, hr)));
  }
  if (what == 2) {
    auto r = go("CC::eom_r", [&] { return cc.eom_r(nₚ(N), nₕ(N)); });
    Mat hb = bch(H, S, hr), R = f(mbpt::R(nₚ(N), nₕ(N), Normalization::SquareRoot));
    for (int p = 1; p <= N; ++p) chk("eom_r", p, r.at(p), f.vev(f(mbpt::δl(nₚ(p), nₕ(p))) * comm(hb, R)));
    for (auto [np, nh] : {std::pair{N - 1, N}, std::pair{N, N - 1}}) {
      auto q = go("CC::eom_r", [&] { return cc.eom_r(nₚ(np), nₕ(nh)); });
      Mat R2 = f(mbpt::R(nₚ(np), nₕ(nh), Normalization::SquareRoot));
      for (int k = 0; k <= std::min(np, nh); ++k) { int p = k + std::max(0, np - nh), h = k + std::max(0, nh - np); chk(np < nh ? "eom_r (ionized)" : "eom_r (attached)", k, q.at(k), f.vev(f(mbpt::δl(nₚ(p), nₕ(h))) * comm(hb, R2))); }
    }
  }
  if (what == 3) {
    if (un) return;
    auto r = go("CC::eom_l", [&] { return cc.eom_l(nₚ(N), nₕ(N)); });
    Mat hb = bch(H, S, hr), Lh = f(mbpt::L(nₚ(N), nₕ(N), Normalization::SquareRoot));
    for (int p = 1; p <= N; ++p) chk("eom_l", p, r.at(p), f.vev(Lh * comm(hb, f(mbpt::δr(nₚ(p), nₕ(p))))));
    for (auto [np, nh] : {std::pair{N - 1, N}, std::pair{N, N - 1}}) {
      auto q = go("CC::eom_l", [&] { return cc.eom_l(nₚ(np), nₕ(nh)); });
      Mat L2 = f(mbpt::L(nₚ(np), nₕ(nh), Normalization::SquareRoot));
      for (int k = 0; k <= std::min(np, nh); ++k) { int p = k + std::max(0, np - nh), h = k + std::max(0, nh - np); chk(np < nh ? "eom_l (ionized)" : "eom_l (attached)", k, q.at(k), f.vev(L2 * comm(hb, f(mbpt::δr(nₚ(p), nₕ(h)))))); }
    }
  }
  if (what == 4 || what == 5) {
    if (what == 5 && un) return;
    if (what == 5 && an != CC::Ansatz::T) return;
    Mat V = f(mbpt::Hʼ(1)), T1 = f(mbpt::Tʼ(N)), vb = bch(V, S, 2), hb = bch(H, S, rank ? hr : 3);
    Mat x = vb + comm(hb, T1);
    F w = f.number(ex<Variable>(L"ω"));
    if (what == 4) {
      auto r = go("CC::t'", [&] { return cc.tʼ(1); });
      for (int p = 1; p <= N; ++p) chk("t'", p, r.at(p), f.vev(f(mbpt::P(nₚ(p))) * x) - w * f.vev(f(mbpt::P(nₚ(p))) * f(mbpt::tʼ(p))));
    } else {
      auto r = go("CC::lambda'", [&] { return cc.λʼ(1); });
      Mat h4 = bch(H, S, hr), L1 = f(mbpt::Λʼ(N)), x3 = vb + comm(bch(H, S, 3), T1);
      for (int p = 1; p <= N; ++p) {
        Mat X = f(mbpt::P(nₚ(-p)));
        chk("lambda'", p, r.at(p), f.vev(L * comm(x3, X)) + f.vev(L1 * comm(h4, X)) + w * f.vev(f(mbpt::λʼ(p)) * X));
      }
    }
  }
  if (what == 6) {
    auto r = go("CC::rdm", [&] { return cc.rdm(1); });
    // contract the free indices with a tensor
    auto th = ex<Tensor>(L"D", bra{L"p_2"}, ket{L"p_1"}, Symmetry::Nonsymm);
    ExprPtr e = r * th;
    expand(e);
    Mat D = f.lowered(th * ex<FNOperator>(cre({Index(L"p_1")}), ann({Index(L"p_2")}), Vacuum::SingleProduct));
    int k = un ? hr : std::min(2, 1 + N);
    chk("rdm", 1, e, f.vev(L * bch(D, S, k)));
  }
}
SCENARIO("cc.singles", c) {
  context();
  auto an = c.pick(std::vector<CC::Ansatz>{CC::Ansatz::T, CC::Ansatz::U});
  int what = c.choose(7), s = c.choose(2), t = c.choose(2);
  int rk = c.choose(3);
  std::optional<size_t> rank;
  if (an == CC::Ansatz::U) { if (rk == 0) return; rank = rk; } else if (rk) rank = rk == 1 ? 2 : 4;
  c.describe("CCS, what " + std::to_string(what));
  c.mine();
  cc_case(c, 1, an, rank, what, s, t, false, 2, 3);
}
SCENARIO("cc.doubles", c) {
  context();
  int what = c.choose(7), s = c.choose(2), k = c.choose(3);
  c.describe("CCSD/CCD, what " + std::to_string(what) + " kind " + std::to_string(k));
  c.mine();
  if (k == 2) { if (!vf::thorough() && what != 0) return; cc_case(c, 2, CC::Ansatz::U, 1 + (vf::thorough() ? 1 : 0), what, s, true, false, 2, 3); return; }
  if (!vf::thorough() && !s && what > 1) return;
  cc_case(c, 2, k ? CC::Ansatz::oT : CC::Ansatz::T, {}, what, s, true, k == 1, vf::thorough() ? 3 : 2, 3);
}
}  // namespace
int main(int c, char** v) { return vf::main_impl(c, v, "C18"); }
