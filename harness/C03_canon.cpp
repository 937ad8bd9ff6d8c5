// LINK: symb
// Canonicalization of every small tensor network keeps its value (all methods,
// with and without rapid/complete options), and simplifying a sum of two
// networks gives the sum of their values.
#include <SeQuant/core/expressions/expr_algorithms.hpp>
#include <SeQuant/core/expressions/expr_operators.hpp>
#include <SeQuant/core/tensor_canonicalizer.hpp>

#include "lib/gen.hpp"
using namespace orc;
namespace {
using CM = CanonicalizationMethod;
constexpr auto N = Symmetry::Nonsymm, A = Symmetry::Antisymm, S = Symmetry::Symm;
constexpr auto bN = BraKetSymmetry::Nonsymm, bS = BraKetSymmetry::Symm, bC = BraKetSymmetry::Conjugate;
constexpr auto cS = ColumnSymmetry::Symm, cN = ColumnSymmetry::Nonsymm;
Model& model() { static Model m; return m; }
Val val(const ExprPtr& e, const std::vector<Index>& ext, std::size_t max = 12) { return value(model(), e, ext, max); }

void check(vf::Case& c, const ExprPtr& e0, const std::vector<Index>& ext, const char* what, bool named_too = true) {
  Val v0 = val(e0, ext);
  std::string s0 = show(e0);
  c.state(s0);
  for (CM m : {CM::Complete, CM::Topological, CM::Lexicographic}) {
    auto e = e0->clone();
    auto bp = e->canonicalize(CanonicalizeOptions{.method = m, .named_indices = std::nullopt});
    if (bp) e = bp * e;
    c.step();
    auto v = val(e, ext);
    c.require(v == v0, [&] { return std::string(what) + " canonicalization method " + std::to_string(int(m)) + " turned it into " + show(e) + " which denotes " + orc::show(v) + ", expected " + orc::show(v0); });
    if (m == CM::Complete) c.outcome(show(e));
    c.require(show(e0) == s0, "canonicalizing a clone changed the original");
  }
  if (named_too)  // indices listed as named explicitly
  {
    auto e = e0->clone();
    container::set<Index> named;
    for (auto& x : ext) named.insert(x);
    auto bp = e->canonicalize(CanonicalizeOptions{.method = CM::Complete, .named_indices = named});
    if (bp) e = bp * e;
    c.step();
    c.require(val(e, ext) == v0, [&] { return "canonicalization with the external indices named turned it into " + show(e); });
  }
}
void run(vf::Case& c, std::vector<TSpec> t, const NetSpaces& sp, Vacuum vac = Vacuum::Physical) {
  use_context(vac);
  Net n = gen_net(c, t, sp);
  n.vac = vac;
  c.mine();
  c.describe(show(n.expr()));
  check(c, n.expr(), n.externals(), "");
  for (std::size_t k = 0; k + 1 < n.order.size(); ++k) {  // other orders of the factors
    if (n.t[k].nop && n.t[k + 1].nop) continue;
    std::swap(n.order[k], n.order[k + 1]);
    check(c, n.expr(), n.externals(), "(factors swapped)");
  }
}
}  // namespace
SCENARIO("f.f", c) {
  auto s1 = c.pick(std::vector{bN, bS, bC}); auto l2 = c.pick(std::vector<std::wstring>{L"f", L"g"});
  run(c, {{L"f", 1, 1, 0, N, s1}, {l2, 1, 1, 0, N, bN}}, {});
}
SCENARIO("f.f.f", c) {
  auto l3 = c.pick(std::vector<std::wstring>{L"f", L"h"});
  auto b = c.pick(std::vector{bN, bS});
  run(c, {{L"f", 1, 1, 0, N, b}, {L"f", 1, 1, 0, N, b}, {l3, 1, 1, 0, N, b}}, {.max_ext = 4});
}
SCENARIO("f.f.f.f", c) {
  if (!vf::thorough()) { run(c, {{L"f", 1, 1}, {L"f", 1, 1}, {L"f", 1, 1}, {L"f", 1, 1}}, {.spaces = {L'i'}, .max_ext = 2}); return; }
  run(c, {{L"f", 1, 1}, {L"f", 1, 1}, {L"f", 1, 1}, {L"f", 1, 1}}, {.max_ext = 2});
}
SCENARIO("g.f", c) {
  auto b = c.pick(std::vector{bN, bS, bC}); auto s = c.pick(std::vector{N, A, S}); auto cs = c.pick(std::vector{cS, cN});
  if (s != N && cs == cN) throw vf::Skip{};
  run(c, {{L"g", 2, 2, 0, s, b, cs}, {L"f", 1, 1, 0, N, bN}}, {.max_ext = 6});
}
SCENARIO("g.t", c) {
  auto b = c.pick(std::vector{bN, bS}); auto s = c.pick(std::vector{N, A}); auto s2 = c.pick(std::vector{N, A, S});
  auto l = c.pick(std::vector<std::wstring>{L"g", L"t"});
  run(c, {{L"g", 2, 2, 0, s, b}, {l, 2, 2, 0, l == L"g" ? s : s2, l == L"g" ? b : bN}}, {.max_ext = vf::thorough() ? 6 : 2, .traces = vf::thorough()});
}
SCENARIO("g.t.t", c) {
  auto s = c.pick(std::vector{N, A});
  run(c, {{L"g", 2, 2, 0, s}, {L"t", 1, 1}, {L"t", 1, 1}}, {.max_ext = vf::thorough() ? 4 : 2, .traces = false});
}
SCENARIO("t3.f", c) {
  auto s = c.pick(std::vector{N, A, S}); auto cs = c.pick(std::vector{cS, cN});
  if (s != N && cs == cN) throw vf::Skip{};
  run(c, {{L"t", 3, 3, 0, s, bN, cs}, {L"f", 2, 2, 0, A}}, {.spaces = {L'i'}, .max_ext = 6, .traces = false, .min_int = 2});
}
SCENARIO("uneven", c) {  // bra rank differs from ket rank
  auto s = c.pick(std::vector{N, A, S}); auto cs = c.pick(std::vector{cS, cN});
  if (s != N && cs == cN) throw vf::Skip{};
  int k = c.choose(3);
  if (k == 0) run(c, {{L"r", 2, 1, 0, s, bN, cs}, {L"r", 1, 2, 0, s, bN, cs}}, {.max_ext = 4});
  else if (k == 1) run(c, {{L"r", 0, 2, 0, s, bN, cs}, {L"g", 2, 2, 0, s}}, {.max_ext = 4});
  else run(c, {{L"r", 2, 1, 0, s, bN, cs}, {L"l", 0, 1}, {L"l", 0, 1}}, {.max_ext = 3});
}
SCENARIO("aux", c) {
  auto s = c.pick(std::vector{N, A});
  int k = c.choose(3);
  NetSpaces sp{.aux_spaces = {L'x', L'i'}, .max_ext = 4, .traces = false};
  if (k == 0) run(c, {{L"B", 1, 1, 1}, {L"B", 1, 1, 1}}, sp);
  else if (k == 1) run(c, {{L"B", 1, 1, 1}, {L"B", 1, 1, 1}, {L"f", 1, 1}}, {.max_ext = 2, .traces = false});
  else run(c, {{L"X", 1, 0, 2}, {L"Y", 0, 1, 2}}, sp);
}
SCENARIO("proto", c) {  // indices that depend on other indices
  int k = c.choose(3);
  auto s = c.pick(std::vector{N, A});
  NetSpaces sp{.protos = true, .max_ext = 4, .traces = false};
  if (k == 0) run(c, {{L"f", 1, 1}, {L"t", 1, 1}}, {.protos = true, .max_ext = 6});
  else if (k == 1) run(c, {{L"t", 2, 2, 0, s}, {L"f", 1, 1}}, sp);
  else run(c, {{L"t", 1, 1}, {L"t", 1, 1}, {L"f", 1, 1}}, {.protos = true, .max_ext = 2, .traces = false});
}
SCENARIO("nop", c) {  // with creation/annihilation operators, also several of them
  auto vac = c.pick(std::vector{Vacuum::Physical, Vacuum::SingleProduct});
  int k = c.choose(6);
  auto s = c.pick(std::vector{N, A});
  if (s == A && k != 1 && k != 4) throw vf::Skip{};
  TSpec a11{L"", 1, 1}; a11.nop = true;
  TSpec a22{L"", 2, 2}; a22.nop = true;
  TSpec a01{L"", 0, 1}; a01.nop = true;
  TSpec a10{L"", 1, 0}; a10.nop = true;
  if (k == 0) run(c, {{L"f", 1, 1}, a11}, {.max_ext = 4}, vac);
  else if (k == 1) run(c, {{L"g", 2, 2, 0, s}, a22}, {.max_ext = 2, .traces = false}, vac);
  else if (k == 2) run(c, {{L"f", 1, 1}, {L"t", 1, 1}, a11}, {.max_ext = 2, .traces = false}, vac);
  else if (k == 3) run(c, {{L"f", 1, 1}, a11, a11}, {.max_ext = 4, .traces = false}, vac);
  else if (k == 4) run(c, {{L"g", 2, 2, 0, s}, a11, a11}, {.max_ext = vf::thorough() ? 4 : 2, .traces = false}, vac);
  else run(c, {{L"f", 1, 1}, a01, a10}, {.max_ext = 4, .traces = false}, vac);
}
SCENARIO("scalars", c) {  // constants, variables, powers among the factors
  use_context(Vacuum::Physical);
  Net n = gen_net(c, {{L"f", 1, 1}, {L"f", 1, 1}}, {.max_ext = 2});
  auto pos = c.choose(3);
  int kind = c.choose(5);
  c.mine();
  auto f = n.factors();
  auto x = ex<Variable>(L"x");
  auto y = ex<Variable>(L"x"); y->as<Variable>().conjugate();
  std::vector<ExprPtr> ins;
  if (kind == 0) ins = {x};
  else if (kind == 1) ins = {y, x};
  else if (kind == 2) ins = {ex<Constant>(rational(2, 3)), x};
  else if (kind == 3) ins = {ex<Power>(x, rational(2))};
  else ins = {ex<Power>(x, rational(1, 2)), y};
  f.insert(f.begin() + pos, ins.begin(), ins.end());
  auto e = ex<Product>(rational(-1, 2), f, Product::Flatten::No);
  c.describe(show(e));
  check(c, e, n.externals(), "");
}
void nop_scalars(vf::Case& c, bool priv) {
  auto vac = c.pick(std::vector{Vacuum::Physical, Vacuum::SingleProduct});
  use_context(vac);
  TSpec a11{L"", 1, 1}; a11.nop = true;
  TSpec a01{L"", 0, 1}; a01.nop = true;
  TSpec a10{L"", 1, 0}; a10.nop = true;
  int k = c.choose(4);
  Net n = gen_net(c, k == 0 ? std::vector<TSpec>{a01, a10} : k == 1 ? std::vector<TSpec>{a10, a01} : k == 2 ? std::vector<TSpec>{a11, a11} : std::vector<TSpec>{a01, {L"f", 1, 1}, a10}, {.max_ext = 4});
  n.vac = vac;
  int p1 = c.choose(int(n.order.size()) + 1), p2 = priv ? -1 : c.choose(2) ? -1 : c.choose(int(n.order.size()) + 2);
  bool nested = priv || c.flip();
  c.mine();
  auto f = n.factors();
  f.insert(f.begin() + p1, ex<Variable>(L"x"));
  if (p2 >= 0) f.insert(f.begin() + p2, ex<Variable>(L"y"));
  if (nested) {  // the last two factors grouped
    auto last = f.back(); f.pop_back();
    auto prev = f.back(); f.pop_back();
    auto g = ex<Product>(1, ExprPtrList{prev, last}, Product::Flatten::No);
    // does the group have dummies of its own?
    bool own = false;
    for (std::size_t q = 0; q < n.ix.size(); ++q) {
      int in = 0;
      for (auto& x : {prev, last})
        for (std::size_t t = 0; t < n.t.size(); ++t)
          if (show(n.tensor(int(t))) == show(x)) { for (int z : n.slots[t]) in += z == int(q); break; }
      own |= in >= 2;
    }
    if (own != priv) throw vf::Skip{};
    f.push_back(g);
  }
  auto e = ex<Product>(rational(-1, 2), f, Product::Flatten::No);
  c.describe(show(e));
  check(c, e, n.externals(), "", !nested);
}
SCENARIO("nop.scalars", c) { nop_scalars(c, false); }       // operators, tensors and scalars in one product
SCENARIO("nested.private", c) { nop_scalars(c, true); }     // a nested product has dummies of its own
/// sums of two terms over the same externals; also a sum as a factor
SCENARIO("sum", c) {
  use_context(Vacuum::Physical);
  auto s = c.pick(std::vector{N, A});
  int k = c.choose(3);
  std::vector<TSpec> t = k == 0 ? std::vector<TSpec>{{L"f", 1, 1}, {L"f", 1, 1}} : k == 1 ? std::vector<TSpec>{{L"f", 1, 1}, {L"t", 1, 1}} : std::vector<TSpec>{{L"g", 2, 2, 0, s}, {L"f", 1, 1}};
  if (k != 2 && s == A) throw vf::Skip{};
  NetSpaces sp{.max_ext = 2, .traces = k != 2};
  Net a = gen_net(c, t, sp), b = gen_net(c, t, sp);
  c.mine();
  // same externals
  auto ea = a.externals(), eb = b.externals();
  auto keys = [](std::vector<Index> v) { std::set<std::wstring> s; for (auto& x : v) s.insert(std::wstring(x.label())); return s; };
  if (keys(ea) != keys(eb)) throw vf::Skip{};
  auto coef = c.pick(std::vector<int>{1, -1});
  auto e = a.expr() + ex<Constant>(coef) * b.expr();
  c.describe(show(e));
  auto v0 = val(a.expr(), ea) + num(q(coef), val(a.expr(), ea).size()) * val(b.expr(), ea);
  c.state(show(e));
  auto cmp = [&](const ExprPtr& r, const char* what, bool named_too = true) {
    c.step();
    auto v = val(r, ea);
    // an empty sum/zero carries no externals
    c.require(v == v0, [&] { return std::string(what) + " turned it into " + show(r) + " which denotes " + orc::show(v) + ", expected " + orc::show(v0); });
  };
  auto e1 = e->clone(); canonicalize(e1); cmp(e1, "canonicalize");
  auto e2 = e->clone(); simplify(e2); cmp(e2, "simplify");
  c.outcome(show(e2));
  auto e3 = e->clone(); rapid_simplify(e3); cmp(e3, "rapid_simplify");
  auto e4 = e->clone(); non_canon_simplify(e4); cmp(e4, "non_canon_simplify");
  if (k == 1 && !ea.empty()) return;
}
int main(int c, char** v) { return vf::main_impl(c, v, "C03"); }
