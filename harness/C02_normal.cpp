// LINK: symb
// Every small expression tree (sums and products nested in any way, scalars,
// zeros, powers, non-commuting operators): expand, flatten, rapid_simplify,
// simplify and non_canon_simplify keep the value and reach their normal form.
#include <SeQuant/core/expressions/expr_algorithms.hpp>
#include <SeQuant/core/expressions/expr_operators.hpp>
#include <SeQuant/core/expressions/result_expr.hpp>

#include "lib/setup.hpp"
using namespace orc;
namespace {
Model& model() { static Model m; return m; }
Val val(const ExprPtr& e) { return value(model(), e, {}); }
struct Gen {
  vf::Case& c;
  int ni = 0, na = 0;
  Index i() { return Index(L"i_" + std::to_wstring(++ni)); }
  Index a() { return Index(L"a_" + std::to_wstring(++na)); }
  ExprPtr leaf(int k) {
    switch (k) {
      case 0: return ex<Variable>(L"x");
      case 1: { auto j = i(); return ex<Tensor>(L"f", bra{j}, ket{j}); }
      case 2: { auto j = i(); auto b = a(); return ex<Tensor>(L"f", bra{j}, ket{b}) * ex<FNOperator>(cre{j}, ann{b}); }
      case 3: return ex<Constant>(rational(2, 3));
      case 4: { auto j = i(); auto b = a(); return ex<Tensor>(L"g", bra{b}, ket{j}) * ex<FNOperator>(cre{b}, ann{j}); }
      case 5: return ex<Constant>(0);
      case 6: return ex<Power>(ex<Variable>(L"x"), 2);
      case 7: return ex<Constant>(1);
      case 8: return ex<Power>(ex<Constant>(3), -2);
      case 9: return ex<Constant>(Complex<rational>(0, -1));
      case 10: { auto v = Variable(L"x"); v.conjugate(); return ex<Variable>(v); }
      case 11: return ex<Power>(ex<Variable>(L"y"), 1);
      default: { auto j = i(); return ex<FNOperator>(cre{j}, ann{j}); }
    }
  }
  // kinds of inner nodes: 0 sum, 1 product, 2 product with scalar 1/2, 3 sum with its nested sums and constants left as they are
  ExprPtr node(int kind, const std::vector<ExprPtr>& ch) {
    if (kind == 0) return ex<Sum>(ch.begin(), ch.end());
    if (kind == 3) {
      std::vector<ExprPtr> ph;
      for (std::size_t k = 0; k < ch.size(); ++k) ph.push_back(ex<Variable>(L"ph" + std::to_wstring(k)));
      auto s = ex<Sum>(ph.begin(), ph.end());
      std::size_t k = 0;
      for (auto& e : *s) e = ch[k++];
      return s;
    }
    if (kind == 4) return ex<Product>(0, ch.begin(), ch.end(), Product::Flatten::No);
    return ex<Product>(kind == 1 ? rational(1) : rational(1, 2), ch.begin(), ch.end(), Product::Flatten::No);
  }
  // all trees with n leaves
  ExprPtr tree(int n, int nl, int nk, bool unary, int depth) {
    if (n == 1) {
      int k = c.choose(unary && depth < 3 ? nl + nk : nl);
      if (k < nl) return leaf(k);
      return node(k - nl, {tree(1, nl, nk, false, depth + 1)});
    }
    // composition of n into >= 2 parts
    std::vector<int> parts;
    int left = n;
    while (left) {
      int mx = parts.empty() ? n - 1 : left;
      int p = 1 + c.choose(mx);
      parts.push_back(p);
      left -= p;
    }
    int kind = c.choose(nk);
    std::vector<ExprPtr> ch;
    for (int p : parts) ch.push_back(tree(p, nl, nk, unary, depth + 1));
    return node(kind, ch);
  }
};
// normal forms, stated on the printed structure only
bool has_sum(const Expr& e) {
  if (e.is<Sum>()) return true;
  if (e.is<Product>()) for (auto& f : e) if (has_sum(*f)) return true;
  return false;
}
std::string not_expanded(const Expr& e, bool under_product = false) {
  if (e.is<Sum>()) {
    if (under_product) return "a sum below a product";
    for (auto& s : e) if (auto r = not_expanded(*s); !r.empty()) return r;
  }
  if (e.is<Product>()) for (auto& f : e) if (auto r = not_expanded(*f, true); !r.empty()) return r;
  return "";
}
std::string not_flat(const Expr& e) {
  if (e.is<Sum>()) for (auto& s : e) { if (s->is<Sum>()) return "a sum in a sum"; if (auto r = not_flat(*s); !r.empty()) return r; }
  if (e.is<Product>()) for (auto& s : e) { if (s->is<Product>()) return "a product in a product"; if (auto r = not_flat(*s); !r.empty()) return r; }
  return "";
}
std::string not_simple(const Expr& e) {
  if (e.is<Sum>()) {
    auto n = ranges::size(e);
    if (n < 2) return "a sum of " + std::to_string(n) + " terms";
    int cs = 0;
    for (auto& s : e) {
      if (s->is<Sum>()) return "a sum in a sum";
      if (s->is<Constant>()) { ++cs; if (s->is_zero()) return "a zero summand"; }
      if (s->is<Product>() && s->as<Product>().scalar() == 0) return "a summand times zero";
      if (auto r = not_simple(*s); !r.empty()) return r;
    }
    if (cs > 1) return "two constant summands";
  }
  if (e.is<Product>()) {
    auto& p = e.as<Product>();
    if (p.scalar() == 0) return "a product with zero scalar";
    if (p.factors().empty()) return "a product without factors";
    if (p.factors().size() == 1 && p.scalar() == 1) return "a product of one factor";
    for (auto& f : p.factors()) {
      if (f->is<Constant>()) return "a constant factor";
      if (f->is<Product>()) return "a product in a product";
      if (auto r = not_simple(*f); !r.empty()) return r;
    }
  }
  return "";
}
void check(vf::Case& c, const ExprPtr& e0) {
  auto s0 = show(e0);
  c.describe(s0);
  c.state(s0);
  auto v0 = val(e0);
  auto test = [&](const char* name, ExprPtr r, auto nf) {
    c.step();
    c.require(val(r) == v0, [&] { return std::string(name) + " gave " + show(r) + " which denotes " + orc::show(val(r)) + ", expected " + orc::show(v0); });
    std::string bad = nf(*r);
    c.require(bad.empty(), [&] { return std::string(name) + " left " + bad + ": " + show(r); });
    c.outcome(show(r));
  };
  auto nothing = [](const Expr&) { return std::string(); };
  auto ne = [](const Expr& e) { return not_expanded(e); };
  auto full = [](const Expr& e) { auto r = not_expanded(e); return r.empty() ? not_simple(e) : r; };
  auto fullflat = [&](const Expr& e) { auto r = full(e); return r.empty() ? not_flat(e) : r; };
  auto mk = [&] { auto e = e0->clone(); (void)e->hash_value(); return e; };
  { auto e = mk(); auto& r = expand(e); test("expand", r, ne); auto once = show(e); expand(e); c.require(show(e) == once, [&] { return "expanding again turned " + once + " into " + show(e); }); flatten(e); test("expand, flatten", e, [&](const Expr& x) { auto r = not_expanded(x); return r.empty() ? not_flat(x) : r; }); }
  { auto e = mk(); test("flatten", flatten(e), not_flat); expand(e); test("flatten, expand", e, ne); }
  { auto e = mk(); rapid_simplify(e); test("rapid_simplify", e, [&](const Expr& x) { return not_simple(x); }); auto again = e->clone(); rapid_simplify(again); c.require(show(again) == show(e), "rapid_simplify is not idempotent"); }
  { auto e = mk(); test("non_canon_simplify", non_canon_simplify(e), fullflat); }
  { auto e = mk(); simplify(e); test("simplify", e, fullflat); auto again = e->clone(); simplify(again); test("simplify twice", again, fullflat);
    c.require(size(again) == size(e), [&] { return "simplifying again turned " + show(e) + " into " + show(again); }); }
  { auto e = mk(); simplify(e, SimplifyOptions{{.method = CanonicalizationMethod::Topological}}); test("simplify (topological)", e, fullflat); }
  { auto e = simplify(mk()); test("simplify (temporary)", e, fullflat); }
  { auto e = expand(mk()); test("expand (temporary)", e, ne); }
  { ResultExpr r(Variable(L"R"), mk()); simplify(r); test("simplify (ResultExpr)", r.expression(), fullflat); }
  { ResultExpr r(Variable(L"R"), mk()); expand(r); test("expand (ResultExpr)", r.expression(), ne); flatten(r); test("flatten (ResultExpr)", r.expression(), not_flat); rapid_simplify(r); test("rapid_simplify (ResultExpr)", r.expression(), nothing); }
  // difference of two ways to write the same vanishes (powers of numbers are only evaluated within products)
  if (s0.find("pow(") == std::string::npos) { auto e = mk(); auto f = mk(); expand(f); auto d = e - f; simplify(d); c.require(d->is<Constant>() && d->is_zero(), [&] { return "the difference to the expanded form simplified to " + show(d); }); }
}
void run(vf::Case& c, int n, int nl, int nk, bool unary) {
  use_context(Vacuum::Physical);
  Gen g{c};
  auto e = g.tree(n, nl, nk, unary, 0);
  c.mine();
  check(c, e);
}
}  // namespace
SCENARIO("one", c) { run(c, 1, 13, 5, true); }
SCENARIO("two", c) { run(c, 2, 13, 5, true); }
SCENARIO("three", c) { run(c, 3, vf::thorough() ? 11 : 7, 4, false); }
SCENARIO("three.wrapped", c) { run(c, 3, vf::thorough() ? 5 : 3, 4, true); }
SCENARIO("four", c) { run(c, 4, vf::thorough() ? 5 : 3, vf::thorough() ? 4 : 3, false); }
SCENARIO("five", c) { if (!vf::thorough()) run(c, 5, 2, 2, false); else run(c, 5, 3, 3, false); }
int main(int c, char** v) { return vf::main_impl(c, v, "C02"); }
