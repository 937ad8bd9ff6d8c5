// LINK: symb
// Two registers, every sequence of operations up to a depth; after every
// operation both registers must denote what the ring operations say.
#include <SeQuant/core/expressions/expr_algorithms.hpp>
#include <SeQuant/core/expressions/expr_operators.hpp>

#include "lib/setup.hpp"
using namespace orc;
namespace {
Model& model() { static Model m; return m; }
std::vector<Index> ext() { return {Index(L"i_1"), Index(L"i_2")}; }
Val val(const ExprPtr& e) { return value(model(), e, ext()); }
ExprPtr cre(const wchar_t* i) { return ex<FNOperator>(sequant::cre({Index(i)}), sequant::ann(std::vector<Index>{}), Vacuum::Physical); }
ExprPtr ann_(const wchar_t* i) { return ex<FNOperator>(sequant::cre(std::vector<Index>{}), sequant::ann({Index(i)}), Vacuum::Physical); }
ExprPtr x() { return ex<Variable>(L"x"); }
ExprPtr yc() { auto v = Variable(L"y"); v.conjugate(); return ex<Variable>(v); }
constexpr int NATOM = 13;
ExprPtr atom(int k) {
  switch (k) {
    case 0: return ex<Constant>(2);
    case 1: return x();
    case 2: return cre(L"i_1");
    case 3: return ann_(L"i_1");
    case 4: return x() + ex<Constant>(2);
    case 5: return ex<Constant>(3) * x() * cre(L"i_2");
    case 6: return ann_(L"i_2") * (yc() + ann_(L"i_1"));
    case 7: return ex<Constant>(0);
    case 8: return ex<Constant>(Complex<rational>(0, rational(1, 3)));
    case 9: return yc();
    case 10: return ex<Tensor>(L"g", bra{Index(L"i_1")}, ket{Index(L"i_2")}, aux{}, Symmetry::Nonsymm, BraKetSymmetry::Nonsymm);
    case 11: return ex<Product>(rational(1, 2), ExprPtrList{x(), ex<Product>(5, ExprPtrList{cre(L"i_1"), yc()}), ann_(L"i_2")}, Product::Flatten::No);
    default: return ex<Power>(x(), 2);
  }
}
std::shared_ptr<Product> as_product(const ExprPtr& a) {
  if (a->is<Product>()) return std::static_pointer_cast<Product>(a->clone());
  return std::make_shared<Product>(ExprPtrList{a});
}
std::shared_ptr<Sum> as_sum(const ExprPtr& a) {
  if (a->is<Sum>()) return std::static_pointer_cast<Sum>(a->clone());
  return std::make_shared<Sum>(ExprPtrList{a});
}
struct Reg { ExprPtr e; Val v; };
struct Op { const char* name; std::function<void(Reg&, Reg&)> f; };
ExprPtr P(std::shared_ptr<Product> p) { return ExprPtr(std::static_pointer_cast<Expr>(p)); }
ExprPtr S(std::shared_ptr<Sum> p) { return ExprPtr(std::static_pointer_cast<Expr>(p)); }
const std::vector<Op>& ops() {
  using FL = Product::Flatten;
  static std::vector<Op> o{
      {"A=A*B", [](Reg& a, Reg& b) { a.e = a.e * b.e; a.v = a.v * b.v; }},
      {"A=B*A", [](Reg& a, Reg& b) { a.e = b.e * a.e; a.v = b.v * a.v; }},
      {"A=A+B", [](Reg& a, Reg& b) { a.e = a.e + b.e; a.v = a.v + b.v; }},
      {"A=B+A", [](Reg& a, Reg& b) { a.e = b.e + a.e; a.v = b.v + a.v; }},
      {"A=A-B", [](Reg& a, Reg& b) { a.e = a.e - b.e; a.v = a.v - b.v; }},
      {"A=B-A", [](Reg& a, Reg& b) { a.e = b.e - a.e; a.v = b.v - a.v; }},
      {"A+=B", [](Reg& a, Reg& b) { a.e += b.e; a.v = a.v + b.v; }},
      {"A-=B", [](Reg& a, Reg& b) { a.e -= b.e; a.v = a.v - b.v; }},
      {"A*=B", [](Reg& a, Reg& b) { a.e *= b.e; a.v = a.v * b.v; }},
      {"A=A^B", [](Reg& a, Reg& b) { a.e = a.e ^ b.e; a.v = a.v * b.v; }},
      {"A=B^A", [](Reg& a, Reg& b) { a.e = b.e ^ a.e; a.v = b.v * a.v; }},
      {"A*=A", [](Reg& a, Reg& b) { a.e *= a.e; a.v = a.v * a.v; }},
      {"A+=A", [](Reg& a, Reg& b) { a.e += a.e; a.v = a.v + a.v; }},
      {"A-=A", [](Reg& a, Reg& b) { a.e -= a.e; a.v = a.v - a.v; }},
      {"A=A*A", [](Reg& a, Reg& b) { a.e = a.e * a.e; a.v = a.v * a.v; }},
      {"A=A+A", [](Reg& a, Reg& b) { a.e = a.e + a.e; a.v = a.v + a.v; }},
      {"A=adjoint(A)", [](Reg& a, Reg& b) { a.e = adjoint(a.e); a.v = adj(a.v); }},
      {"A.adjoint()", [](Reg& a, Reg& b) { a.e->adjoint(); a.v = adj(a.v); }},
      {"A=clone(B)", [](Reg& a, Reg& b) { a.e = b.e->clone(); a.v = b.v; }},
      {"A.append(3,B,No)", [](Reg& a, Reg& b) { auto p = as_product(a.e); p->append(3, b.e, FL::No); a.e = P(p); a.v = num(q(3), a.v.size()) * a.v * b.v; }},
      {"A.append(3,B,Once)", [](Reg& a, Reg& b) { auto p = as_product(a.e); p->append(3, b.e, FL::Once); a.e = P(p); a.v = num(q(3), a.v.size()) * a.v * b.v; }},
      {"A.append(3,B,Rec)", [](Reg& a, Reg& b) { auto p = as_product(a.e); p->append(3, b.e, FL::Recursively); a.e = P(p); a.v = num(q(3), a.v.size()) * a.v * b.v; }},
      {"A.prepend(3,B,No)", [](Reg& a, Reg& b) { auto p = as_product(a.e); p->prepend(3, b.e, FL::No); a.e = P(p); a.v = num(q(3), a.v.size()) * b.v * a.v; }},
      {"A.prepend(3,B,Once)", [](Reg& a, Reg& b) { auto p = as_product(a.e); p->prepend(3, b.e, FL::Once); a.e = P(p); a.v = num(q(3), a.v.size()) * b.v * a.v; }},
      {"A.prepend(3,B,Rec)", [](Reg& a, Reg& b) { auto p = as_product(a.e); p->prepend(3, b.e, FL::Recursively); a.e = P(p); a.v = num(q(3), a.v.size()) * b.v * a.v; }},
      {"A.sum_append(B)", [](Reg& a, Reg& b) { auto p = as_sum(a.e); p->append(b.e); a.e = S(p); a.v = a.v + b.v; }},
      {"A.sum_prepend(B)", [](Reg& a, Reg& b) { auto p = as_sum(a.e); p->prepend(b.e); a.e = S(p); a.v = a.v + b.v; }},
      {"A=Product{A,B,A}", [](Reg& a, Reg& b) { a.e = ex<Product>(ExprPtrList{a.e, b.e, a.e}); a.v = a.v * b.v * a.v; }},
      {"A=Product(1/2,rng{B,A,2},Once)", [](Reg& a, Reg& b) { std::vector<ExprPtr> v{b.e, a.e, ex<Constant>(2)}; a.e = ex<Product>(rational(1, 2), v.begin(), v.end(), FL::Once); a.v = b.v * a.v; }},
      {"A=Product(rng{A,B},No)", [](Reg& a, Reg& b) { std::vector<ExprPtr> v{a.e, b.e}; a.e = ex<Product>(v, FL::No); a.v = a.v * b.v; }},
      {"A=Product(A)", [](Reg& a, Reg& b) { a.e = ex<Product>(a.e, FL::No); }},
      {"A=Sum(A)", [](Reg& a, Reg& b) { a.e = ex<Sum>(a.e); }},
      {"A=Sum{0,1,B,2,A,-3}moved", [](Reg& a, Reg& b) {
         Sum::summands_type s{ex<Constant>(0), ex<Constant>(1), b.e->clone(), ex<Constant>(2), a.e->clone(), ex<Constant>(-3)};
         a.e = ex<Sum>(std::move(s), Sum::move_only_tag{}); a.v = a.v + b.v; }},
      {"A=take_n parts", [](Reg& a, Reg& b) { auto s = as_sum(a.e); a.e = ex<Sum>(ExprPtrList{s->take_n(1), s->take_n(1, 1), s->take_n(2, 100)}); }},
      {"A=filter parts", [](Reg& a, Reg& b) { auto s = as_sum(a.e); auto f = [](const ExprPtr& e) { return e->is<Product>(); };
         a.e = s->filter(f) + s->filter([&](const ExprPtr& e) { return !f(e); }); }},
      {"A=A+2", [](Reg& a, Reg& b) { a.e = a.e + 2; a.v = a.v + num(q(2), a.v.size()); }},
      {"A=3*A", [](Reg& a, Reg& b) { a.e = 3 * a.e; a.v = num(q(3), a.v.size()) * a.v; }},
      {"A=A/2", [](Reg& a, Reg& b) { a.e = a.e / 2; a.v = num(q(1, 2), a.v.size()) * a.v; }},
      {"A=1-A", [](Reg& a, Reg& b) { a.e = 1 - a.e; a.v = num(q(1), a.v.size()) - a.v; }},
      {"A=A*L'z'", [](Reg& a, Reg& b) { a.e = a.e * std::wstring(L"z"); a.v = a.v * val(ex<Variable>(L"z")); }},
      {"scale A i", [](Reg& a, Reg& b) { auto p = as_product(a.e); p->scale(Complex<rational>(0, 1)); a.e = P(p); a.v = num(F{0, 1}, a.v.size()) * a.v; }},
      {"copy, append 2 to the copy", [](Reg& a, Reg& b) { auto s = as_sum(a.e); b.e = S(s); b.v = a.v; auto t = std::make_shared<Sum>(*s); t->append(ex<Constant>(2)); a.e = S(t); a.v = a.v + num(q(2), a.v.size()); }},
      {"copy product, adjoint the copy", [](Reg& a, Reg& b) { auto s = as_product(a.e); b.e = P(s); b.v = a.v; auto t = std::make_shared<Product>(*s); t->adjoint(); a.e = P(t); a.v = adj(a.v); }},
      {"A=null;A+=B", [](Reg& a, Reg& b) { ExprPtr r; r += b.e; a.e = r; a.v = b.v; }},
      {"A=null;A-=B", [](Reg& a, Reg& b) { ExprPtr r; r -= b.e; a.e = r; a.v = num(q(-1), b.v.size()) * b.v; }},
      {"A=null;A*=B", [](Reg& a, Reg& b) { ExprPtr r; r *= b.e; a.e = r; a.v = b.v; }},
      {"A+=null", [](Reg& a, Reg& b) { a.e += ExprPtr{}; a.e -= ExprPtr{}; a.e *= ExprPtr{}; }},
      {"swap", [](Reg& a, Reg& b) { std::swap(a, b); }},
      {"expand", [](Reg& a, Reg& b) { expand(a.e); }},
      {"flatten", [](Reg& a, Reg& b) { flatten(a.e); }},
      {"visit(null)", [](Reg& a, Reg& b) { a.e->visit([](ExprPtr& e) {}); }},
      {"transform", [](Reg& a, Reg& b) { if (!a.e->is_atom()) a.e = S(std::make_shared<Sum>(ExprPtrList{a.e})); }},
  };
  return o;
}
void run(vf::Case& c, int depth, int natom) {
  use_context(Vacuum::Physical);
  int ia = c.choose(natom), ib = c.choose(natom);
  bool memo = c.flip("hash first");
  std::vector<int> seq;
  for (int d = 0; d < depth; ++d) { seq.push_back(c.choose(int(ops().size()))); if (d == 0) c.mine(); }
  Reg a{atom(ia)}, b{atom(ib)};
  a.v = val(a.e); b.v = val(b.e);
  std::string d = "A=" + show(a.e) + " B=" + show(b.e) + (memo ? " hashed" : "") + " :";
  for (int k : seq) d += std::string(" ") + ops()[k].name + ";";
  c.describe(d);
  for (std::size_t k = 0; k < seq.size(); ++k) {
    if (memo) { a.e->hash_value(); b.e->hash_value(); }
    ops()[seq[k]].f(a, b);
    c.step();
    if (k + 1 < seq.size() && depth > 1 && k + 2 < seq.size()) continue;  // shorter sequences are cases of their own
    for (auto* r : {&a, &b}) {
      auto got = val(r->e);
      c.require(got == r->v, [&] { return std::string("after ") + ops()[seq[k]].name + " register " + (r == &a ? "A" : "B") + " = " + show(r->e) + " denotes " + orc::show(got) + ", expected " + orc::show(r->v); });
      auto cl = r->e->clone();
      c.require(val(cl) == r->v, "the clone denotes something else");
      c.require(*cl == *r->e, "the clone is not equal to the original");
      c.require(cl->hash_value() == r->e->hash_value(), "clone hashes differently");
    }
    c.state(show(a.e) + "|" + show(b.e));
    c.outcome(orc::show(a.v));
  }
}
}  // namespace
SCENARIO("arith1", c) { run(c, 1, NATOM); }
SCENARIO("arith2", c) { run(c, 2, vf::thorough() ? NATOM : 12); }
SCENARIO("arith3", c) { if (!vf::thorough()) throw vf::Skip{}; run(c, 3, 7); }
int main(int c, char** v) { return vf::main_impl(c, v, "C01"); }
