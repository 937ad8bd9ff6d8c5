// LINK: symb
// Text serialization: every expression of the menus survives a round trip; of
// every string of tokens the deserializer accepts exactly the well-formed ones
// and gives them their meaning.
#include <SeQuant/core/expressions/expr_algorithms.hpp>
#include <SeQuant/core/expressions/expr_operators.hpp>
#include <SeQuant/core/expressions/result_expr.hpp>
#include <SeQuant/core/io/serialization/serialization.hpp>

#include "lib/setup.hpp"
using namespace orc;
namespace ser = sequant::io::serialization;
namespace {
using bks = BraKetSymmetry;
constexpr auto N = Symmetry::Nonsymm, A = Symmetry::Antisymm, S = Symmetry::Symm;
Model& model() { static Model m; return m; }
std::vector<Index> ext() { return {Index(L"i_1"), Index(L"i_2"), Index(L"a_1")}; }
Val val(const ExprPtr& e) { return value(model(), e, ext()); }
std::string text(const ExprPtr& e) { return u8(ser::to_string(e)); }
/// round trip; flat expressions must come back equal, others with the same value
void trip(vf::Case& c, const ExprPtr& e, bool flat, bool eval = true) {
  std::wstring s;
  try { s = ser::to_string(e); } catch (std::exception& x) { c.require(false, [&] { return std::string("cannot be serialized: ") + x.what(); }); return; }
  c.describe(show(e) + " serialized as " + u8(s));
  c.state(u8(s));
  ExprPtr r;
  for (bool wide : {true, false}) {
    try { r = wide ? ser::from_string(std::wstring_view(s)) : ser::from_string(std::string_view(toUtf8(s))); } catch (std::exception& x) { c.require(false, [&] { return std::string("cannot be deserialized: ") + x.what(); }); return; }
    c.step();
    c.require(bool(r), "deserializes to nothing");
    if (!r) return;
    if (flat) {
      c.require(*r == *e, [&] { return "deserializes to the different expression " + show(r); });
      c.require(r->hash_value() == e->hash_value(), "the deserialized expression hashes differently");
    }
    if (eval) { auto a = val(e), b = val(r); c.require(a == b, [&] { return "deserializes to " + show(r) + " with the value " + orc::show(b) + ", not " + orc::show(a); }); }
    auto s2 = ser::to_string(r);
    c.outcome(u8(s2));
    if (flat) c.require(s2 == s, [&] { return "is serialized as " + u8(s2) + " after the round trip"; });
  }
}
ExprPtr var(const wchar_t* l, bool cj = false) { Variable v(l); if (cj) v.conjugate(); return ex<Variable>(v); }
Index ix(int k) {
  static const wchar_t* l[] = {L"i_1", L"a_1", L"i_2", L"a_12", L"x_3", L"i_7"};
  return Index(l[k]);
}
ExprPtr factor(int k) {
  switch (k) {
    case 0: return var(L"x");
    case 1: return var(L"y", true);
    case 2: return ex<Power>(var(L"x"), rational(2));
    case 3: return ex<Power>(ex<Constant>(3), rational(-1, 2));
    case 4: { auto p = Power(var(L"y", true), rational(1, 2)); p.conjugate(); return ex<Power>(p); }
    case 5: return ex<Tensor>(L"f", bra{ix(0)}, ket{ix(2)}, aux{}, N, bks::Nonsymm);
    case 6: return ex<Tensor>(L"g", bra{ix(0), ix(2)}, ket{ix(1), ix(3)}, aux{}, A, bks::Symm);
    case 7: return ex<FNOperator>(cre({ix(0)}), ann({ix(1)}), Vacuum::SingleProduct);
    case 8: return ex<Tensor>(L"B", bra{ix(0)}, ket{}, aux{ix(4)}, N, bks::Conjugate, ColumnSymmetry::Nonsymm);
    case 9: return ex<Power>(ex<Constant>(rational(-2, 3)), rational(2));
    default: return ex<FNOperator>(cre({ix(1)}), ann({}), Vacuum::SingleProduct);
  }
}
constexpr int NF = 11;
const std::vector<rational> SC{1, -1, 2, rational(-1, 2), rational(1, 3)};
ExprPtr term(vf::Case& c, int len, bool same = false) {
  rational s = c.pick(SC);
  std::vector<ExprPtr> f;
  for (int k = 0; k < len; ++k) f.push_back(factor(c.choose(NF)));
  return ex<Product>(s, f.begin(), f.end());
}
}  // namespace
SCENARIO("tensor", c) {
  use_context(Vacuum::Physical);
  auto lab = c.pick(std::vector<std::wstring>{L"t", L"Â", L"f12", L"L⁺", L"é_x"});
  int nb = c.choose(3), nk = c.choose(3), na = c.choose(3);
  auto s = c.pick(std::vector{N, A, S});
  auto b = c.pick(std::vector{bks::Nonsymm, bks::Symm, bks::Conjugate});
  auto cs = c.pick(std::vector{ColumnSymmetry::Symm, ColumnSymmetry::Nonsymm});
  if (s != N && cs == ColumnSymmetry::Nonsymm) throw vf::Skip{};
  c.mine();
  std::vector<Index> bi, ki, ai;
  for (int k = 0; k < nb; ++k) bi.push_back(ix(k ? 3 : 0));
  for (int k = 0; k < nk; ++k) ki.push_back(ix(k ? 1 : 2));
  for (int k = 0; k < na; ++k) ai.push_back(ix(k ? 5 : 4));
  auto e = ex<Tensor>(lab, bra(bi), ket(ki), aux(ai), s, b, cs);
  trip(c, e, true, false);
  trip(c, ex<Product>(2, ExprPtrList{e, var(L"x")}), true, false);
  auto t2 = Tensor(e->as<Tensor>());
  t2.adjoint();
  trip(c, ex<Tensor>(t2), true, false);
  // the symmetry may be left out and given as the default
  ser::SerializationOptions so{.annot_symm = false};
  ser::DeserializationOptions ds{.def_perm_symm = s, .def_braket_symm = b, .def_col_symm = cs};
  auto w = ser::to_string(e, so);
  auto r = ser::from_string(w, ds);
  c.require(*r == *e, [&] { return "without annotations it is deserialized as " + text(r); });
}
SCENARIO("index", c) {
  use_context(Vacuum::Physical);
  static const wchar_t* labs[] = {L"i_1", L"a_1", L"p_12", L"x_3", L"a_2", L"i_99"};
  int k = c.choose(6), np = c.choose(4);
  std::vector<Index> pr;
  for (int j = 0; j < np; ++j) pr.emplace_back(std::vector<const wchar_t*>{L"i_1", L"i_3", L"i_22"}[c.choose(3)]);
  for (std::size_t a = 0; a < pr.size(); ++a) for (std::size_t b = a + 1; b < pr.size(); ++b) if (pr[a] == pr[b]) throw vf::Skip{};
  bool sym = c.flip("symmetric protoindices");
  if (np == 0 && !sym) throw vf::Skip{};
  if (!sym && np > 1) throw vf::Skip{};   // see index.asymm
  int pos = c.choose(3);
  c.mine();
  Index i = np ? Index(labs[k], pr, sym) : Index(labs[k]);
  Index o(L"a_9");
  ExprPtr e = pos == 0 ? ex<Tensor>(L"t", bra{i}, ket{o}) : pos == 1 ? ex<Tensor>(L"t", bra{o}, ket{i}, aux{}) : ex<Tensor>(L"t", bra{o, i}, ket{}, aux{i});
  trip(c, e, true, false);
  if (pos < 2) trip(c, ex<FNOperator>(cre({i}), ann({o}), Vacuum::Physical), true, false);
}
SCENARIO("index.asymm", c) {
  use_context(Vacuum::Physical);
  bool rev = c.flip();
  c.mine();
  std::vector<Index> pr{Index(L"i_1"), Index(L"i_2")};
  if (rev) std::swap(pr[0], pr[1]);
  trip(c, ex<Tensor>(L"t", bra{Index(L"a_1", pr, false)}, ket{}), true, false);
}
SCENARIO("nullslot", c) {  // empty slots
  use_context(Vacuum::Physical);
  int nb = 1 + c.choose(2), nk = 1 + c.choose(2);
  std::vector<Index> b, k;
  int z = 0;
  for (int j = 0; j < nb; ++j) b.push_back(c.flip() ? (++z, Index{}) : ix(j ? 3 : 0));
  for (int j = 0; j < nk; ++j) k.push_back(c.flip() ? (++z, Index{}) : ix(j ? 1 : 2));
  if (!z) throw vf::Skip{};
  for (int j = 0; j < std::min(nb, nk); ++j) if (!b[j].nonnull() && !k[j].nonnull()) throw vf::Skip{};
  if (nb > nk ? !b[nb - 1].nonnull() : nk > nb ? !k[nk - 1].nonnull() : false) throw vf::Skip{};
  c.mine();
  ExprPtr e;
  try { e = ex<Tensor>(L"t", bra(b), ket(k)); } catch (...) { throw vf::Skip{}; }
  trip(c, e, true, false);
}
SCENARIO("operator", c) {
  auto vac = c.pick(std::vector{Vacuum::Physical, Vacuum::SingleProduct});
  use_context(vac);
  int nc = c.choose(3), na = c.choose(3);
  bool bose = c.flip();
  if (bose && vac == Vacuum::SingleProduct) throw vf::Skip{};
  if (nc + na == 0) throw vf::Skip{};
  c.mine();
  std::vector<Index> cr, an;
  for (int k = 0; k < nc; ++k) cr.push_back(ix(k ? 3 : 0));
  for (int k = 0; k < na; ++k) an.push_back(ix(k ? 1 : 2));
  ExprPtr e = bose ? ex<BNOperator>(cre(cr), ann(an), vac) : ex<FNOperator>(cre(cr), ann(an), vac);
  trip(c, e, true, false);
  trip(c, ex<Product>(rational(1, 4), ExprPtrList{ex<Tensor>(L"t", bra(cr), ket(an)), e}), true, false);
}
SCENARIO("scalar", c) {
  use_context(Vacuum::Physical);
  static const std::vector<rational> V{0, 1, -1, 7, rational(-3, 2), rational(1, 3), rational(123456789, 1000), rational(-9007199254740991), rational(1, 4503599627370496)};
  int k = c.choose(5);
  auto v = c.pick(V);
  static const wchar_t* names[] = {L"x", L"inf", L"info", L"nan", L"NaNo", L"infinity", L"e5", L"E", L"x_y", L"λ", L"x̂", L"a²", L"i"};
  int n = c.choose(13);
  if ((k == 0 || k == 3) && n) throw vf::Skip{};
  c.mine();
  if (k == 0) trip(c, ex<Constant>(v), true, false);
  if (k == 1) trip(c, ex<Product>(v, ExprPtrList{var(names[n])}), v != 0 && v != 1, false);
  if (k == 2) { trip(c, var(names[n]), true, false); trip(c, var(names[n], true), true, false); trip(c, ex<Tensor>(names[n], bra{ix(0)}, ket{}), true, false); }
  if (k == 3) { if (v == 0) throw vf::Skip{}; trip(c, ex<Power>(ex<Constant>(v), rational(1, 2)), true, false); trip(c, ex<Power>(ex<Constant>(v), rational(-3)), true, false); }
  if (k == 4) { trip(c, ex<Power>(var(names[n]), v), true, false); trip(c, ex<Sum>(ExprPtrList{var(names[n]), ex<Constant>(v == 0 ? rational(5) : v)}), true, false); }
}
SCENARIO("complex", c) {
  use_context(Vacuum::Physical);
  auto re = c.pick(std::vector<rational>{0, 1, rational(-1, 2)}), im = c.pick(std::vector<rational>{1, -2, rational(1, 3)});
  bool prod = c.flip();
  c.mine();
  Complex<rational> z(re, im);
  trip(c, prod ? ex<Product>(z, ExprPtrList{var(L"x")}) : ex<Constant>(z), true);
}
SCENARIO("big", c) {
  use_context(Vacuum::Physical);
  auto n = c.pick(std::vector<const char*>{"9007199254740993", "-12345678901234567891", "100000000000000000000000000000001"});
  auto d = c.pick(std::vector<const char*>{"1", "9007199254740995", "340282366920938463463374607431768211457"});
  bool prod = c.flip();
  c.mine();
  rational r(0);
  using I = std::decay_t<decltype(numerator(r))>;
  r = rational(I(n), I(d));
  trip(c, prod ? ex<Product>(r, ExprPtrList{var(L"x")}) : ex<Constant>(r), true, false);
}
SCENARIO("product", c) {
  use_context(Vacuum::SingleProduct);
  auto e = term(c, 1 + c.choose(vf::thorough() ? 4 : 3));
  c.mine();
  bool lone = e->size() == 1 && e->as<Product>().scalar() == 1;
  trip(c, e, !lone, vf::thorough());
}
SCENARIO("sum", c) {
  use_context(Vacuum::SingleProduct);
  int n = 2 + c.choose(vf::thorough() ? 2 : 1);
  std::vector<ExprPtr> t;
  for (int k = 0; k < n; ++k) {
    int w = c.choose(3);
    if (w == 0) t.push_back(factor(c.choose(NF)));
    else if (w == 1) t.push_back(ex<Constant>(c.pick(std::vector<rational>{-1, rational(1, 2)})));
    else {
      rational s = c.pick(SC);
      std::vector<ExprPtr> f{factor(c.choose(NF)), factor(vf::thorough() ? c.choose(NF) : 5)};
      t.push_back(ex<Product>(s, f.begin(), f.end()));
    }
  }
  c.mine();
  if (n == 2 && t[0]->is<Constant>() && t[1]->is<Constant>()) throw vf::Skip{};
  int cs = 0;
  for (auto& x : t) cs += x->is<Constant>();
  if (cs > 1) throw vf::Skip{};
  trip(c, ex<Sum>(t.begin(), t.end()), true, true);
}
SCENARIO("nested", c) {
  use_context(Vacuum::SingleProduct);
  static const std::vector<int> leafs{0, 1, 3, 5, 7};
  std::function<ExprPtr(int)> tree = [&](int n) -> ExprPtr {
    if (n == 1) {
      int k = c.choose(7);
      if (k < 5) return factor(leafs[k]);
      return k == 5 ? ex<Constant>(-2) : ex<Product>(-1, ExprPtrList{var(L"z")});
    }
    int l = 1 + c.choose(n - 1), op = c.choose(4);
    auto a = tree(l), b = tree(n - l);
    if (op == 0) return ex<Product>(1, ExprPtrList{a, b}, Product::Flatten::No);
    if (op == 1) return ex<Product>(rational(-1, 2), ExprPtrList{a, b}, Product::Flatten::No);
    if (op == 3) return ex<Sum>(ExprPtrList{ex<Sum>(ExprPtrList{a, var(L"w")}), b});
    auto s = std::make_shared<Sum>(ExprPtrList{a});
    s->append(b);
    return ExprPtr(std::static_pointer_cast<Expr>(s));
  };
  int n = 2 + c.choose(vf::thorough() ? 3 : 2);
  auto e = tree(n);
  c.mine();
  trip(c, e, false);
}
SCENARIO("sumsum", c) {  // a sum kept inside a sum
  use_context(Vacuum::SingleProduct);
  int a = c.choose(5), b = c.choose(5), d = c.choose(5);
  int where = c.choose(4);
  c.mine();
  auto in = std::make_shared<Sum>(ExprPtrList{factor(a), ex<Product>(-2, ExprPtrList{factor(b)})});
  ExprPtr i(std::static_pointer_cast<Expr>(in));
  ExprPtr e;
  if (where == 0) { Sum::summands_type v{i, factor(d)}; e = ex<Sum>(std::move(v), Sum::move_only_tag{}); }
  else if (where == 1) { Sum::summands_type v{factor(d), i}; e = ex<Sum>(std::move(v), Sum::move_only_tag{}); }
  else if (where == 2) { Sum::summands_type v{factor(d), i, i->clone()}; e = ex<Sum>(std::move(v), Sum::move_only_tag{}); }
  else e = ex<Product>(2, ExprPtrList{factor(d), i, factor(d)}, Product::Flatten::No);
  trip(c, e, false);
}
SCENARIO("result", c) {
  use_context(Vacuum::SingleProduct);
  int lhs = c.choose(6);
  int len = 1 + c.choose(2);
  auto rhs = term(c, len);
  bool sum = c.flip();
  c.mine();
  if (rhs->is<Product>() && rhs->size() == 1 && rhs->as<Product>().scalar() == 1) rhs = rhs->at(0);
  if (sum) rhs = rhs + var(L"w");
  ResultExpr r = [&] {
    switch (lhs) {
      case 0: return ResultExpr(Variable(L"E"), rhs);
      case 1: { Variable v(L"E"); v.conjugate(); return ResultExpr(v, rhs); }
      case 2: return ResultExpr(Tensor(L"R", bra{ix(0)}, ket{ix(1)}), rhs);
      case 3: return ResultExpr(Tensor(L"R", bra{ix(0), ix(2)}, ket{ix(1), ix(3)}, aux{}, A), rhs);
      case 4: return ResultExpr(Tensor(L"R", bra{ix(0), ix(2)}, ket{ix(1), ix(3)}, aux{ix(4)}, N, bks::Symm, ColumnSymmetry::Nonsymm), rhs);
      default: return ResultExpr(Tensor(L"R", bra{}, ket{ix(1)}, aux{}), rhs);
    }
  }();
  auto s = ser::to_string(r);
  c.describe(u8(s));
  c.state(u8(s));
  for (int how = 0; how < 3; ++how) {
    auto t = s;
    if (how == 2) t.replace(t.find(L"= "), 2, L"-> ");
    ResultExpr b = how == 1 ? ser::from_string<ResultExpr>(std::string_view(toUtf8(t))) : ser::from_string<ResultExpr>(std::wstring_view(t));
    c.step();
    c.require(b == r, [&] { return "deserialized as " + u8(ser::to_string(b)); });
    c.outcome(u8(ser::to_string(b)));
  }
}
namespace {
/// reference parser: every reading of the token string; signs directly before
/// a number are accepted in front of any explicit factor
struct Tok { const char* s; int k; };   // kinds: 0 atom var, 1 number, 2 tensor, 3 + 4 - 5 * 6 ( 7 ) 8 ^(2)  9 ^*
const std::vector<Tok> TK{{"x", 0}, {"y^*", 0}, {"2", 1}, {"1/3", 1}, {"+", 3}, {"-", 4}, {"*", 5}, {"(", 6}, {")", 7}, {"f{i_1;i_2}", 2}, {"^(2)", 8}, {"0.5", 1}};
struct Ref {
  const std::vector<int>& t;
  std::size_t p = 0;
  bool strict = true;      // no sign was used in front of a factor
  bool odd = false;        // a signed number is raised to a power
  std::map<int, Val>& atoms;
  int kind() const { return p < t.size() ? TK[t[p]].k : -1; }
  struct Bad {};
  Val sum() {
    Val r;
    bool neg = false, first = true;
    while (true) {
      neg = false;
      if (kind() == 3 || kind() == 4) { neg = kind() == 4; ++p; }
      else if (!first) return r;
      Val v = product();
      if (neg) v = orc::neg(v);
      r = first ? v : r + v;
      first = false;
    }
  }
  Val product() {
    Val r = factor(true);
    while (true) {
      if (kind() == 5) { ++p; r = r * factor(true); }
      else if (kind() == 0 || kind() == 1 || kind() == 2 || kind() == 6) r = r * factor(false);
      else return r;
    }
  }
  Val factor(bool sign) {
    Val v;
    bool neg = false, s = false;
    if (sign && (kind() == 3 || kind() == 4)) {
      neg = kind() == 4; s = true; strict = false; ++p;
      if (kind() != 1) throw Bad{};
    }
    bool powable = false;
    if (kind() == 6) {
      // a parenthesized number or variable may be raised to a power
      std::size_t q = p + 1;
      if (q < t.size() && (TK[t[q]].k == 3 || TK[t[q]].k == 4)) ++q;
      powable = q + 1 < t.size() && (TK[t[q]].k == 1 || (TK[t[q]].k == 0 && q == p + 1)) && TK[t[q + 1]].k == 7;
      if (powable && q != p + 1) { if (q + 2 < t.size() && TK[t[q + 2]].k == 8) strict = false; }
      ++p;
      v = sum();
      if (kind() != 7) throw Bad{};
      ++p;
    } else if (kind() >= 0 && kind() <= 2) { powable = kind() != 2; v = atoms[t[p]]; ++p; }
    else throw Bad{};
    if (kind() == 8) { if (!powable) throw Bad{}; if (s) odd = true; v = v * v; ++p; }
    return neg ? orc::neg(v) : v;
  }
};
}  // namespace
SCENARIO("tokens", c) {
  use_context(Vacuum::Physical);
  static const bool full = vf::thorough();
  int n = 1 + c.choose(full ? 6 : 5);
  std::vector<int> t;
  for (int k = 0; k < n; ++k) { t.push_back(c.choose(n >= (full ? 6 : 5) ? 9 : int(TK.size()))); if (k == 1) c.mine(); }
  static std::map<int, Val> atoms;
  if (atoms.empty()) {
    auto x = ext();
    atoms[0] = val(var(L"x")); atoms[1] = val(var(L"y", true)); atoms[2] = num(q(2), atoms[0].size()); atoms[3] = num(q(1, 3), atoms[0].size());
    atoms[9] = val(ex<Tensor>(L"f", bra{Index(L"i_1")}, ket{Index(L"i_2")}, aux{}, N, bks::Conjugate)); atoms[11] = num(q(1, 2), atoms[0].size());
  }
  for (bool spaces : {true, false}) {
    std::string s;
    for (int k = 0; k < n; ++k) {
      bool sep = k && (spaces || (TK[t[k - 1]].k < 2 && TK[t[k]].k < 3) || (TK[t[k - 1]].k < 2 && TK[t[k]].k == 6 && false));
      s += (sep ? " " : "") + std::string(TK[t[k]].s);
    }
    c.describe(s);
    c.state(s);
    Ref r{t, 0, true, false, atoms};
    bool ok = true;
    Val want;
    try { want = r.sum(); ok = r.p == t.size(); } catch (Ref::Bad&) { ok = false; }
    ExprPtr e;
    std::string err;
    try { e = ser::from_string(s); }
    catch (ser::SerializationError& x) { err = x.what(); c.require(x.offset <= s.size(), "the error is located behind the end of the input"); if (err.empty()) err = "?"; }
    catch (std::exception& x) { err = x.what(); c.require(false, [&] { return "is not rejected by a SerializationError but by " + err; }); }
    c.step();
    c.require(!(ok && r.strict && !e), [&] { return "is rejected: " + err; });
    c.require(!(e && !ok), [&] { return "is malformed but accepted as " + show(e); });
    if (e && ok && !r.odd) {
      auto g = val(e);
      c.require(g == want, [&] { return "is deserialized as " + show(e) + " with the value " + orc::show(g) + ", expected " + orc::show(want); });
      c.outcome(show(e));
    }
  }
}
/// numbers character by character
SCENARIO("number.text", c) {
  use_context(Vacuum::Physical);
  static const std::string A = "01/9-+ ";
  int n = 1 + c.choose(vf::thorough() ? 8 : 6);
  std::string s;
  for (int k = 0; k < n; ++k) { s += A[c.choose(int(A.size()))]; if (k == 1) c.mine(); }
  c.describe("'" + s + "'");
  c.state(s);
  std::size_t p = 0;
  auto skip = [&] { while (p < s.size() && s[p] == ' ') ++p; };
  auto digit = [&](std::size_t k) { return k < s.size() && s[k] >= '0' && s[k] <= '9'; };
  struct Bad {};
  auto integer = [&](rational& v, bool sign) {   // [sign]digits, no space between
    skip();
    std::size_t q = p;
    bool neg = false;
    if (sign && q < s.size() && (s[q] == '-' || s[q] == '+')) { neg = s[q] == '-'; ++q; }
    if (!digit(q)) return false;
    long x = 0;
    while (digit(q)) x = 10 * x + (s[q++] - '0');
    p = q;
    v = rational(neg ? -x : x);
    return true;
  };
  auto number = [&](rational& v, bool sign) {
    if (!integer(v, sign)) return false;
    skip();
    if (p < s.size() && s[p] == '/') { ++p; rational d; if (!integer(d, true)) throw Bad{}; if (d == 0) throw Bad{}; v /= d; }
    return true;
  };
  bool ok = true, empty = false;
  rational want(0);
  try {
    skip();
    empty = p == s.size();
    bool first = true;
    while (p < s.size() || first) {
      bool neg = false;
      skip();
      if (p < s.size() && (s[p] == '-' || s[p] == '+')) { neg = s[p] == '-'; ++p; }
      else if (!first) throw Bad{};
      rational t, f;
      if (!number(t, true)) throw Bad{};
      while (number(f, false)) t *= f;
      want += neg ? -t : t;
      first = false;
      skip();
    }
  } catch (Bad&) { ok = false; }
  ExprPtr e;
  std::string err;
  try { e = ser::from_string(s); }
  catch (ser::SerializationError& x) { err = x.what(); c.require(x.offset <= s.size(), "the error is located behind the end of the input"); if (err.empty()) err = "?"; }
  catch (std::exception& x) { err = x.what(); c.require(false, [&] { return "is not rejected by a SerializationError but by " + err; }); }
  c.step();
  if (empty) { c.require(!e && err.empty(), "blank input is not the null expression"); return; }
  c.require(!(ok && !e), [&] { return "is rejected: " + err; });
  c.require(!(!ok && e), [&] { return "is malformed but accepted as " + show(e); });
  if (e && ok) {
    simplify(e);
    c.require(e->is<Constant>() && e->as<Constant>().value() == want, [&] { return "is " + show(e) + ", not " + to_string(want); });
    c.outcome(show(e));
  }
}
/// tensors and indices character by character
SCENARIO("tensor.text", c) {
  use_context(Vacuum::Physical);
  static const std::vector<const char*> P{"f", "{", "}", "i1", "i_2", "a_1<i_1>", ",", ";", ":", "S", "A", "-", "_{", "}^{", "^{", "}_{", "q_1"};
  int n = 1 + c.choose(vf::thorough() ? 6 : 5);
  std::vector<int> t;
  for (int k = 0; k < n; ++k) { t.push_back(k == 0 ? 0 : 1 + c.choose(int(P.size()) - 1)); if (k == 1) c.mine(); }
  std::string s;
  for (int k : t) s += P[k];
  c.describe(s);
  c.state(s);
  // reference: f{b;k;a}[:X[-Y[-Z]]] or f_{b}^{k} or f^{k}_{b}; a lone f is a variable
  auto tok = [&](std::size_t k) { return k < t.size() ? std::string(P[t[k]]) : std::string(); };
  bool ok = true, unsure = false;
  std::vector<std::vector<std::string>> g(3);
  Symmetry sy = N;
  std::size_t p = 1;
  auto list = [&](int w) {
    while (true) {
      auto x = tok(p);
      if (x == "i1" || x == "i_2" || x == "a_1<i_1>" || x == "q_1") { if (x == "q_1") ok = false; g[w].push_back(x); ++p; }
      else { if (!g[w].empty()) ok = false; return; }
      if (tok(p) == ",") ++p; else return;
    }
  };
  if (tok(1) == "{") {
    ++p;
    list(0);
    for (int w = 1; w < 3; ++w) if (tok(p) == ";") { ++p; list(w); }
    if (tok(p) != "}") ok = false; else ++p;
  } else if (tok(1) == "_{" || tok(1) == "^{") {
    bool up = tok(1) == "^{";
    ++p;
    list(up);
    if (tok(p) != (up ? "}_{" : "}^{")) ok = false; else ++p;
    list(!up);
    if (tok(p) != "}") ok = false; else ++p;
  } else ok = false;
  if (ok && tok(p) == ":") {
    std::vector<std::string> sp;
    ++p;
    sp.push_back(tok(p)); ++p;
    while (tok(p) == "-" && sp.size() < 3) { ++p; sp.push_back(tok(p)); ++p; }
    for (auto& x : sp) if (x != "S" && x != "A") ok = false;
    if (ok) { sy = sp[0] == "S" ? S : A; if (sp.size() == 3 && sp[2] == "A") ok = false; if (sp.size() > 1 && sp[1] == "A") unsure = true; }
  }
  if (p != t.size() && !(p > t.size())) { ok = ok && p == t.size(); }
  if (p > t.size()) ok = false;
  // what follows a tensor or a variable may be a further expression; skip those
  bool cont = false;
  for (std::size_t k = 1; k < t.size(); ++k) { auto x = tok(k); cont |= (x == "-" && !(k > 1 && (tok(k - 1) == "S" || tok(k - 1) == "A"))); }
  for (std::size_t k = 1; k + 1 < t.size(); ++k) if (tok(k) == "}" ) { auto x = tok(k + 1); if (x == "S" || x == "A" || x == "i1" || x == "i_2" || x == "q_1" || x[0] == 'a') cont = true; }
  { auto x = tok(1); if (x == "S" || x == "A" || x == "i1" || x == "i_2" || x == "q_1" || x[0] == 'a') cont = true; }
  if (t.size() == 1) cont = true;
  for (std::size_t k = 1; k + 1 < t.size(); ++k) if (tok(k) == "}" && (tok(k + 1) == "^{" || tok(k + 1) == "_{")) cont = true;  // spells another token
  for (std::size_t k = 1; k + 1 < t.size(); ++k) { auto x = tok(k), y = tok(k + 1); if ((x == "S" || x == "A") && (y[0] == 'S' || y[0] == 'A' || y[0] == 'i' || y[0] == 'a' || y[0] == 'q')) cont = true; }
  for (int w = 0; w < 3; ++w) for (std::size_t a = 0; a < g[w].size(); ++a) for (std::size_t b = a + 1; b < g[w].size(); ++b) if (g[w][a] == g[w][b]) unsure = true;
  if (cont || unsure) throw vf::Skip{};
  ExprPtr e;
  std::string err;
  try { e = ser::from_string(s); }
  catch (ser::SerializationError& x) { err = x.what(); c.require(x.offset <= s.size(), "the error is located behind the end of the input"); if (err.empty()) err = "?"; }
  catch (std::exception& x) { err = x.what(); c.require(false, [&] { return "is not rejected by a SerializationError but by " + err; }); }
  c.step();
  c.require(!(ok && !e), [&] { return "is rejected: " + err; });
  c.require(!(!ok && e), [&] { return "is malformed but accepted as " + show(e); });
  if (ok && e) {
    c.require(e->is<Tensor>(), "is no tensor");
    if (!e->is<Tensor>()) return;
    auto& T = e->as<Tensor>();
    auto lst = [](auto&& r) { std::vector<std::string> v; for (const Index& i : r) v.push_back(u8(std::wstring(i.full_label()))); return v; };
    auto exp = [&](int w) { std::vector<std::string> v; for (auto& x : g[w]) v.push_back(x == "i1" ? "i_1" : x == "i_2" ? "i_2" : "a_1<i_1>"); return v; };
    auto norm = [](std::vector<std::string> v) { for (auto& x : v) if (x[0] == 'a') x = "a"; return v; };
    c.require(norm(lst(T.bra())) == norm(exp(0)) && norm(lst(T.ket())) == norm(exp(1)) && norm(lst(T.aux())) == norm(exp(2)), [&] { return "has the wrong indices: " + text(e); });
    c.require(T.symmetry() == sy, [&] { return "has the wrong symmetry: " + text(e); });
    for (const Index& i : T.const_braket()) c.require(i.has_proto_indices() == (i.label() == L"a_1"), "protoindices are wrong");
    c.outcome(text(e));
  }
}
int main(int c, char** v) { return vf::main_impl(c, v, "C08"); }
