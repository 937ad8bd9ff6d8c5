// LINK: symb
// Equality, hashing and ordering of expressions, indices and spaces agree with
// their structure, whatever history produced the object.
#include <SeQuant/core/expressions/expr_algorithms.hpp>
#include <SeQuant/core/expressions/expr_operators.hpp>
#include <SeQuant/core/expressions/result_expr.hpp>
#include <SeQuant/core/utility/expr.hpp>

#include "lib/setup.hpp"
using namespace orc;
namespace {
constexpr auto N = Symmetry::Nonsymm, A = Symmetry::Antisymm, S = Symmetry::Symm;
constexpr auto bN = BraKetSymmetry::Nonsymm, bS = BraKetSymmetry::Symm, bC = BraKetSymmetry::Conjugate;
constexpr auto cS = ColumnSymmetry::Symm, cN = ColumnSymmetry::Nonsymm;
// structural key: written out from the public accessors
std::string skey(const Index& i) {
  if (!i.nonnull()) return "_";
  std::string r = u8(i.label()) + "@" + std::to_string(i.space().type().to_int32()) + "," + std::to_string(i.space().qns().to_int32());
  if (i.has_proto_indices()) { r += "<"; for (auto& p : i.proto_indices()) r += skey(p) + " "; r += ">"; }
  return r;
}
template <Statistics X> std::string nkey(const NormalOperator<X>& o) {
  std::string r = X == Statistics::FermiDirac ? "F(" : "B(";
  r += std::to_string(int(o.vacuum())) + ":" + std::to_string(o.ncreators()) + "," + std::to_string(o.nannihilators()) + ":";
  for (auto& x : o) r += skey(x.index()) + (x.action() == Action::Create ? "+" : "-");
  return r + ")";
}
std::string num(const Complex<rational>& z) { std::ostringstream s; s << z.real() << "+i" << z.imag(); return s.str(); }
std::string skey(const Expr& e) {
  std::ostringstream s;
  if (e.is<Constant>()) s << "C" << num(e.as<Constant>().value());
  else if (e.is<Variable>()) s << "V" << u8(e.as<Variable>().label()) << (e.as<Variable>().conjugated() ? "*" : "");
  else if (e.is<Power>()) s << "pow(" << skey(*e.as<Power>().base()) << "," << e.as<Power>().exponent() << (e.as<Power>().conjugated() ? "*" : "") << ")";
  else if (e.is<Tensor>()) {
    auto& t = e.as<Tensor>();
    s << "T" << u8(t.label()) << int(t.symmetry()) << int(t.braket_symmetry()) << int(t.column_symmetry()) << "{";
    std::size_t nb = 0, nk = 0;
    for (auto& i : t.bra()) { s << skey(i) << " "; nb += i.nonnull(); }
    s << ";";
    for (auto& i : t.ket()) { s << skey(i) << " "; nk += i.nonnull(); }
    s << ";";
    for (auto& i : t.aux()) s << skey(i) << " ";
    s << "}";
    if (nb != t.bra_net_rank() || nk != t.ket_net_rank()) s << "!net ranks " << t.bra_net_rank() << "," << t.ket_net_rank();
  } else if (e.is<FNOperator>()) s << nkey(e.as<FNOperator>());
  else if (e.is<BNOperator>()) s << nkey(e.as<BNOperator>());
  else if (e.is<Product>()) { s << "P" << num(e.as<Product>().scalar()) << "["; for (auto& f : e.as<Product>().factors()) s << skey(*f) << " "; s << "]"; }
  else if (e.is<Sum>()) { s << "S["; for (auto& f : e.as<Sum>().summands()) s << skey(*f) << " "; s << "]"; }
  else s << "?" << e.type_name();
  return s.str();
}
std::string skey(const ExprPtr& e) { return skey(*e); }
// the same object, built anew
template <Statistics X> ExprPtr nrebuild(const NormalOperator<X>& o) {
  container::svector<Op<X>> c, a;
  for (auto& x : o) (x.action() == Action::Create ? c : a).push_back(Op<X>(Index(x.index()), x.action()));
  std::reverse(a.begin(), a.end());
  return ex<NormalOperator<X>>(cre(c), ann(a), o.vacuum());
}
ExprPtr rebuild(const Expr& e) {
  if (e.is<Constant>()) return ex<Constant>(e.as<Constant>().value());
  if (e.is<Variable>()) { Variable v{std::wstring(e.as<Variable>().label())}; if (e.as<Variable>().conjugated()) v.conjugate(); return ex<Variable>(v); }
  if (e.is<Power>()) { auto& p = e.as<Power>(); auto r = ex<Power>(rebuild(*p.base()), p.exponent()); if (p.conjugated()) r->as<Power>().conjugate(); return r; }
  if (e.is<Tensor>()) {
    auto& t = e.as<Tensor>();
    std::vector<Index> b(t.bra().begin(), t.bra().end()), k(t.ket().begin(), t.ket().end()), a(t.aux().begin(), t.aux().end());
    return ex<Tensor>(std::wstring(t.label()), bra(b), ket(k), aux(a), t.symmetry(), t.braket_symmetry(), t.column_symmetry());
  }
  if (e.is<FNOperator>()) return nrebuild(e.as<FNOperator>());
  if (e.is<BNOperator>()) return nrebuild(e.as<BNOperator>());
  // as is: placeholders replaced afterwards
  std::vector<ExprPtr> ch, ph;
  for (auto& f : e) { ch.push_back(rebuild(*f)); ph.push_back(ex<Variable>(L"ph" + std::to_wstring(ph.size()))); }
  auto s = e.is<Product>() ? ex<Product>(e.as<Product>().scalar(), ph.begin(), ph.end(), Product::Flatten::No) : ex<Sum>(ph.begin(), ph.end());
  std::size_t k = 0;
  for (auto& x : *s) x = ch[k++];
  return s;
}
Index I(const wchar_t* l) { return Index(l); }
std::vector<ExprPtr> tensors() {
  std::vector<ExprPtr> v;
  Index i1(L"i_1"), i2(L"i_2"), a1(L"a_1"), a2(L"a_2"), p1(L"p_1"), x1(L"x_1"), i10(L"i_10");
  Index ai1(L"a_1", {i1}), ai12(L"a_1", {i1, i2}), ai2(L"a_1", {i2});
  using V = std::vector<Index>;
  for (auto l : {L"t", L"f"})
    for (auto& [b, k] : std::vector<std::pair<V, V>>{{{i1}, {a1}}, {{a1}, {i1}}, {{i1}, {i2}}, {{i2}, {i1}}, {{i10}, {i2}}, {{i1}, {ai1}}, {{i1}, {ai2}}, {{i1}, {ai12}}, {{}, {i1}}, {{i1}, {}}, {{i1, i2}, {a1, a2}}, {{i2, i1}, {a1, a2}}, {{i1, a1}, {i2, a2}}, {{i1, Index{}}, {a1, a2}}, {{Index{}, i1}, {a1, a2}}, {{p1}, {a1}}})
      for (auto [s, bs, cs] : {std::tuple{N, bN, cS}, std::tuple{A, bC, cS}, std::tuple{S, bS, cS}, std::tuple{N, bN, cN}}) {
        bool null = false;
        for (auto& x : b) null |= !x.nonnull();
        if (null && s != N) continue;
        if ((bs != bN) && (b.size() != k.size() || null)) continue;
        v.push_back(ex<Tensor>(std::wstring(l), bra(b), ket(k), aux{}, s, bs, cs));
        if (b.size() == 1 && k.size() == 1 && s == N) {
          v.push_back(ex<Tensor>(std::wstring(l), bra(b), ket(k), aux{x1}, s, bs, cs));
          v.push_back(adjoint(v.back()));
        }
      }
  return v;
}
std::vector<ExprPtr> nops() {
  std::vector<ExprPtr> v;
  Index i1(L"i_1"), i2(L"i_2"), a1(L"a_1");
  using V = std::vector<Index>;
  for (auto vac : {Vacuum::Physical, Vacuum::SingleProduct})
    for (auto& c : std::vector<V>{{}, {i1}, {i2}, {a1}, {i1, i2}, {i2, i1}})
      for (auto& a : std::vector<V>{{}, {i1}, {i2}, {a1}, {i1, a1}, {a1, i1}}) {
        v.push_back(ex<FNOperator>(cre(c), ann(a), vac));
        if (vac == Vacuum::Physical && c.size() + a.size() < 3) v.push_back(ex<BNOperator>(cre(c), ann(a), vac));
      }
  return v;
}
std::vector<ExprPtr> scalars() {
  std::vector<ExprPtr> v;
  for (auto q : {rational(0), rational(1), rational(-1), rational(1, 2), rational(2), rational(1, 3)}) v.push_back(ex<Constant>(q));
  v.push_back(ex<Constant>(Complex<rational>(0, 1)));
  v.push_back(ex<Constant>(Complex<rational>(1, 1)));
  v.push_back(ex<Constant>(Complex<rational>(1, -1)));
  for (auto l : {L"x", L"y", L"xy"}) { Variable a{std::wstring(l)}; v.push_back(ex<Variable>(a)); a.conjugate(); v.push_back(ex<Variable>(a)); }
  for (auto q : {rational(2), rational(1), rational(1, 2), rational(-1)}) {
    v.push_back(ex<Power>(ex<Variable>(L"x"), q));
    auto p = ex<Power>(ex<Variable>(L"x"), q);
    p->as<Power>().conjugate();
    v.push_back(p);
    v.push_back(ex<Power>(ex<Variable>(L"y"), q));
    v.push_back(ex<Power>(ex<Constant>(3), q));
  }
  return v;
}
std::vector<ExprPtr> composites() {
  std::vector<ExprPtr> v;
  Index i1(L"i_1"), i2(L"i_2"), a1(L"a_1");
  std::vector<ExprPtr> at{ex<Variable>(L"x"), ex<Variable>(L"y"), ex<Tensor>(L"t", bra{i1}, ket{a1}), ex<Tensor>(L"t", bra{a1}, ket{i1}), ex<FNOperator>(cre{i1}, ann{a1}), ex<Constant>(2), ex<Power>(ex<Variable>(L"x"), 2)};
  auto n = at.size();
  auto FL = Product::Flatten::No;
  for (std::size_t a = 0; a < n; ++a) {
    for (auto s : {rational(1), rational(2), rational(1, 2)}) v.push_back(ex<Product>(s, ExprPtrList{at[a]}, FL));
    for (std::size_t b = 0; b < n; ++b) {
      v.push_back(ex<Product>(1, ExprPtrList{at[a], at[b]}, FL));
      if (b < 4) v.push_back(ex<Product>(2, ExprPtrList{at[a], at[b]}, FL));
      v.push_back(ex<Sum>(ExprPtrList{at[a], at[b]}));
      if (a < 4 && b < 4) {
        v.push_back(ex<Sum>(ExprPtrList{ex<Product>(1, ExprPtrList{at[a], at[b]}, FL), at[0]}));
        v.push_back(ex<Product>(1, ExprPtrList{ex<Product>(1, ExprPtrList{at[a], at[b]}, FL), at[0]}, FL));
        v.push_back(ex<Product>(1, ExprPtrList{ex<Sum>(ExprPtrList{at[a], at[b]}), at[0]}, FL));
      }
    }
  }
  v.push_back(ex<Product>(1, ExprPtrList{}, FL));
  v.push_back(ex<Product>(2, ExprPtrList{}, FL));
  v.push_back(ex<Sum>(ExprPtrList{}));
  return v;
}
void order(vf::Case& c, const std::vector<ExprPtr>& v) {
  int a = c.choose(int(v.size()));
  c.mine();
  auto& x = v[a];
  c.describe(skey(x));
  c.state(skey(x));
  auto r = rebuild(*x);
  c.require(skey(r) == skey(x), [&] { return "reconstruction differs: " + skey(r); });
  c.require(*r == *x && r->hash_value() == x->hash_value() && !(*r < *x) && !(*x < *r), "an object built from the same parts is not equal to it, or hashes or orders differently");
  auto cl = x->clone();
  c.require(*cl == *x && skey(cl) == skey(x) && cl->hash_value() == x->hash_value() && cl->type_id() == x->type_id(), [&] { return "a clone differs: " + skey(cl); });
  auto kx = skey(x);
  std::vector<std::string> ks;
  for (auto& y : v) ks.push_back(skey(y));
  for (std::size_t b = 0; b < v.size(); ++b) {
    auto& y = v[b];
    bool e = *x == *y;
    c.step();
    c.require(e == (kx == ks[b]), [&] { return std::string(e ? "equal to " : "not equal to ") + ks[b]; });
    c.require(e == (*y == *x), [&] { return "equality with " + ks[b] + " is not symmetric"; });
    c.require((x == y) == e && (x != y) == !e, "equality of pointers to expressions differs from that of the expressions");
    bool l = *x < *y, g = *y < *x;
    c.require(!(l && g), [&] { return "both less and greater than " + ks[b]; });
    c.require(!e || (!l && !g), [&] { return "equal to and ordered with " + ks[b]; });
    c.require(!e || x->hash_value() == y->hash_value(), [&] { return "equal but hash values differ: " + ks[b]; });
    c.outcome(uint64_t(l * 4 + g * 2 + e));
    for (std::size_t d = 0; d < v.size(); ++d) {  // strict weak order
      bool l2 = *y < *v[d];
      if (l && l2) c.require(*x < *v[d], [&] { return "ordering is not transitive: " + kx + " < " + ks[b] + " < " + ks[d]; });
      if (!l && !l2 && x->type_id() == y->type_id()) c.require(!(*x < *v[d]), [&] { return "incomparability is not transitive: " + kx + ", " + ks[b] + ", " + ks[d]; });
    }
  }
}
}  // namespace
SCENARIO("tensors", c) { use_context(Vacuum::Physical); static auto v = tensors(); order(c, v); }
SCENARIO("operators", c) { use_context(Vacuum::Physical); static auto v = nops(); order(c, v); }
SCENARIO("scalars", c) { use_context(Vacuum::Physical); static auto v = scalars(); order(c, v); }
SCENARIO("composites", c) { use_context(Vacuum::Physical); static auto v = composites(); order(c, v); }
SCENARIO("mixed", c) {
  use_context(Vacuum::Physical);
  static auto v = [] {
    std::vector<ExprPtr> r;
    for (auto s : {tensors(), nops(), scalars(), composites()}) for (std::size_t k = 0; k < s.size(); k += 5) r.push_back(s[k]);
    return r;
  }();
  order(c, v);
}
SCENARIO("indices", c) {
  use_context(Vacuum::Physical);
  static auto v = [] {
    std::vector<Index> r;
    std::vector<Index> base;
    for (auto l : {L"i_1", L"i_2", L"i_10", L"a_1", L"a_2", L"p_1", L"x_1"}) base.push_back(Index(l));
    r = base;
    auto isr = get_default_context().index_space_registry();
    r.push_back(Index(isr->retrieve(L"i")));
    r.push_back(Index(isr->retrieve(L"a")));
    for (auto l : {L"a_1", L"a_2", L"p_1", L"i_3"}) {
      for (int k : {0, 1, 3}) r.push_back(Index(l, {base[k]}));
      if (std::wstring(l) != L"i_3") { r.push_back(Index(l, {base[0], base[1]})); r.push_back(Index(l, {base[1], base[0]}, false)); r.push_back(Index(l, {base[0], base[1]}, false)); }
    }
    r.push_back(Index(L"a_3", {Index(L"a_1", {base[0]})}));
    r.push_back(Index{});
    return r;
  }();
  int tags = c.choose(2);
  int a = c.choose(int(v.size()));
  c.mine();
  auto w = v;
  if (tags) for (std::size_t k = 0; k < w.size(); ++k) w[k].tag().assign(int(k * 7 % 3));
  auto& x = w[a];
  c.describe(skey(x) + (tags ? " tagged" : ""));
  c.state(c.desc);
  auto fullkey = [](const Index& i) { return skey(i); };
  for (auto& y : w) {
    bool e = x == y;
    c.step();
    c.require(e == (fullkey(x) == fullkey(y)), [&] { return std::string(e ? "equal to " : "not equal to ") + skey(y); });
    c.require(!e || hash_value(x) == hash_value(y), [&] { return "equal but hash values differ: " + skey(y); });
    auto o = x <=> y;
    c.require((y <=> x) == (0 <=> o), [&] { return "ordering with " + skey(y) + " is not antisymmetric"; });
    if (!tags) c.require((o == 0) == e, [&] { return "ordering and equality with " + skey(y) + " disagree"; });
    for (auto& z : w) {
      if (o < 0 && (y <=> z) < 0) c.require((x <=> z) < 0, [&] { return "ordering is not transitive: " + skey(y) + ", " + skey(z); });
      if (o == 0 && (y <=> z) == 0) c.require((x <=> z) == 0, [&] { return "equivalence is not transitive: " + skey(y) + ", " + skey(z); });
    }
    // full label comparison (used by index sets)
    c.require(!(Index::FullLabelCompare{}(x, y) && Index::FullLabelCompare{}(y, x)), "full label comparison");
    if (x.nonnull() && y.nonnull()) c.require((!Index::FullLabelCompare{}(x, y) && !Index::FullLabelCompare{}(y, x)) == (x.full_label() == y.full_label()), [&] { return "full label comparison with " + skey(y); });
    c.outcome(uint64_t(o < 0 ? 1 : o > 0 ? 2 : 3));
  }
}
// every sequence of mutations of a hashed object: result equals the same object built anew
namespace {
struct Mut { const char* name; std::function<void(ExprPtr&)> f; };
void each_tensor(ExprPtr& e, const std::function<void(AbstractTensor&)>& f) {
  auto g = [&](ExprPtr& x) { if (auto t = std::dynamic_pointer_cast<AbstractTensor>(x.as_shared_ptr())) f(*t); };
  if (e->is_atom()) g(e);
  else e->visit(g, true);
}
const std::vector<Mut>& muts() {
  static std::vector<Mut> m{
      {"adjoint", [](ExprPtr& e) { e->adjoint(); }},
      {"canonicalize", [](ExprPtr& e) { canonicalize(e); }},
      {"canonicalize(lexicographic)", [](ExprPtr& e) { canonicalize(e, {.method = CanonicalizationMethod::Lexicographic, .named_indices = std::nullopt}); }},
      {"rapid_canonicalize", [](ExprPtr& e) { auto b = e->rapid_canonicalize(); if (b) e = b * e; }},
      {"transform i1<->i2, a1->a3", [](ExprPtr& e) {
         container::map<Index, Index> m{{Index(L"i_1"), Index(L"i_2")}, {Index(L"i_2"), Index(L"i_1")}, {Index(L"a_1"), Index(L"a_3")}};
         each_tensor(e, [&](AbstractTensor& t) { transform_indices(t, m); reset_tags(t); });
       }},
      {"+= x", [](ExprPtr& e) { e += ex<Variable>(L"x"); }},
      {"*= x", [](ExprPtr& e) { e *= ex<Variable>(L"x"); }},
      {"*= 2", [](ExprPtr& e) { e *= ex<Constant>(2); }},
      {"-= itself", [](ExprPtr& e) { auto c = e->clone(); e -= c; }},
      {"expand", [](ExprPtr& e) { expand(e); }},
      {"flatten", [](ExprPtr& e) { flatten(e); }},
      {"rapid_simplify", [](ExprPtr& e) { rapid_simplify(e); }},
      {"conjugate scalars", [](ExprPtr& e) {
         auto g = [](ExprPtr& x) { if (x->is<Variable>()) x->as<Variable>().conjugate(); else if (x->is<Power>()) x->as<Power>().conjugate(); else if (x->is<Constant>()) x->adjoint(); };
         if (e->is_atom()) g(e); else e->visit(g, true);
       }},
      {"replace first part by y", [](ExprPtr& e) { if (!e->is_atom() && ranges::size(*e)) *(e->begin()) = ex<Variable>(L"y"); }},
      {"relabel", [](ExprPtr& e) {
         auto g = [](ExprPtr& x) { if (x->is<Tensor>()) x->as<Tensor>().set_label(L"q"); else if (x->is<Variable>()) x->as<Variable>().set_label(L"z"); };
         if (e->is_atom()) g(e); else e->visit(g, true);
       }},
      {"replace x", [](ExprPtr& e) { replace(e, ex<Variable>(L"x"), ex<Variable>(L"w")); }},
      {"swap bra and ket", [](ExprPtr& e) { if (e->is_atom()) each_tensor(e, [](AbstractTensor& t) { if (dynamic_cast<Tensor*>(&t)) t._swap_bra_ket(); }); }},
      {"last slots dropped", [](ExprPtr& e) { each_tensor(e, [](AbstractTensor& t) { if (auto* x = dynamic_cast<Tensor*>(&t)) if (x->bra_rank() > 1 && x->ket_rank() > 1) { container::svector<Index, 8> b(x->bra().begin(), x->bra().end() - 1), k(x->ket().begin(), x->ket().end() - 1); x->set_bra(b); x->set_ket(k); } }); }},
      {"slots reversed", [](ExprPtr& e) { each_tensor(e, [](AbstractTensor& t) { if (auto* x = dynamic_cast<Tensor*>(&t)) { auto b = x->bra(); auto k = x->ket(); std::reverse(b.begin(), b.end()); std::reverse(k.begin(), k.end()); x->set_bra(b); x->set_ket(k); } }); }},
  };
  return m;
}
ExprPtr start(int k) {
  Index i1(L"i_1"), i2(L"i_2"), a1(L"a_1"), a2(L"a_2");
  auto t = [&] { return ex<Tensor>(L"t", bra{a1}, ket{i1}); };
  auto g = [&] { return ex<Tensor>(L"g", bra{i2, i1}, ket{a2, a1}, aux{}, A, bC, cS); };
  auto o = [&] { return ex<FNOperator>(cre{i2, i1}, ann{a1, a2}); };
  auto x = [&] { return ex<Variable>(L"x"); };
  auto FL = Product::Flatten::No;
  switch (k) {
    case 0: return t();
    case 1: return g();
    case 2: return o();
    case 3: return x();
    case 4: return ex<Power>(x(), rational(1, 2));
    case 5: return ex<Constant>(Complex<rational>(1, 2));
    case 6: return t() * g();
    case 7: return t() * x() + g() * ex<Tensor>(L"t", bra{a1, a2}, ket{i1, i2}, aux{}, A);
    case 8: return ex<Product>(2, ExprPtrList{ex<Sum>(ExprPtrList{t(), x()}), x(), ex<Product>(3, ExprPtrList{x(), ex<Variable>(L"w")}, FL)}, FL);
    case 9: return ex<Variable>(L"y") * x() * ex<Constant>(Complex<rational>(1, 2));
    case 10: return g() * o() * x();
    case 11: return ex<Product>(1, ExprPtrList{x(), ex<Power>(x(), 2), ex<Sum>(ExprPtrList{x(), ex<Product>(2, ExprPtrList{t()}, FL), ex<Constant>(1)})}, FL);
    case 12: return ex<Tensor>(L"h", bra{a1, Index{}}, ket{i1, i2}, aux{}, N, bN, cS);
    case 13: return ex<Product>(1, ExprPtrList{t(), ex<Product>(1, ExprPtrList{g(), x()}, FL)}, FL);
    default: return ex<Sum>(ExprPtrList{x(), t()});
  }
}
}  // namespace
SCENARIO("histories", c) {
  use_context(Vacuum::Physical);
  auto& m = muts();
  auto e = start(c.choose(15));
  std::vector<int> seq;
  int depth = vf::thorough() ? 4 : 3;
  for (int d = 0; d < depth; ++d) { seq.push_back(c.choose(int(m.size()))); if (d == 1) c.mine(); }
  c.describe(skey(e));
  auto look = [](const ExprPtr& x) {
    (void)x->hash_value();
    auto v = [](const ExprPtr& y) { (void)y->hash_value(); };
    x->visit(v);
  };
  for (int s : seq) {
    auto before = e->clone();
    auto kb = skey(e);
    c.require(skey(before) == skey(rebuild(*before)), "reconstruction");
    look(e);
    auto keep = e->clone();
    m[s].f(e);
    c.add(std::string(" | ") + m[s].name);
    c.step();
    c.require(skey(keep) == skey(before), [&] { return "the operation changed a clone made before: " + skey(keep); });
    auto r = rebuild(*e);
    c.require(skey(r) == skey(e), [&] { return "inconsistent object " + skey(e) + ", rebuilt " + skey(r); });
    c.require(r->hash_value() == e->hash_value(), [&] { return "hash value of " + skey(e) + " is not that of the same expression built anew"; });
    c.require(*r == *e && *e == *r && !(*r < *e) && !(*e < *r), [&] { return "the result " + skey(e) + " is not equal to the same expression built anew"; });
    c.require((*before == *e) == (skey(before) == skey(e)), [&] { return "equality with the original is wrong after turning it into " + skey(e); });
  }
  c.state(skey(e));
  c.outcome(skey(e));
}
int main(int c, char** v) { return vf::main_impl(c, v, "C05"); }
