// LINK: optimize
// Optimizations across terms: reordering, fusion, elimination of common
// subexpressions and extraction of subtrees keep the value of every result.
#include <SeQuant/core/optimize/common_subexpression_elimination.hpp>
#include <SeQuant/core/optimize/extract_subtrees.hpp>
#include <SeQuant/core/optimize/fusion.hpp>
#include <SeQuant/core/optimize/optimize.hpp>
#include <SeQuant/core/optimize/sum.hpp>
#include "lib/evalback.hpp"
#include "lib/gen.hpp"
using namespace orc;
#pragma GCC diagnostic ignored "-Wdeprecated-declarations"
namespace {
constexpr auto N = Symmetry::Nonsymm, A = Symmetry::Antisymm, S = Symmetry::Symm;
constexpr auto bN = BraKetSymmetry::Nonsymm, bS = BraKetSymmetry::Symm, bC = BraKetSymmetry::Conjugate;
Model& model() { static Model m; static bool i = [] { m.per_bit[1] = 3; return true; }(); (void)i; return m; }
ExprPtr Pr(std::vector<ExprPtr> v, rational s = 1) { return ex<Product>(s, v, Product::Flatten::No); }
ExprPtr Sm(std::vector<ExprPtr> v) { return ex<Sum>(v); }
ExprPtr T(const wchar_t* l, std::vector<Index> b, std::vector<Index> k, std::vector<Index> a = {}, Symmetry s = N, BraKetSymmetry bk = bN) { return ex<Tensor>(l, bra(b), ket(k), aux(a), s, bk); }
struct Eq { std::wstring name; ExprPtr e; std::vector<Index> b, k;
  ResultExpr res() const {
    if (b.empty() && k.empty()) return ResultExpr(Variable(name), e->clone());
    return ResultExpr(Tensor(name, bra(b), ket(k)), e->clone());
  }
  std::vector<Index> ext() const { auto v = b; v.insert(v.end(), k.begin(), k.end()); return v; }
};
std::string show(const Eq& q) { return u8(q.name) + " = " + orc::show(q.e); }
// ------------------------------------------------------------------ elimination
/// leaves whose label names an earlier result are read from it
struct Env {
  Leaves base{model()};
  std::map<std::string, std::pair<Arr, std::vector<Index>>> def;   // array in the order of these slots
  ResultPtr operator()(NodeV const& n) {
    if (n->is_tensor()) {
      auto it = def.find(u8(n->as_tensor().label()));
      if (it == def.end()) { if (n->as_tensor().label().starts_with(L"CSE")) throw vf::Fail{"an intermediate is used before it is defined"}; return base(n); }
      Labels from, to;
      for (auto& i : n->as_tensor().const_slots()) from.push_back(u8(i.full_label()));
      for (auto& i : n->canon_indices()) to.push_back(u8(i.full_label()));
      return ResultV::make(einsum(it->second.first, from, nullptr, {}, to));
    }
    if (n->is_variable()) {
      auto it = def.find(u8(n->as_variable().label()));
      if (it != def.end()) return eval_result<ResultScalar<FS>>(FS(it->second.first.d[0]));
      if (n->as_variable().label().starts_with(L"CSE")) throw vf::Fail{"an intermediate is used before it is defined"};
    }
    return base(n);
  }
};
auto to_tree = [](auto const& x) -> NodeV {
  if constexpr (std::is_same_v<std::decay_t<decltype(x)>, ResultExpr>) return binarize<EvalExprV>(x);
  else return binarize<EvalExprV>(x);
};
struct ToTree {
  NodeV operator()(ResultExpr const& x) const { return binarize<EvalExprV>(x); }
  NodeV operator()(ExprPtr const& x) const { return binarize<EvalExprV>(x); }
};
std::string label_of(NodeV const& n) { return n->is_tensor() ? u8(n->as_tensor().label()) : n->is_variable() ? u8(n->as_variable().label()) : std::string("?"); }
void run_forest(vf::Case& c, const std::vector<Eq>& eqs, const std::vector<Arr>& want, std::vector<NodeV>& forest, const std::string& how, bool named = false) {
  Env env;
  auto le = [&env](NodeV const& n) { return env(n); };
  std::size_t k = 0;
  for (auto& t : forest) {
    std::string l = label_of(t);
    std::vector<Index> ix;
    if (t->is_tensor()) for (auto& i : t->as_tensor().const_slots()) if (i.nonnull()) ix.push_back(i);
    auto none = CacheManager<NodeV>::empty();
    Arr got = flat(evaluate(t, labels(ix), le, none));
    c.step();
    if (l.starts_with("CSE")) {
      c.require(!env.def.count(l), [&] { return how + ": " + l + " is defined twice"; });
    } else {
      c.require(k < eqs.size() && l == u8(eqs[k].name), [&] { return how + ": result " + l + " out of order"; });
      c.require(labels(ix) == labels(eqs[k].ext()), [&] { return how + ": the indices of " + l + " changed"; });
      c.require(got == want[k], [&] { std::string s; for (auto& f : forest) s += label_of(f) + " = " + orc::show(f) + "; "; return how + ": " + l + " evaluates to " + orc::show(got) + ", expected " + orc::show(want[k]) + "; forest: " + s; });
      ++k;
    }
    if (l.starts_with("CSE") || named) env.def[l] = {got, ix};
  }
  c.require(k == eqs.size(), [&] { return how + ": results were lost"; });
}
template <bool coll>
std::size_t eliminate(std::vector<NodeV>& f, const opt::CSEOptions<NodeV>& o) {
  return opt::eliminate_common_subexpressions<std::vector<NodeV>, ToTree, coll>(f, ToTree{}, o).size();
}
std::vector<NodeV> forest_of(const std::vector<Eq>& eqs) { std::vector<NodeV> f; for (auto& q : eqs) f.push_back(binarize<EvalExprV>(q.res())); return f; }
void cse(vf::Case& c, const std::vector<Eq>& eqs, bool named = false, const std::vector<Arr>* given = nullptr) {
  std::string d;
  for (auto& q : eqs) d += show(q) + " ; ";
  c.describe(d);
  c.state(d);
  std::vector<Arr> w;
  if (given) w = *given; else for (auto& q : eqs) w.push_back(want(model(), q.e, q.ext()));
  { auto f = forest_of(eqs); run_forest(c, eqs, w, f, "as is", named); }
  std::size_t found = 0;
  for (int mode = 0; mode < 6; ++mode) {
    opt::CSEOptions<NodeV> o;
    std::string how = "mode " + std::to_string(mode);
    if (mode == 2) { how = "intermediates of two factors"; o.filter_predicate = [](const NodeV& n, std::size_t) { return n.left().leaf() && n.right().leaf(); }; }
    if (mode == 3) { how = "used more than twice"; o.filter_predicate = [](const NodeV&, std::size_t k) { return k > 2; }; }
    if (mode == 4) { how = "larger intermediates"; o.filter_predicate = [](const NodeV& n, std::size_t) { return !(n.left().leaf() && n.right().leaf()); }; }
    if (mode == 5) { how = "i_2 is batched"; o.batch_indices = {Index(L"i_2")}; }
    auto f = forest_of(eqs);
    std::size_t k = mode == 1 ? eliminate<true>(f, o) : eliminate<false>(f, o);
    found += k;
    c.require(f.size() == eqs.size() + k, [&] { return how + ": " + std::to_string(k) + " intermediates reported, " + std::to_string(f.size() - eqs.size()) + " trees added"; });
    run_forest(c, eqs, w, f, how, named);
  }
  c.count("eliminated", found);
  c.outcome(std::to_string(found) + orc::show(w[0]));
}
Eq eq(const std::wstring& name, const Net& n) {
  Eq q{name, n.expr(), {}, {}};
  auto e = n.externals();
  for (std::size_t k = 0; k < e.size(); ++k) (k % 2 ? q.k : q.b).push_back(e[k]);
  return q;
}
/// a product of the first two (kept together) with the rest
ExprPtr nest(const Net& n) {
  auto f = n.factors();
  std::vector<ExprPtr> in(f.begin(), f.begin() + 2), v{Pr(in)};
  v.insert(v.end(), f.begin() + 2, f.end());
  return Pr(v);
}
TSpec f{L"f", 1, 1}, h{L"h", 1, 1}, t1{L"t", 1, 1}, g{L"g", 2, 2}, gA{L"g", 2, 2, 0, A}, gS{L"g", 2, 2, 0, N, bS}, t2{L"t", 2, 2, 0, A}, B{L"B", 1, 1, 1, N, bS}, fS{L"f", 1, 1, 0, N, bS};
}  // namespace
// every pair of networks of the same two tensors, each times a third one
SCENARIO("cse.pairs", c) {
  use_context(Vacuum::Physical);
  std::vector<std::vector<TSpec>> s = {{f, f}, {f, h}, {fS, h}, {B, B}};
  auto& t = c.pick(s);
  NetSpaces sp{.max_ext = 4, .traces = false};
  Net n = gen_net(c, t, sp), m = gen_net(c, t, sp);
  c.mine();
  std::vector<Eq> q{eq(L"R", n), eq(L"Q", m)};
  cse(c, q);
  // inside a larger product and twice in one sum
  auto y = ex<Variable>(L"y");
  for (auto& x : q) x.e = Pr({x.e, y});
  cse(c, q);
  if (labels(q[0].ext()) == labels(q[1].ext())) cse(c, {{L"R", Sm({q[0].e, q[1].e}), q[0].b, q[0].k}});
}
SCENARIO("cse.g", c) {
  use_context(Vacuum::Physical);
  std::vector<std::vector<TSpec>> s = {{gA, f}, {g, f}, {gS, f}, {gA, t2}};
  auto& t = c.pick(s);
  Net n = gen_net(c, t, {.spaces = {L'i'}, .max_ext = 4, .traces = false, .min_int = t.size() > 1 && t[1].nb == 2 ? 3 : 1});
  c.mine();
  auto y = ex<Variable>(L"y");
  for (auto& [w, m] : presentations(n)) {
    Eq a = eq(L"R", n), b = eq(L"Q", m);
    cse(c, {a, b});
    a.e = Pr({a.e, y});
    b.e = Pr({b.e, y});
    cse(c, {a, b});
  }
  // externals exchanged
  auto e = n.ext_ids();
  for (std::size_t x = 0; x < e.size(); ++x)
    for (std::size_t z = x + 1; z < e.size(); ++z) {
      Net m = n;
      std::swap(m.ix[e[x]].ord, m.ix[e[z]].ord);
      Eq a = eq(L"R", n), b = eq(L"R", m);
      // b's own order of externals, as a sum with a
      cse(c, {{L"R", Sm({Pr({a.e, y}), Pr({b.e, y}, -2)}), a.b, a.k}});
      cse(c, {{L"R", Sm({b.e, Pr({a.e}, 3)}), a.b, a.k}, {L"Q", Pr({b.e, y}), a.b, a.k}});
    }
}
SCENARIO("cse.three", c) {
  use_context(Vacuum::Physical);
  std::vector<std::vector<TSpec>> s = {{f, f, f}, {f, h, t1}, {gA, t1, t1}};
  auto& t = c.pick(s);
  NetSpaces sp{.spaces = {L'i'}, .max_ext = vf::thorough() ? 4 : 2, .traces = false, .min_int = 2};
  Net n = gen_net(c, t, sp), m = gen_net(c, t, sp);
  c.mine();
  Eq a = eq(L"R", n), b = eq(L"Q", m);
  a.e = nest(n);
  b.e = nest(m);
  cse(c, {a, b});
  if (labels(a.ext()) == labels(b.ext())) cse(c, {{L"R", Sm({a.e, b.e}), a.b, a.k}});
}
namespace {
// every way to write a chain of matrices with parentheses, as a tree of products and sums
struct Chain {
  vf::Case& c;
  int dummy = 0;
  ExprPtr mat(int leaves, const Index& b, const Index& k, bool sums) {
    if (leaves == 1) return T(c.flip() ? L"f" : L"h", {b}, {k});
    int l = 1 + c.choose(leaves - 1);
    if (sums && c.flip()) { auto x = mat(l, b, k, sums); return Sm({x, mat(leaves - l, b, k, sums)}); }
    Index m(L"i_" + std::to_wstring(10 + dummy++));
    auto x = mat(l, b, m, sums);
    return Pr({x, mat(leaves - l, m, k, sums)});
  }
};
}  // namespace
SCENARIO("cse.chain", c) {
  use_context(Vacuum::Physical);
  Chain ch{c};
  Index i(L"i_1"), j(L"i_2");
  int n = vf::thorough() ? 5 : 4;
  auto a = ch.mat(2 + c.choose(n - 1), i, j, false);
  auto b = ch.mat(2 + c.choose(n - 2), i, j, false);
  c.mine();
  cse(c, {{L"R", a, {i}, {j}}, {L"Q", b, {i}, {j}}});
}
SCENARIO("cse.nest", c) {
  use_context(Vacuum::Physical);
  Chain ch{c};
  Index i(L"i_1"), j(L"i_2"), k(L"i_3");
  int n = vf::thorough() ? 5 : 4;
  int kind = c.choose(3);
  auto a = ch.mat(n, i, j, true);
  ExprPtr e = a;
  if (kind == 1) e = Pr({ex<Variable>(L"y"), a}, -1);
  auto b = ch.mat(2, kind == 2 ? j : i, kind == 2 ? i : j, true);
  c.mine();
  cse(c, {{L"R", e, {i}, {j}}, {L"Q", b, {i}, {j}}});
}
SCENARIO("cse.scalars", c) {
  use_context(Vacuum::Physical);
  std::vector<ExprPtr> v = {ex<Variable>(L"x"), ex<Variable>(L"y"), ex<Constant>(2), T(L"f", {Index(L"i_1")}, {Index(L"i_1")})};
  std::function<ExprPtr(int)> tree = [&](int n) -> ExprPtr {
    if (n == 1) return v[c.choose(int(v.size()) - 1)];
    int l = 1 + c.choose(n - 1);
    bool s = c.flip();
    auto a = tree(l), b = tree(n - l);
    return s ? Sm({a, b}) : Pr({a, b});
  };
  auto a = tree(vf::thorough() ? 4 : 3), b = tree(2 + c.choose(2));
  c.mine();
  auto sum_or_prod = [](const ExprPtr& e) { return e->is<Sum>() || e->is<Product>(); };
  if (!sum_or_prod(a) || !sum_or_prod(b)) throw vf::Skip{};
  cse(c, {{L"R", a, {}, {}}, {L"Q", b, {}, {}}});
}
// a later result refers to an earlier one
SCENARIO("cse.order", c) {
  use_context(Vacuum::Physical);
  Index i(L"i_1"), j(L"i_2"), k(L"i_3");
  int kind = c.choose(3), dup = c.choose(3);
  Chain ch{c};
  auto X = ch.mat(2, i, j, true);
  c.mine();
  std::vector<Eq> q{{L"X", X, {i}, {j}}};
  ExprPtr Xl = T(L"X", {i}, {k}), XX = Pr({T(L"X", {i}, {k}), T(L"f", {k}, {j})});
  auto fh = Pr({T(L"f", {i}, {k}), T(L"h", {k}, {j})});
  auto y = ex<Variable>(L"y"), z = ex<Variable>(L"z");
  ExprPtr e = kind == 0 ? Sm({Pr({XX, y}), Pr({XX, z})}) : kind == 1 ? Sm({XX, fh}) : Pr({Xl, T(L"X", {k}, {j})});
  q.push_back({L"R", e, {i}, {j}});
  if (dup) q.push_back({L"Q", dup == 1 ? e : fh, {i}, {j}});
  // the wanted arrays, with X inserted
  std::vector<Arr> w;
  Env env;
  auto le = [&env](NodeV const& n) { return env(n); };
  for (auto& x : q) {
    auto none = CacheManager<NodeV>::empty();
    auto n = binarize<EvalExprV>(x.res());
    Arr a = flat(evaluate(n, labels(x.ext()), le, none));
    env.def[u8(x.name)] = {a, x.ext()};
    w.push_back(a);
  }
  cse(c, q, true, &w);
}
// ------------------------------------------------------------------ sums
namespace {
std::vector<ExprPtr> terms(const Index& i, const Index& j) {
  Index k(L"i_3"), l(L"i_4"), m(L"i_5");
  auto y = ex<Variable>(L"y");
  auto f = [&](const Index& a, const Index& b) { return T(L"f", {a}, {b}); };
  auto h = [&](const Index& a, const Index& b) { return T(L"h", {a}, {b}); };
  auto t = [&](const Index& a, const Index& b) { return T(L"t", {a}, {b}); };
  return {f(i, j), Pr({f(i, j)}, 2), Pr({f(i, k), h(k, j)}), Pr({f(i, k), t(k, j)}, -1), Pr({f(i, k), h(k, l), t(l, j)}), Pr({h(i, k), t(k, l), f(l, j)}), Pr({f(i, k), h(k, l), t(l, m), h(m, j)}, rational(1, 2)),
          Pr({y, f(i, j)}), Pr({y, h(i, k), t(k, j)}), Pr({f(i, k), Sm({f(k, j), h(k, j)})}), Pr({Sm({f(i, j), h(i, j)})}), Pr({T(L"f", {k}, {l}), T(L"h", {l}, {k}), t(i, j)}), Pr({f(j, k), h(k, i)}), Pr({h(i, k), t(k, j)}), Pr({Pr({h(i, k), t(k, l)}), Pr({f(l, m), h(m, j)})})};
}
}  // namespace
SCENARIO("sum", c) {
  use_context(Vacuum::Physical);
  Index i(L"i_1"), j(L"i_2");
  auto v = terms(i, j);
  int n = 2 + c.choose(vf::thorough() ? 3 : 2);
  std::vector<ExprPtr> s;
  for (int k = 0; k < n; ++k) s.push_back(v[c.choose(int(v.size()))]->clone());
  c.mine();
  auto e = Sm(s);
  if (!e->is<Sum>()) throw vf::Skip{};
  std::string d = show(e);
  c.describe(d);
  c.state(d);
  auto w = value(model(), e, {i, j});
  auto check = [&](const ExprPtr& r, const std::string& how) {
    c.step();
    c.require(value(model(), r, {i, j}) == w, [&] { return how + ": different value: " + show(r); });
    c.require(r->is<Sum>() && r->size() == e->size(), [&] { return how + ": summands were lost: " + show(r); });
    c.require(show(e) == d, [&] { return how + ": the argument was changed: " + show(e); });
    c.outcome(show(r));
  };
  for (bool re : {true, false})
    for (int of = 0; of < 3; ++of)
      for (bool sub : {false, true}) {
        if (sub && of == 2) continue;
        OptimizeOptions o{.objective_function = of == 0 ? ObjectiveFunction::DenseFLOPs : of == 1 ? ObjectiveFunction::DenseSize : ObjectiveFunction::DensePeakSize, .reorder = re ? ReorderSum::Reorder : ReorderSum::NoReorder};
        o.CSE = {.subnet = sub};
        o.idx_to_extent = [](Index const&) { return std::size_t(5); };
        set_num_threads(1);
        auto r = optimize(e, o);
        std::string how = std::string(re ? "reorder" : "keep") + " objective " + std::to_string(of) + (sub ? " cse" : "");
        check(r, how);
        set_num_threads(3);
        auto p = optimize(e, o);
        set_num_threads(1);
        c.require(show(p) == show(r), [&] { return how + ": with three threads " + show(p) + ", with one " + show(r); });
        if (!re) for (std::size_t k = 0; k < s.size(); ++k)
          c.require(value(model(), r->at(k), {i, j}) == value(model(), e->at(k), {i, j}), [&] { return "summand " + std::to_string(k) + " changed: " + show(r->at(k)); });
      }
  auto re = opt::reorder(e->as<Sum>());
  check(ex<Sum>(re), "reorder()");
  // clusters: a partition of the positions; terms that share an intermediate are in one cluster
  auto cl = opt::clusters(e->as<Sum>());
  std::vector<int> where(e->size(), -1);
  for (std::size_t k = 0; k < cl.size(); ++k)
    for (auto p : cl[k]) { c.require(p < where.size() && where[p] < 0, "clusters: a position occurs twice"); where[p] = int(k); }
  for (int x : where) c.require(x >= 0, "clusters: a position is missing");
  std::vector<FullBinaryNode<EvalExpr>> nodes;
  for (auto& x : *e) nodes.push_back(binarize(x));
  std::vector<std::vector<FullBinaryNode<EvalExpr> const*>> in(nodes.size());
  for (std::size_t k = 0; k < nodes.size(); ++k) nodes[k].visit_internal([&](auto const& n) { in[k].push_back(&n); });
  TreeNodeEqualityComparator<FullBinaryNode<EvalExpr>> eqc;
  for (std::size_t a = 0; a < nodes.size(); ++a)
    for (std::size_t b = a + 1; b < nodes.size(); ++b)
      for (auto x : in[a]) for (auto y : in[b]) if (eqc(*x, *y)) c.require(where[a] == where[b], [&] { return "terms " + std::to_string(a) + " and " + std::to_string(b) + " share an intermediate but are in different clusters"; });
}
// intermediates when the equations are evaluated batch by batch of i_2
SCENARIO("cse.batch", c) {
  use_context(Vacuum::Physical);
  Index i(L"i_1"), j(L"i_2"), k(L"i_3"), l(L"i_4"), m(L"i_5"), x(L"i_9");
  auto fh = [&](const Index& a, const Index& z, const Index& b) { return Pr({T(L"f", {a}, {z}), T(L"h", {z}, {b})}); };
  auto g = [&](const Index& a, const Index& b) { return T(L"t", {a}, {b}); };
  struct Q { Eq q; bool ext; };
  std::vector<Q> qs;
  int n = vf::thorough() ? 5 : 4;
  for (int q = 0; q < n; ++q) {
    std::wstring nm = L"R" + std::to_wstring(q);
    switch (c.choose(7)) {
      case 0: qs.push_back({{nm, Pr({fh(i, x, j), ex<Variable>(L"y")}), {i}, {j}}, true}); break;
      case 1: qs.push_back({{nm, Pr({fh(j, x, i), ex<Variable>(L"z")}), {j}, {i}}, true}); break;
      case 2: qs.push_back({{nm, Pr({fh(i, x, m), g(m, j)}), {i}, {j}}, true}); break;
      case 3: qs.push_back({{nm, Pr({fh(i, j, m), g(m, l)}), {i}, {l}}, false}); break;
      case 4: qs.push_back({{nm, Pr({fh(i, x, j), g(j, l)}), {i}, {l}}, false}); break;
      case 5: qs.push_back({{nm, Pr({fh(i, x, m), g(m, j), g(j, l)}), {i}, {l}}, false}); break;
      default: qs.push_back({{nm, Pr({T(L"t", {j}, {i}), fh(i, x, k)}), {j}, {k}}, true}); break;
    }
  }
  c.mine();
  std::string d;
  std::vector<NodeV> f;
  std::vector<Arr> w, sum(n);
  for (auto& q : qs) { d += show(q.q) + " ; "; f.push_back(binarize<EvalExprV>(q.q.res())); w.push_back(want(model(), q.q.e, q.q.ext())); }
  c.describe(d);
  c.state(d);
  opt::CSEOptions<NodeV> o;
  o.batch_indices = {j};
  std::size_t found = eliminate<false>(f, o);
  c.count("eliminated", found);
  std::string fs;
  for (auto& t : f) fs += label_of(t) + " = " + orc::show(t) + "; ";
  std::size_t dim = 2;
  auto slice = [&](ResultPtr r, auto const& ixs, std::size_t v) {
    std::size_t p = 0;
    for (auto& ix : ixs) { if (ix == j) return r->slice_mode(p, v, v + 1); ++p; }
    return r;
  };
  for (auto& z : w[0].dim) dim = z;
  for (std::size_t v = 0; v < dim; ++v) {
    Env env;
    auto le = [&](NodeV const& nd) -> ResultPtr {
      if (nd->is_tensor() && !u8(nd->as_tensor().label()).starts_with("CSE")) return slice(env(nd), nd->canon_indices(), v);
      if (nd->is_tensor()) {
        // the batch index has to be where it was in the definition
        auto& def = env.def.at(u8(nd->as_tensor().label()));
        std::size_t p = 0;
        for (auto& ix : nd->as_tensor().const_slots()) {
          c.require((ix == j) == (def.second.at(p) == j), [&] { return "an intermediate is used for another index of the batch than it was made for; forest: " + fs; });
          ++p;
        }
      }
      return env(nd);
    };
    std::size_t k = 0;
    for (auto& t : f) {
      std::string lb = label_of(t);
      std::vector<Index> ix;
      if (t->is_tensor()) for (auto& q : t->as_tensor().const_slots()) if (q.nonnull()) ix.push_back(q);
      auto none = CacheManager<NodeV>::empty();
      Arr got = flat(evaluate(t, labels(ix), le, none));
      c.step();
      if (lb.starts_with("CSE")) { env.def[lb] = {got, ix}; continue; }
      if (qs[k].ext) {
        Arr ws = flat(slice(ResultV::make(w[k]), qs[k].q.ext(), v));
        c.require(got == ws, [&] { return "batch " + std::to_string(v) + " of " + lb + " evaluates to " + orc::show(got) + ", expected " + orc::show(ws) + "; forest: " + fs; });
      } else if (v == 0) sum[k] = got;
      else for (std::size_t e = 0; e < got.d.size(); ++e) sum[k].d[e] += got.d[e];
      if (!qs[k].ext && v + 1 == dim) c.require(sum[k] == w[k], [&] { return "the sum over batches of " + lb + " is " + orc::show(sum[k]) + ", expected " + orc::show(w[k]) + "; forest: " + fs; });
      ++k;
    }
  }
}
// ------------------------------------------------------------------ fusion
SCENARIO("fusion", c) {
  use_context(Vacuum::Physical);
  Index i(L"i_1"), j(L"i_2"), k(L"i_3"), l(L"i_4");
  auto y = ex<Variable>(L"y"), z = ex<Variable>(L"z");
  std::vector<ExprPtr> pool = {T(L"f", {i}, {k}), T(L"h", {k}, {j}), T(L"t", {k}, {j}), T(L"f", {i}, {j}), T(L"h", {i}, {j}), y, z};
  std::vector<rational> num = {1, -1, rational(1, 2), rational(-3, 4), 6, 0};
  auto prod = [&](int& out) {
    int n = 1 + c.choose(3);
    std::vector<ExprPtr> v;
    std::set<int> used;
    for (int q = 0; q < n; ++q) { int x = c.choose(int(pool.size())); if (x < 5 && !used.insert(x).second) throw vf::Skip{}; v.push_back(pool[x]); }
    // contract k completely or not at all; exactly i and j are left
    int fk = used.count(0), hk = used.count(1) + used.count(2), d = used.count(3) + used.count(4);
    if (!((fk == 1 && hk == 1 && d == 0) || (fk == 0 && hk == 0 && d == 1))) throw vf::Skip{};
    out = n;
    return v;
  };
  int na, nb;
  auto va = prod(na), vb = prod(nb);
  auto sa = num[c.choose(6)], sb = num[c.choose(6)];
  c.mine();
  Product a(sa, va, Product::Flatten::No), b(sb, vb, Product::Flatten::No);
  auto s = Sm({ex<Product>(a), ex<Product>(b)});
  c.describe(show(ex<Product>(a)) + " ; " + show(ex<Product>(b)));
  c.state(c.desc);
  auto val = [&](const Product& p) { return value(model(), ex<Product>(p), {i, j}); };
  auto w = val(a) + val(b);
  opt::Fusion fu(a, b);
  c.step();
  bool left = *va.front() == *vb.front(), right = *va.back() == *vb.back();
  c.require(bool(fu.left()) == left && bool(fu.right()) == right, "fusion is possible from the left (right) iff the first (last) factors agree");
  if (fu.left()) { c.require(value(model(), fu.left(), {i, j}) == w, [&] { return "fused from the left: " + show(fu.left()); }); c.outcome(show(fu.left())); }
  if (fu.right()) { c.require(value(model(), fu.right(), {i, j}) == w, [&] { return "fused from the right: " + show(fu.right()); }); c.outcome(show(fu.right())); }
}
SCENARIO("fusion.scalar", c) {
  int M = vf::thorough() ? 12 : 8;
  auto r = [&] { int n = c.choose(2 * M + 1) - M, d = 1 + c.choose(M); return rational(n, d); };
  auto a = r(), b = r();
  c.mine();
  c.describe(a.str() + " " + b.str());
  auto [g, x, y] = opt::Fusion::fuse_scalar(a, b);
  c.step();
  c.require(g * x == a && g * y == b, [&] { return "fused " + g.str() + " * (" + x.str() + ", " + y.str() + ")"; });
  if (a != 0 && b != 0) {
    c.require(denominator(x) == 1 && denominator(y) == 1 && gcd(numerator(x), numerator(y)) == 1, [&] { return "the common factor is not the greatest: " + x.str() + ", " + y.str(); });
    auto h = opt::Fusion::gcd_rational(a, b);
    c.require(h > 0, "the greatest common divisor is not positive");
  }
  c.outcome(g.str());
}
// ------------------------------------------------------------------ extraction
namespace {
void extract(vf::Case& c, const std::vector<Eq>& eqs) {
  std::string d;
  for (auto& q : eqs) d += show(q) + " ; ";
  c.describe(d);
  c.state(d);
  using Nd = NodeV;
  auto has = [](const Nd& n, const wchar_t* l) { bool r = false; n.visit_leaf([&](auto const& x) { r |= x->is_tensor() && x->as_tensor().label() == l; }); return r; };
  std::vector<std::function<bool(const Nd&)>> preds = {
      [](const Nd&) { return true; }, [](const Nd&) { return false; }, [](const Nd& n) { return !n.leaf(); }, [](const Nd& n) { return n.leaf(); },
      [&](const Nd& n) { return !n.leaf() && !has(n, L"h"); }, [&](const Nd& n) { return !has(n, L"f"); }, [](const Nd& n) { return !n.leaf() && n->is_product(); }, [](const Nd& n) { return !n.leaf() && n->is_sum(); }};
  TreeNodeEqualityComparator<Nd> eqc;
  for (std::size_t p = 0; p < preds.size(); ++p) {
    auto f = forest_of(eqs);
    auto copy = f;
    bool childrenok = true;
    auto pred = [&](Nd const& n, bool l, bool r) {
      // the children's values must be those reported for them
      if (n.leaf()) childrenok &= !l && !r; else childrenok &= l == preds[p](n.left()) && r == preds[p](n.right());
      return preds[p](n);
    };
    auto got = opt::extract_subtrees(f, pred);
    c.step();
    c.require(childrenok, "the predicate got wrong values for the children");
    // what should have been captured
    std::vector<Nd const*> cap;
    std::function<bool(const Nd&, const Nd&, bool)> same = [&](const Nd& was, const Nd& is, bool parent) -> bool {
      bool me = preds[p](was);
      if (me && !parent) {
        cap.push_back(&was);
        return is.leaf() && is->is_primary() && *is->expr() == *was->expr() && is->hash_value() == was->hash_value() && is->canon_phase() == was->canon_phase() && is->canon_indices() == was->canon_indices();
      }
      if (was.leaf() != is.leaf()) return false;
      if (was.leaf()) return *was->expr() == *is->expr();
      return was->op_type() == is->op_type() && same(was.left(), is.left(), me) && same(was.right(), is.right(), me);
    };
    for (std::size_t k = 0; k < f.size(); ++k) c.require(same(copy[k], f[k], false), [&] { return "predicate " + std::to_string(p) + ": " + orc::show(copy[k]) + " became " + orc::show(f[k]); });
    // a captured subtree may itself contain captured ones (which it then refers to as leaves)
    std::function<bool(const Nd&, bool)> inner = [&](const Nd& n, bool parent) { bool me = preds[p](n); return (me && !parent) || (!n.leaf() && (inner(n.left(), me) || inner(n.right(), me))); };
    bool nested = false;
    for (auto* x : cap) if (!x->leaf()) nested |= inner(x->left(), true) || inner(x->right(), true);
    if (nested) { c.count("nested", 1); continue; }
    std::vector<Nd const*> classes;
    for (auto* x : cap) { bool is = false; for (auto* y : classes) is |= eqc(*x, *y); if (!is) classes.push_back(x); }
    c.require(got.size() == classes.size(), [&] { return "predicate " + std::to_string(p) + ": " + std::to_string(got.size()) + " subtrees extracted, expected " + std::to_string(classes.size()); });
    for (auto* x : classes) c.require(got.contains(*x), [&] { return "predicate " + std::to_string(p) + ": subtree " + orc::show(*x) + " is missing"; });
    for (auto& x : got) { bool is = false; for (auto* y : classes) is |= eqc(x, *y) && x.size() == y->size(); c.require(is, [&] { return "predicate " + std::to_string(p) + ": extracted subtree " + orc::show(x) + " is not one of the forest"; }); }
    c.count("captured", got.size());
  }
}
}  // namespace
SCENARIO("extract", c) {
  use_context(Vacuum::Physical);
  Chain ch{c};
  Index i(L"i_1"), j(L"i_2");
  auto a = ch.mat(2 + c.choose(3), i, j, true);
  auto b = ch.mat(2, i, j, true);
  c.mine();
  extract(c, {{L"R", a, {i}, {j}}, {L"Q", b, {i}, {j}}});
}
int main(int c, char** v) { return vf::main_impl(c, v, "C13"); }
