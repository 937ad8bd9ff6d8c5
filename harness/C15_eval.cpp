// LINK: eval
// Evaluation trees: whatever backend executes them (here: exact dense arrays),
// evaluate() returns the array the expression denotes, in the layout asked
// for; sharing intermediates through a cache, deferring to a batched evaluator
// and evaluating many terms in place never changes a value or a leaf.
#include "lib/evalback.hpp"
#include "lib/gen.hpp"
using namespace orc;
namespace {
constexpr auto N = Symmetry::Nonsymm, A = Symmetry::Antisymm, S = Symmetry::Symm;
constexpr auto bN = BraKetSymmetry::Nonsymm, bS = BraKetSymmetry::Symm, bC = BraKetSymmetry::Conjugate;
constexpr auto cS = ColumnSymmetry::Symm, cN = ColumnSymmetry::Nonsymm;
Model& model() { static Model m; static bool i = [] { m.per_bit[1] = 3; return true; }(); (void)i; return m; }
#pragma GCC diagnostic ignored "-Wdeprecated-declarations"
struct Term { ExprPtr e; std::vector<Index> ext; };
NodeV tree(const Term& t) {
  IndexSet s;
  for (auto& i : t.ext) s.emplace(i);
  return binarize<EvalExprV>(t.e->clone(), s);
}
using Cache = CacheManager<NodeV>;
template <typename C>
void once(vf::Case& c, const std::vector<Term>& ts, const std::vector<NodeV>& nodes, const std::vector<Arr>& w, Leaves& lv, C& cache, const std::string& how) {
  auto le = [&lv](NodeV const& n) { return lv(n); };
  for (std::size_t k = 0; k < ts.size(); ++k) {
    auto r = evaluate(nodes[k], labels(ts[k].ext), le, cache);
    c.step();
    Arr got = flat(r);
    c.require(got == w[k], [&] { return how + ": term " + std::to_string(k) + " evaluates to " + show(got) + ", expected " + show(w[k]) + "; tree " + show(nodes[k]); });
  }
  c.require(lv.intact(), [&] { return how + ": the data of a leaf was changed"; });
}
template <typename C>
void range(vf::Case& c, const std::vector<Term>& ts, const std::vector<NodeV>& nodes, const std::vector<Arr>& w, Leaves& lv, C& cache, const std::string& how, bool perm = true) {
  auto le = [&lv](NodeV const& n) { return lv(n); };
  Arr tot = w[0];
  for (std::size_t k = 1; k < w.size(); ++k) tot = tot + w[k];
  auto r = evaluate(nodes, perm ? labels(ts[0].ext) : Labels{}, le, cache);
  c.step();
  Arr got = flat(r);
  c.require(got == tot, [&] { return how + ": the terms together evaluate to " + show(got) + ", expected " + show(tot); });
  c.require(lv.intact(), [&] { return how + ": the data of a leaf was changed"; });
}
std::size_t cached_entries(const auto& cache) { std::size_t n = 0; cache.for_each_key([&](auto const&) { ++n; }); return n; }
bool same_ext(const std::vector<Term>& ts) {
  for (auto& t : ts) if (labels(t.ext) != labels(ts[0].ext)) return false;
  return true;
}
void check(vf::Case& c, const std::vector<Term>& ts, bool rev = true) {
  std::vector<Term> q = ts;
  if (rev) for (auto& t : q) std::reverse(t.ext.begin(), t.ext.end());
  std::vector<NodeV> nodes;
  std::vector<Arr> w;
  std::string d;
  for (auto& t : q) {
    d += (d.empty() ? "" : " ; ") + show(t.e);
    c.describe(d);
    nodes.push_back(tree(t));
    w.push_back(want(model(), t.e, t.ext));
  }
  c.state(d);
  {
    Leaves lv(model());
    auto none = Cache::empty();
    once(c, q, nodes, w, lv, none, "no cache");
    if (same_ext(q)) range(c, q, nodes, w, lv, none, "no cache");
  }
  std::size_t ent = 0;
  for (std::size_t rep : {std::size_t(2), std::size_t(1)}) {
    Leaves lv(model());
    auto cache = cache_manager(nodes, rep);
    ent += cached_entries(cache);
    for (int round = 0; round < 2; ++round) {
      std::string how = "cache of what occurs " + std::to_string(rep) + "x, round " + std::to_string(round);
      once(c, q, nodes, w, lv, cache, how);
      cache.reset();
    }
    if (same_ext(q)) for (int round = 0; round < 2; ++round) {
      range(c, q, nodes, w, lv, cache, "cached (" + std::to_string(rep) + "x), in one go, round " + std::to_string(round));
      cache.reset();
    }
  }
  {
    Leaves lv(model());
    auto cache = cache_manager<true>(nodes, 2);
    once(c, q, nodes, w, lv, cache, "all hashes collide");
  }
  {
    // leaves named t or T change, everything else persists
    Leaves lv(model());
    auto vol = [](NodeV const& n) { return n.leaf() && n->is_tensor() && (n->as_tensor().label() == L"t"); };
    auto cache = cache_manager(nodes, vol, 2);
    ent += cached_entries(cache);
    for (int round = 0; round < 3; ++round) {
      once(c, q, nodes, w, lv, cache, "persistent cache, round " + std::to_string(round));
      cache.reset();
    }
  }
  c.count("cached_intermediates", ent);
  c.outcome(show(w[0]));
}
Term term(const Net& n) { return {n.expr(), n.externals()}; }
TSpec f{L"f", 1, 1}, h{L"h", 1, 1}, t1{L"t", 1, 1}, g{L"g", 2, 2}, gA{L"g", 2, 2, 0, A}, t2{L"t", 2, 2, 0, A}, B{L"B", 1, 1, 1, N, bS}, Bc{L"B", 1, 1, 1, N, bC}, gS{L"g", 2, 2, 0, N, bS};
NetSpaces np{.traces = false};
NetSpaces mi{.max_ext = 4, .traces = false, .min_int = 1};
void nets(vf::Case& c, std::vector<TSpec> t, NetSpaces sp = np) {
  use_context(Vacuum::Physical);
  Net n = gen_net(c, t, sp);
  c.mine();
  check(c, {term(n)});
}
// a network together with each of its presentations, sharing a cache
void pres(vf::Case& c, std::vector<TSpec> t, NetSpaces sp = mi) {
  use_context(Vacuum::Physical);
  Net n = gen_net(c, t, sp);
  c.mine();
  for (auto& [w, m] : presentations(n)) check(c, {term(n), term(m)});
  // externals exchanged
  auto e = n.ext_ids();
  for (std::size_t a = 0; a < e.size(); ++a)
    for (std::size_t b = a + 1; b < e.size(); ++b)
      if (n.ix[e[a]].space == n.ix[e[b]].space) {
        Net m = n;
        std::swap(m.ix[e[a]].ord, m.ix[e[b]].ord);
        Term tm{m.expr(), n.externals()};
        check(c, {term(n), tm, term(n)});
      }
}
// every pair of networks of the same tensors
void pairs(vf::Case& c, std::vector<TSpec> t, NetSpaces sp = mi) {
  use_context(Vacuum::Physical);
  Net n = gen_net(c, t, sp), m = gen_net(c, t, sp);
  c.mine();
  check(c, {term(n), term(m)});
}
}  // namespace
SCENARIO("one", c) { nets(c, {c.pick(std::vector{f, g, gA, gS, B, Bc, t2})}, {.traces = false}); }
SCENARIO("two.1", c) { nets(c, {c.pick(std::vector{f, B, Bc}), c.pick(std::vector{h, B, t1})}); }
SCENARIO("two.2", c) { nets(c, {c.pick(std::vector{f, B}), c.pick(std::vector{g, gA, gS})}, {.traces = false, .min_int = 1}); }
SCENARIO("two.22", c) { nets(c, {c.pick(std::vector{gA, g}), t2}, {.max_ext = 2, .traces = false}); }
SCENARIO("three.1", c) { nets(c, {f, c.pick(std::vector{h, f}), t1}, {.max_ext = 2, .traces = false}); }
SCENARIO("three.B", c) { nets(c, {B, B, t1}, {.max_ext = 2, .traces = false, .min_int = 2}); }
SCENARIO("three.g", c) { nets(c, {c.pick(std::vector{g, gA}), t1, c.pick(std::vector{t1, f})}, {.max_ext = 2, .traces = false}); }
SCENARIO("pres.2", c) { pres(c, {c.pick(std::vector{f, B, Bc}), c.pick(std::vector{h, B, f})}); }
SCENARIO("pres.g", c) { pres(c, {c.pick(std::vector{f, t1}), c.pick(std::vector{gA, g, gS})}, {.max_ext = 4, .traces = false, .min_int = 1}); }
SCENARIO("pres.3", c) { pres(c, {c.pick(std::vector{f, B}), h, t1}, {.max_ext = 2, .traces = false, .min_int = 2}); }
SCENARIO("pairs.f", c) { pairs(c, {f, c.pick(std::vector{h, f})}); }
SCENARIO("pairs.B", c) { pairs(c, {B, B}); }
SCENARIO("pairs.g", c) { pairs(c, {f, gA}, {.spaces = {L'i'}, .traces = false, .min_int = 1}); }
SCENARIO("pairs.gg", c) { pairs(c, {gA, t2}, {.spaces = {L'i'}, .max_ext = 4, .traces = false, .min_int = 2}); }
SCENARIO("pairs.3", c) { pairs(c, {f, h, t1}, {.spaces = {L'i'}, .max_ext = 2, .traces = false, .min_int = 2}); }
namespace {
// factors that are sums, sums whose summands are products ...
struct Tr {
  vf::Case& c;
  // a matrix-like object with the given bra and ket index
  ExprPtr mat(int depth, const Index& b, const Index& k, int& dummy) {
    int ch = c.choose(depth ? 6 : 3);
    auto T = [&](const wchar_t* l) { return ex<Tensor>(l, bra{b}, ket{k}); };
    if (ch == 0) return T(L"f");
    if (ch == 1) return T(L"h");
    if (ch == 2) return T(L"r");
    if (ch == 3) { auto x = mat(depth - 1, b, k, dummy); auto y = mat(depth - 1, b, k, dummy); return ex<Sum>(ExprPtrList{x, y}); }
    if (ch == 4) {
      Index m(L"p_" + std::to_wstring(10 + dummy++));
      auto x = mat(depth - 1, b, m, dummy);
      auto y = mat(depth - 1, m, k, dummy);
      ExprPtrList l{x, y};
      return ex<Product>(1, l, Product::Flatten::No);
    }
    auto x = mat(depth - 1, b, k, dummy);
    ExprPtrList l{x};
    return ex<Product>(rational(-1, 2), l, Product::Flatten::No);
  }
};
}  // namespace
SCENARIO("nested.1", c) {
  use_context(Vacuum::Physical);
  int d = 0;
  Index b(L"p_1"), k(L"p_2");
  Tr t{c};
  auto e = t.mat(vf::thorough() ? 3 : 2, b, k, d);
  if (d > 3) throw vf::Skip{};
  c.mine();
  check(c, {{e, {b, k}}});
}
SCENARIO("nested.2", c) {
  use_context(Vacuum::Physical);
  int d = 0;
  Index b(L"p_1"), k(L"p_2");
  Tr t{c};
  auto e = t.mat(vf::thorough() ? 2 : 1, b, k, d);
  bool sw = c.flip();
  auto u = t.mat(2, sw ? k : b, sw ? b : k, d);
  if (d > 4) throw vf::Skip{};
  c.mine();
  check(c, {{e, {b, k}}, {u, {b, k}}});
}
// (X + Y) times Z where the sum's summands are connected differently
SCENARIO("nested.sum", c) {
  use_context(Vacuum::Physical);
  Index i[4] = {Index(L"p_1"), Index(L"p_2"), Index(L"p_3"), Index(L"p_4")};
  std::vector<Term> ts;
  for (int k = 0; k < 2; ++k) {
    auto two = [&](const wchar_t* l) {
      int p = c.choose(2), q = c.choose(2);
      return ex<Tensor>(l, bra{i[p], i[1 - p]}, ket{i[2 + q], i[3 - q]}, aux{}, N, bN, cN);
    };
    auto s = ex<Sum>(ExprPtrList{two(L"g"), two(L"h")});
    int w = c.choose(4);
    ExprPtr z = w == 0 ? ex<Tensor>(L"t", bra{i[2]}, ket{i[0]}) : w == 1 ? ex<Tensor>(L"t", bra{i[2]}, ket{i[1]}) : w == 2 ? ex<Tensor>(L"t", bra{i[3]}, ket{i[0]}) : ex<Tensor>(L"t", bra{i[3]}, ket{i[1]});
    std::vector<Index> ext;
    for (int q = 0; q < 4; ++q) if (!(q == (w & 1) || q == 2 + (w >> 1))) ext.push_back(i[q]);
    ExprPtrList l{s, z};
    ts.push_back({ex<Product>(1, l, Product::Flatten::No), ext});
  }
  c.mine();
  // the second term gets the names of the first
  check(c, ts);
}
// the same sums, alone and shared
SCENARIO("sums", c) {
  use_context(Vacuum::Physical);
  Index i[4] = {Index(L"p_1"), Index(L"p_2"), Index(L"p_3"), Index(L"p_4")};
  std::vector<Term> ts;
  for (int k = 0; k < 2; ++k) {
    std::vector<ExprPtr> l;
    for (auto* lab : {L"g", L"h", L"r"}) {
      if (lab[0] == L'r' && k == 0) { if (c.choose(2)) break; } else if (lab[0] == L'r' && ts[0].e->size() == 2) break;
      int p = c.choose(2), q = c.choose(2);
      l.push_back(ex<Tensor>(lab, bra{i[p], i[1 - p]}, ket{i[2 + q], i[3 - q]}, aux{}, N, bN, cN));
    }
    ts.push_back({ex<Sum>(l.begin(), l.end()), {i[0], i[1], i[2], i[3]}});
  }
  c.mine();
  check(c, ts);
}
SCENARIO("sums.sym", c) {
  use_context(Vacuum::Physical);
  Index i[4] = {Index(L"i_1"), Index(L"a_1"), Index(L"a_2"), Index(L"i_2")};
  std::vector<Term> ts;
  auto sg = c.pick(std::vector{A, N}), sh = c.pick(std::vector{A, N});
  for (int k = 0; k < 2; ++k) {
    std::vector<ExprPtr> l;
    int nt = 1 + c.choose(2);
    for (int n = 0; n < nt; ++n) {
      int p = c.choose(2), q = c.choose(2);
      auto s = n ? sh : sg;
      l.push_back(ex<Tensor>(n ? L"h" : L"g", bra{i[p], i[1 - p]}, ket{i[2 + q], i[3 - q]}, aux{}, s, bN, cS));
    }
    ts.push_back({nt == 1 ? l[0] : ex<Sum>(l.begin(), l.end()), {i[0], i[1], i[2], i[3]}});
  }
  c.mine();
  check(c, ts);
}
// scalars: constants, variables, powers, contractions, in sums and products with arrays
SCENARIO("scalars", c) {
  use_context(Vacuum::Physical);
  Index a(L"i_1"), b(L"a_1");
  int dm = 6;
  std::function<ExprPtr(int)> sc = [&](int depth) -> ExprPtr {
    switch (c.choose(depth ? 7 : 5)) {
      case 0: return ex<Constant>(rational(2, 3));
      case 1: return ex<Variable>(L"x");
      case 2: return ex<Power>(ex<Variable>(L"y"), 2);
      case 3: return ex<Constant>(Complex<rational>(0, 1));
      case 4: {
        ++dm;
        Index x(L"i_" + std::to_wstring(dm)), y(L"a_" + std::to_wstring(dm));
        return ex<Product>(1, ExprPtrList{ex<Tensor>(L"f", bra{x}, ket{y}), ex<Tensor>(L"t", bra{y}, ket{x})}, Product::Flatten::No);
      }
      case 5: { auto x = sc(depth - 1), y = sc(depth - 1); return ex<Sum>(ExprPtrList{x, y}); }
      default: { auto x = sc(depth - 1), y = sc(depth - 1); return ex<Product>(rational(-1, 2), ExprPtrList{x, y}, Product::Flatten::No); }
    }
  };
  int shape = c.choose(4);
  ExprPtr s = sc(2);
  auto T = [&](const wchar_t* l) { return ex<Tensor>(l, bra{a}, ket{b}); };
  c.mine();
  Term t;
  if (shape == 0) t = {s, {}};
  else if (shape == 1) t = {ex<Product>(1, ExprPtrList{s, T(L"f")}, Product::Flatten::No), {a, b}};
  else if (shape == 2) t = {ex<Product>(1, ExprPtrList{T(L"f"), s}, Product::Flatten::No), {a, b}};
  else t = {ex<Sum>(ExprPtrList{T(L"h"), ex<Product>(1, ExprPtrList{T(L"f"), s}, Product::Flatten::No)}), {a, b}};
  check(c, {t, t});
}
// adjoints of non-symmetric tensors
SCENARIO("adjoint", c) {
  use_context(Vacuum::Physical);
  auto mk = [&](int k) {
    Index b(L"i_" + std::to_wstring(k)), kk(L"a_" + std::to_wstring(k));
    return std::pair{b, kk};
  };
  (void)mk;
  int kind = c.choose(3);
  std::vector<TSpec> t;
  if (kind == 0) t = {f, f};
  if (kind == 1) t = {{L"g", 2, 2}, f};
  if (kind == 2) t = {{L"g", 2, 2, 0, A}, f};
  Net n = gen_net(c, t, np);
  int which = c.choose(3) + 1;
  bool also = c.flip();
  c.mine();
  std::vector<ExprPtr> fs = n.factors();
  for (int k = 0; k < 2; ++k) if (which >> k & 1) {
    auto& x = fs[k]->as<Tensor>();
    Tensor y(x.label(), sequant::bra(std::vector<Index>(x.ket().begin(), x.ket().end())), sequant::ket(std::vector<Index>(x.bra().begin(), x.bra().end())), aux{}, x.symmetry(), x.braket_symmetry(), x.column_symmetry());
    y.adjoint();  // the daggered tensor in the place of the bare one
    fs[k] = ex<Tensor>(y);
  }
  Term tm{ex<Product>(1, fs, Product::Flatten::No), n.externals()};
  if (also) check(c, {tm, term(n)});
  else check(c, {tm, {ex<Sum>(ExprPtrList{tm.e->clone(), n.expr()}), n.externals()}});
}
// many terms, result used in place
SCENARIO("inplace", c) {
  use_context(Vacuum::Physical);
  Index a(L"i_1"), b(L"i_2");
  std::vector<Term> ts;
  int n = 2 + c.choose(2);
  for (int k = 0; k < n; ++k) {
    int ch = c.choose(5);
    auto T = [&](const wchar_t* l, const Index& x, const Index& y) { return ex<Tensor>(l, bra{x}, ket{y}); };
    ExprPtr e;
    if (ch == 0) e = T(L"f", a, b);
    if (ch == 1) e = T(L"f", b, a);
    if (ch == 2) e = T(L"f", a, L"i_3") * T(L"f", L"i_3", b);
    if (ch == 3) e = ex<Constant>(2) * T(L"f", a, b);
    if (ch == 4) e = T(L"f", a, b) + T(L"h", a, b);
    ts.push_back({e, {a, b}});
  }
  bool deflt = c.flip();
  c.mine();
  check(c, ts, false);
  check(c, ts, true);
  if (!deflt) return;
  // default layout: only when all terms come in the same order of modes
  std::vector<NodeV> nodes;
  std::vector<Arr> w;
  for (auto& t : ts) {
    nodes.push_back(tree(t));
    if (nodes.back()->annot() != nodes[0]->annot()) throw vf::Skip{};
  }
  std::vector<Index> order;
  for (auto& i : nodes[0]->canon_indices()) order.push_back(i);
  for (auto& t : ts) w.push_back(want(model(), t.e, order));
  for (std::size_t rep : {0, 1, 2}) {
    Leaves lv(model());
    auto cache = rep ? cache_manager(nodes, rep) : Cache::empty();
    for (int r = 0; r < 2; ++r) {
      range(c, ts, nodes, w, lv, cache, "default layout, cache " + std::to_string(rep) + ", round " + std::to_string(r), false);
      cache.reset();
    }
  }
}
// intermediates that depend on occupied indices (tensors of tensors)
SCENARIO("protos", c) {
  use_context(Vacuum::Physical);
  Net n = gen_net(c, {c.pick(std::vector{f, g}), t1}, {.protos = true, .max_ext = 4, .traces = false, .min_int = 1});
  // protoindices must be indices of the term
  c.mine();
  check(c, {term(n)});
  for (auto& [w, m] : presentations(n)) check(c, {term(n), term(m)});
}
// ResultExpr on the left
SCENARIO("result", c) {
  use_context(Vacuum::Physical);
  Net n = gen_net(c, {c.pick(std::vector{f, gA, B}), c.pick(std::vector{h, t1})}, np);
  bool single = c.flip();
  auto e = single ? n.factors()[0] : n.expr();
  c.mine();
  c.describe(show(e));
  std::vector<Index> br, kt, ax;
  for (auto& f : single ? std::vector<ExprPtr>{e} : n.factors()) {
    auto& t = f->as<Tensor>();
    auto put = [&](auto&& r, std::vector<Index>& v) { for (auto& i : r) { int occ = 0; for (auto& f2 : single ? std::vector<ExprPtr>{e} : n.factors()) for (auto& j : f2->as<Tensor>().const_indices()) occ += i == j; if (occ == 1) v.push_back(i); } };
    put(t.bra(), br); put(t.ket(), kt); put(t.aux(), ax);
  }
  std::reverse(br.begin(), br.end());
  ResultExpr res(sequant::bra<std::vector<Index>>(br), sequant::ket<std::vector<Index>>(kt), sequant::aux<std::vector<Index>>(ax), Symmetry::Nonsymm, BraKetSymmetry::Nonsymm, ColumnSymmetry::Nonsymm, L"R", e);
  auto node = binarize<EvalExprV>(res);
  std::vector<Index> ext(br);
  ext.insert(ext.end(), kt.begin(), kt.end());
  ext.insert(ext.end(), ax.begin(), ax.end());
  Arr w = want(model(), e, ext);
  if (ext.size()) c.require(node->is_tensor() && node->as_tensor().label() == L"R", "the root is not the result");
  Leaves lv(model());
  auto cache = cache_manager(std::vector<NodeV>{node}, 1);
  for (int r = 0; r < 2; ++r) {
    Arr got = flat(evaluate(node, labels(ext), [&](NodeV const& x) { return lv(x); }, cache));
    c.step();
    c.require(got == w, [&] { return "result evaluates to " + show(got) + ", expected " + show(w) + "; tree " + show(node); });
    cache.reset();
  }
  c.state(show(node));
}
// batched evaluation
namespace {
void batched(vf::Case& c, const std::vector<Term>& ts, int dim, bool pers) {
  Model mm = model();
  mm.per_bit[2] = dim;
  mm.cache.clear();
  std::vector<NodeV> nodes;
  std::vector<Arr> w;
  std::string d;
  for (auto& t : ts) { d += (d.empty() ? "" : " ; ") + show(t.e); c.describe(d); nodes.push_back(tree(t)); w.push_back(want(mm, t.e, t.ext)); }
  c.state(d + std::to_string(dim));
  for (std::size_t target : {1, 2}) {
    for (int which = 0; which < 2; ++which) {
      Leaves lv(mm);
      auto le = [&lv](NodeV const& n) { return lv(n); };
      auto isx = [which](Index const& i) { return which || i.space().base_key() == L"x"; };
      auto vol = [](NodeV const& n) { return n.leaf() && n->is_tensor() && n->as_tensor().label() == L"t"; };
      auto cache = pers ? cache_manager(nodes, vol, 2) : cache_manager(nodes, 2);
      cache.set_custom_evaluator(make_batched_custom_evaluator(le, [target](Index const&) { return target; }, isx, make_no_scope_guard{}, vol, pers));
      for (int round = 0; round < 2; ++round) {
        once(c, ts, nodes, w, lv, cache, "batched by " + std::to_string(target) + ", round " + std::to_string(round));
        cache.reset();
        if (same_ext(ts)) { range(c, ts, nodes, w, lv, cache, "batched by " + std::to_string(target) + ", in one go"); cache.reset(); }
      }
    }
  }
}
}  // namespace
SCENARIO("batched.1", c) {
  use_context(Vacuum::Physical);
  Net n = gen_net(c, {B, c.pick(std::vector{B, Bc}), t1}, {.spaces = {L'i'}, .max_ext = 2, .traces = false, .min_int = 2});
  int dim = 1 + c.choose(3);
  bool pers = c.flip();
  c.mine();
  batched(c, {term(n)}, dim, pers);
}
SCENARIO("batched.2", c) {
  use_context(Vacuum::Physical);
  NetSpaces sp{.spaces = {L'i'}, .max_ext = 2, .traces = false, .min_int = 3};
  Net n = gen_net(c, {B, B, t1}, sp), m = gen_net(c, {B, B, t1}, sp);
  bool pers = c.flip();
  c.mine();
  batched(c, {term(n), term(m)}, 3, pers);
}
SCENARIO("batched.3", c) {
  use_context(Vacuum::Physical);
  NetSpaces sp{.spaces = {L'i'}, .max_ext = 4, .traces = false, .min_int = 1};
  Net n = gen_net(c, {B, B}, sp), m = gen_net(c, {B, B}, sp), l = gen_net(c, {B, B}, sp);
  bool pers = c.flip();
  c.mine();
  batched(c, {term(n), term(m), term(l)}, 2, pers);
}
// (B*B + ...)-like groups where an inner intermediate is shared
SCENARIO("batched.nested", c) {
  use_context(Vacuum::Physical);
  Index i(L"i_1"), j(L"i_2"), k(L"i_3"), l(L"i_4"), x(L"x_1"), y(L"x_2");
  auto Bt = [&](const Index& a, const Index& b, const Index& z) { return ex<Tensor>(L"B", bra{a}, ket{b}, aux{z}, N, bS); };
  auto P = [&](ExprPtrList v) { return ex<Product>(1, v, Product::Flatten::No); };
  auto fx = [&](const Index& a, const Index& b) { return ex<Tensor>(L"f", bra{a}, ket{b}); };
  auto tx = [&](const Index& a, const Index& b) { return ex<Tensor>(L"t", bra{a}, ket{b}); };
  std::vector<Term> ts;
  int nt = 2;
  for (int q = 0; q < nt; ++q) {
    int inner = c.choose(5), outer = c.choose(4);
    const Index& z = c.flip() ? x : y;
    // a three-slot object X(i,j;z)
    ExprPtr X;
    if (inner == 0) X = P({Bt(i, k, z), fx(k, j)});
    if (inner == 1) X = P({fx(i, k), Bt(k, j, z)});
    if (inner == 2) X = ex<Sum>(ExprPtrList{Bt(i, j, z), P({Bt(i, k, z), fx(k, j)})});
    if (inner == 3) X = ex<Sum>(ExprPtrList{Bt(i, j, z), Bt(j, i, z)});
    if (inner == 4) { const Index& zz = &z == &x ? y : x; X = P({Bt(i, j, z), P({Bt(k, l, zz), Bt(l, k, zz)})}); }
    ExprPtr Y = outer == 0 ? Bt(j, i, z) : outer == 1 ? P({Bt(j, L"i_5", z), fx(L"i_5", i)}) : outer == 2 ? P({Bt(j, L"i_5", z), tx(L"i_5", i)}) : Bt(j, L"i_6", z);
    std::vector<Index> ext;
    if (outer == 3) ext = {i, Index(L"i_6")};
    ts.push_back({P({X, Y}), ext});
  }
  bool pers = c.flip();
  c.mine();
  batched(c, ts, 3, pers);
}
// intermediates whose canonical form carries a sign, made in batches and shared
SCENARIO("batched.phase", c) {
  use_context(Vacuum::Physical);
  Index i(L"i_1"), j(L"i_2"), k(L"i_3"), l(L"i_4"), x(L"x_1");
  std::vector<Term> ts;
  int nt = 2 + c.choose(vf::thorough() ? 3 : 2);
  for (int q = 0; q < nt; ++q) {
    bool first = q == 0;
    bool w = first ? false : c.flip(), sb = c.flip(), sk = first || nt > 3 ? false : c.flip();
    auto A = ex<Tensor>(L"A", bra{sb ? j : i, sb ? i : j}, ket{sk ? l : k, sk ? k : l}, aux{x}, Symmetry::Antisymm);
    auto V = ex<Tensor>(w ? L"w" : L"v", bra{}, ket{}, aux{x}, N, bS);
    auto T = ex<Tensor>(L"t", bra{k, l}, ket{i, j}, aux{}, N, bS);
    ts.push_back({ex<Product>(1, ExprPtrList{ex<Product>(1, ExprPtrList{A, V}, Product::Flatten::No), T}, Product::Flatten::No), {}});
  }
  bool pers = c.flip();
  c.mine();
  batched(c, ts, 2, pers);
}
// symmetrization helpers
SCENARIO("symmetrize", c) {
  int nb = 1 + c.choose(3), nk = c.choose(4);
  int kind = c.choose(2);
  int dim = 1 + c.choose(3);
  if (nb + nk > 6 || (nb + nk > 4 && dim > 2)) throw vf::Skip{};
  c.mine();
  if (kind == 0 && nb != nk) throw vf::Skip{};
  int n = nb + nk;
  Arr a;
  a.dim.assign(n, dim);
  std::size_t tot = 1;
  for (int k = 0; k < n; ++k) tot *= dim;
  for (std::size_t k = 0; k < tot; ++k) a.d.push_back(rnd(k + 17, false));
  c.describe("rank " + std::to_string(nb) + "," + std::to_string(nk) + " kind " + std::to_string(kind));
  Arr got = kind == 0 ? flat(ResultV::make(a)->symmetrize()) : flat(ResultV::make(a)->antisymmetrize(nb));
  // brute force over all permutations of positions
  Arr w;
  w.dim = a.dim;
  w.d.assign(tot, F{});
  std::vector<int> pb(nb), pk(nk);
  std::iota(pb.begin(), pb.end(), 0);
  auto par = [](const std::vector<int>& p) { int s = 0; for (std::size_t x = 0; x < p.size(); ++x) for (std::size_t y = x + 1; y < p.size(); ++y) s ^= p[x] > p[y]; return s; };
  do {
    std::iota(pk.begin(), pk.end(), 0);
    do {
      if (kind == 0 && pk != pb) continue;
      for (std::size_t q = 0; q < tot; ++q) {
        std::vector<int> ix(n);
        std::size_t z = q;
        for (int k = 0; k < n; ++k) { ix[k] = int(z % dim); z /= dim; }
        std::size_t src = 0, st = 1;
        for (int k = 0; k < n; ++k) { src += st * (k < nb ? ix[pb[k]] : ix[nb + pk[k - nb]]); st *= dim; }
        if (kind == 1 && (par(pb) ^ par(pk))) w.d[q] -= a.d[src]; else w.d[q] += a.d[src];
      }
    } while (std::next_permutation(pk.begin(), pk.end()));
  } while (std::next_permutation(pb.begin(), pb.end()));
  c.step();
  c.state(std::to_string(nb) + std::to_string(nk) + std::to_string(kind) + std::to_string(dim));
  c.require(got == w, "not the (anti)symmetrized array");
}
int main(int c, char** v) { return vf::main_impl(c, v, "C15"); }
