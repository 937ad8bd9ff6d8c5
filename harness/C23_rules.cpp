// LINK: mbpt
// Tensor decompositions (density fitting, tensor hypercontraction, CSV
// transformation): the rewritten expression has the value of the given one
// with every decomposed tensor replaced by its definition.
#include <SeQuant/core/expressions/expr_algorithms.hpp>
#include <SeQuant/core/expressions/expr_operators.hpp>
#include <SeQuant/domain/mbpt/rules/csv.hpp>
#include <SeQuant/domain/mbpt/rules/df.hpp>
#include <SeQuant/domain/mbpt/rules/thc.hpp>
#include <SeQuant/domain/mbpt/space_qns.hpp>

#include "lib/gen.hpp"
using namespace orc;
namespace {
constexpr auto N = Symmetry::Nonsymm, A = Symmetry::Antisymm;
constexpr auto bN = BraKetSymmetry::Nonsymm, bS = BraKetSymmetry::Symm, bC = BraKetSymmetry::Conjugate;
using Flat = Product::Flatten;
Model& model() { static Model m; return m; }
Options opts() { Options o; o.overlap_is_delta = false; return o; }
IndexSpace space(std::wstring_view l) { return get_default_context().index_space_registry()->retrieve(l); }
void context() {
  auto isr = basic_registry();
  isr->add(IndexSpace{L"m", isr->retrieve(L"a").type(), mbpt::LCAOQNS::pao});
  use_context(Vacuum::Physical, isr);
}
/// replaces every tensor for which f gives something
using Def = std::function<ExprPtr(const Tensor&)>;
ExprPtr subst(const ExprPtr& e, const Def& f) {
  if (e->is<Tensor>()) { auto r = f(e->as<Tensor>()); return r ? r : e->clone(); }
  if (e->is<Sum>()) { std::vector<ExprPtr> l; for (auto& x : *e) l.push_back(subst(x, f)); return ex<Sum>(l.begin(), l.end()); }
  if (e->is<Product>()) {
    std::vector<ExprPtr> l;
    for (auto& x : *e) l.push_back(subst(x, f));
    return ex<Product>(e->as<Product>().scalar(), l, Flat::No);
  }
  return e->clone();
}
std::size_t count(const ExprPtr& e, const std::function<bool(const Tensor&)>& f) {
  if (e->is<Tensor>()) return f(e->as<Tensor>());
  std::size_t n = 0;
  for (auto& x : *e) n += count(x, f);
  return n;
}
int fresh = 0;
Index aux(int k) { return Index(space(L"x"), 60 + k); }
ExprPtr sub(ExprPtr a, ExprPtr b) { return ex<Sum>(ExprPtrList{a, ex<Product>(-1, std::vector<ExprPtr>{b}, Flat::No)}); }
bool is2(const Tensor& t, std::wstring_view l) { return t.label() == l && t.bra_rank() == 2 && t.ket_rank() == 2 && t.aux_rank() == 0; }
/// sum_X B^p1_q1[X] B^p2_q2[X], antisymmetrized if the tensor is
Def df(std::wstring g, std::wstring B) {
  return [=](const Tensor& t) -> ExprPtr {
    if (!is2(t, g)) return nullptr;
    auto p = t.bra();
    auto q = t.ket();
    auto term = [&](int a, int b) {
      Index x = aux(fresh++);
      auto f = [&](int i, int j) { return ex<Tensor>(B, bra({p[i]}), ket({q[j]}), sequant::aux({x}), Symmetry::Nonsymm, Hermiticity::Hermitian); };
      return ex<Product>(1, std::vector<ExprPtr>{f(a, 0), f(b, 1)}, Flat::No);
    };
    return t.symmetry() == A ? sub(term(0, 1), term(1, 0)) : ExprPtr(term(0, 1));
  };
}
Def thc(std::wstring g, std::wstring B, std::wstring C) {
  return [=](const Tensor& t) -> ExprPtr {
    if (!is2(t, g)) return nullptr;
    auto p = t.bra();
    auto q = t.ket();
    auto term = [&](int a, int b) {
      Index r1 = aux(fresh++), r2 = aux(fresh++);
      auto bf = [&](int i, Index r) { return ex<Tensor>(B, bra({p[i]}), ket(), sequant::aux({r})); };
      auto kf = [&](int i, Index r) { return ex<Tensor>(B, bra(), ket({q[i]}), sequant::aux({r})); };
      return ex<Product>(1, std::vector<ExprPtr>{bf(a, r1), kf(0, r1), ex<Tensor>(C, bra(), ket(), sequant::aux({r1, r2})), bf(b, r2), kf(1, r2)}, Flat::No);
    };
    return t.symmetry() == A ? sub(term(0, 1), term(1, 0)) : ExprPtr(term(0, 1));
  };
}
bool protos(const Tensor& t) { for (auto& i : t.const_braket_indices()) if (i.nonnull() && i.has_proto_indices()) return true; return false; }
/// every slot with a cluster-specific index is transformed to the basis
Def csv(IndexSpace b, bool ortho, std::vector<std::wstring> labels) {
  return [=](const Tensor& t) -> ExprPtr {
    if (std::find(labels.begin(), labels.end(), std::wstring(t.label())) == labels.end() || !protos(t)) return nullptr;
    std::vector<ExprPtr> l;
    auto C = [](Index p, Index q) { return ex<Tensor>(L"C", bra({p}), ket({q}), sequant::aux({})); };
    if (ortho && t.label() == L"s") {
      Index p = t.bra()[0], q = t.ket()[0];
      if (!p.has_proto_indices() || !q.has_proto_indices()) return C(p, q);
      Index x(b, 60 + fresh++);
      return ex<Product>(1, std::vector<ExprPtr>{C(p, x), C(x, q)}, Flat::No);
    }
    std::vector<Index> br, kt;
    for (auto& i : t.bra())
      if (i.has_proto_indices()) { Index x(b, 60 + fresh++); l.push_back(C(i, x)); br.push_back(x); } else br.push_back(i);
    for (auto& i : t.ket())
      if (i.has_proto_indices()) { Index x(b, 60 + fresh++); l.push_back(C(x, i)); kt.push_back(x); } else kt.push_back(i);
    l.push_back(ex<Tensor>(t.label(), bra(br), ket(kt), t.aux(), t.symmetry(), t.braket_symmetry(), t.column_symmetry()));
    return ex<Product>(1, l, Flat::No);
  };
}
/// the ways a network is presented to a rule: 0 product, 1 the second half
/// nested, 2 first half nested, 3 a factor (1 + last tensor) replaced by a sum, 4 sum of the product and twice itself
constexpr int SHAPES = 6;
ExprPtr shape(const std::vector<ExprPtr>& f, int sign, int k) {
  auto half = [&](std::size_t from, std::size_t to) { return ex<Product>(1, std::vector<ExprPtr>(f.begin() + from, f.begin() + to), Flat::No); };
  std::size_t n = f.size();
  auto all = ex<Product>(sign, f, Flat::No);
  switch (k) {
    case 0: return all;
    case 1: { auto v = std::vector<ExprPtr>(f.begin(), f.begin() + 1); v.push_back(half(1, n)); return ex<Product>(sign, v, Flat::No); }
    case 2: { std::vector<ExprPtr> v{half(0, 1)}; v.insert(v.end(), f.begin() + 1, f.end()); return ex<Product>(2, v, Flat::No); }
    case 3: { auto v = std::vector<ExprPtr>(f.begin(), f.end() - 1); v.push_back(ex<Sum>(ExprPtrList{f.back(), ex<Product>(3, std::vector<ExprPtr>{f.back()}, Flat::No)})); return ex<Product>(sign, v, Flat::No); }
    case 4: return ex<Sum>(ExprPtrList{all, ex<Product>(2, f, Flat::No)});
    default: { std::vector<ExprPtr> v{ex<Variable>(L"v")}; v.insert(v.end(), f.begin(), f.end()); return ex<Product>(rational(1, 2), v, Flat::No); }
  }
}
void compare(vf::Case& c, const ExprPtr& got, const ExprPtr& want, const std::vector<Index>& ext, const char* what) {
  auto w = value(model(), want, ext, 24, opts());
  c.step();
  c.require(value(model(), got, ext, 24, opts()) == w, [&] { return std::string(what) + " gives " + show(got) + ", which differs from " + show(want); });
  auto e = expand(got->clone());
  c.require(value(model(), e, ext, 24, opts()) == w, [&] { return std::string(what) + " gives " + show(got) + ", which expands to " + show(e) + " and then differs from " + show(want); });
  c.outcome(show(got));
}
struct Rule { const char* name; std::function<ExprPtr(const ExprPtr&, std::wstring)> f; std::function<Def(std::wstring)> def; };
/// the factors get the same or another name in a second pass
const std::vector<Rule>& rules() {
  static const std::vector<Rule> r{
      {"density_fit", [](const ExprPtr& e, std::wstring l) { return mbpt::density_fit(e, space(L"x"), l, L"B"); }, [](std::wstring l) { return df(l, L"B"); }},
      {"tensor_hypercontract", [](const ExprPtr& e, std::wstring l) { return mbpt::tensor_hypercontract(e, space(L"x"), l, L"X", L"Z"); }, [](std::wstring l) { return thc(l, L"X", L"Z"); }}};
  return r;
}
void run(vf::Case& c, std::vector<TSpec> t, const NetSpaces& sp, std::vector<int> order = {}) {
  context();
  fresh = 0;
  int r1 = c.choose(2), passes = 1, r2 = 0;
  for (auto& x : t) if (x.label == L"v") passes = 2;
  if (passes == 2) r2 = c.choose(2);
  int k = t.size() < 2 ? c.pick(std::vector{0, 4, 5, 6}) : c.choose(SHAPES);
  Net n = gen_net(c, t, sp);
  c.mine();
  auto ext = n.externals();
  auto e = k == 6 ? n.tensor(0) : shape(n.factors(), n.sign, k);
  auto before = e->clone();
  c.describe(std::string(rules()[r1].name) + (passes == 2 ? std::string(" of g, then ") + rules()[r2].name + " of v" : "") + " in " + show(e));
  c.state(show(e) + char('0' + r1) + char('0' + r2));
  auto want = subst(e, rules()[r1].def(L"g"));
  ExprPtr got;
  got = rules()[r1].f(e, L"g");
  if (passes == 2) { want = subst(want, rules()[r2].def(L"v")); got = rules()[r2].f(got, L"v"); }
  c.require(*e == *before, [&] { return "the given expression was modified: " + show(e); });
  c.require(!count(got, [&](const Tensor& x) { return is2(x, L"g") || (passes == 2 && is2(x, L"v")); }), [&] { return "a tensor was not decomposed: " + show(got); });
  compare(c, got, want, ext, "the decomposition");
}
const NetSpaces small{.spaces = {L'i'}, .max_ext = 4, .traces = false};
}  // namespace
SCENARIO("one", c) {
  auto s = c.pick(std::vector{N, A}); auto b = c.pick(std::vector{bN, bS, bC});
  run(c, {{L"g", 2, 2, 0, s, b}}, {});
}
SCENARIO("one_f", c) {
  auto s = c.pick(std::vector{N, A});
  int k = c.choose(2);
  TSpec g{L"g", 2, 2, 0, s}, f{L"f", 1, 1};
  run(c, k ? std::vector<TSpec>{f, g} : std::vector<TSpec>{g, f}, {.max_ext = vf::thorough() ? 6 : 4});
}
SCENARIO("one_t", c) {
  auto s = c.pick(std::vector{N, A}); auto s2 = c.pick(std::vector{N, A});
  run(c, {{L"g", 2, 2, 0, s}, {L"t", 2, 2, 0, s2}}, {.spaces = vf::thorough() ? std::vector<wchar_t>{L'i', L'a'} : std::vector<wchar_t>{L'i'}, .max_ext = 4, .traces = false});
}
SCENARIO("other_ranks", c) {
  // tensors of the given name that are no four-index tensors stay
  int k = c.choose(4);
  std::vector<TSpec> m{{L"g", 1, 1}, {L"g", 2, 2, 1}, {L"g", 3, 3}, {L"g", 1, 1, 1}};
  bool with = c.choose(2);
  auto t = std::vector<TSpec>{m[k]};
  if (with) t.push_back({L"g", 2, 2, 0, A});
  run(c, t, {.spaces = {L'i'}, .max_ext = with ? 4 : 6, .traces = false, .min_int = with ? 1 : 0});
}
SCENARIO("two", c) {
  auto s = c.pick(std::vector{N, A});
  run(c, {{L"g", 2, 2, 0, s}, {L"g", 2, 2, 0, s}}, vf::thorough() ? NetSpaces{.spaces = {L'i', L'a'}, .max_ext = 4, .traces = false} : small);
}
SCENARIO("two_f", c) {
  auto s = c.pick(std::vector{N, A});
  int k = c.choose(3);
  std::vector<TSpec> t{{L"g", 2, 2, 0, s}, {L"g", 2, 2, 0, s}};
  t.insert(t.begin() + k, TSpec{L"f", 1, 1});
  run(c, t, {.spaces = {L'i'}, .max_ext = vf::thorough() ? 4 : 2, .traces = false});
}
SCENARIO("passes", c) {
  auto s = c.pick(std::vector{N, A});
  int k = c.choose(2);
  TSpec g{L"g", 2, 2, 0, s}, v{L"v", 2, 2, 0, s};
  run(c, k ? std::vector<TSpec>{v, g} : std::vector<TSpec>{g, v}, {.spaces = {L'i'}, .max_ext = vf::thorough() ? 4 : 2, .traces = false});
}
SCENARIO("has_aux", c) {
  // indices of the auxiliary space are in use already
  auto s = c.pick(std::vector{N, A});
  int k = c.choose(3);
  TSpec g{L"g", 2, 2, 0, s};
  std::vector<TSpec> t = k == 0 ? std::vector<TSpec>{g, {L"D", 1, 1, 1}} : k == 1 ? std::vector<TSpec>{{L"D", 1, 1, 1}, g} : std::vector<TSpec>{g, {L"D", 0, 0, 2}, {L"D", 0, 0, 1}};
  run(c, t, {.spaces = {L'i'}, .max_ext = 5, .traces = false});
}
namespace {
void run_csv(vf::Case& c, std::vector<TSpec> t, NetSpaces sp) {
  context();
  fresh = 0;
  bool pao = c.choose(2);
  int k = t.size() < 2 ? c.pick(std::vector{0, 4, 5, 6}) : c.choose(SHAPES);
  sp.protos = true;
  // the protoindices
  Net n = gen_net(c, t, sp);
  auto b = space(pao ? L"m" : L"a");
  bool any = false;
  for (std::size_t q = 0; q < n.t.size(); ++q) {
    auto x = n.tensor(int(q));
    auto& y = x->as<Tensor>();
    any |= protos(y);
    if (y.label() == L"s" && !pao && protos(y))
      for (auto* z : {&y.bra()[0], &y.ket()[0]}) if (!z->has_proto_indices() && z->space() != b) throw vf::Skip{};   // overlap with another space
  }
  if (!any) throw vf::Skip{};
  c.mine();
  auto ext = n.externals();
  auto e = k == 6 ? n.tensor(0) : shape(n.factors(), n.sign, k);
  auto before = e->clone();
  c.describe("csv_transform of " + show(e) + (pao ? " to PAOs" : " to unoccupieds"));
  c.state(show(e) + (pao ? "m" : "a"));
  auto want = subst(e, csv(b, !pao, {L"f", L"g", L"s"}));
  auto got = mbpt::csv_transform(e, b);
  c.require(*e == *before, [&] { return "the given expression was modified: " + show(e); });
  compare(c, got, want, ext, "the transformation");
}
}  // namespace
SCENARIO("csv", c) {
  int k = c.choose(4);
  auto s = c.pick(std::vector{N, A}); auto b = c.pick(std::vector{bN, bS, bC});
  TSpec T{L"t", 1, 1}, S{L"s", 1, 1};
  TSpec h{L"h", 0, 0, 0};
  if (k == 0) run_csv(c, {{L"f", 1, 1, 0, N, b}, T}, {.max_ext = 4});
  else if (k == 1) run_csv(c, {{L"t", 0, 2, 0, s}, {L"g", 2, 2, 0, s, b}}, {.spaces = {L'i'}, .max_ext = 4, .traces = false});
  else if (k == 2) run_csv(c, {T, S}, {.max_ext = 4});
  else run_csv(c, {{L"f", 1, 1, 0, N, b}, {L"g", 1, 1, 1, N, b}}, {.max_ext = 4});
}
SCENARIO("csv_overlaps", c) {
  int k = c.choose(3);
  TSpec T{L"t", 1, 1}, S{L"s", 1, 1}, O{L"o", 0, 1};
  if (k == 0) run_csv(c, {O, S, S}, {.max_ext = 4});
  else if (k == 1) run_csv(c, {O, O, S, S}, {.spaces = {L'i'}, .max_ext = 4, .traces = false});
  else run_csv(c, {O, T, S, S}, {.spaces = {L'i', L'a'}, .max_ext = vf::thorough() ? 3 : 1, .traces = false});
}
SCENARIO("passes3", c) {
  auto s = c.pick(std::vector{N, A});
  int k = c.choose(3);
  std::vector<TSpec> t(3, TSpec{L"g", 2, 2, 0, s});
  t[k].label = L"v";
  run(c, t, {.spaces = {L'i'}, .max_ext = 0, .traces = false});
}
int main(int c, char** v) { return vf::main_impl(c, v, "C23"); }
