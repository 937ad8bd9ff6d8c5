// LINK: symb
// Utilities on expressions, indices, permutations and bit sets, against their
// definitions.
#include <SeQuant/core/algorithm.hpp>
#include <SeQuant/core/expressions/expr_operators.hpp>
#include <SeQuant/core/expressions/result_expr.hpp>
#include <SeQuant/core/utility/expr.hpp>
#include <SeQuant/core/utility/indices.hpp>
#include <SeQuant/core/utility/permutation.hpp>
#include <SeQuant/core/utility/tensor.hpp>

#include "lib/gen.hpp"
using namespace orc;
namespace {
constexpr auto N = Symmetry::Nonsymm;
using Flat = Product::Flatten;
using Set = std::set<std::string>;
std::string ikey(const Index& i) { return u8(i.full_label()); }
ExprPtr prod(Constant::scalar_type s, std::vector<ExprPtr> f) { return ex<Product>(s, f, Flat::No); }
ExprPtr sum(std::vector<ExprPtr> f) { return ex<Sum>(f.begin(), f.end()); }
const std::vector<Index>& pool() {
  static std::vector<Index> p;
  p = {Index(L"i_1"), Index(L"a_1"), Index(L"i_2"), Index(L"a_2"), Index(L"i_3"), Index(L"a_3")};
  p.push_back(Index(L"a_4", std::vector{p[0]}));
  return p;
}
struct Use { std::map<std::string, int> b, k, a, p; std::map<std::string, Index> ix; int total(const std::string& s) const { auto g = [&](auto& m) { auto it = m.find(s); return it == m.end() ? 0 : it->second; }; return g(b) + g(k) + g(a); } };
void use(const Tensor& t, Use& u) {
  auto add = [&](const Index& i, auto& m) { if (!i.nonnull()) return; m[ikey(i)]++; u.ix.emplace(ikey(i), i); for (auto& q : i.proto_indices()) u.p[ikey(q)]++, u.ix.emplace(ikey(q), q); };
  for (auto& i : t.bra()) add(i, u.b);
  for (auto& i : t.ket()) add(i, u.k);
  for (auto& i : t.aux()) add(i, u.a);
}
Set once(const Use& u, const std::map<std::string, int>& m) { Set s; for (auto& [i, n] : m) if (u.total(i) == 1) s.insert(i); return s; }
template <class C> std::vector<std::string> keys(const C& c) { std::vector<std::string> s; for (auto& i : c) s.push_back(i.nonnull() ? ikey(i) : "null"); return s; }
template <class C> bool same(const C& c, const Set& s) { auto k = keys(c); return Set(k.begin(), k.end()) == s && k.size() == s.size(); }
std::string show(const IndexGroups<>& g) { std::string s = "{"; for (auto& x : keys(g.bra)) s += x + " "; s += ";"; for (auto& x : keys(g.ket)) s += x + " "; s += ";"; for (auto& x : keys(g.aux)) s += x + " "; return s + "}"; }
struct TS { int b, k, a; };
/// every labelling of the slots with the pool's indices (up to the order in which they are first used per space)
std::vector<ExprPtr> labelled(vf::Case& c, const std::vector<TS>& t, int most, bool nulls, Use& u, int npool) {
  std::map<std::string, int> n;
  std::vector<ExprPtr> r;
  auto& p = pool();
  int first = 0;
  for (auto& s : t) {
    std::vector<Index> v;
    for (int j = 0; j < s.b + s.k + s.a; ++j) {
      std::vector<Index> can;
      for (int q = 0; q < npool; ++q) {
        if (q < 6 && q > first + 1) continue;   // new indices in order
        if (n[ikey(p[q])] < most) can.push_back(p[q]);
      }
      bool braket = j < s.b + s.k;
      int ch = c.choose(int(can.size()) + (nulls && braket ? 1 : 0));
      if (ch == int(can.size())) { v.push_back(Index{}); continue; }
      v.push_back(can[ch]);
      n[ikey(can[ch])]++;
      for (int q = 0; q < 6; ++q) if (p[q] == can[ch]) first = std::max(first, q + 1);
    }
    for (int z : {0, 1, 2}) {   // no repetition within bra, ket or aux
      auto f = v.begin() + (z == 0 ? 0 : z == 1 ? s.b : s.b + s.k), l = z == 0 ? v.begin() + s.b : z == 1 ? v.begin() + s.b + s.k : v.end();
      for (auto i = f; i != l; ++i) for (auto j = i + 1; j != l; ++j) if (i->nonnull() && *i == *j) throw vf::Skip{};
    }
    auto b = std::vector<Index>(v.begin(), v.begin() + s.b), k = std::vector<Index>(v.begin() + s.b, v.begin() + s.b + s.k), a = std::vector<Index>(v.begin() + s.b + s.k, v.end());
    for (int q = 0; q < s.b && q < s.k; ++q) if (!b[q].nonnull() && !k[q].nonnull()) throw vf::Skip{};
    for (int q = s.k; q < s.b; ++q) if (!b[q].nonnull()) throw vf::Skip{};
    for (int q = s.b; q < s.k; ++q) if (!k[q].nonnull()) throw vf::Skip{};
    r.push_back(ex<Tensor>(std::wstring(1, L"tfgh"[r.size()]), bra(b), ket(k), aux(a), N, BraKetSymmetry::Nonsymm, nulls ? ColumnSymmetry::Symm : ColumnSymmetry::Nonsymm));
    use(r.back()->as<Tensor>(), u);
  }
  return r;
}
constexpr int SHAPES = 6;
ExprPtr shape(const std::vector<ExprPtr>& f, int k) {
  auto all = [&](Constant::scalar_type s) { std::vector<ExprPtr> g; for (auto& x : f) g.push_back(x->clone()); return prod(s, g); };
  switch (k) {
    case 0: return f.size() == 1 ? f[0]->clone() : all(1);
    case 1: return all(rational(-1, 2));
    case 2: { auto g = f; g.insert(g.begin(), ex<Variable>(L"v")); return prod(1, g); }
    case 3: return sum({all(1), all(2)});
    case 4: { std::vector<ExprPtr> g{f[0]}, h(f.begin() + 1, f.end()); g.push_back(prod(3, h)); return prod(1, g); }
    default: { std::vector<ExprPtr> g(f.begin(), f.end() - 1); g.push_back(sum({f.back(), prod(2, {f.back()->clone()})})); return prod(1, g); }
  }
}
std::vector<TS> ranks(int k) {
  static const std::vector<std::vector<TS>> v{{{1, 1, 0}}, {{2, 2, 0}}, {{1, 0, 2}}, {{1, 2, 1}}, {{1, 1, 0}, {1, 1, 0}}, {{1, 1, 1}, {0, 1, 1}}, {{2, 1, 0}, {1, 2, 0}}, {{1, 1, 0}, {0, 0, 2}, {1, 1, 0}}};
  return v[k];
}
void groups(vf::Case& c, const ExprPtr& e, const Use& u, int mult) {
  auto g = get_unique_indices(e);
  auto B = once(u, u.b), K = once(u, u.k), A = once(u, u.a);
  c.step();
  c.require(same(g.bra, B) && same(g.ket, K) && same(g.aux, A), [&] { return "get_unique_indices gives " + show(g); });
  auto ext = external_indices(e);
  std::vector<std::string> b, k, a;
  for (auto& grp : ext) {
    int nb = 0, nk = 0, na = 0;
    for (auto& s : grp) {
      auto x = s.index().nonnull() ? ikey(s.index()) : "null";
      if (s.slot_type() == SlotType::Bra) b.push_back(x), ++nb;
      else if (s.slot_type() == SlotType::Ket) k.push_back(x), ++nk;
      else a.push_back(x), ++na;
    }
    c.require(nb <= 1 && nk <= 1 && (na == 0 || (na == 1 && nb + nk == 0)) && nb + nk + na > 0, "a group of external indices is no column");
  }
  if (!e->is<Tensor>()) {
    c.require(Set(b.begin(), b.end()) == B && Set(k.begin(), k.end()) == K && Set(a.begin(), a.end()) == A && b.size() + k.size() + a.size() == B.size() + K.size() + A.size(), "external_indices gives other indices");
  }
  auto cnt = get_used_indices_with_counts(e);
  auto get = [](const std::map<std::string, int>& m, const std::string& s) { auto it = m.find(s); return it == m.end() ? 0 : it->second; };
  c.require(cnt.size() == u.ix.size(), [&] { return "get_used_indices_with_counts gives " + std::to_string(cnt.size()) + " indices instead of " + std::to_string(u.ix.size()); });
  for (auto& [s, i] : u.ix) {
    auto it = cnt.find(i);
    c.require(it != cnt.end(), [&, s = s] { return "get_used_indices_with_counts lacks " + s; });
    auto& n = it->second;
    if (mult) c.require(n.bra == mult * get(u.b, s) && n.ket == mult * get(u.k, s) && n.aux == mult * get(u.a, s) && n.proto == mult * get(u.p, s) && n.total() == n.nonproto() + n.proto, [&, s = s] { return "get_used_indices_with_counts: wrong counts of " + s; });
  }
  auto used = get_used_indices(e);
  Set all;
  for (auto& [s, i] : u.ix) all.insert(s);
  c.require(same(used, all), "get_used_indices gives other indices");
}
}  // namespace
SCENARIO("groups", c) {
  use_context(Vacuum::Physical);
  int r = c.choose(8);
  auto t = ranks(r);
  int s = c.choose(t.size() > 1 ? SHAPES : 4);
  Use u;
  auto f = labelled(c, t, 2, false, u, vf::thorough() ? 7 : t.size() > 2 ? 4 : 5);
  c.mine();
  auto e = shape(f, s);
  c.describe(orc::show(e));
  c.state(orc::show(e));
  groups(c, e, u, s == 3 ? 2 : s == 5 ? 0 : 1);
  std::string msg = "-";
  c.require(is_valid(e, &msg) && msg == "-", [&] { return "a valid expression is rejected: " + msg; });
  // results
  auto B = once(u, u.b), K = once(u, u.k), A = once(u, u.a);
  auto list = [&](const Set& x) { std::vector<Index> v; for (auto& i : x) v.push_back(u.ix.at(i)); return v; };
  auto b = list(B), k = list(K), a = list(A);
  auto result = [&] { return ResultExpr(bra(b), ket(k), aux(a), N, BraKetSymmetry::Nonsymm, ColumnSymmetry::Nonsymm, L"R", e->clone()); };
  bool rev = false;
  do {
    if (rev) std::reverse(b.begin(), b.end()), std::reverse(k.begin(), k.end()), std::reverse(a.begin(), a.end());
    auto x = result();
    c.require(is_valid(x), "a valid result is rejected");
    c.require(x.expression() == e, "is_valid changes the expression");
    rev = !rev;
  } while (rev);
  for (auto* v : {&b, &k, &a}) {
    auto keep = *v;
    if (!v->empty()) { v->pop_back(); c.require(!is_valid(result()), "a result that lacks an index is accepted"); }
    *v = keep;
    v->push_back(Index(L"i_9"));
    c.require(!is_valid(result()), "a result with an index that is not external is accepted");
    *v = keep;
  }
  if (b.size() && !k.size()) { std::swap(b, k); c.require(!is_valid(result()), "a result with a ket index instead of a bra index is accepted"); }
  if (t.size() == 2) {
    // contraction of two tensors: bra with ket, aux with aux
    bool ok = true;
    Use u0, u1;
    use(f[0]->as<Tensor>(), u0);
    use(f[1]->as<Tensor>(), u1);
    for (auto& [x, i] : u.ix) {
      if (u0.total(x) > 1 || u1.total(x) > 1) ok = false;
      if (u0.total(x) && u1.total(x) && !((u0.b.count(x) && u1.k.count(x)) || (u0.k.count(x) && u1.b.count(x)) || (u0.a.count(x) && u1.a.count(x)))) ok = false;
    }
    if (ok) {
      auto g = get_uncontracted_indices(f[0]->as<Tensor>(), f[1]->as<Tensor>());
      c.require(same(g.bra, B) && same(g.ket, K) && same(g.aux, A), "get_uncontracted_indices gives other indices");
    }
  }
  c.outcome(orc::show(e));
}
SCENARIO("null_slots", c) {
  use_context(Vacuum::Physical);
  static const std::vector<std::vector<TS>> v{{{1, 1, 0}}, {{2, 2, 0}}, {{1, 2, 0}}, {{2, 2, 0}, {1, 1, 0}}};
  auto t = v[c.choose(4)];
  int s = c.choose(4);
  Use u;
  auto f = labelled(c, t, 2, true, u, 4);
  c.mine();
  auto e = shape(f, s);
  c.describe(orc::show(e));
  c.state(orc::show(e));
  auto g = get_unique_indices(e);
  c.step();
  c.require(same(g.bra, once(u, u.b)) && same(g.ket, once(u, u.k)) && same(g.aux, once(u, u.a)), [&] { return "get_unique_indices gives " + show(g); });
  Set all;
  for (auto& [x, i] : u.ix) all.insert(x);
  c.require(same(get_used_indices(e), all), "get_used_indices gives other indices");
  c.require(is_valid(e), "a valid expression is rejected");
  c.outcome(show(g));
}
SCENARIO("invalid", c) {
  // an index is used three times, or summands have different external indices
  use_context(Vacuum::Physical);
  static const std::vector<std::vector<TS>> v{{{1, 1, 0}, {1, 1, 0}}, {{1, 0, 0}, {0, 1, 0}, {1, 0, 0}}, {{1, 1, 1}, {0, 1, 1}}, {{0, 0, 1}, {0, 0, 2}}};
  auto t = v[c.choose(4)];
  int s = c.choose(3);
  bool in_sum = c.choose(2);
  Use u;
  auto f = labelled(c, t, 4, false, u, 3);
  c.mine();
  bool valid = true;
  for (auto& [x, i] : u.ix) valid &= u.total(x) <= 2;
  auto e = shape(f, s);
  if (in_sum) e = sum({e, prod(2, {e->clone()})});
  c.describe(orc::show(e));
  c.state(orc::show(e));
  std::string msg;
  c.step();
  c.require(is_valid(e, &msg) == valid, [&] { return valid ? "a valid expression is rejected: " + msg : std::string("an expression that uses an index more than twice is accepted"); });
  c.require(msg.empty() == valid, "no explanation");
  c.outcome(msg);
}
SCENARIO("invalid_sum", c) {
  use_context(Vacuum::Physical);
  static const std::vector<TS> r{{1, 1, 0}, {1, 0, 1}, {2, 1, 0}, {0, 2, 0}};
  Use u, w;
  int k1 = c.choose(4), k2 = c.choose(4);
  int third = c.choose(3);
  auto f = labelled(c, {r[k1]}, 2, false, u, 4);
  auto g = labelled(c, {r[k2]}, 2, false, w, 4);
  c.mine();
  std::vector<ExprPtr> l{f[0], g[0]};
  if (third) l.insert(third == 1 ? l.begin() : l.begin() + 1, l[0]->clone());
  auto e = sum(l);
  c.describe(orc::show(e));
  c.state(orc::show(e));
  bool valid = once(u, u.b) == once(w, w.b) && once(u, u.k) == once(w, w.k) && once(u, u.a) == once(w, w.a);
  c.step();
  c.require(is_valid(e) == valid && is_valid(prod(2, {ex<Variable>(L"v"), e->clone()})) == valid, valid ? "a valid sum is rejected" : "a sum whose summands have different external indices is accepted");
  c.outcome(valid ? "valid" : "invalid");
}
namespace {
/// rebuilds e with f applied to the atoms
ExprPtr atoms(const ExprPtr& e, const std::function<ExprPtr(const ExprPtr&)>& f) {
  if (e->is<Sum>()) { std::vector<ExprPtr> l; for (auto& x : *e) l.push_back(atoms(x, f)); return sum(l); }
  if (e->is<Product>()) { std::vector<ExprPtr> l; for (auto& x : *e) l.push_back(atoms(x, f)); return prod(e->as<Product>().scalar(), l); }
  return f(e);
}
ExprPtr reindex(const Tensor& t, const std::function<Index(const Index&)>& f) {
  std::vector<Index> b, k, a;
  for (auto& i : t.bra()) b.push_back(f(i));
  for (auto& i : t.ket()) k.push_back(f(i));
  for (auto& i : t.aux()) a.push_back(f(i));
  return ex<Tensor>(std::wstring(t.label()), bra(b), ket(k), aux(a), t.symmetry(), t.braket_symmetry(), t.column_symmetry());
}
using IMap = std::map<std::string, Index>;
Index mapped(const Index& i, const IMap& m) {
  auto it = m.find(ikey(i));
  if (it != m.end()) return it->second;
  if (!i.has_proto_indices()) return i;
  std::vector<Index> p;
  for (auto& q : i.proto_indices()) p.push_back(mapped(q, m));
  return Index(std::wstring(i.label()), p);
}
/// products flattened, scalars collected
struct Term { Constant::scalar_type s{1}; std::vector<std::string> f; bool operator==(const Term&) const = default; };
std::vector<Term> terms(const ExprPtr& e) {
  if (e->is<Constant>()) return {{e->as<Constant>().value(), {}}};
  if (e->is<Sum>()) { std::vector<Term> r; for (auto& x : *e) for (auto& t : terms(x)) r.push_back(t); return r; }
  if (e->is<Product>()) {
    std::vector<Term> r{{e->as<Product>().scalar(), {}}};
    for (auto& x : *e) {
      std::vector<Term> n;
      for (auto& t : r) for (auto& y : terms(x)) { auto z = t; z.s *= y.s; z.f.insert(z.f.end(), y.f.begin(), y.f.end()); n.push_back(z); }
      r = n;
    }
    return r;
  }
  return {{1, {orc::show(e)}}};
}
}  // namespace
SCENARIO("replace", c) {
  use_context(Vacuum::Physical);
  auto p = pool();
  bool block = c.choose(2);
  int tk = c.choose(4), rk = c.choose(5), s = c.choose(7), pre = c.choose(2);
  // the target
  auto T = [&](std::wstring l, std::vector<Index> b, std::vector<Index> k) { return ex<Tensor>(l, bra(b), ket(k), aux(IndexList{}), N); };
  std::vector<Index> ti;
  ExprPtr target;
  if (tk == 0) ti = {p[1], p[0]}, target = T(L"t", {p[1]}, {p[0]});
  else if (tk == 1) ti = {p[1], p[3], p[0], p[2]}, target = T(L"t", {p[1], p[3]}, {p[0], p[2]});
  else if (tk == 2) ti = {p[1], p[3]}, target = T(L"t", {p[1]}, {p[3]});
  else target = ex<Variable>(L"v");
  auto X = Index(L"i_7");
  ExprPtr repl;
  if (tk == 3) {
    if (rk == 0) repl = ex<Variable>(L"w");
    else if (rk == 1) repl = ex<Constant>(2);
    else if (rk == 2) repl = prod(2, {ex<Variable>(L"w"), ex<Variable>(L"v")});
    else if (rk == 3) repl = sum({ex<Variable>(L"v"), ex<Variable>(L"w")});
    else repl = T(L"r", {}, {X});
  } else {
    auto rev = ti;
    std::reverse(rev.begin(), rev.end());
    if (rk == 0) repl = T(L"r", {ti[0]}, {ti[1]});
    else if (rk == 1) repl = T(L"r", rev, {});
    else if (rk == 2) repl = T(L"r", {ti[0]}, {X});
    else if (rk == 3) repl = prod(2, {T(L"r", {ti[0]}, {X}), T(L"q", {X}, {ti[1]})});
    else repl = sum({T(L"t", {ti[0]}, {ti[1]}), T(L"r", {ti[1]}, {ti[0]})});
  }
  // the expression: tensors t with other indices
  Use u;
  static const std::vector<TS> sh{{1, 1, 0}, {2, 2, 0}, {1, 1, 0}, {1, 1, 0}};
  std::vector<TS> two{sh[tk], {1, 1, 0}};
  bool second_t = c.choose(2);
  auto f = labelled(c, two, 2, false, u, tk == 1 ? 4 : 5);
  c.mine();
  if (second_t) f[1] = ex<Tensor>(L"t", bra(f[1]->as<Tensor>().bra()), ket(f[1]->as<Tensor>().ket()), aux(IndexList{}), N, BraKetSymmetry::Nonsymm, ColumnSymmetry::Nonsymm);
  // same symmetries as the target
  for (auto& x : f) x = ex<Tensor>(std::wstring(x->as<Tensor>().label()), bra(x->as<Tensor>().bra()), ket(x->as<Tensor>().ket()), aux(IndexList{}), N);
  auto e = s == 6 ? f[0] : shape(f, s);
  if (tk == 3 && s == 6) e = ex<Variable>(L"v");
  auto match = [&](const ExprPtr& x) {
    if (tk == 3) return x->is<Variable>() && x->as<Variable>().label() == L"v";
    if (!x->is<Tensor>()) return false;
    auto& a = x->as<Tensor>();
    auto& b = target->as<Tensor>();
    if (!block) return ikey(a.bra()[0]) == ikey(b.bra()[0]) && orc::show(x) == orc::show(target);
    if (a.label() != b.label() || a.num_slots() != b.num_slots()) return false;
    std::size_t n = 0;
    for (auto& i : a.slots()) if (i.space() != ti[n++].space()) return false;
    return true;
  };
  int hits = 0;
  auto want = atoms(e, [&](const ExprPtr& x) -> ExprPtr {
    if (!match(x)) return x->clone();
    ++hits;
    if (tk == 3) return repl->clone();
    IMap m;
    std::size_t n = 0;
    Set distinct;
    for (auto& i : x->as<Tensor>().slots()) m.emplace(ikey(ti[n]), i), ++n, distinct.insert(ikey(i));
    if (distinct.size() < n) throw vf::Skip{};   // a trace
    return atoms(repl, [&](const ExprPtr& y) { return y->is<Tensor>() ? reindex(y->as<Tensor>(), [&](const Index& i) { return mapped(i, m); }) : y->clone(); });
  });
  auto before = orc::show(e);
  auto rb = repl->clone();
  c.describe("replace " + orc::show(target) + " by " + orc::show(repl) + " in " + before + (block ? " (blocks)" : ""));
  c.state(before + orc::show(target) + orc::show(repl) + (block ? "b" : "e"));
  if (pre) { auto look = [](const ExprPtr& y) { (void)y->hash_value(); }; e->visit(look); (void)e->hash_value(); }
  auto copy = e->clone();
  c.step();
  if (block) replace<TensorBlockEqualComparator>(e, target, repl);
  else replace(e, target, repl);
  c.require(terms(e) == terms(want), [&] { return "the result is " + orc::show(e) + " instead of " + orc::show(want); });
  auto anew = atoms(e, [](const ExprPtr& x) { return x->clone(); });
  std::function<bool(const ExprPtr&)> nested = [&](const ExprPtr& x) { if (x->is_atom()) return false; for (auto& y : *x) if ((x->is<Sum>() && y->is<Sum>()) || nested(y)) return true; return false; };
  if (!nested(e) && !repl->is<Constant>()) c.require(*anew == *e && anew->hash_value() == e->hash_value(), "the result is not equal to the same expression built anew");
  c.require(orc::show(copy) == before && *repl == *rb, "a copy or the replacement was changed");
  c.outcome(std::to_string(hits) + orc::show(e));
}
SCENARIO("transform", c) {
  use_context(Vacuum::Physical);
  auto p = pool();
  int r = c.pick(std::vector{0, 1, 4, 5});
  auto t = ranks(r);
  int s = c.choose(t.size() > 1 ? SHAPES : 4);
  // images of i1, i2, a1 (0: not in the map)
  int m1 = c.choose(4), m2 = c.choose(4), m3 = c.choose(3), sc = c.choose(3);
  IMap m;
  container::map<Index, Index> rep;
  auto put = [&](const Index& k, const Index& v) { m.emplace(ikey(k), v); rep.emplace(k, v); };
  if (m1) put(p[0], m1 == 1 ? p[2] : m1 == 2 ? p[4] : Index(L"i_8"));
  if (m2) put(p[2], m2 == 1 ? p[0] : m2 == 2 ? p[4] : Index(L"i_8"));
  if (m3) put(p[1], m3 == 1 ? p[3] : Index(L"a_8"));
  Use u;
  auto f = labelled(c, t, 2, false, u, vf::thorough() ? 7 : t.size() > 1 ? 4 : 7);
  c.mine();
  // no clash between the results
  {
    std::map<std::string, std::string> img;
    for (auto& [x, i] : u.ix) { auto y = ikey(mapped(i, m)); if (!img.emplace(y, x).second) throw vf::Skip{}; }
  }
  auto e = shape(f, s);
  Constant::scalar_type k = sc == 0 ? Constant::scalar_type(1) : sc == 1 ? Constant::scalar_type(rational(-1, 2)) : Constant::scalar_type(0, 2);
  auto want = prod(k, {atoms(e, [&](const ExprPtr& x) { return x->is<Tensor>() ? reindex(x->as<Tensor>(), [&](const Index& i) { return mapped(i, m); }) : x->clone(); })});
  std::string d = "transform_expr " + orc::show(e) + " by";
  for (auto& [a, b] : m) d += " " + a + "->" + ikey(b);
  c.describe(d + " times " + orc::show(ex<Constant>(k)));
  c.state(d + std::to_string(sc));
  auto before = e->clone();
  ExprPtr got;
  bool refused = false;
  c.step();
  try { got = transform_expr(e, rep, k); } catch (sequant::Exception&) { refused = true; }
  c.require(!refused || s >= 4, "the expression is refused");
  c.require(*e == *before, "the given expression was changed");
  if (!refused) c.require(terms(got) == terms(want), [&] { return "the result is " + orc::show(got) + " instead of " + orc::show(want); });
  c.outcome(refused ? "refused" : orc::show(got));
}
namespace {
std::vector<ExprPtr> zoo() {
  auto p = pool();
  auto T = [&](std::wstring l, std::vector<Index> b, std::vector<Index> k, std::vector<Index> a = {}, Symmetry s = N, BraKetSymmetry bk = BraKetSymmetry::Nonsymm, ColumnSymmetry cs = ColumnSymmetry::Symm) { return ex<Tensor>(l, bra(b), ket(k), aux(a), s, bk, cs); };
  auto t = [&] { return T(L"t", {p[1]}, {p[0]}); };
  auto v = [] { return ex<Variable>(L"v"); };
  auto w = [] { return ex<Variable>(L"w"); };
  auto vc = ex<Variable>(L"v");
  vc->as<Variable>().conjugate();
  std::vector<ExprPtr> z{
      ex<Constant>(1), ex<Constant>(2), ex<Constant>(rational(1, 2)), ex<Constant>(Complex<rational>(0, 1)), ex<Constant>(Complex<rational>(1, -1)),
      v(), w(), vc, t(), T(L"f", {p[1]}, {p[0]}), T(L"t", {p[3]}, {p[0]}), T(L"t", {p[1]}, {p[2]}), T(L"t", {p[0]}, {p[1]}),
      T(L"t", {p[1]}, {p[0]}, {p[2]}), T(L"t", {p[1]}, {p[0]}, {p[4]}), T(L"t", {p[1], p[3]}, {p[0], p[2]}), T(L"t", {p[1], p[3]}, {p[0], p[2]}, {}, Symmetry::Antisymm), T(L"t", {p[1], p[3]}, {p[0], p[2]}, {}, N, BraKetSymmetry::Symm),
      T(L"t", {p[1], p[3]}, {p[0], p[2]}, {}, N, BraKetSymmetry::Nonsymm, ColumnSymmetry::Nonsymm), T(L"t", {p[1], p[3]}, {p[2], p[0]}), T(L"t", {p[6]}, {p[0]}), T(L"t", {Index(L"a_4")}, {p[0]}), T(L"t", {Index(L"a_4", std::vector{p[2]})}, {p[0]}),
      T(L"t", {p[1], Index{}}, {p[0], p[2]}), T(L"t", {p[1]}, {p[0], p[2]})};
  auto add = [&](ExprPtr e) { z.push_back(e); };
  add(prod(1, {t(), v()})); add(prod(2, {t(), v()})); add(prod(1, {v(), t()})); add(prod(1, {t()})); add(prod(2, {t()})); add(prod(1, {t(), v(), w()})); add(prod(1, {t(), v(), v()})); add(prod(1, {t(), w()}));
  add(prod(2, {})); add(prod(1, {prod(2, {t()}), v()})); add(prod(1, {sum({t(), v()}), v()})); add(prod(1, {sum({t(), w()}), v()}));
  add(sum({t(), v()})); add(sum({v(), t()})); add(sum({t(), v(), w()})); add(sum({t()})); add(sum({t(), w()})); add(sum({prod(2, {t()}), v()})); add(sum({prod(3, {t()}), v()})); add(sum({prod(2, {t(), v()}), v()})); add(ex<Sum>());
  return z;
}
}  // namespace
SCENARIO("diff", c) {
  use_context(Vacuum::Physical);
  auto z = zoo();
  auto a = z[c.choose(int(z.size()))];
  c.mine();
  auto b = z[c.choose(int(z.size()))]->clone();
  c.describe(orc::show(a) + " against " + orc::show(b));
  c.state(orc::show(a) + "|" + orc::show(b));
  auto d = diff(*a, *b);
  c.step();
  bool eq = *a == *b;
  c.require(d.empty() == eq, [&] { return eq ? "diff of equal expressions: " + d : std::string("no diff of different expressions"); });
  c.outcome(eq ? "equal" : "different");
}
SCENARIO("pop", c) {
  use_context(Vacuum::Physical);
  auto p = pool();
  auto A = [&] { return ex<Tensor>(L"A", bra({p[0]}), ket({p[1]}), aux(IndexList{}), Symmetry::Antisymm); };
  auto t = ex<Tensor>(L"t", bra({p[1]}), ket({p[0]}), aux(IndexList{}));
  auto f = ex<Tensor>(L"f", bra({p[1]}), ket({p[2]}), aux(IndexList{}));
  auto g = ex<Tensor>(L"g", bra({p[2]}), ket({p[0]}), aux(IndexList{}));
  int terms_n = 1 + c.choose(2);
  bool with = c.choose(3) > 0;
  auto make = [&](bool w) {
    int k = c.choose(5), pos = c.choose(3), sc = c.choose(3);
    std::vector<ExprPtr> l{f->clone(), g->clone()};
    if (k == 1) l = {t->clone()};
    if (k == 2) l = {f->clone(), g->clone(), ex<Variable>(L"v")};
    if (k == 3) l = {sum({t->clone(), prod(2, {f->clone(), g->clone()})})};
    if (pos > int(l.size())) throw vf::Skip{};
    if (w && k != 4) l.insert(l.begin() + pos, A());
    if (k == 4) { if (pos) throw vf::Skip{}; l = w ? std::vector<ExprPtr>{prod(3, {A(), t->clone()}), ex<Variable>(L"v")} : std::vector<ExprPtr>{prod(3, {t->clone()}), ex<Variable>(L"v")}; }
    return prod(sc == 0 ? rational(1) : sc == 1 ? rational(2) : rational(-1, 2), l);
  };
  std::vector<ExprPtr> l, w;
  for (int k = 0; k < terms_n; ++k) l.push_back(make(with));
  c.mine();
  auto strip = [&](const ExprPtr& e) {
    auto r = terms(e);
    for (auto& x : r) std::erase(x.f, orc::show(A()));
    return r;
  };
  auto e = terms_n == 1 ? l[0] : sum(l);
  auto want = strip(e);
  c.describe("pop A from " + orc::show(e));
  c.state(orc::show(e));
  auto got = pop_tensor(e, L"A");
  c.step();
  c.require(got.has_value() == with && (!with || **got == *A()), "the tensor returned is another one");
  c.require(terms(e) == want, [&] { return "the result is " + orc::show(e); });
  c.require(!pop_tensor(e, L"A"), "the tensor is still there");
  c.require(terms(e) == want, [&] { return "the result of a second call is " + orc::show(e); });
  c.outcome(orc::show(e));
}
namespace {
std::vector<Tensor> blocks() {
  auto p = pool();
  std::vector<Tensor> r;
  for (auto& l : {L"t", L"f"})
    for (auto& s : std::vector<std::array<std::vector<Index>, 3>>{{{{p[0]}, {p[1]}, {}}}, {{{p[2]}, {p[1]}, {}}}, {{{p[2]}, {p[3]}, {}}}, {{{p[1]}, {p[0]}, {}}}, {{{p[0]}, {p[2]}, {}}}, {{{p[0], p[1]}, {}, {}}}, {{{p[0]}, {}, {p[1]}}}, {{{p[0], p[2]}, {p[1]}, {}}}, {{{p[0]}, {}, {}}}, {{{p[1], Index{}}, {p[0], p[2]}, {}}}, {{{p[6]}, {p[1]}, {}}}})
      r.emplace_back(l, bra(s[0]), ket(s[1]), aux(s[2]), N);
  return r;
}
template <class Eq, class Lt> void order_axioms(vf::Case& c, const Eq& eq, const Lt& lt, const std::vector<Tensor>& t, int a, int b, const std::string& n) {
  bool e = eq(t[a], t[b]), l = lt(t[a], t[b]), g = lt(t[b], t[a]);
  c.step();
  c.require(int(e) + int(l) + int(g) == 1, [&] { return n + ": not exactly one of ==, <, >"; });
  c.require(e == eq(t[b], t[a]), [&] { return n + ": == is not symmetric"; });
  auto x = ex<Tensor>(t[a]), y = ex<Tensor>(t[b]);
  c.require(eq(x, y) == e && lt(x, y) == l && eq(*x, *y) == e && lt(*x, *y) == l, [&] { return n + ": other result for expressions"; });
  for (std::size_t k = 0; k < t.size(); ++k) {
    c.require(!(l && lt(t[b], t[k])) || lt(t[a], t[k]), [&] { return n + ": < is not transitive with " + orc::show(ex<Tensor>(t[k])); });
    c.require(!e || (eq(t[b], t[k]) == eq(t[a], t[k]) && lt(t[b], t[k]) == lt(t[a], t[k]) && lt(t[k], t[b]) == lt(t[k], t[a])), [&] { return n + ": equal tensors compare differently with " + orc::show(ex<Tensor>(t[k])); });
  }
}
}  // namespace
SCENARIO("comparators", c) {
  use_context(Vacuum::Physical);
  auto p = pool();
  auto t = blocks();
  int list = c.choose(5);
  int a = c.choose(int(t.size()));
  c.mine();
  int b = c.choose(int(t.size()));
  auto d = orc::show(ex<Tensor>(t[a])) + " against " + orc::show(ex<Tensor>(t[b])) + " list " + std::to_string(list);
  c.describe(d);
  c.state(d);
  auto sp = [](const Tensor& x) { std::string s = std::string(1, char(x.label()[0])); s += std::to_string(x.num_slots()); for (auto i : x.indices()) s += u8(i.space().base_key()); return s; };
  bool e = sp(t[a]) == sp(t[b]);
  if (list == 0) {
    TensorBlockEqualComparator eq;
    c.require(eq(t[a], t[b]) == e, "block equality is wrong");
    order_axioms(c, eq, TensorBlockLessThanComparator{}, t, a, b, "blocks");
  } else {
    std::vector<Index> l = list == 1 ? std::vector<Index>{} : list == 2 ? std::vector<Index>{p[0]} : list == 3 ? std::vector<Index>{p[2], p[0]} : std::vector<Index>{p[0], p[3], p[2]};
    IndexSpecificTensorBlockEqualComparator eq(l);
    auto pos = [&](const Tensor& x) { std::string s = sp(x); for (auto i : x.indices()) s += std::to_string(std::find(l.begin(), l.end(), i) - l.begin()); return s; };
    c.require(eq(t[a], t[b]) == (pos(t[a]) == pos(t[b])), "index-specific block equality is wrong");
    order_axioms(c, eq, IndexSpecificTensorBlockLessThanComparator(l), t, a, b, "index-specific blocks");
  }
  c.outcome(e ? "equal" : "different");
}
namespace {
struct W { int x; static inline long swaps = 0; friend bool operator<(const W& a, const W& b) { return a.x < b.x; } friend void swap(W& a, W& b) { std::swap(a.x, b.x); ++swaps; } };
int inversions(const std::vector<int>& v) { int n = 0; for (std::size_t i = 0; i < v.size(); ++i) for (std::size_t j = i + 1; j < v.size(); ++j) n += v[i] > v[j]; return n; }
std::string lst(const std::vector<int>& v) { std::string s; for (int x : v) s += std::to_string(x) + " "; return s; }
}  // namespace
SCENARIO("permutations", c) {
  int n = 1 + c.choose(vf::thorough() ? 7 : 6);
  std::vector<int> v;
  for (int k = 0; k < n; ++k) v.push_back(k);
  for (int k = 0; k < n; ++k) std::swap(v[k], v[k + c.choose(n - k)]);
  c.mine();
  c.describe("permutation " + lst(v));
  c.state(lst(v));
  int par = inversions(v) % 2;
  c.step();
  auto q = v;
  c.require(permutation_parity(std::span<int>(q)) == (par ? -1 : 1), "permutation_parity is wrong");
  c.require(q == v, "permutation_parity does not restore its argument");
  for (int p0 : {0, 1}) {
    auto a = v, b = v;
    int p = (par + p0) % 2;
    bool more = next_permutation_parity(p, a.begin(), a.end());
    bool ref = std::next_permutation(b.begin(), b.end());
    c.require(more == ref, "next_permutation_parity: wrong return value");
    if (n > 1) {
      c.require(a == b, [&] { return "next_permutation_parity gives " + lst(a); });
      c.require(p == (inversions(a) + p0) % 2, [&] { return "next_permutation_parity: wrong parity of " + lst(a); });
    }
  }
  {
    std::vector<W> w;
    for (int x : v) w.push_back({x});
    W::swaps = 0;
    bubble_sort(w.begin(), w.end());
    for (int k = 0; k < n; ++k) c.require(w[k].x == k, "bubble_sort does not sort");
    c.require(W::swaps == inversions(v), "bubble_sort: wrong number of transpositions");
    auto d = v;
    bubble_sort(d.begin(), d.end(), std::greater<>{});
    c.require(std::is_sorted(d.rbegin(), d.rend()), "bubble_sort does not sort in descending order");
  }
  {
    auto w = v;
    for (auto& x : w) x /= 2;
    std::vector<int> from = w;
    bubble_sort(w.begin(), w.end());
    c.require(std::is_sorted(w.begin(), w.end()) && std::is_permutation(w.begin(), w.end(), from.begin()), "bubble_sort does not sort equal elements");
  }
  // columns (0, v0), (1, v1), ...
  std::vector<int> id(n), seen(n, 0);
  for (int k = 0; k < n; ++k) id[k] = k;
  std::size_t cyc = 0;
  for (int k = 0; k < n; ++k) if (!seen[k]) { ++cyc; for (int z = k; !seen[z]; z = v[z]) seen[z] = 1; }
  c.require(count_cycles(id, v) == cyc && count_cycles(v, id) == cyc, "count_cycles is wrong");
  c.outcome(std::to_string(cyc));
}
SCENARIO("loops", c) {
  // both occurrences of a value may be in the same row
  int n = 1 + c.choose(vf::thorough() ? 6 : 5);
  std::vector<int> row[2];
  std::vector<int> cnt;
  for (int k = 0; k < 2 * n; ++k) {
    std::vector<int> can;
    for (int q = 0; q < int(cnt.size()); ++q) if (cnt[q] == 1) can.push_back(q);
    bool fresh = int(cnt.size()) < n;
    int ch = c.choose(int(can.size()) + fresh);
    int q = ch < int(can.size()) ? can[ch] : int(cnt.size());
    if (q == int(cnt.size())) cnt.push_back(0);
    cnt[q]++;
    row[k >= n].push_back(q);
    if (k == 2) c.mine();
  }
  if (n == 1) c.mine();
  c.describe("rows " + lst(row[0]) + "and " + lst(row[1]));
  c.state(lst(row[0]) + "|" + lst(row[1]));
  // walk: column, then other occurrence, ...
  std::vector<int> seen(2 * n, 0);
  auto val = [&](int s) { return row[s >= n][s % n]; };
  std::size_t loops = 0;
  for (int s = 0; s < 2 * n; ++s) {
    if (seen[s]) continue;
    ++loops;
    int z = s;
    do {
      seen[z] = 1;
      z = (z + n) % (2 * n);
      seen[z] = 1;
      for (int y = 0; y < 2 * n; ++y) if (y != z && val(y) == val(z)) { z = y; break; }
    } while (!seen[z]);
  }
  c.step();
  c.require(count_cycles(row[0], row[1]) == loops, [&] { return "count_cycles gives " + std::to_string(count_cycles(row[0], row[1])) + " instead of " + std::to_string(loops); });
  c.outcome(std::to_string(loops));
}
namespace {
template <class T> void bit_sets(vf::Case& c, T m) {
  std::vector<T> sub;
  for (T s = m;; s = (s - 1) & m) { sub.push_back(s); if (!s) break; }
  std::sort(sub.begin(), sub.end());
  c.step();
  auto collect = [](auto&& r) { std::vector<T> v; for (auto x : r) v.push_back(x); return v; };
  c.require(collect(bits::subsets_ascending(m)) == sub, "subsets_ascending is wrong");
  auto s0 = collect(bits::subsets(m));
  std::sort(s0.begin(), s0.end());
  c.require(s0 == sub, "subsets is wrong");
  c.require(collect(bits::subsets_descending(m)) == std::vector<T>(sub.rbegin(), sub.rend()), "subsets_descending is wrong");
  std::set<std::pair<T, T>> o;
  std::size_t n = 0;
  for (auto [a, b] : bits::bipartitions_ordered(m)) { ++n; o.insert({a, b}); c.require((a & b) == 0 && (a | b) == m, "bipartitions_ordered: no bipartition"); }
  c.require(n == sub.size() && o.size() == n, "bipartitions_ordered: not every bipartition once");
  if (m) for (int k : {0, 1}) {
    std::set<std::pair<T, T>> w;
    n = 0;
    auto take = [&](auto&& r) { for (auto [a, b] : r) { ++n; w.insert({std::min(a, b), std::max(a, b)}); c.require((a & b) == 0 && (a | b) == m, "bipartitions: no bipartition"); } };
    if (k) take(bits::bipartitions(m)); else take(bits::bipartitions_unordered(m));
    c.require(n == sub.size() / 2 && w.size() == n, "bipartitions_unordered: not every bipartition once");
  }
  std::vector<std::size_t> on, got;
  for (std::size_t k = 0; k < 8 * sizeof(T); ++k) if (m >> k & 1) on.push_back(k);
  for (auto k : bits::on_bits_index(m)) got.push_back(k);
  c.require(on == got, "on_bits_index is wrong");
}
}  // namespace
SCENARIO("bits", c) {
  int shift = c.choose(3);
  unsigned lo = c.choose(16), hi = c.choose(vf::thorough() ? 64 : 16);
  c.mine();
  std::size_t m = lo | (std::size_t(hi) << 4);
  c.describe("bit set " + std::to_string(m) + " shifted by " + std::to_string(shift * 10));
  c.state(std::to_string(m) + "s" + std::to_string(shift));
  bit_sets<std::uint64_t>(c, m << (shift * 27));
  bit_sets<std::uint32_t>(c, std::uint32_t(m << (shift * 11)));
  std::vector<int> elems;
  for (int k = 0; k < 64; ++k) elems.push_back(100 + k);
  std::size_t n = 0;
  for (auto x : bits::on_bits_index(m) | bits::sieve(elems)) { while (!(m >> n & 1)) ++n; c.require(x == 100 + int(n), "sieve is wrong"); ++n; }
  c.outcome("ok");
}
SCENARIO("left_to_right", c) {
  int n = 1 + c.choose(4), B = vf::thorough() ? 4 : 3;
  std::vector<std::set<int>> s;
  auto pick = [&] { int m = c.choose(1 << B); std::set<int> r; for (int k = 0; k < B; ++k) if (m >> k & 1) r.insert(k); return r; };
  auto keep = pick();
  c.mine();
  for (int k = 0; k < n; ++k) s.push_back(pick());
  auto str = [](const std::set<int>& x) { std::string r = "{"; for (int k : x) r += std::to_string(k); return r + "}"; };
  std::string d;
  for (auto& x : s) d += str(x);
  c.describe(d + " keeping " + str(keep));
  c.state(d + str(keep));
  auto r = left_to_right_binarization_indices<int, std::set<int>>(s, keep);
  c.step();
  c.require(int(r.children.size()) == n && int(r.imed.size()) == n, "wrong number of index sets");
  for (int k = 0; k < n; ++k) {
    std::set<int> ch, im;
    for (int x = 0; x < B; ++x) {
      bool before = false, later = false, others = false;
      for (int j = 0; j < n; ++j) { if (!s[j].count(x)) continue; (j <= k ? before : later) = true; others |= j != k; }
      if (s[k].count(x) && (others || keep.count(x))) ch.insert(x);
      if (before && (later || keep.count(x))) im.insert(x);
    }
    c.require(r.children[k] == ch, [&] { return "indices of factor " + std::to_string(k) + ": " + str(r.children[k]) + " instead of " + str(ch); });
    c.require(r.imed[k] == im, [&] { return "indices of intermediate " + std::to_string(k) + ": " + str(r.imed[k]) + " instead of " + str(im); });
  }
  c.outcome(d);
}
int main(int c, char** v) { return vf::main_impl(c, v, "C20"); }
