// LINK: mbpt
// Spin tracing: the spin-free (or spin-case) equations have the value of the
// spin-orbital expression summed over (evaluated for) the spins.
#include <SeQuant/core/expr.hpp>
#include <SeQuant/core/io/shorthands.hpp>
#include <SeQuant/core/tensor_canonicalizer.hpp>
#include <SeQuant/core/utility/indices.hpp>
#include <SeQuant/domain/mbpt/convention.hpp>
#include <SeQuant/domain/mbpt/spin.hpp>
#include "lib/setup.hpp"
using namespace orc;
namespace {
constexpr auto N = Symmetry::Nonsymm, A = Symmetry::Antisymm;
using mbpt::Spin;
using Grp = container::svector<container::svector<Index>>;
void context(bool complete = true) {
  set_num_threads(1);
  static auto isr = mbpt::make_min_sr_spaces();
  Context cx({.index_space_registry_shared_ptr = isr, .vacuum = Vacuum::SingleProduct});
  if (complete) cx.set(CanonicalizeOptions{.method = CanonicalizationMethod::Complete});
  set_default_context(cx);
  TensorCanonicalizer::register_instance(std::make_shared<DefaultTensorCanonicalizer>());
}
// ------------------------------------------------------------------ reference
std::wstring bare(const Index& i) { std::wstring s(i.full_label()), r; for (auto ch : s) if (ch != L'↑' && ch != L'↓') r += ch; return r; }
int spin_of(const Index& i) { auto q = i.space().qns().to_int32() & mbpt::mask_v<Spin>; return q == static_cast<int>(Spin::alpha) ? 1 : q == static_cast<int>(Spin::beta) ? 2 : 0; }
struct Ref {
  bool so;        // an index without spin ranges over spin orbitals, else over orbitals
  bool resolved;  // orbitals of the two spins differ (open shell)
  int orbs = 2;
  using V = std::pair<int, int>;          // orbital, spin
  std::map<std::wstring, V> ext;          // by name without spin
  std::map<std::wstring, V> full;         // external indices by name with spin
  std::map<std::wstring, V> dum;          // by name with spin
  std::vector<V> domain(const Index& i) {
    std::vector<V> d;
    int s = spin_of(i);
    for (int k = 0; k < orbs; ++k) {
      int o = k + 10 * int(i.space().type().to_int32());
      if (s) d.push_back({o, s});
      else if (so) d.push_back({o, 1}), d.push_back({o, 2});
      else d.push_back({o, 0});
    }
    return d;
  }
  // N.B. in spin-resolved expressions a dummy may share all but the spin with an external index
  bool known(const Index& i) {
    if (dum.count(std::wstring(i.full_label()))) return true;
    if (full.count(std::wstring(i.full_label()))) return true;
    auto e = ext.find(bare(i));
    int s = spin_of(i);
    return e != ext.end() && (!s || !e->second.second || e->second.second == s);
  }
  V at(const Index& i) {
    auto d = dum.find(std::wstring(i.full_label()));
    if (d != dum.end()) return d->second;
    if (auto f = full.find(std::wstring(i.full_label())); f != full.end()) return f->second;
    auto e = ext.find(bare(i));
    if (e == ext.end()) throw vf::Fail{"unknown index " + u8(std::wstring(i.full_label()))};
    V v = e->second;
    if (int s = spin_of(i)) { if (v.second && v.second != s) throw vf::Fail{"external index of another spin"}; v.second = s; }
    return v;
  }
  static std::string u8(const std::wstring& w) { std::string s; for (auto ch : w) s += ch < 128 ? char(ch) : ch == L'↑' ? '^' : ch == L'↓' ? '!' : '?'; return s; }
  F elem(const Tensor& t, const std::vector<V>& b, const std::vector<V>& k, uint64_t aux) {
    std::vector<std::array<int, 3>> c;
    for (std::size_t q = 0; q < std::max(b.size(), k.size()); ++q) {
      V x = q < b.size() ? b[q] : V{-1, 0}, y = q < k.size() ? k[q] : V{-1, 0};
      if (x.second && y.second && x.second != y.second) return {};
      c.push_back({x.first, y.first, resolved ? std::max(x.second, y.second) : 0});
    }
    auto h = [&](bool sw) {
      auto d = c;
      if (sw) for (auto& x : d) std::swap(x[0], x[1]);
      std::sort(d.begin(), d.end());
      uint64_t r = vf::hash_str(u8(std::wstring(t.label()))) + aux;
      for (auto& x : d) for (int y : x) r = vf::mix(r * 31 + y + 7);
      return r;
    };
    uint64_t r = h(false);
    if (t.braket_symmetry() == BraKetSymmetry::Symm) r = std::min(r, h(true));
    return rnd(r, true);
  }
  F tensor(const Tensor& t) {
    std::vector<V> b, k;
    uint64_t x = 0;
    for (auto& i : t.bra()) b.push_back(at(i));
    for (auto& i : t.ket()) k.push_back(at(i));
    for (auto& i : t.aux()) x = vf::mix(x * 7 + at(i).first + 1);
    if (t.symmetry() != A) return elem(t, b, k, x);
    std::vector<int> p(k.size());
    for (std::size_t q = 0; q < p.size(); ++q) p[q] = int(q);
    F s;
    do {
      std::vector<V> kk;
      int sg = 1;
      for (std::size_t q = 0; q < p.size(); ++q) { kk.push_back(k[p[q]]); for (std::size_t r = 0; r < q; ++r) if (p[r] > p[q]) sg = -sg; }
      F e = elem(t, b, kk, x);
      if (sg > 0) s += e; else s -= e;
    } while (std::next_permutation(p.begin(), p.end()));
    return s;
  }
  void indices(const Expr& e, std::vector<Index>& v) {
    if (e.is<Tensor>()) for (auto& i : e.as<Tensor>().const_slots()) if (i.nonnull()) v.push_back(i);
    if (e.is<Product>() || e.is<Sum>()) for (auto& x : e) indices(*x, v);
  }
  static bool is_op(const Expr& e) { if (!e.is<Tensor>()) return false; auto l = e.as<Tensor>().label(); return l == reserved::antisymm_label() || l == reserved::symm_label() || l == reserved::transposition_label(); }
  /// applies the operators ops[k...] to the rest
  F apply(const std::vector<const Tensor*>& ops, std::size_t k, const std::vector<ExprPtr>& rest) {
    if (k == ops.size()) return sum_dummies(rest);
    auto& t = *ops[k];
    std::vector<Index> b(t.bra().begin(), t.bra().end()), kt(t.ket().begin(), t.ket().end());
    auto save = ext;
    F s;
    if (t.label() == reserved::transposition_label()) {
      for (auto* l : {&b, &kt}) for (std::size_t q = 0; q + 1 < l->size(); q += 2) std::swap(ext.at(bare((*l)[q])), ext.at(bare((*l)[q + 1])));
      s = apply(ops, k + 1, rest);
      ext = save;
      return s;
    }
    bool anti = t.label() == reserved::antisymm_label();
    std::vector<int> p(b.size()), q(kt.size());
    long n = 0;
    auto sg = [](const std::vector<int>& x) { int r = 1; for (std::size_t i = 0; i < x.size(); ++i) for (std::size_t j = 0; j < i; ++j) if (x[j] > x[i]) r = -r; return r; };
    for (std::size_t i = 0; i < p.size(); ++i) p[i] = int(i);
    do {
      for (std::size_t i = 0; i < q.size(); ++i) q[i] = int(i);
      do {
        if (!anti && p != q) continue;
        ++n;
        for (std::size_t i = 0; i < p.size(); ++i) ext[bare(b[i])] = save.at(bare(b[p[i]]));
        for (std::size_t i = 0; i < q.size(); ++i) ext[bare(kt[i])] = save.at(bare(kt[q[i]]));
        F v = apply(ops, k + 1, rest);
        if (anti && sg(p) * sg(q) < 0) s -= v; else s += v;
      } while (std::next_permutation(q.begin(), q.end()));
    } while (std::next_permutation(p.begin(), p.end()));
    ext = save;
    return s * from(rational(1, n));
  }
  F sum_dummies(const std::vector<ExprPtr>& fs) {
    std::vector<Index> all, in;
    for (auto& f : fs) indices(*f, all);
    for (auto& i : all) if (!known(i) && std::find_if(in.begin(), in.end(), [&](auto& j) { return j.full_label() == i.full_label(); }) == in.end()) in.push_back(i);
    std::function<F(std::size_t)> go = [&](std::size_t k) -> F {
      F s;
      if (k == in.size()) {
        s = {1, 0};
        for (auto& f : fs) { s = s * value(f); if (s.zero()) break; }
        return s;
      }
      for (auto& v : domain(in[k])) { dum[std::wstring(in[k].full_label())] = v; s += go(k + 1); }
      dum.erase(std::wstring(in[k].full_label()));
      return s;
    };
    return go(0);
  }
  F value(const ExprPtr& e) {
    if (e->is<Constant>()) return from(e->as<Constant>().value());
    if (e->is<Variable>()) return rnd(vf::hash_str(u8(std::wstring(e->as<Variable>().label()))), true);
    if (e->is<Sum>()) { F s; for (auto& x : *e) s += value(x); return s; }
    std::vector<const Tensor*> ops;
    std::vector<ExprPtr> rest;
    F c{1, 0};
    if (e->is<Tensor>()) { if (is_op(*e)) throw vf::Fail{"a lone operator"}; rest.push_back(e); if (!all_known(*e)) return sum_dummies(rest); return tensor(e->as<Tensor>()); }
    if (e->is<Product>()) {
      c = from(e->as<Product>().scalar());
      for (auto& f : *e) if (is_op(*f)) ops.push_back(&f->as<Tensor>()); else rest.push_back(f);
      return c * apply(ops, 0, rest);
    }
    throw vf::Fail{"unexpected expression"};
  }
  bool all_known(const Expr& e) { std::vector<Index> v; indices(e, v); for (auto& i : v) if (!known(i)) return false; return true; }
};
std::string sh(const ExprPtr& e) { std::wstring w = to_latex(e); std::string s; for (auto ch : w) s += ch < 128 ? char(ch) : ch == L'↑' ? '^' : ch == L'↓' ? '!' : '?'; return s; }
// ------------------------------------------------------------------ networks
struct TS { std::wstring l; int r; Symmetry s; };
struct Net { std::vector<TS> t; std::vector<Index> b, k; std::vector<Index> eb, ek; };  // slots; externals in bra / ket slots
/// all ways of connecting the slots of the tensors, n of bra and ket staying open
Net network(vf::Case& c, std::vector<TS> ts, int n, bool order) {
  Net r{ts};
  int cols = 0;
  for (auto& t : ts) cols += t.r;
  r.b.resize(cols), r.k.resize(cols);
  auto pick = [&](std::vector<int>& v, bool any = true) { int j = any ? c.choose(int(v.size())) : 0; int x = v[j]; v.erase(v.begin() + j); return x; };
  std::vector<int> fb, fk;
  // which slots are open: subsets, in order
  auto subset = [&](std::vector<int>& open, std::vector<int>& rest) {
    int left = n;
    for (int q = 0; q < cols; ++q) {
      bool take = left == cols - q ? true : left == 0 ? false : c.choose(2);
      if (take) --left;
      (take ? open : rest).push_back(q);
    }
  };
  std::vector<int> ob, ok;
  subset(ob, fb);
  subset(ok, fk);
  for (int q = 0; q < n; ++q) { int x = ob[q]; r.b[x] = Index(L"a_" + std::to_wstring(q + 1)); r.eb.push_back(r.b[x]); }
  for (int q = 0; q < n; ++q) { int x = pick(ok, order); r.k[x] = Index(L"i_" + std::to_wstring(q + 1)); r.ek.push_back(r.k[x]); }
  int mix = fb.size() ? c.choose(2) : 0, d = 10;
  for (int x : fb) { int y = pick(fk); Index i((mix && (d & 1) ? L"a_" : L"i_") + std::to_wstring(d)); ++d; r.b[x] = i; r.k[y] = i; }
  return r;
}
std::vector<ExprPtr> factors(const Net& n, BraKetSymmetry bk = BraKetSymmetry::Nonsymm) {
  std::vector<ExprPtr> v;
  int o = 0;
  for (auto& t : n.t) {
    std::vector<Index> b(n.b.begin() + o, n.b.begin() + o + t.r), k(n.k.begin() + o, n.k.begin() + o + t.r);
    v.push_back(ex<Tensor>(t.l, bra(b), ket(k), t.s, bk));
    o += t.r;
  }
  return v;
}
ExprPtr op(std::wstring l, const Net& n) { return ex<Tensor>(l, bra(n.ek), ket(n.eb), A); }
Grp groups(const Net& n) { Grp g; for (std::size_t q = 0; q < n.eb.size(); ++q) g.push_back({n.eb[q], n.ek[q]}); return g; }
/// calls f for the orbitals of the externals (all of them, or a selection if there are many)
template <typename Fn> void each_ext(const Net& n, int orbs, const Fn& f) {
  std::size_t k = n.eb.size();
  std::vector<std::pair<Index, int>> a;
  if (k <= 2) {
    std::size_t tot = 1;
    for (std::size_t q = 0; q < 2 * k; ++q) tot *= orbs;
    for (std::size_t x = 0; x < tot; ++x) {
      a.clear();
      std::size_t y = x;
      for (std::size_t q = 0; q < k; ++q) { a.push_back({n.eb[q], int(y % orbs)}); y /= orbs; a.push_back({n.ek[q], int(y % orbs)}); y /= orbs; }
      f(a);
    }
    return;
  }
  for (int w = 0; w < 2; ++w) {
    a.clear();
    for (std::size_t q = 0; q < k; ++q) { a.push_back({n.eb[q], int(q) % orbs}); a.push_back({n.ek[q], int(w ? (q * 2 + 1) % k : q) % orbs}); }
    f(a);
  }
}
void set_ext(Ref& r, const std::vector<std::pair<Index, int>>& a, const std::vector<int>& spin) {
  r.ext.clear();
  for (std::size_t q = 0; q < a.size(); ++q) r.ext[bare(a[q].first)] = {a[q].second + 10 * int(a[q].first.space().type().to_int32()), spin.empty() ? 0 : spin[q / 2]};
}
/// value of the spin-orbital expression summed over the spins of every group of externals
F summed(const ExprPtr& e, const std::vector<std::pair<Index, int>>& a, std::size_t k, int orbs) {
  F s;
  for (std::size_t m = 0; m < (1u << k); ++m) {
    std::vector<int> sp;
    for (std::size_t q = 0; q < k; ++q) sp.push_back(1 + (m >> q & 1));
    Ref r{true, false, orbs};
    set_ext(r, a, sp);
    s += r.value(e);
  }
  return s;
}
F spatial(const ExprPtr& e, const std::vector<std::pair<Index, int>>& a, int orbs, bool so = false) { Ref r{so, false, orbs}; set_ext(r, a, {}); return r.value(e); }
template <typename Fn> ExprPtr guarded(const std::string& what, const Fn& f) {
  try { return f(); } catch (vf::Fail&) { throw; } catch (std::exception& x) { throw vf::Fail{what + " throws " + x.what()}; }
}
struct Shape { std::vector<TS> t; int ext; };
std::vector<Shape> shapes() {
  std::vector<Shape> v{
      {{{L"g", 2, A}}, 0}, {{{L"g", 2, A}}, 1}, {{{L"g", 2, A}}, 2}, {{{L"f", 1, N}}, 0}, {{{L"f", 1, A}}, 1},
      {{{L"f", 1, N}, {L"t", 1, N}}, 0}, {{{L"f", 1, N}, {L"t", 1, A}}, 1}, {{{L"f", 1, N}, {L"t", 1, N}}, 2},
      {{{L"f", 1, N}, {L"t", 2, A}}, 1}, {{{L"f", 1, N}, {L"t", 2, A}}, 2}, {{{L"g", 2, A}, {L"t", 1, A}}, 1}, {{{L"g", 2, A}, {L"t", 1, A}}, 2},
      {{{L"g", 2, A}, {L"t", 2, A}}, 0}, {{{L"g", 2, A}, {L"t", 2, A}}, 1}, {{{L"g", 2, A}, {L"t", 2, A}}, 2},
      {{{L"g", 2, A}, {L"t", 1, N}, {L"t", 1, N}}, 0}, {{{L"g", 2, A}, {L"t", 1, N}, {L"t", 1, N}}, 1}, {{{L"g", 2, A}, {L"t", 1, N}, {L"u", 1, A}}, 2},
      {{{L"t", 3, A}}, 3}, {{{L"f", 1, N}, {L"t", 2, A}}, 3}};
  if (vf::thorough()) {
    v.push_back({{{L"f", 1, N}, {L"t", 3, A}}, 3});
    v.push_back({{{L"g", 2, A}, {L"t", 2, A}}, 3});
    v.push_back({{{L"g", 2, A}, {L"t", 3, A}}, 2});
  }
  return v;
}
struct Pre { ExprPtr s; std::string n; };
ExprPtr assemble(vf::Case& c, const Net& n, bool with_A) {
  auto f = factors(n);
  int w = c.choose(3);
  if (w == 1) f.push_back(ex<Variable>(L"y"));
  if (w == 2) f.insert(f.begin(), ex<Variable>(L"y"));
  if (with_A) f.insert(f.begin(), op(reserved::antisymm_label(), n));
  return ex<Product>(w ? rational(-2, 3) : rational(1), f, Product::Flatten::No);
}
void closed(vf::Case& c, const ExprPtr& e, const Net& n, bool no_A_naive = true) {
  auto g = groups(n);
  int orbs = n.eb.size() > 2 ? 3 : 2;
  auto full = guarded("closed_shell_spintrace(full)", [&] { return mbpt::closed_shell_spintrace(e->clone(), g, true); });
  auto part = guarded("closed_shell_spintrace", [&] { return mbpt::closed_shell_spintrace(e->clone(), g); });
  auto partS = guarded("S_maps", [&] { return mbpt::S_maps(part->clone()); });
  ExprPtr naive, labelled;
  if (no_A_naive) {
    naive = guarded("spintrace", [&] { return mbpt::spintrace(e->clone(), g); });
    labelled = guarded("spintrace(spins kept)", [&] { return mbpt::spintrace(e->clone(), g, false); });
  }
  c.step(4);
  each_ext(n, orbs, [&](auto& a) {
    F w = summed(e, a, n.eb.size(), orbs);
    auto cmp = [&](const ExprPtr& r, const char* what) {
      if (!r) return;
      F v = spatial(r, a, orbs);
      c.require(v == w, [&] { std::string at; for (auto& [i, o] : a) at += Ref::u8(bare(i)) + "=" + std::to_string(o) + " "; return std::string(what) + " has the value " + v.str() + ", expected " + w.str() + " at " + at + ": " + sh(r) + " from " + sh(e); });
    };
    cmp(full, "closed_shell_spintrace(full expansion)");
    cmp(part, "closed_shell_spintrace");
    cmp(partS, "S_maps(closed_shell_spintrace)");
    cmp(naive, "spintrace");
    cmp(labelled, "spintrace(spins kept)");
  });
}
SCENARIO("closed", c) {
  context();
  auto s = c.pick(shapes());
  bool wA = s.ext > 1 && c.choose(2);
  Net n = network(c, s.t, s.ext, !wA);
  auto e = assemble(c, n, wA);
  c.describe(sh(e));
  c.mine();
  closed(c, e, n);
}
// sums of such terms
SCENARIO("closed.sum", c) {
  context();
  auto all = std::vector<Shape>{{{{L"g", 2, A}}, 2}, {{{L"f", 1, N}, {L"t", 1, N}}, 2}, {{{L"f", 1, N}, {L"t", 2, A}}, 2}};
  int x = c.choose(3), y = c.choose(3);
  bool wA = c.choose(2);
  Net n1 = network(c, all[x].t, 2, !wA), n2 = network(c, all[y].t, 2, !wA);
  auto f1 = factors(n1), f2 = factors(n2);
  if (wA) f1.insert(f1.begin(), op(reserved::antisymm_label(), n1)), f2.insert(f2.begin(), op(reserved::antisymm_label(), n1));
  auto e = ex<Sum>(std::vector<ExprPtr>{ex<Product>(rational(1, 2), f1, Product::Flatten::No), ex<Product>(-1, f2, Product::Flatten::No)});
  c.describe(sh(e));
  c.mine();
  closed(c, e, n1);
}
// spin-orbital tensors without permutational symmetry
SCENARIO("nonsymm", c) {
  context();
  auto all = std::vector<Shape>{{{{L"g", 2, N}}, 0}, {{{L"g", 2, N}}, 1}, {{{L"g", 2, N}}, 2}, {{{L"g", 2, N}, {L"t", 1, N}}, 1}, {{{L"g", 2, N}, {L"t", 2, N}}, 0}, {{{L"g", 2, N}, {L"t", 2, A}}, 0}, {{{L"g", 2, N}, {L"t", 2, N}}, 1}};
  auto& s = c.pick(all);
  Net n = network(c, s.t, s.ext, true);
  auto e = assemble(c, n, false);
  c.describe(sh(e));
  c.mine();
  closed(c, e, n);
}
// results with their own list of indices
SCENARIO("result", c) {
  context();
  // R{bra; ket} antisymmetric, its indices from two spaces in all ways
  auto sp = [&](const wchar_t* l0, const wchar_t* l1, int k) { return Index((c.choose(2) ? l1 : l0) + std::wstring(L"_") + std::to_wstring(k)); };
  Index p = sp(L"i", L"a", 1), q = sp(L"i", L"a", 2), r = sp(L"i", L"a", 3), s = sp(L"i", L"a", 4), d(L"i_10");
  int w = c.choose(3), sym = c.choose(2);
  ExprPtr e;
  if (w == 0) e = ex<Tensor>(L"g", bra{p, q}, ket{r, s}, A);
  if (w == 1) e = ex<Constant>(rational(1, 2)) * ex<Tensor>(L"g", bra{p, q}, ket{r, d}, A) * ex<Tensor>(L"f", bra{d}, ket{s}, N) - ex<Constant>(rational(1, 2)) * ex<Tensor>(L"g", bra{p, q}, ket{s, d}, A) * ex<Tensor>(L"f", bra{d}, ket{r}, N);
  if (w == 2) { e = ex<Tensor>(L"f", bra{p}, ket{r}, N) * ex<Tensor>(L"t", bra{q}, ket{s}, N) - ex<Tensor>(L"f", bra{q}, ket{r}, N) * ex<Tensor>(L"t", bra{p}, ket{s}, N) - ex<Tensor>(L"f", bra{p}, ket{s}, N) * ex<Tensor>(L"t", bra{q}, ket{r}, N) + ex<Tensor>(L"f", bra{q}, ket{s}, N) * ex<Tensor>(L"t", bra{p}, ket{r}, N); }
  ResultExpr res(bra({p, q}), ket({r, s}), aux(std::vector<Index>{}), sym ? A : N, BraKetSymmetry::Nonsymm, ColumnSymmetry::Symm, L"R", e->clone());
  bool rig = c.choose(2);
  c.describe("R{" + Ref::u8(bare(p)) + "," + Ref::u8(bare(q)) + ";" + Ref::u8(bare(r)) + "," + Ref::u8(bare(s)) + "} = " + sh(e));
  c.mine();
  container::svector<ResultExpr> out;
  try { out = rig ? mbpt::spintrace(res) : mbpt::closed_shell_spintrace(res); } catch (std::exception& x) { c.fail(std::string("throws ") + x.what()); }
  std::set<std::multiset<std::pair<int, int>>> pairs;
  auto ty = [](const Index& i) { return int(i.space().type().to_int32()); };
  auto pos = [&](const Index& i) { return i == p ? 0 : i == q ? 1 : i == r ? 2 : i == s ? 3 : -1; };
  for (auto& o : out) {
    c.require(o.bra().size() == 2 && o.ket().size() == 2, "result of another rank");
    int x = pos(o.bra()[0]), y = pos(o.bra()[1]), z = pos(o.ket()[0]), t = pos(o.ket()[1]);
    c.require(x + y == 1 && z + t == 5, "result with other indices");
    using MS = std::multiset<std::pair<int, int>>;
    c.require(pairs.insert(MS{{ty(o.bra()[0]), ty(o.ket()[0])}, {ty(o.bra()[1]), ty(o.ket()[1])}}).second, "two results of the same kind");
    int sg = (x > y) != (z > t) ? -1 : 1;
    Net n;
    n.eb = {o.bra()[0], o.bra()[1]};
    n.ek = {o.ket()[0], o.ket()[1]};
    each_ext(n, 2, [&](auto& a) {
      F w = summed(e, a, 2, 2), v = spatial(o.expression(), a, 2);
      if (sg < 0) w = -w;
      c.require(v == w, [&] { return "R{" + Ref::u8(bare(n.eb[0])) + "," + Ref::u8(bare(n.eb[1])) + ";" + Ref::u8(bare(n.ek[0])) + "," + Ref::u8(bare(n.ek[1])) + "} is " + v.str() + ", expected " + w.str() + ": " + sh(o.expression()); });
    });
  }
  if (sym) {
    std::set<std::multiset<std::pair<int, int>>> need;
    for (int sw = 0; sw < 2; ++sw) need.insert(std::multiset<std::pair<int, int>>{{ty(sw ? q : p), ty(r)}, {ty(sw ? p : q), ty(s)}});
    c.require(pairs == need, [&] { return std::to_string(pairs.size()) + " kinds of pairings returned, there are " + std::to_string(need.size()); });
  } else c.require(out.size() == 1, "several results");
}
// operators on the external indices
SCENARIO("operators", c) {
  context();
  auto all = std::vector<Shape>{{{{L"g", 2, A}}, 2}, {{{L"g", 2, N}}, 2}, {{{L"f", 1, N}, {L"t", 1, N}}, 2}, {{{L"f", 1, N}, {L"t", 2, N}}, 2}, {{{L"f", 1, N}, {L"t", 2, N}}, 3}, {{{L"t", 3, N}}, 3}, {{{L"f", 1, N}}, 1}};
  auto& s = c.pick(all);
  Net n = network(c, s.t, s.ext, true);
  int w = c.choose(4);
  auto f = factors(n);
  bool front = c.choose(2);
  auto put = [&](ExprPtr o) { if (front) f.insert(f.begin(), o); else f.push_back(o); };
  auto so = c.choose(2) && s.ext < 3;
  Net no = n;                         // the index order of the operator is not that of the network
  if (w < 3 && s.ext > 1) {
    auto order = [&](std::vector<Index>& v) {
      int k = c.choose(s.ext == 2 ? 2 : 4);
      if (k & 1) std::swap(v[0], v[1]);
      if (k & 2) std::rotate(v.begin(), v.begin() + 1, v.end());
    };
    order(no.eb);
    if (w < 2) order(no.ek);
    else no.ek = [&] { std::vector<Index> r; for (auto& i : no.eb) r.push_back(n.ek[std::find(n.eb.begin(), n.eb.end(), i) - n.eb.begin()]); return r; }();
    if (w < 2 && c.choose(2)) std::swap(no.eb, no.ek);
  }
  if (w == 0 || w == 1) put(op(reserved::antisymm_label(), no));
  if (w == 2) put(ex<Tensor>(reserved::symm_label(), bra(no.ek), ket(no.eb), N));
  if (w == 3) {
    auto L = reserved::transposition_label();
    if (s.ext == 1) put(ex<Tensor>(L, bra{n.ek[0]}, ket{n.eb[0]}, Symmetry::Symm));
    else {
      int v = c.choose(3);
      if (v == 0) put(ex<Tensor>(L, bra{n.ek[0], n.ek.back()}, ket{}, Symmetry::Symm));
      if (v == 1) put(ex<Tensor>(L, bra{}, ket{n.eb[1], n.eb[0]}, Symmetry::Symm));
      if (v == 2) put(ex<Tensor>(L, bra{n.ek[0], n.ek[1]}, ket{n.eb[0], n.eb.back()}, Symmetry::Symm));
    }
  }
  ExprPtr e = ex<Product>(rational(3, 2), f, Product::Flatten::No);
  if (c.choose(2)) e = ex<Sum>(std::vector<ExprPtr>{e, ex<Constant>(1) * ex<Variable>(L"y")});
  c.describe(sh(e));
  if (w == 2 && s.ext < 2) return;
  c.mine();
  ExprPtr r = guarded("expansion", [&]() -> ExprPtr {
    auto x = e->clone();
    if (w == 0) return mbpt::expand_A_op(x);
    if (w == 1) return mbpt::symmetrize_expr(x);
    if (w == 2) return mbpt::S_maps(x);
    return mbpt::expand_P_op(x);
  });
  int orbs = s.ext > 2 ? 3 : 2;
  each_ext(n, orbs, [&](auto& a) {
    std::size_t k = n.eb.size();
    for (std::size_t m = 0; m < (so ? 1u << (2 * k) : 1u); ++m) {
      auto eval = [&](const ExprPtr& x) {
        Ref q{bool(so), false, orbs};
        set_ext(q, a, {});
        if (so) { int b = 0; for (auto& [i, o] : a) q.ext[bare(i)].second = 1 + (m >> b++ & 1); }
        return q.value(x);
      };
      F v = eval(r), x = eval(e);
      c.require(v == x, [&] { return "expanding the operator gives " + v.str() + ", expected " + x.str() + ": " + sh(r); });
    }
  });
  std::vector<Index> ix;
  bool found = false;
  r->visit([&](const ExprPtr& y) { if (y->is<Tensor>()) { auto l = y->as<Tensor>().label(); if ((w == 0 && l == reserved::antisymm_label()) || (w == 1 && l == reserved::antisymm_label()) || (w == 2 && l == reserved::symm_label()) || (w == 3 && l == reserved::transposition_label())) found = true; } }, true);
  c.require(!found, [&] { return "the operator is still there: " + sh(r); });
}
// spin cases of open shells
SCENARIO("open", c) {
  context();
  auto s = c.pick(shapes());
  bool wA = s.ext > 1 && c.choose(2);
  Net n = network(c, s.t, s.ext, !wA);
  auto e = assemble(c, n, wA);
  bool cc = wA || s.ext == 0 ? c.choose(2) : false;
  c.describe(sh(e));
  c.mine();
  int orbs = s.ext > 2 ? 3 : 2;
  std::vector<ExprPtr> out;
  try {
    if (cc) out = mbpt::open_shell_CC_spintrace(e->clone());
    else out = mbpt::open_shell_spintrace(e->clone(), groups(n));
  } catch (std::exception& x) { c.fail(std::string(cc ? "open_shell_CC_spintrace" : "open_shell_spintrace") + " throws " + x.what()); }
  c.require(int(out.size()) == s.ext + 1, "wrong number of spin cases");
  for (int k = 0; k <= s.ext; ++k) {
    std::vector<int> sp;
    for (int q = 0; q < s.ext; ++q) sp.push_back(q < s.ext - k ? 1 : 2);
    if (!cc) {
      auto one = mbpt::open_shell_spintrace(e->clone(), groups(n), k);
      c.require(one.size() == 1 && one[0]->size() == out[k]->size(), "the single spin case differs");
    }
    // with CC and three or more pairs the indices of each spin may be counted anew (i1^ i2^ i1!)
    bool anew = false;
    if (cc && s.ext > 2 && k > 0 && k < s.ext) {
      std::map<std::wstring, int> cnt;
      const ExprPtr* t = &out[k];
      while ((*t)->is<Sum>() && (*t)->size()) t = &(*t)->as<Sum>().summand(0);
      (*t)->visit([&](const ExprPtr& y) { if (y->is<Tensor>()) for (auto& i : y->as<Tensor>().const_slots()) if (i.nonnull() && spin_of(i) == 2) ++cnt[bare(i)]; });
      if ((*t)->is<Tensor>()) for (auto& i : (*t)->as<Tensor>().const_slots()) if (i.nonnull() && spin_of(i) == 2) ++cnt[bare(i)];
      for (int q = s.ext - k; q < s.ext; ++q) for (auto* i : {&n.eb[q], &n.ek[q]}) { auto f = cnt.find(bare(*i)); if (f == cnt.end() || f->second % 2 == 0) anew = true; }
    }
    each_ext(n, orbs, [&](auto& a) {
      auto eval = [&](const ExprPtr& x) {
        // with CC only the part antisymmetric in indices of like spin counts
        F s0;
        std::vector<int> pb(s.ext), pk(s.ext);
        auto sg = [](const std::vector<int>& x) { int r = 1; for (std::size_t i = 0; i < x.size(); ++i) for (std::size_t j = 0; j < i; ++j) if (x[j] > x[i]) r = -r; return r; };
        bool anti = cc;
        for (int i = 0; i < s.ext; ++i) pb[i] = i;
        do {
          for (int i = 0; i < s.ext; ++i) pk[i] = i;
          do {
            bool ok = true;
            for (int i = 0; i < s.ext; ++i) if (sp[pb[i]] != sp[i] || sp[pk[i]] != sp[i]) ok = false;
            if (!ok || (!anti && (!std::is_sorted(pb.begin(), pb.end()) || !std::is_sorted(pk.begin(), pk.end())))) continue;
            auto aa = a;
            for (int i = 0; i < s.ext; ++i) { aa[2 * i].second = a[2 * pb[i]].second; aa[2 * i + 1].second = a[2 * pk[i] + 1].second; }
            Ref q{true, true, orbs};
            set_ext(q, aa, sp);
            if (anew && &x == &out[k]) {
              for (int i = 0; i < s.ext; ++i)
                for (int h = 0; h < 2; ++h) {
                  Index j = a[2 * i + h].first;
                  if (sp[i] == 2) j = Index((j.space().type() == Index(L"i_1").space().type() ? L"i_" : L"a_") + std::to_wstring(1 + i - (s.ext - k)));
                  q.full[std::wstring((sp[i] == 1 ? mbpt::make_spinalpha(j) : mbpt::make_spinbeta(j)).full_label())] = {q.ext.at(bare(a[2 * i + h].first)).first, sp[i]};
                }
              q.ext.clear();
            }
            F v = q.value(x);
            if (sg(pb) * sg(pk) < 0) s0 -= v; else s0 += v;
          } while (std::next_permutation(pk.begin(), pk.end()));
        } while (std::next_permutation(pb.begin(), pb.end()));
        return s0;
      };
      F v = eval(out[k]), w = eval(e);
      c.require(v == w, [&] { std::string at; for (auto& [i, o] : a) at += Ref::u8(bare(i)) + "=" + std::to_string(o) + " "; return std::string(cc ? "open_shell_CC_spintrace" : "open_shell_spintrace") + ", spin case " + std::to_string(k) + ", has the value " + v.str() + ", expected " + w.str() + " at " + at + ": " + sh(out[k]); });
    });
  }
}
// single tensors and indices
SCENARIO("tensor", c) {
  context();
  int r = 1 + c.choose(vf::thorough() ? 4 : 3);
  Symmetry sy = c.choose(2) ? A : N;
  std::vector<Index> b, k;
  auto ix = [&](int o) { Index i((c.choose(2) ? L"i_" : L"a_") + std::to_wstring(o)); return c.choose(2) ? mbpt::make_spinalpha(i) : mbpt::make_spinbeta(i); };
  std::vector<int> perm;
  for (int q = 0; q < r; ++q) perm.push_back(q);
  for (int q = 0; q < r; ++q) std::swap(perm[q], perm[q + c.choose(r - q)]);
  for (int q = 0; q < r; ++q) b.push_back(ix(1 + perm[q])), k.push_back(ix(11 + q));
  Tensor t(L"g", bra(b), ket(k), sy, BraKetSymmetry::Nonsymm);
  c.describe(sh(t.clone()));
  c.mine();
  int ab = 0, ak = 0;
  bool cols = true, uni = true;
  for (int q = 0; q < r; ++q) { ab += spin_of(b[q]) == 1; ak += spin_of(k[q]) == 1; if (spin_of(b[q]) != spin_of(k[q])) cols = false; if (spin_of(b[q]) != spin_of(b[0]) || spin_of(k[q]) != spin_of(b[0])) uni = false; }
  c.require(mbpt::can_expand(t) == (ab == ak), "can_expand");
  c.require(mbpt::ms_conserving_columns(t) == cols, "ms_conserving_columns");
  c.require(mbpt::ms_uniform_tensor(t) == uni, "ms_uniform_tensor");
  auto sw = mbpt::swap_spin(t);
  for (int q = 0; q < r; ++q) {
    c.require(spin_of(sw.bra()[q]) == 3 - spin_of(b[q]) && spin_of(sw.ket()[q]) == 3 - spin_of(k[q]) && bare(sw.bra()[q]) == bare(b[q]) && bare(sw.ket()[q]) == bare(k[q]), "swap_spin");
    c.require(mbpt::make_spinalpha(mbpt::make_spinbeta(b[q])) == mbpt::make_spinalpha(b[q]) && mbpt::make_spinfree(b[q]).full_label() == bare(b[q]), "make_spin*");
  }
  c.require(mbpt::swap_spin(sw) == t, "swap_spin twice");
  auto rem = mbpt::remove_spin(t.clone());
  for (int q = 0; q < r; ++q) c.require(spin_of(rem->as<Tensor>().bra()[q]) == 0 && rem->as<Tensor>().bra()[q].full_label() == bare(b[q]) && rem->as<Tensor>().ket()[q].full_label() == bare(k[q]), "remove_spin");
  // swapping bra and ket
  auto bk = mbpt::swap_bra_ket(t.clone());
  for (int q = 0; q < r; ++q) c.require(bk->as<Tensor>().bra()[q] == k[q] && bk->as<Tensor>().ket()[q] == b[q], "swap_bra_ket");
  for (bool skip : {false, true}) {
    if (!(ab == ak)) continue;
    auto e = guarded("expand_antisymm", [&] { return mbpt::expand_antisymm(t, skip); });
    bool anti = false;
    e->visit([&](const ExprPtr& y) { if (y->is<Tensor>() && y->as<Tensor>().symmetry() == A) anti = true; }, true);
    c.require(anti == (skip && uni && r > 1 && sy == A), [&] { return "expand_antisymm leaves the wrong tensors: " + sh(e); });
    for (int m = 0; m < 1 << (2 * r); ++m) {
      Ref q{true, true, 2};
      for (int z = 0; z < r; ++z) { q.ext[bare(b[z])] = {m >> (2 * z) & 1, 0}; q.ext[bare(k[z])] = {10 + (m >> (2 * z + 1) & 1), 0}; }
      F v = q.value(e), w = r == 1 ? q.elem(t, {q.at(b[0])}, {q.at(k[0])}, 0) : q.tensor(t);
      c.require(v == w, [&] { return "expand_antisymm gives " + v.str() + ", expected " + w.str() + ": " + sh(e); });
    }
  }
}
}  // namespace
int main(int c, char** v) { return vf::main_impl(c, v, "C17"); }
