// LINK: eval
// Lifetime of cached intermediates: every history of cache operations against
// a reference model, every small forest of evaluation trees against a direct
// count of uses, and the life of every entry while the forest is evaluated.
#include <SeQuant/core/asy_cost.hpp>
#include "lib/evalback.hpp"
using namespace orc;
namespace {
#pragma GCC diagnostic ignored "-Wdeprecated-declarations"
Model& model() { static Model m; return m; }
NodeV leaf(const ExprPtr& e) { return binarize<EvalExprV>(e); }
ExprPtr var(const wchar_t* l) { return ex<Variable>(l); }
ExprPtr mul(const ExprPtr& a, const ExprPtr& b) { return ex<Product>(1, ExprPtrList{a, b}, Product::Flatten::No); }
ExprPtr add(const ExprPtr& a, const ExprPtr& b) { return ex<Sum>(ExprPtrList{a, b}); }
struct Ref { bool reg = true, pers = false; int max = 0, life = 0; int data = 0; };
struct Sized final : Result {
  int id, n;
  Sized(int i, int k) : Result(i), id(i), n(k) {}
  using A3 = std::array<std::any, 3>;
  ResultPtr sum(Result const&, A3 const&) const override { return {}; }
  ResultPtr prod(Result const&, A3 const&, DeNest) const override { return {}; }
  ResultPtr permute(std::array<std::any, 2> const&) const override { return {}; }
  void add_inplace(Result const&) override {}
  ResultPtr symmetrize() const override { return {}; }
  ResultPtr antisymmetrize(std::size_t) const override { return {}; }
  ResultPtr mult_by_phase(std::int8_t) const override { return {}; }
  std::size_t size_in_bytes() const override { return n; }
  id_t type_id() const noexcept override { return id_for_type<Sized>(); }
};
template <bool FHC>
void history(vf::Case& c, int depth) {
  using CM = CacheManager<NodeV, FHC>;
  NodeV k[3] = {leaf(mul(var(L"x"), var(L"y"))), leaf(add(var(L"x"), var(L"y"))), leaf(mul(var(L"u"), var(L"v")))};
  Ref r[3];
  std::vector<std::pair<NodeV, std::size_t>> init;
  for (int q = 0; q < 2; ++q) {
    r[q].max = r[q].life = c.choose(4);
    r[q].pers = c.choose(2);
    init.push_back({k[q], r[q].max});
  }
  r[2].reg = false;
  auto pers = [&](NodeV const& n) { for (int q = 0; q < 2; ++q) if (TreeNodeEqualityComparator<NodeV>{}(n, k[q])) return r[q].pers; return false; };
  CM cm(init, pers);
  std::string d = "max " + std::to_string(r[0].max) + (r[0].pers ? "P " : " ") + std::to_string(r[1].max) + (r[1].pers ? "P:" : ":");
  int next = 0, hw = 0;
  std::map<int, std::weak_ptr<Result>> objs;
  for (int s = 0; s < depth; ++s) {
    int op = c.choose(9);
    if (s == 1) c.mine();
    if (op < 3) {
      Ref& x = r[op];
      d += " access" + std::to_string(op);
      int exp = x.reg ? x.data : 0;
      if (x.reg && x.data && !x.pers) { if (x.life) --x.life; if (!x.life) x.data = 0; }
      auto p = cm.access(k[op]);
      c.require(bool(p) == bool(exp) && (!p || p->template as<Sized>().id == exp), [&] { return d + ": access returns " + (p ? std::to_string(p->template as<Sized>().id) : "nothing") + ", expected " + std::to_string(exp); });
    } else if (op < 6) {
      Ref& x = r[op - 3];
      int id = ++next;
      d += " store" + std::to_string(op - 3);
      auto o = std::make_shared<Sized>(id, 10 * id);
      objs[id] = o;
      auto p = cm.store(k[op - 3], std::move(o));
      c.require(p && p->template as<Sized>().id == id, [&] { return d + ": store does not return the stored data"; });
      if (x.reg) { x.data = id; if (!x.pers) { if (x.life) --x.life; if (!x.life) x.data = 0; } }
    } else if (op == 6) {
      d += " reset";
      cm.reset();
      hw = 0;
      for (auto& x : r) { x.life = x.max; if (!x.pers) x.data = 0; }
    } else {
      int b = op == 7 ? 5 : 9;
      d += " note" + std::to_string(b);
      hw = std::max(hw, b);
      c.require(cm.note_working_set(b) == std::size_t(hw), [&] { return d + ": high-water mark"; });
    }
    c.step();
    c.describe(d);
    c.state(std::to_string(r[0].life) + "/" + std::to_string(r[0].max) + (r[0].data ? "d" : "") + (r[0].pers ? "p" : "") + std::to_string(r[1].life) + "/" + std::to_string(r[1].max) + (r[1].data ? "d" : "") + (r[1].pers ? "p" : "") + std::to_string(hw));
    std::size_t bytes = 0, alive = 0;
    for (int q = 0; q < 3; ++q) {
      auto& x = r[q];
      auto say = [&](const char* w) { return [&, w] { return d + ": " + w + " of entry " + std::to_string(q); }; };
      c.require(cm.exists(k[q]) == x.reg, say("exists()"));
      c.require(cm.life(k[q]) == (x.reg ? x.life : -1), say("life()"));
      c.require(cm.max_life(k[q]) == (x.reg ? x.max : -1), say("max_life()"));
      c.require(cm.alive(k[q]) == bool(x.data), say("alive()"));
      c.require(cm.persistent(k[q]) == (x.reg && x.pers), say("persistent()"));
      c.require(cm.entry_size_in_bytes(k[q]) == std::size_t(10 * x.data), say("entry_size_in_bytes()"));
      bytes += 10 * x.data;
      alive += bool(x.data);
    }
    c.require(cm.size_in_bytes() == bytes, [&] { return d + ": size_in_bytes()"; });
    c.require(cm.alive_count() == alive, [&] { return d + ": alive_count() is " + std::to_string(cm.alive_count()) + ", expected " + std::to_string(alive); });
    c.require(cm.working_set_hwmark() == std::size_t(hw), [&] { return d + ": high-water mark"; });
    for (auto& [id, w] : objs) {
      bool held = r[0].data == id || r[1].data == id;
      c.require(held == !w.expired(), [&] { return d + ": data " + std::to_string(id) + (held ? " was released" : " is still held"); });
    }
    std::size_t n = 0;
    cm.for_each_key([&](auto const&) { ++n; });
    c.require(n == 2, "number of keys");
  }
}
// all trees over variables
ExprPtr tree(vf::Case& c, int n, int nv) {
  static const wchar_t* names[] = {L"x", L"t", L"y"};
  if (n == 1) return var(names[c.choose(nv)]);
  int l = 1 + c.choose(n - 1);
  bool s = c.flip();
  auto a = tree(c, l, nv), b = tree(c, n - l, nv);
  return s ? add(a, b) : mul(a, b);
}
/// identity of a node: trees over scalars are equal iff they print alike
std::string id(NodeV const& n) { return show(n); }
void forest(vf::Case& c, std::vector<int> sizes, int nv) {
  use_context(Vacuum::Physical);
  std::vector<ExprPtr> es;
  for (int s : sizes) es.push_back(tree(c, s, nv));
  std::size_t rep = 1 + c.choose(3);
  c.mine();
  std::string d;
  for (auto& e : es) d += show(e) + " ; ";
  c.describe(d);
  c.state(d);
  std::vector<NodeV> nodes;
  for (auto& e : es) nodes.push_back(leaf(e));
  std::map<std::string, NodeV> byid;
  // uses: every time a consumer asks for the node, a shared node asking its operands only once
  std::map<std::string, int> uses;
  std::function<void(NodeV const&)> go = [&](NodeV const& n) {
    if (n.leaf()) return;
    byid.emplace(id(n), n);
    if (uses[id(n)]++) return;
    go(n.left());
    go(n.right());
  };
  for (auto& n : nodes) go(n);
  auto check = [&](auto& cm, const std::map<std::string, int>& want, const std::set<std::string>& pers, const std::string& what) {
    std::size_t n = 0;
    cm.for_each_key([&](NodeV const& k) {
      ++n;
      c.require(want.count(id(k)), [&] { return what + " registers " + id(k); });
    });
    c.require(n == want.size(), [&] { return what + " registers " + std::to_string(n) + " nodes, expected " + std::to_string(want.size()); });
    for (auto& [s, cnt] : want) {
      auto& nd = byid.at(s);
      c.require(cm.exists(nd) && cm.max_life(nd) == cnt, [&] { return what + ": " + s + " has " + std::to_string(cm.max_life(nd)) + " uses, expected " + std::to_string(cnt); });
      c.require(cm.persistent(nd) == bool(pers.count(s)), [&] { return what + ": persistence of " + s; });
    }
  };
  // evaluating the forest: shared nodes once, everything released at the end
  auto eval = [&](auto& cm, const std::map<std::string, int>& reg, const std::set<std::string>& pers, const std::string& what, bool novol) {
    (void)novol;
    Leaves lv(model());
    for (int round = 0; round < 2; ++round) {
      std::map<std::string, int> computed;
      cm.set_custom_evaluator([&](NodeV const& n, auto&) -> ResultPtr { ++computed[id(n)]; return nullptr; });
      for (std::size_t k = 0; k < nodes.size(); ++k) {
        auto r = evaluate(nodes[k], Labels{}, [&](NodeV const& n) { return lv(n); }, cm);
        c.require(flat(r) == want(model(), es[k], {}), [&] { return what + ": wrong value of " + show(es[k]); });
        c.step();
      }
      for (auto& [s, cnt] : reg) {
        auto& nd = byid.at(s);
        int exp = pers.count(s) && round ? 0 : 1;
        // a node below a persistent one need not be computed again
        c.require(computed[s] <= exp && (round || computed[s] == 1), [&] { return what + ": " + s + " was computed " + std::to_string(computed[s]) + " times in round " + std::to_string(round); });
        if (!pers.count(s)) { if (!round) c.require(!cm.alive(nd) && cm.life(nd) == 0, [&] { return what + ": " + s + " is not released after its last use (" + std::to_string(cm.life(nd)) + " uses left)"; }); }
        else c.require(cm.alive(nd), [&] { return what + ": persistent " + s + " was released"; });
      }
      cm.reset();
      for (auto& [s, cnt] : reg) c.require(cm.alive(byid.at(s)) == bool(pers.count(s)), [&] { return what + ": reset of " + s; });
    }
  };
  {
    std::map<std::string, int> want;
    for (auto& [s, n] : uses) if (n >= int(rep)) want[s] = n;
    auto cm = cache_manager(nodes, rep);
    check(cm, want, {}, "cache_manager");
    eval(cm, want, {}, "cache_manager", true);
    c.count("registered", want.size());
    auto cf = cache_manager<true>(nodes, rep);
    check(cf, want, {}, "cache_manager with colliding hashes");
  }
  {
    std::function<bool(NodeV const&)> V = [&](NodeV const& n) { return n.leaf() ? n->is_variable() && n->as_variable().label() == L"t" : V(n.left()) || V(n.right()); };
    std::set<std::string> P;
    std::function<void(NodeV const&)> f = [&](NodeV const& n) {
      if (n.leaf()) return;
      if (V(n)) for (auto* ch : {&n.left(), &n.right()}) if (!ch->leaf() && !V(*ch)) P.insert(id(*ch));
      f(n.left());
      f(n.right());
    };
    for (auto& n : nodes) f(n);
    std::map<std::string, int> want;
    for (auto& [s, n] : uses) if (n >= int(rep) || P.count(s)) want[s] = n;
    auto vol = [](NodeV const& n) { return n.leaf() && n->is_variable() && n->as_variable().label() == L"t"; };
    auto cm = cache_manager(nodes, vol, rep);
    check(cm, want, P, "cache_manager with volatile leaves");
    eval(cm, want, P, "cache_manager with volatile leaves", false);
    // footprint gate: the size of a node is its number of leaves
    std::function<double(NodeV const&)> fp = [&](NodeV const& n) -> double { return n.leaf() ? 1 : fp(n.left()) + fp(n.right()); };
    std::map<std::string, int> gated;
    std::set<std::string> PG;
    for (auto& [s, n] : want) if (fp(byid.at(s)) <= 2.) { gated[s] = n; if (P.count(s)) PG.insert(s); }
    auto cg = cache_manager(nodes, vol, rep, fp, 2.);
    check(cg, gated, PG, "cache_manager with a footprint limit");
  }
}
}  // namespace
SCENARIO("history", c) { history<false>(c, vf::thorough() ? 6 : 4); }
SCENARIO("history.collide", c) { history<true>(c, vf::thorough() ? 4 : 3); }
SCENARIO("forest.22", c) { forest(c, {2, 2, 2}, 2); }
SCENARIO("forest.4", c) { forest(c, {4}, 2); }
SCENARIO("forest.33", c) { forest(c, {3, 3}, 2); }
SCENARIO("forest.43", c) { forest(c, {4, c.choose(2) + 2}, vf::thorough() ? 2 : 1 + c.choose(2)); }
SCENARIO("forest.222", c) { if (!vf::thorough()) throw vf::Skip{}; forest(c, {2, 3, 2}, 2); }
SCENARIO("forest.54", c) { if (!vf::thorough()) throw vf::Skip{}; forest(c, {5, 4}, 1); }
// peak memory of the cached intermediates
SCENARIO("peak", c) {
  use_context(Vacuum::Physical);
  Index i(L"i_1"), a(L"a_1");
  auto isr = get_default_context().index_space_registry();
  auto sp = [&](const wchar_t* l) { return isr->retrieve(l); };
  // intermediates X = f t (i,i), Y = h t (a,a), used by n terms each in some order
  int nt = 1 + c.choose(4);
  std::vector<ExprPtr> terms;
  std::vector<int> what;
  for (int k = 0; k < nt; ++k) {
    int w = c.choose(3);
    what.push_back(w);
    auto lab = L"z" + std::to_wstring(k);
    auto X = mul(ex<Tensor>(L"f", bra{L"i_1"}, ket{L"a_1"}), ex<Tensor>(L"t", bra{L"a_1"}, ket{L"i_2"}));
    auto Y = mul(ex<Tensor>(L"h", bra{L"a_2"}, ket{L"i_3"}), ex<Tensor>(L"t", bra{L"i_3"}, ket{L"a_3"}));
    if (w == 0) terms.push_back(mul(X, ex<Tensor>(lab, bra{L"i_2"}, ket{L"i_1"})));
    if (w == 1) terms.push_back(mul(Y, ex<Tensor>(lab, bra{L"a_3"}, ket{L"a_2"})));
    if (w == 2) terms.push_back(mul(mul(X, ex<Tensor>(lab, bra{L"i_2"}, ket{L"i_1"})), mul(Y, ex<Tensor>(lab, bra{L"a_3"}, ket{L"a_2"}))));
  }
  int rep = c.choose(3);
  c.mine();
  if (nt < 2) { if (rep) throw vf::Skip{}; }
  std::string d;
  for (auto& t : terms) d += show(t) + " ; ";
  c.describe(d);
  c.state(d + std::to_string(rep));
  AsyCost oo({{sp(L"i"), 2}}), vv({{sp(L"a"), 2}}), cur = AsyCost::zero(), mx = AsyCost::zero();
  int total[2] = {}, left[2];
  for (int w : what) { total[0] += w != 1; total[1] += w != 0; }
  std::size_t mr = rep == 0 ? 2 : rep + 1;
  for (int q = 0; q < 2; ++q) left[q] = total[q];
  for (int w : what)
    for (int q = 0; q < 2; ++q) {
      if (w != 2 && w != q) continue;
      if (total[q] < int(mr)) continue;
      if (left[q] == total[q]) { cur += q ? vv : oo; mx = std::max(mx, cur); }
      if (--left[q] == 0) cur -= q ? vv : oo;
    }
  if (nt < 2) throw vf::Skip{};
  Sum s(terms.begin(), terms.end());
  auto got = rep == 0 ? peak_cache(s) : peak_cache(s, mr);
  c.step();
  c.outcome(got.text());
  c.require(got == mx, [&] { return "peak_cache is " + got.text() + ", expected " + mx.text(); });
}
int main(int c, char** v) { return vf::main_impl(c, v, "C14"); }
