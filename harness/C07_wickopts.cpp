// LINK: symb
// Options of Wick's theorem: required and avoided connections, full and partial
// contractions, declared external indices, equivalent operators, counting.
// Reference: sums over all matchings of concrete operators.
#include <SeQuant/core/expressions/expr_algorithms.hpp>
#include <SeQuant/core/expressions/expr_operators.hpp>
#include <SeQuant/core/wick.hpp>

#include "lib/gen.hpp"
#include "lib/wickref.hpp"
using namespace orc;
namespace {
constexpr auto N = Symmetry::Nonsymm, A = Symmetry::Antisymm;
constexpr auto PH = Vacuum::Physical, SP = Vacuum::SingleProduct;
Model& model() { static Model m; return m; }
std::set<int> occ(Vacuum v) {
  std::set<int> o;
  if (v == SP) for (int x : model().values(IndexSpace(L"i", 0b01, 0))) o.insert(x);
  return o;
}
struct Cons { std::vector<std::pair<int, int>> need, avoid; };
using Pairs = std::vector<std::pair<std::size_t, std::size_t>>;
Pairs pairs(const std::vector<std::pair<int, int>>& v, bool rev) {
  Pairs r;
  for (auto& [a, b] : v) rev ? r.push_back({b, a}) : r.push_back({a, b});
  return r;
}
/// every pair of nops: free, to be connected, or not to be contracted
Cons constraints(vf::Case& c, int nn, bool both = true) {
  Cons r;
  for (int a = 0; a < nn; ++a)
    for (int b = a + 1; b < nn; ++b) {
      int k = c.choose(3);
      if (k == 1) r.need.push_back({a, b});
      if (k == 2) r.avoid.push_back({a, b});
    }
  if (!both && !r.need.empty() && !r.avoid.empty()) throw vf::Skip{};
  return r;
}
std::string show(const Cons& k) {
  std::string s;
  for (auto& [a, b] : k.need) s += " " + std::to_string(a) + "-" + std::to_string(b);
  for (auto& [a, b] : k.avoid) s += " !" + std::to_string(a) + "-" + std::to_string(b);
  return s;
}
Val expected(const ExprPtr& e, const std::vector<Index>& ext, bool full, Vacuum v, std::size_t mx, const Cons& k) {
  WickRef w;
  w.occ = occ(v); w.full = full; w.need = k.need; w.avoid = k.avoid;
  Options o;
  o.product = w;
  return value(model(), e, ext, mx, o);
}
void compare(vf::Case& c, const ExprPtr& out, const Val& want, const std::vector<Index>& ext, std::size_t mx, const std::string& what) {
  if (!out) { bool z = true; for (auto& l : want) z &= l.t.empty(); c.require(z, [&] { return what + ": no result, expected " + orc::show(want); }); return; }
  Val got = value(model(), out, ext, mx);
  c.outcome(orc::show(out));
  c.require(got == want, [&] { return what + ": result " + orc::show(out).substr(0, 900) + " denotes " + orc::show(got) + ", expected " + orc::show(want); });
}
struct Shape { int nc, na; };
const std::vector<Shape> SH{{1, 0}, {0, 1}, {1, 1}, {2, 0}, {0, 2}, {2, 1}, {1, 2}, {2, 2}};
struct Seq { std::shared_ptr<FNOperatorSeq> s; ExprPtr e; std::vector<Index> ext; std::vector<std::vector<Index>> cr, an; };
Seq sequence(vf::Case& c, int nn, int max_ops, Vacuum vac, const std::vector<wchar_t>& spaces) {
  std::vector<Shape> sh;
  int tot = 0;
  for (int k = 0; k < nn; ++k) {
    sh.push_back(c.pick(SH));
    tot += sh.back().nc + sh.back().na;
    if (tot > max_ops) throw vf::Skip{};
  }
  Seq r;
  r.s = std::make_shared<FNOperatorSeq>();
  std::map<wchar_t, int> cnt;
  std::vector<ExprPtr> f;
  for (auto& s : sh) {
    std::vector<Index> cr, an;
    for (int k = 0; k < s.nc + s.na; ++k) {
      auto& v = k < s.nc ? cr : an;
      int lo = 0;
      if (!v.empty()) for (std::size_t z = 0; z < spaces.size(); ++z) if (spaces[z] == v.back().label()[0]) lo = int(z);
      wchar_t l = spaces[lo + c.choose(int(spaces.size()) - lo)];
      v.emplace_back(std::wstring(1, l) + L"_" + std::to_wstring(++cnt[l]));
      r.ext.push_back(v.back());
    }
    r.cr.push_back(cr); r.an.push_back(an);
    r.s->push_back(FNOperator(cre(cr), ann(an), vac));
    f.push_back(ex<FNOperator>(cre(cr), ann(an), vac));
  }
  r.e = ex<Product>(1, f, Product::Flatten::No);
  return r;
}
/// number of (partial) matchings of the symbolic operators
std::size_t matchings(const Seq& q, Vacuum vac, bool full, const Cons& k) {
  struct O { int nop; bool a; wchar_t sp; };
  std::vector<O> ops;
  for (std::size_t n = 0; n < q.cr.size(); ++n) {
    for (auto& i : q.cr[n]) ops.push_back({int(n), false, i.label()[0]});
    for (auto it = q.an[n].rbegin(); it != q.an[n].rend(); ++it) ops.push_back({int(n), true, it->label()[0]});
  }
  auto ok = [&](const O& l, const O& r) {
    if (l.nop == r.nop || l.a == r.a) return false;
    for (auto& [a, b] : k.avoid) if ((a == l.nop && b == r.nop) || (b == l.nop && a == r.nop)) return false;
    for (wchar_t s : {L'i', L'a'}) {
      bool qa = vac == SP && s == L'i' ? !l.a : l.a;
      if (qa && (l.sp == s || l.sp == L'p') && (r.sp == s || r.sp == L'p')) return true;
    }
    return false;
  };
  std::vector<std::pair<int, int>> con;
  std::size_t n = 0;
  std::function<void(std::vector<O>)> rec = [&](std::vector<O> s) {
    if (s.empty()) {
      for (auto& [a, b] : k.need) if (std::find(con.begin(), con.end(), std::make_pair(a, b)) == con.end()) return;
      ++n;
      return;
    }
    O l = s.front();
    s.erase(s.begin());
    if (!full) rec(s);
    for (std::size_t j = 0; j < s.size(); ++j)
      if (ok(l, s[j])) {
        auto t = s;
        t.erase(t.begin() + j);
        con.push_back({std::min(l.nop, s[j].nop), std::max(l.nop, s[j].nop)});
        rec(t);
        con.pop_back();
      }
  };
  rec(ops);
  return n;
}
TSpec nop(int nann, int ncre) { TSpec t{L"", nann, ncre}; t.nop = true; return t; }
bool operators_only(const Net& n) {  // an index summed over operators only: known finding of C06
  for (std::size_t q = 0; q < n.ix.size(); ++q) {
    int no = 0, al = 0;
    for (std::size_t k = 0; k < n.t.size(); ++k) for (int z : n.slots[k]) if (z == int(q)) { ++al; no += n.t[k].nop; }
    if (al >= 2 && no == al) return true;
  }
  return false;
}
void apply(FWickTheorem& w, const Cons& k, bool rev) {
  if (!k.need.empty()) w.set_nop_connections(pairs(k.need, rev));
  if (!k.avoid.empty()) w.set_nop_avoided_connections(pairs(k.avoid, rev));
}
void net(vf::Case& c, std::vector<TSpec> t, NetSpaces sp, Vacuum vac, std::size_t mx, bool both = true) {
  use_context(vac);
  int nn = 0;
  for (auto& x : t) nn += x.nop;
  Cons k = constraints(c, nn, both);
  Net n = gen_net(c, t, sp);
  n.vac = vac;
  if (operators_only(n)) throw vf::Skip{};
  c.mine();
  auto e = n.expr();
  auto ext = n.externals();
  c.describe(orc::show(e) + show(k) + (vac == PH ? " physical" : " fermi"));
  c.state(c.desc);
  for (bool full : {true, false}) {
    auto want = expected(e, ext, full, vac, mx, k);
    for (bool topo : {true, false}) {
      FWickTheorem w(e->clone());
      w.full_contractions(full).use_topology(topo);
      apply(w, k, topo);
      auto r = w.compute();
      c.step();
      compare(c, r, want, ext, mx, std::string(full ? "full" : "all") + (topo ? " contractions with topology" : " contractions"));
    }
  }
}
}  // namespace
SCENARIO("seq", c) {
  auto vac = c.pick(std::vector{PH, SP});
  use_context(vac);
  int nn = 2 + c.choose(vf::thorough() ? 3 : 2);
  Cons k = constraints(c, nn, nn < 4);
  if (nn == 4 && k.need.size() + k.avoid.size() > 2) throw vf::Skip{};
  auto q = sequence(c, nn, vf::thorough() ? 5 : 4, vac, vac == PH ? std::vector<wchar_t>{L'i', L'p'} : std::vector<wchar_t>{L'i', L'a', L'p'});
  c.mine();
  c.describe(orc::show(q.e) + show(k) + (vac == PH ? " physical" : " fermi"));
  c.state(c.desc);
  for (bool full : {true, false}) {
    auto want = expected(q.e, q.ext, full, vac, 24, k);
    for (int how = 0; how < 3; ++how) {
      FWickTheorem w(std::make_shared<FNOperatorSeq>(*q.s));
      w.full_contractions(full).use_topology(how == 0);
      apply(w, k, how == 1);
      auto what = std::string(full ? "full contractions" : "all contractions");
      if (how == 2) {
        auto r = w.compute(true);
        c.step();
        auto cnt = matchings(q, vac, full, k);
        c.require(r && r->is<Constant>() && r->as<Constant>().value() == Constant::scalar_type(cnt), [&] { return what + ": the number of terms is " + (r ? orc::show(r) : std::string("null")) + ", expected " + std::to_string(cnt); });
      } else {
        auto r = w.compute();
        c.step();
        compare(c, r, want, q.ext, 24, what);
      }
    }
  }
}
SCENARIO("rejected", c) {  // malformed specifications
  use_context(PH);
  int what = c.choose(8);
  c.mine();
  auto mk = [] { return FWickTheorem(std::make_shared<FNOperatorSeq>(FNOperator(cre{L"p_1"}, ann{L"p_2"}, PH), FNOperator(cre{L"p_3"}, ann{L"p_4"}, PH))); };
  auto w = mk();
  bool threw = false;
  c.describe("specification " + std::to_string(what));
  c.state(c.desc);
  try {
    switch (what) {
      case 0: w.set_nop_connections(Pairs{{0, 2}}); break;
      case 1: w.set_nop_connections(Pairs{{2, 0}}); break;
      case 2: w.set_nop_connections(std::vector<std::pair<long, long>>{{-1, 0}}); break;
      case 3: w.set_nop_connections(Pairs{{0, 1}, {0, 1}}); break;
      case 4: w.set_nop_avoided_connections(Pairs{{0, 2}}); break;
      case 5: w.set_nop_avoided_connections(std::vector<std::pair<long, long>>{{0, -1}}); break;
      case 6: w.set_nop_avoided_connections(Pairs{{0, 1}, {0, 1}}); break;
      case 7: w.set_external_indices(std::vector<Index>{Index(L"p_1"), Index(L"p_1")}); break;
    }
  } catch (std::exception&) { threw = true; }
  c.step();
  c.require(threw, "was accepted");
}
/// equivalent operators within each normal operator are declared
SCENARIO("oppart", c) {
  auto vac = c.pick(std::vector{PH, SP});
  use_context(vac);
  int nn = 2 + c.choose(2);
  Cons k;
  if (c.flip()) k = constraints(c, nn, false);
  auto q = sequence(c, nn, nn == 2 ? (vf::thorough() ? 8 : 6) : (vf::thorough() ? 6 : 4), vac, vac == PH ? std::vector<wchar_t>{L'p'} : std::vector<wchar_t>{L'i', L'p'});
  // creators (annihilators) of a normal operator are equivalent if of the same space
  std::vector<std::vector<std::size_t>> parts;
  std::vector<ExprPtr> ts;
  std::size_t ord = 0;
  bool multi = false;
  for (int n = 0; n < nn; ++n) {
    for (bool a : {false, true}) {
      auto v = a ? q.an[n] : q.cr[n];
      if (a) std::reverse(v.begin(), v.end());
      std::map<wchar_t, std::vector<std::size_t>> g;
      for (auto& i : v) g[i.label()[0]].push_back(ord++);
      for (auto& [s, o] : g) { parts.push_back(o); multi |= o.size() > 1; }
    }
    auto lab = L"T" + std::to_wstring(n);
    ts.push_back(ex<Tensor>(lab, bra(q.cr[n]), ket(q.an[n]), aux{}, Symmetry::Antisymm));
  }
  if (!multi) throw vf::Skip{};
  std::sort(parts.begin(), parts.end());
  bool trivial_too = c.flip("singletons listed");
  if (!trivial_too) std::erase_if(parts, [](auto& p) { return p.size() == 1; });
  c.mine();
  c.describe(orc::show(q.e) + show(k) + (vac == PH ? " physical" : " fermi"));
  c.state(c.desc);
  for (bool full : {true, false}) {
    if (!full && q.ext.size() > 4) continue;
    auto prod = [&](ExprPtr x) {
      std::vector<ExprPtr> f = ts;
      f.push_back(x);
      return ex<Product>(1, f, Product::Flatten::No);
    };
    std::vector<ExprPtr> f = ts;
    for (auto& x : *q.e) f.push_back(x);
    auto in = ex<Product>(1, f, Product::Flatten::No);
    auto want = expected(in, {}, full, vac, 1, k);
    FWickTheorem w(std::make_shared<FNOperatorSeq>(*q.s));
    w.full_contractions(full);
    w.set_op_partitions(parts);
    apply(w, k, false);
    auto r = w.compute();
    c.step();
    if (!r) { bool z = true; for (auto& l : want) z &= l.t.empty(); c.require(z, "no result"); continue; }
    auto out = r->is<Sum>() ? ExprPtr() : prod(r);
    if (!out) {
      std::vector<ExprPtr> s;
      for (auto& x : *r) s.push_back(prod(x->clone()));
      out = ex<Sum>(s.begin(), s.end());
    }
    // flatten so that all indices are summed over
    expand(out); flatten(out);
    compare(c, out, want, {}, 1, full ? "full contractions" : "all contractions");
  }
}
SCENARIO("net", c) {
  auto vac = c.pick(std::vector{PH, SP});
  int k = c.choose(6);
  std::vector<wchar_t> iap{L'i', L'a', L'p'}, ip{L'i', L'p'};
  if (vac == PH) iap = {L'p', L'i'};
  auto a11 = nop(1, 1), a01 = nop(0, 1), a10 = nop(1, 0);
  if (k == 0) net(c, {{L"f", 1, 1}, a11, a11}, {.spaces = iap, .max_ext = 2, .traces = false}, vac, 12);
  else if (k == 1) net(c, {{L"g", 2, 2, 0, A}, a11, a11}, {.spaces = ip, .max_ext = 2, .traces = false}, vac, 12);
  else if (k == 2) net(c, {{L"f", 1, 1}, {L"f", 1, 1}, a11, a11}, {.spaces = ip, .max_ext = 0, .traces = false}, vac, 12);
  else if (k == 3) net(c, {{L"f", 1, 1}, {L"h", 1, 1}, a10, a11, a01}, {.spaces = {L'p'}, .max_ext = 0, .traces = false}, vac, 8);
  else if (k == 4) net(c, {{L"g", 2, 2, 0, A}, a10, a11, a01}, {.spaces = vf::thorough() ? iap : ip, .max_ext = vf::thorough() ? 2 : 0, .traces = false}, vac, 8);
  else net(c, {{L"g", 2, 2, 0, A}, nop(0, 2), nop(2, 0)}, {.spaces = iap, .max_ext = 2, .traces = false}, vac, 8);
}
/// any of the repeated indices may be declared external
SCENARIO("external", c) {
  auto vac = c.pick(std::vector{PH, SP});
  use_context(vac);
  int k = c.choose(4);
  std::vector<wchar_t> sp = vac == PH ? std::vector<wchar_t>{L'i', L'p'} : std::vector<wchar_t>{L'i', L'a', L'p'};
  auto a11 = nop(1, 1);
  Net n = gen_net(c, k == 0 ? std::vector<TSpec>{{L"f", 1, 1}, a11} : k == 1 ? std::vector<TSpec>{{L"f", 1, 1}, nop(0, 1), nop(1, 0)} : k == 2 ? std::vector<TSpec>{{L"f", 1, 1}, a11, a11} : std::vector<TSpec>{{L"f", 1, 1}, {L"h", 1, 1}, a11},
                  {.spaces = sp, .max_ext = k == 2 ? 2 : 4});
  n.vac = vac;
  if (operators_only(n)) throw vf::Skip{};
  std::vector<Index> ext = n.externals(), decl = ext;
  std::size_t rep = 0;
  for (std::size_t q = 0; q < n.ix.size(); ++q)
    if (n.deg[q] == 2 && c.flip()) {
      decl.push_back(n.index(int(q)));
      ++rep;
    }
  if (!rep) throw vf::Skip{};
  bool sum = c.flip("as a sum");
  c.mine();
  auto e = n.expr();
  if (sum) e = ex<Sum>(ExprPtrList{e, ex<Constant>(2) * ex<Tensor>(L"k", bra{}, ket{}, aux(decl)) });
  std::string d = orc::show(e) + " ext";
  for (auto& i : decl) d += " " + u8(std::wstring(i.full_label()));
  c.describe(d);
  c.state(d);
  for (bool full : {true, false}) {
    auto want = expected(e, decl, full, vac, 48, {});
    for (bool topo : {true, false}) {
      FWickTheorem w(e->clone());
      w.full_contractions(full).use_topology(topo).set_external_indices(decl);
      auto r = w.compute();
      c.step();
      compare(c, r, want, decl, 48, std::string(full ? "full" : "all") + (topo ? " contractions with topology" : " contractions"));
    }
  }
}
/// sums of products with different numbers of terms under the same constraints
SCENARIO("sums", c) {
  auto vac = c.pick(std::vector{PH, SP});
  use_context(vac);
  Cons k = constraints(c, 2);
  std::map<wchar_t, int> cnt;
  auto ix = [&](wchar_t l) { return Index(std::wstring(1, l) + L"_" + std::to_wstring(++cnt[l])); };
  auto op = [&](int a) -> ExprPtr {  // two operators with tensors
    auto one = [&](const wchar_t* lab, const wchar_t* b, const wchar_t* kk) {
      std::vector<Index> bb, ks;
      for (; *b; ++b) bb.push_back(ix(*b));
      for (; *kk; ++kk) ks.push_back(ix(*kk));
      return ex<Tensor>(lab, bra(bb), ket(ks), aux{}, bb.size() > 1 ? A : N) * ex<FNOperator>(cre(bb), ann(ks), vac);
    };
    switch (a) {
      case 0: return one(L"f", L"p", L"p") * one(L"t", L"a", L"i");
      case 1: return one(L"f", L"i", L"p") * one(L"f", L"p", L"i");
      case 2: return one(L"g", L"ii", L"aa") * one(L"t", L"aa", L"ii");
      case 3: return one(L"l", L"i", L"a") * one(L"t", L"a", L"i");
      case 4: return one(L"g", L"ip", L"ap") * one(L"t", L"a", L"i");
      default: return one(L"l", L"i", L"") * one(L"t", L"", L"i");
    }
  };
  int a = c.choose(6), b = c.choose(6);
  c.mine();
  auto e = op(a) + ex<Constant>(rational(1, 2)) * op(b);
  c.describe(orc::show(e) + show(k) + (vac == PH ? " physical" : " fermi"));
  c.state(c.desc);
  for (bool full : {true, false}) {
    if (!full && (a == 2 || b == 2)) continue;
    auto want = expected(e, {}, full, vac, 1, k);
    for (bool topo : {true, false})
      for (bool skip : {false, true}) {
        FWickTheorem w(e->clone());
        w.full_contractions(full).use_topology(topo);
        apply(w, k, skip);
        auto r = w.compute(false, skip);
        c.step();
        compare(c, r, want, {}, 1, std::string(full ? "full" : "all") + (topo ? " contractions with topology" : " contractions"));
      }
  }
}
int main(int c, char** v) { return vf::main_impl(c, v, "C07"); }
