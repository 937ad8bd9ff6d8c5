// LINK: symb
// Wick's theorem, as computed by WickTheorem, against the operator algebra
// itself: the vacuum expectation value (full contractions) or the operator
// (all contractions) denoted by the result is that of the input.
#include <SeQuant/core/expressions/expr_algorithms.hpp>
#include <SeQuant/core/expressions/expr_operators.hpp>
#include <SeQuant/core/wick.hpp>

#include "lib/gen.hpp"
using namespace orc;
namespace {
constexpr auto N = Symmetry::Nonsymm, A = Symmetry::Antisymm, S = Symmetry::Symm;
Model& model() { static Model m; return m; }
std::set<int> occ(Vacuum v, bool sf = false) {
  std::set<int> o;
  if (v == Vacuum::SingleProduct)
    for (int x : model().values(IndexSpace(L"i", 0b01, 0)))
      if (sf) { o.insert(2 * x); o.insert(2 * x + 1); } else o.insert(x);
  return o;
}
/// what the result should denote
Val expected(const ExprPtr& e, const std::vector<Index>& ext, bool full, Vacuum v, std::size_t max, Options o = {}) {
  Val r = value(model(), e, ext, max, o);
  if (!full) return r;
  auto oc = occ(v, o.spinfree);
  for (auto& l : r) l = scalar(vev(l, oc));
  return r;
}
void compare(vf::Case& c, const ExprPtr& in, const ExprPtr& out, const Val& want, const std::vector<Index>& ext, std::size_t max, const char* what, Options o = {}) {
  Val got = value(model(), out, ext, max, o);
  c.outcome(show(out));
  c.require(got == want, [&] { return std::string(what) + ": result " + show(out).substr(0, 900) + " denotes " + orc::show(got) + ", expected " + orc::show(want); });
}
struct Shape { int nc, na; };
const std::vector<Shape> SH{{1, 0}, {0, 1}, {1, 1}, {2, 0}, {0, 2}, {2, 1}, {1, 2}, {2, 2}, {3, 0}, {0, 3}};

/// a sequence of normal operators; every index external
template <Statistics St>
void seq(vf::Case& c, int max_nops, int max_ops, Vacuum vac, std::vector<wchar_t> spaces, bool multiset, bool repeat) {
  use_context(vac);
  const bool bose = St == Statistics::BoseEinstein;
  int nn = 1 + c.choose(max_nops), tot = 0, ncr = 0;
  std::vector<Shape> sh;
  for (int k = 0; k < nn; ++k) {
    sh.push_back(c.pick(SH));
    tot += sh.back().nc + sh.back().na;
    ncr += sh.back().nc;
    if (tot > max_ops) throw vf::Skip{};
  }
  if (multiset && tot != max_ops) throw vf::Skip{};   // smaller ones are explored with all orders
  int off = repeat && c.flip() ? 5 : 0;
  c.mine();
  std::map<wchar_t, int> cnt;
  std::vector<std::pair<Index, Action>> used;
  std::vector<Index> ext;
  bool shared = false;
  auto seqp = std::make_shared<NormalOperatorSequence<St>>();
  std::vector<NormalOperator<St>> nops;
  for (auto& s : sh) {
    std::vector<Index> cr, an;
    for (int k = 0; k < s.nc + s.na; ++k) {
      bool isc = k < s.nc;
      auto& v = isc ? cr : an;
      int lo = 0;
      if (multiset && !v.empty()) { for (std::size_t z = 0; z < spaces.size(); ++z) if (spaces[z] == v.back().label()[0]) lo = int(z); }
      int opts = int(spaces.size()) - lo;
      // optionally repeat one index used with the opposite action in an earlier operator
      std::vector<Index> rep;
      if (repeat && !shared) for (auto& [i, a] : used) if ((a == Action::Create) != isc) rep.push_back(i);
      int ch = c.choose(opts + int(rep.size()));
      if (ch >= opts) { v.push_back(rep[ch - opts]); shared = true; }
      else {
        wchar_t l = spaces[lo + ch];
        Index i(std::wstring(1, l) + L"_" + std::to_wstring(++cnt[l] + off));
        v.push_back(i);
        ext.push_back(i);
      }
    }
    for (auto& i : cr) used.push_back({i, Action::Create});
    for (auto& i : an) used.push_back({i, Action::Annihilate});
    nops.emplace_back(cre(cr), ann(an), vac);
  }
  if (repeat && !shared) throw vf::Skip{};
  *seqp = NormalOperatorSequence<St>();
  std::vector<ExprPtr> f;
  for (auto& n : nops) f.push_back(ex<NormalOperator<St>>(n));
  // a default-constructed sequence has the vacuum of the default context
  for (auto& n : nops) seqp->push_back(n);
  ExprPtr in = seqp;
  c.describe(show(ex<Product>(1, f, Product::Flatten::No)) + (vac == Vacuum::Physical ? " physical" : " fermi"));
  c.state(c.desc);
  const std::size_t mx = 40;
  for (bool full : {true, false}) {
    // an operator is needed to contract
    auto want = expected(in, ext, full, vac, mx);
    for (bool topo : {true, false}) {
      auto r = WickTheorem<St>(std::make_shared<NormalOperatorSequence<St>>(*seqp)).full_contractions(full).use_topology(topo).compute();
      c.step();
      compare(c, in, r, want, ext, mx, full ? "full contractions" : "all contractions");
      if (full) {
        // and the count of contractions is the number of terms
      }
    }
    (void)bose;
  }
}
/// tensors and operators in one product
void net(vf::Case& c, std::vector<TSpec> t, NetSpaces sp, Vacuum vac, bool partial, std::size_t mx = 12, bool shared = false) {
  use_context(vac);
  Net n = gen_net(c, t, sp);
  n.vac = vac;
  c.mine();
  // an index summed over operators only: see net.shared (net.optrace if its sum leaves a trace)
  bool sh = false;
  for (std::size_t q = 0; q < n.ix.size(); ++q) {
    int no = 0, al = 0;
    for (std::size_t k = 0; k < n.t.size(); ++k) for (int z : n.slots[k]) if (z == int(q)) { ++al; no += n.t[k].nop; }
    sh |= al >= 2 && no == al;
  }
  if (sh != shared) throw vf::Skip{};
  auto e = n.expr();
  auto ext = n.externals();
  c.describe(show(e));
  c.state(c.desc);
  for (bool full : {true, false}) {
    if (!full && !partial) continue;
    auto want = expected(e, ext, full, vac, mx);
    for (bool topo : {true, false}) {
      FWickTheorem w(e->clone());
      auto r = w.full_contractions(full).use_topology(topo).compute();
      c.step();
      compare(c, e, r, want, ext, mx, full ? (topo ? "full contractions with topology" : "full contractions") : (topo ? "all contractions with topology" : "all contractions"));
      auto s = r->clone();
      simplify(s);
      compare(c, e, s, want, ext, mx, "simplified result");
    }
  }
}
TSpec nop(int nann, int ncre) { TSpec t{L"", nann, ncre}; t.nop = true; return t; }
}  // namespace
SCENARIO("seq.fermi", c) {
  auto vac = c.pick(std::vector{Vacuum::Physical, Vacuum::SingleProduct});
  seq<Statistics::FermiDirac>(c, vf::thorough() ? 4 : 3, vf::thorough() ? 5 : 4, vac, {L'i', L'a', L'p'}, false, false);
}
SCENARIO("seq.fermi.long", c) {
  auto vac = c.pick(std::vector{Vacuum::Physical, Vacuum::SingleProduct});
  int n = vf::thorough() ? c.pick(std::vector{5, 6}) : 5;
  std::vector<wchar_t> sp = vf::thorough() ? std::vector<wchar_t>{L'i', L'a', L'p'} : std::vector<wchar_t>{L'i', L'p'};
  if (vac == Vacuum::Physical) sp = {L'p'};
  seq<Statistics::FermiDirac>(c, 4, n, vac, sp, true, false);
}
SCENARIO("seq.fermi.repeat", c) {  // an index occurs twice, with opposite actions
  auto vac = c.pick(std::vector{Vacuum::Physical, Vacuum::SingleProduct});
  seq<Statistics::FermiDirac>(c, 3, vf::thorough() ? 5 : 4, vac, {L'i', L'p'}, false, true);
}
SCENARIO("seq.bose", c) {
  seq<Statistics::BoseEinstein>(c, vf::thorough() ? 4 : 3, vf::thorough() ? 5 : 4, Vacuum::Physical, {L'i', L'p'}, false, false);
}
SCENARIO("net", c) {
  auto vac = c.pick(std::vector{Vacuum::Physical, Vacuum::SingleProduct});
  int k = c.choose(7);
  NetSpaces sp{.spaces = {L'i', L'a', L'p'}, .max_ext = 2, .traces = false};
  auto s = c.pick(std::vector{N, A});
  auto a11 = nop(1, 1), a22 = nop(2, 2), a01 = nop(0, 1), a10 = nop(1, 0);
  if (s == A && (k < 2 || k == 5)) throw vf::Skip{};
  if (k == 0) net(c, {{L"f", 1, 1}, a11, a11}, {.spaces = {L'i', L'a', L'p'}, .max_ext = 4, .traces = false}, vac, true);
  else if (k == 1) net(c, {{L"f", 1, 1}, a10, a01}, {.spaces = {L'i', L'a', L'p'}, .max_ext = 4, .traces = false}, vac, true);
  else if (k == 2) net(c, {{L"g", 2, 2, 0, s}, a11, a11}, {.spaces = vf::thorough() ? std::vector<wchar_t>{L'i', L'a', L'p'} : std::vector<wchar_t>{L'i', L'p'}, .max_ext = 2, .traces = false}, vac, true, 8);
  else if (k == 3) net(c, {{L"g", 2, 2, 0, s}, a22}, {.spaces = {L'i', L'a', L'p'}, .max_ext = vf::thorough() ? 4 : 2, .traces = false}, vac, true, 8);
  else if (k == 4) net(c, {{L"g", 2, 2, 0, s}, nop(2, 0), nop(0, 2)}, {.spaces = {L'i', L'a', L'p'}, .max_ext = vf::thorough() ? 4 : 2, .traces = false}, vac, true, 8);
  else if (k == 5) net(c, {{L"f", 1, 1}, {L"f", 1, 1}, a11, a11}, {.spaces = vf::thorough() ? std::vector<wchar_t>{L'i', L'a', L'p'} : std::vector<wchar_t>{L'i', L'p'}, .max_ext = 1, .traces = false}, vac, true, 8);
  else net(c, {{L"t", 1, 1}, {L"g", 2, 2, 0, s}, a11, a11}, {.spaces = {L'i', L'p'}, .max_ext = vf::thorough() ? 2 : 0, .traces = false}, vac, vf::thorough(), 8);
}
SCENARIO("net.shared", c) {  // an index is summed over operators only
  auto vac = c.pick(std::vector{Vacuum::Physical, Vacuum::SingleProduct});
  int k = c.choose(2);
  auto a11 = nop(1, 1), a01 = nop(0, 1), a10 = nop(1, 0);
  if (k == 0) net(c, {{L"f", 1, 1}, a11, a11}, {.spaces = {L'i', L'a', L'p'}, .max_ext = 4, .traces = false}, vac, true, 12, true);
  else net(c, {{L"f", 1, 1}, a10, a01}, {.spaces = {L'i', L'a', L'p'}, .max_ext = 4, .traces = false}, vac, true, 12, true);
}
/// products of many-body operators, as (tensor . normal operator)
namespace {
struct MB { const char* name; std::wstring lab; std::wstring bra, ket; rational coef; };  // space letters
// bra of the tensor = creators of the operator
const std::vector<MB> MBO{
    {"F", L"f", L"p", L"p", 1}, {"G", L"g", L"pp", L"pp", rational(1, 4)},
    {"T1", L"t", L"a", L"i", 1}, {"T2", L"t", L"aa", L"ii", rational(1, 4)},
    {"L1", L"l", L"i", L"a", 1}, {"L2", L"l", L"ii", L"aa", rational(1, 4)},
    {"R10", L"r", L"", L"i", 1}, {"R01", L"r", L"a", L"", 1},
    {"R21", L"r", L"a", L"ii", rational(1, 2)}, {"R12", L"r", L"aa", L"i", rational(1, 2)}};
ExprPtr mbo(int k, std::map<wchar_t, int>& cnt, Symmetry s, bool loose, std::vector<Index>* ext) {
  auto& o = MBO[k];
  std::vector<Index> b, kt;
  for (auto [str, v] : {std::pair{&o.bra, &b}, std::pair{&o.ket, &kt}})
    for (wchar_t l : *str) v->push_back(Index(std::wstring(1, l) + L"_" + std::to_wstring(++cnt[l])));
  rational cf = o.coef;
  if (s == N && o.bra.size() == 2 && o.ket.size() == 2) cf = rational(1, 2);
  if (loose) {  // the bare operator, indices external
    for (auto& i : b) ext->push_back(i);
    for (auto& i : kt) ext->push_back(i);
    return ex<FNOperator>(cre(b), ann(kt), Vacuum::SingleProduct);
  }
  return ex<Product>(cf, ExprPtrList{ex<Tensor>(o.lab, bra(b), ket(kt), s), ex<FNOperator>(cre(b), ann(kt), Vacuum::SingleProduct)});
}
void mbody(vf::Case& c, int len, bool sums, bool partial) {
  use_context(Vacuum::SingleProduct);
  auto s = c.pick(std::vector{A, N});
  std::map<wchar_t, int> cnt;
  std::vector<Index> ext;
  std::vector<ExprPtr> f;
  std::string d;
  int ops = 0, exc = 0;
  bool loose = c.flip();             // leftmost operator is a projector with external indices
  for (int k = 0; k < len; ++k) {
    int a = c.choose(int(MBO.size()));
    bool bare = loose && k == 0;
    auto x = mbo(a, cnt, s, bare, &ext);
    d += (k ? "*" : "") + std::string(MBO[a].name) + (bare ? "'" : "");
    std::size_t sz = MBO[a].bra.size() + MBO[a].ket.size();
    exc += int(MBO[a].bra.size()) - int(MBO[a].ket.size());
    if (sums && !bare) {
      int b = c.choose(int(MBO.size()));
      if (b <= a || MBO[b].bra.size() - MBO[b].ket.size() != MBO[a].bra.size() - MBO[a].ket.size()) throw vf::Skip{};
      x = ex<Sum>(ExprPtrList{x, mbo(b, cnt, s, false, &ext)});
      d += std::string("+") + MBO[b].name;
      sz = std::max(sz, MBO[b].bra.size() + MBO[b].ket.size());
    }
    ops += int(sz);
    f.push_back(x);
  }
  if (exc != 0) throw vf::Skip{};    // particle number changes: the average vanishes
  if (s == N && d.find('R') != d.npos) throw vf::Skip{};
  if (ops > (vf::thorough() ? 12 : 10) || (partial && ops > (vf::thorough() ? 8 : 6))) throw vf::Skip{};
  c.mine();
  auto e = f[0];
  for (std::size_t k = 1; k < f.size(); ++k) e = e * f[k];
  c.describe(d + (s == N ? " nonsymm" : ""));
  c.state(c.desc);
  std::size_t mx = 6;
  for (bool full : {true, false}) {
    if (full == partial) continue;
    auto want = expected(e, ext, full, Vacuum::SingleProduct, mx);
    for (bool topo : {true, false}) {
      auto x = e->clone();
      FWickTheorem w(x);
      auto r = w.full_contractions(full).use_topology(topo).compute();
      c.step();
      compare(c, e, r, want, ext, mx, full ? (topo ? "full contractions with topology" : "full contractions") : (topo ? "all contractions with topology" : "all contractions"));
      simplify(r);
      compare(c, e, r, want, ext, mx, "simplified result");
    }
  }
}
}  // namespace
SCENARIO("mb.2", c) { mbody(c, 2, false, false); }
SCENARIO("mb.2.partial", c) { mbody(c, 2, false, true); }
SCENARIO("mb.3", c) { mbody(c, 3, false, false); }
SCENARIO("mb.sums", c) { mbody(c, 2, true, false); }
/// spin-free operators
SCENARIO("spinfree", c) {
  auto vac = c.pick(std::vector{Vacuum::Physical, Vacuum::SingleProduct});
  use_context(vac);
  auto ctx = get_default_context();
  ctx.set(SPBasis::Spinfree);
  set_default_context(ctx);
  int nn = 1 + c.choose(3), tot = 0;
  std::vector<int> rk;
  for (int k = 0; k < nn; ++k) { rk.push_back(1 + c.choose(2)); tot += rk.back(); }
  if (tot > (vf::thorough() ? 4 : 3)) throw vf::Skip{};
  c.mine();
  std::map<wchar_t, int> cnt;
  std::vector<Index> ext;
  auto sq = std::make_shared<FNOperatorSeq>();
  std::string d = vac == Vacuum::Physical ? "physical" : "fermi";
  for (int r : rk) {
    std::vector<Index> cr, an;
    for (int k = 0; k < 2 * r; ++k) {
      wchar_t l = c.pick(std::vector<wchar_t>{L'i', L'a', L'p'});
      Index i(std::wstring(1, l) + L"_" + std::to_wstring(++cnt[l]));
      (k < r ? cr : an).push_back(i);
      ext.push_back(i);
    }
    sq->push_back(FNOperator(cre(cr), ann(an), vac));
    d += " " + show(ex<FNOperator>((*sq)[sq->size() - 1]));
  }
  c.describe(d);
  c.state(d);
  Options o; o.spinfree = true;
  for (bool full : {true, false}) {
    if (full && vac == Vacuum::Physical) continue;
    auto want = expected(sq, ext, full, vac, 24, o);
    auto r = FWickTheorem(std::make_shared<FNOperatorSeq>(*sq)).full_contractions(full).use_topology(false).compute();
    c.step();
    compare(c, sq, r, want, ext, 24, full ? "full contractions" : "all contractions", o);
  }
}
SCENARIO("spinfree.mb", c) {  // products of spin-free many-body operators, spin-summed
  use_context(Vacuum::SingleProduct);
  auto ctx = get_default_context();
  ctx.set(SPBasis::Spinfree);
  set_default_context(ctx);
  int len = 2 + c.choose(2);
  std::map<wchar_t, int> cnt;
  std::vector<Index> ext;
  std::string d;
  ExprPtr e;
  int ops = 0, exc = 0;
  for (int k = 0; k < len; ++k) {
    int a = c.choose(6);
    auto x = mbo(a, cnt, N, false, &ext);
    d += (k ? "*" : "") + std::string(MBO[a].name);
    ops += int(MBO[a].bra.size());
    for (wchar_t w : MBO[a].bra) exc += w == L'a' ? 1 : w == L'i' ? -1 : 0;
    e = e ? e * x : x;
  }
  if (ops > (vf::thorough() ? 5 : 4)) throw vf::Skip{};
  c.mine();
  c.describe(d);
  c.state(d);
  Options o; o.spinfree = true;
  auto want = expected(e, ext, true, Vacuum::SingleProduct, 1, o);
  for (bool topo : {true, false}) {
    auto r = FWickTheorem(e->clone()).full_contractions(true).use_topology(topo).compute();
    c.step();
    compare(c, e, r, want, ext, 1, topo ? "full contractions with topology" : "full contractions", o);
    simplify(r);
    compare(c, e, r, want, ext, 1, "simplified result", o);
  }
}
SCENARIO("overlaps", c) {  // chains of overlap tensors between a tensor and the operators
  auto vac = c.pick(std::vector{Vacuum::Physical, Vacuum::SingleProduct});
  int n = c.choose(4), m = c.choose(vf::thorough() ? 4 : 3);  // links on the annihilator and on the creator side
  if (n + m == 0 || n + m > (vf::thorough() ? 4 : 3)) throw vf::Skip{};
  bool rev = c.flip("creator first"), merged = c.flip("one operator"), last = c.flip("overlaps last");
  use_context(vac);
  std::map<wchar_t, int> cnt;
  auto mk = [&] { wchar_t l = L"iap"[c.choose(3)]; return Index(std::wstring(1, l) + L"_" + std::to_wstring(++cnt[l])); };
  std::vector<Index> u{mk()}, v{mk()};
  for (int k = 0; k < n; ++k) v.push_back(mk());
  for (int k = 0; k < m; ++k) u.push_back(mk());
  if (rev && merged) throw vf::Skip{};
  c.mine();
  std::vector<ExprPtr> fs{ex<Tensor>(L"f", bra{u[0]}, ket{v[0]}, aux{}, N)}, ov;
  for (int k = 0; k < n; ++k) ov.push_back(make_overlap(v[k], v[k + 1]));
  for (int k = 0; k < m; ++k) ov.push_back(make_overlap(u[k + 1], u[k]));
  std::vector<ExprPtr> op;
  if (merged) op = {ex<FNOperator>(cre({u.back()}), ann({v.back()}), vac)};
  else {
    op = {ex<FNOperator>(cre({}), ann({v.back()}), vac), ex<FNOperator>(cre({u.back()}), ann({}), vac)};
    if (rev) std::swap(op[0], op[1]);
  }
  if (!last) fs.insert(fs.end(), ov.begin(), ov.end());
  fs.insert(fs.end(), op.begin(), op.end());
  if (last) fs.insert(fs.end(), ov.begin(), ov.end());
  ExprPtr e = ex<Product>(1, fs.begin(), fs.end());
  c.describe(show(e));
  c.state(c.desc);
  for (bool full : {true, false}) {
    auto want = expected(e, {}, full, vac, 12);
    auto r = FWickTheorem(e->clone()).full_contractions(full).compute();
    c.step();
    compare(c, e, r, want, {}, 12, full ? "full contractions" : "all contractions");
    simplify(r);
    compare(c, e, r, want, {}, 12, "simplified result");
  }
}
SCENARIO("atoms", c) {  // expressions that are, or contain, single atoms
  auto vac = c.pick(std::vector{Vacuum::Physical, Vacuum::SingleProduct});
  use_context(vac);
  auto f = [] { return ex<Tensor>(L"f", bra{L"i_1"}, ket{L"i_2"}); };
  auto atom = [&](int k) -> ExprPtr {
    switch (k) {
      case 0: return ex<Constant>(rational(2, 3));
      case 1: return ex<Variable>(L"x");
      case 2: return ex<Tensor>(L"f", bra{L"i_1"}, ket{L"i_1"});
      case 3: return f() * ex<FNOperator>(cre{L"i_1"}, ann{L"i_2"}, vac);
      case 4: return f() * ex<FNOperator>(cre{}, ann{L"i_2"}, vac) * ex<FNOperator>(cre{L"i_1"}, ann{}, vac);
      case 5: return f() * ex<FNOperator>(cre{L"i_1"}, ann{}, vac) * ex<FNOperator>(cre{}, ann{L"i_2"}, vac);
      case 6: return ex<Constant>(rational(-3, 2));
      case 7: return ex<Constant>(0);
      case 8: return ex<Product>(rational(1, 2), ExprPtrList{}, Product::Flatten::No);
      case 9: return ex<FNOperator>(cre{L"i_1"}, ann{L"i_2"}, vac);
      default: return ex<Product>(1, ExprPtrList{ex<FNOperator>(cre{L"i_1"}, ann{L"i_2"}, vac)}, Product::Flatten::No);
    }
  };
  int k = c.choose(4);
  ExprPtr e;
  std::vector<Index> ext;
  if (k == 0) { int a = c.choose(11); e = atom(a); if (a >= 9) ext = {Index(L"i_1"), Index(L"i_2")}; }
  else if (k == 1) { int a = c.choose(9), b = c.choose(9); e = ex<Sum>(ExprPtrList{atom(a), atom(b)}); }
  else if (k == 2) { int a = c.choose(7), b = c.choose(7), d = c.choose(7); e = ex<Sum>(ExprPtrList{atom(a), atom(b), atom(d)}); }
  else {
    int a = c.choose(7), b = c.choose(7);
    e = ex<Tensor>(L"g", bra{L"i_3"}, ket{L"i_3"}) * (atom(a) + atom(b));
  }
  c.mine();
  auto s0 = show(e);
  c.describe(s0 + (vac == Vacuum::Physical ? " physical" : " fermi"));
  c.state(c.desc);
  for (bool full : {true, false}) {
    auto want = expected(e, ext, full, vac, 12);
    auto r = FWickTheorem(e->clone()).full_contractions(full).compute();
    c.step();
    compare(c, e, r, want, ext, 12, full ? "full contractions" : "all contractions");
  }
}
int main(int c, char** v) { return vf::main_impl(c, v, "C06"); }
