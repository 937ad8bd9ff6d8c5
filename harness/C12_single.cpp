// LINK: optimize
// Single-term optimization: the result is a parenthesization of the same
// factors with the same value, and no schedule of the enumerated space (every
// binary tree, every order of the children, every choice of sliced batch
// indices) is better with respect to the documented objective.
#include <SeQuant/core/optimize/optimize.hpp>
#include <SeQuant/core/optimize/single_term.hpp>

#include <cmath>
#include "lib/gen.hpp"
using namespace orc;
namespace {
constexpr auto N = Symmetry::Nonsymm;
constexpr auto bS = BraKetSymmetry::Symm;
Model& model() { static Model m; return m; }
using OF = ObjectiveFunction;
struct Opt {
  OF of = OF::DenseFLOPs;
  int ext = 0;
  bool prune = true, inner = false, vol = false, pers = false;
  double vw = 1, fw = 0, tol = 0, acc = 0;
  int roof = 0;
  std::size_t batch = 2;
  bool cse = false;
  std::string str() const {
    std::ostringstream o;
    o << (of == OF::DenseFLOPs ? "flops" : of == OF::DenseSize ? "size" : of == OF::DensePeakSize ? "peak" : "batched") << " ext" << ext << (prune ? " prune" : "") << (inner ? " inner" : "") << (vol ? " vol" : "") << (pers ? " pers" : "") << (cse ? " cse" : "")
      << " vw=" << vw << " fw=" << fw << " tol=" << tol << " acc=" << acc << " roof=" << roof << " batch=" << batch;
    return o.str();
  }
};
std::size_t extent(int kind, wchar_t sp, int ord, int np) {
  static const std::size_t pr[] = {2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37};
  switch (kind) {
    case 0: return np ? 4 : sp == L'i' ? 3 : sp == L'a' ? 10 : 20;
    case 1: return np ? 2 : sp == L'i' ? 10 : sp == L'a' ? 3 : 2;
    case 2: return pr[(ord * 3 + (sp == L'i' ? 0 : sp == L'a' ? 5 : 2) + np) % 12];
    case 3: return pr[(37 - ord * 5 + (sp == L'i' ? 4 : sp == L'a' ? 0 : 7) + np) % 12];
    case 4: return 2;
    default: return ord == 1 ? 1 : sp == L'i' ? 2 : 4;
  }
}
std::size_t ext_of(int kind, const Index& ix) {
  auto l = ix.label();
  return extent(kind, l[0], std::stoi(std::wstring(l.substr(2, l.find(L'<') - 2))), int(ix.proto_indices().size()));
}
// ---------- reference: the objective of every schedule of a network
struct Ref {
  const Net& n;
  Opt o;
  std::set<int> targets;               // kept open however often they occur
  std::vector<std::set<int>> at;       // indices of each tensor
  std::vector<int> batch;              // batchable indices
  unsigned full, volm = 0;
  bool restrict_ = false;
  std::vector<char> conn;
  Ref(const Net& n, Opt o, std::set<int> tg = {}) : n(n), o(o), targets(tg) {
    for (int k : n.order) at.emplace_back(n.slots[k].begin(), n.slots[k].end());
    full = (1u << at.size()) - 1;
    for (int k = 0; k < int(at.size()); ++k) if (o.vol && n.t[n.order[k]].label == L"t") volm |= 1u << k;
    for (std::size_t q = 0; q < n.ix.size(); ++q) if (n.ix[q].space == L'x' && n.deg[q]) batch.push_back(int(q));
    conn.assign(full + 1, 0);
    for (unsigned s = 1; s <= full; ++s) conn[s] = connected(s);
    restrict_ = o.prune && conn[full];
  }
  bool connected(unsigned s) const {
    unsigned r = s & -s;
    for (bool ch = true; ch;) {
      ch = false;
      for (int a = 0; a < int(at.size()); ++a) if (r >> a & 1)
        for (int b = 0; b < int(at.size()); ++b) if ((s >> b & 1) && !(r >> b & 1))
          for (int q : at[a]) if (at[b].count(q) && !targets.count(q)) { r |= 1u << b; ch = true; break; }
    }
    return r == s;
  }
  std::set<int> open(unsigned s) const {
    std::map<int, int> in, out;
    for (int k = 0; k < int(at.size()); ++k) for (int q : at[k]) (s >> k & 1 ? in : out)[q]++;
    std::set<int> r;
    for (auto& [q, k] : in) if (out.count(q) || k == 1 || targets.count(q) || !(s & (s - 1))) r.insert(q);
    return r;
  }
  double vol(const std::set<int>& v, unsigned B = 0) const {
    std::set<int> outer;
    std::map<std::vector<int>, int> grp;
    for (int q : v) { if (n.ix[q].protos.empty()) outer.insert(q); else { for (int p : n.ix[q].protos) outer.insert(p); grp[n.ix[q].protos]++; } }
    double r = 1;
    for (int q : outer) {
      double e = double(extent(o.ext, n.ix[q].space, n.ix[q].ord, 0));
      for (std::size_t k = 0; k < batch.size(); ++k) if (batch[k] == q && (B >> k & 1)) e = std::min(e, double(o.batch));
      r *= e;
    }
    for (int q : v) if (!n.ix[q].protos.empty()) r *= o.inner ? inner(q, grp[n.ix[q].protos]) : double(extent(o.ext, n.ix[q].space, n.ix[q].ord, int(n.ix[q].protos.size())));
    return r;
  }
  double inner(int q, int k) const { return double(extent(o.ext, n.ix[q].space, n.ix[q].ord, int(n.ix[q].protos.size()))) + 3 * (k - 1); }
  double fp(unsigned s, unsigned B = 0) const { double v = vol(open(s), B); return v == 1 ? 0 : v; }
  double flops(unsigned l, unsigned r) const {
    auto u = open(l);
    auto b = open(r);
    u.insert(b.begin(), b.end());
    double v = vol(u);
    return v == 1 ? 0 : v;
  }
  double roofline(double f, double traffic) const {
    if (!o.roof) return f;
    double beta = 4, M = o.roof == 1 ? 0 : 12, c0 = 3, kappa = 2;
    double Q = traffic;
    if (M > 0) Q = std::max(Q, kappa * f / std::sqrt(M / c0));
    return std::max(f, beta * Q);
  }
  struct Pt { double peak, work; bool operator<(const Pt& x) const { return std::tie(peak, work) < std::tie(x.peak, x.work); } };
  double additive(unsigned l, unsigned r) const {
    unsigned s = l | r;
    double w = o.of == OF::DenseFLOPs && o.vol && o.vw > 1 && (volm & s) ? o.vw : 1;
    double c;
    if (o.of == OF::DenseFLOPs) c = flops(l, r);
    else c = fp(l) + fp(r) + fp(s);
    return w * c + o.fw * fp(s);
  }
  double leaves(unsigned s, unsigned B) const { double r = 0; for (int k = 0; k < int(at.size()); ++k) if (s >> k & 1) r += fp(1u << k, B); return r; }
  unsigned sliceable(unsigned l, unsigned r) const {
    auto a = open(l), b = open(r), s = open(l | r);
    unsigned m = 0;
    for (std::size_t k = 0; k < batch.size(); ++k) if ((a.count(batch[k]) || b.count(batch[k])) && !s.count(batch[k])) m |= 1u << k;
    if (o.pers && (volm & (l | r))) m = 0;
    return m;
  }
  /// first l, then r, then both are combined
  Pt join(unsigned l, unsigned r, const Pt& a, const Pt& b, unsigned B, unsigned C) const {
    unsigned s = l | r;
    double both = fp(l, C) + fp(r, C) + fp(s, B) + (C != B ? o.acc * fp(s, B) : 0);
    double w = (volm & s) ? o.vw : 1;
    return {std::max({leaves(r, C) + a.peak, fp(l, C) + b.peak, both}), a.work + b.work + w * roofline(flops(l, r), fp(l) + fp(r) + fp(s))};
  }
  bool additive_() const { return o.of == OF::DenseFLOPs || o.of == OF::DenseSize; }
  uint64_t schedules = 0;
  std::map<std::pair<unsigned, unsigned>, std::set<Pt>> memo;
  /// the outcomes of every schedule of s in context B (as a set; additive objectives: in .work)
  const std::set<Pt>& all(unsigned s, unsigned B = 0) {
    auto [it, ins] = memo.try_emplace({s, B});
    if (!ins) return it->second;
    std::set<Pt> r;
    if (!(s & (s - 1))) r.insert({additive_() ? 0 : fp(s, B), 0});
    else
      for (unsigned l = (s - 1) & s; l; l = (l - 1) & s) {
        unsigned q = s & ~l;
        if (restrict_ && !(conn[l] && conn[q])) continue;
        if (additive_()) {
          if (l < q) continue;
          auto& A = all(l);
          auto& Z = all(q);
          for (auto& a : A) for (auto& b : Z) { r.insert({0, a.work + b.work + additive(l, q)}); ++schedules; }
        } else {
          unsigned cand = o.of == OF::DensePeakSizeBatched ? sliceable(l, q) : 0;
          for (unsigned a = cand;; a = (a - 1) & cand) {
            auto& X = all(l, B | a);
            auto& Y = all(q, B | a);
            for (auto& x : X) for (auto& y : Y) { r.insert(join(l, q, x, y, B, B | a)); ++schedules; }
            if (!a) break;
          }
        }
      }
    return memo[{s, B}] = std::move(r);
  }
  // ---- the schedule that was returned
  struct Tree { int leaf = -1; std::shared_ptr<Tree> l, r; unsigned s = 0; };
  std::set<Pt> of(const Tree& t, unsigned B = 0) const {
    if (t.leaf >= 0) return {{additive_() ? 0 : fp(t.s, B), 0}};
    std::set<Pt> r;
    if (additive_()) { r.insert({0, of(*t.l).begin()->work + of(*t.r).begin()->work + additive(t.l->s, t.r->s)}); return r; }
    unsigned cand = o.of == OF::DensePeakSizeBatched ? sliceable(t.l->s, t.r->s) : 0;
    for (unsigned a = cand;; a = (a - 1) & cand) {
      for (auto& x : of(*t.l, B | a)) for (auto& y : of(*t.r, B | a)) r.insert(join(t.l->s, t.r->s, x, y, B, B | a));
      if (!a) break;
    }
    return r;
  }
};
using Tree = Ref::Tree;
bool le(double a, double b) { return a <= b * (1 + 1e-12); }
OptimizeOptions options(const Opt& o) {
  OptimizeOptions p{.objective_function = o.of};
  p.CSE = {.subnet = o.cse};
  int kind = o.ext;
  p.idx_to_extent = [kind](Index const& ix) { return ext_of(kind, ix); };
  if (o.inner) p.inner_pow = [kind](Index const& ix, std::size_t k) { return double(ext_of(kind, ix)) + 3. * (double(k) - 1); };
  if (o.vol) p.batch_policy.is_volatile_leaf = [](Tensor const& t) { return t.label() == L"t"; };
  if (o.of == OF::DensePeakSizeBatched) {
    p.batch_policy.is_batchable_index = [](Index const& i) { return i.label()[0] == L'x'; };
    std::size_t b = o.batch;
    p.batch_policy.batch_target_size = [b](Index const&) { return b; };
  }
  p.batch_policy.persistent_only = o.pers;
  p.batch_policy.accumulation_factor = o.acc;
  p.volatile_weight = o.vw;
  p.peak_flops_tolerance = o.tol;
  p.footprint_weight = o.fw;
  if (o.roof) p.roofline = {.machine_balance = 4, .fast_mem_elems = o.roof == 1 ? 0. : 12., .block_tiles = 3, .block_prefactor = 2};
  p.prune_outer_products = o.prune;
  return p;
}
/// reads the returned product as a binary tree over the factors; the scalars are collected
std::shared_ptr<Tree> parse(vf::Case& c, const ExprPtr& e, const std::vector<ExprPtr>& f, std::vector<char>& used, std::multiset<std::string>& scal, bool root) {
  for (std::size_t k = 0; k < f.size(); ++k)
    if (!used[k] && *e == *f[k]) {
      used[k] = 1;
      auto t = std::make_shared<Tree>();
      t->leaf = int(k); t->s = 1u << k;
      return t;
    }
  c.require(e->is<Product>(), [&] { return "a part of the result is not a factor: " + show(e); });
  auto& p = e->as<Product>();
  c.require(root || p.scalar() == 1, [&] { return "an inner product has a prefactor: " + show(e); });
  std::vector<std::shared_ptr<Tree>> ch;
  for (auto& x : p.factors()) {
    if (x->is_scalar() && !(x->is<Sum>() || x->is<Product>())) { scal.insert(show(x)); continue; }
    ch.push_back(parse(c, x, f, used, scal, false));
  }
  c.require(!ch.empty() && ch.size() <= 2 && (root || ch.size() == 2), [&] { return "not a binary tree: " + show(e); });
  if (ch.size() == 1) return ch[0];
  auto t = std::make_shared<Tree>();
  t->l = ch[0]; t->r = ch[1]; t->s = ch[0]->s | ch[1]->s;
  return t;
}
void optimal(vf::Case& c, Ref& ref, const std::set<Ref::Pt>& got, const std::string& what) {
  auto& o = ref.o;
  auto& all = ref.all(ref.full);
  c.step(ref.schedules);
  ref.schedules = 0;
  if (ref.additive_()) {
    double best = all.begin()->work;
    c.require(le(got.begin()->work, best), [&] { return what + ": cost " + std::to_string(got.begin()->work) + ", but a schedule costs " + std::to_string(best); });
    return;
  }
  double mn = all.begin()->peak;
  for (auto& p : all) mn = std::min(mn, p.peak);
  double th = mn * (1 + o.tol);
  double work = 1e300;
  for (auto& p : all) if (p.peak <= th) work = std::min(work, p.work);
  double pk = 1e300, gw = 1e300, gp = 1e300;
  for (auto& p : all) if (p.peak <= th && le(p.work, work)) pk = std::min(pk, p.peak);
  for (auto& p : got) if (p.peak <= th && p.work < gw) gw = p.work;
  for (auto& p : got) if (p.peak <= th && le(p.work, work)) gp = std::min(gp, p.peak);
  c.require(gw < 1e299, [&] { return what + ": its peak is " + std::to_string(got.begin()->peak) + ", but a schedule needs " + std::to_string(mn); });
  c.require(le(gw, work), [&] { return what + ": work " + std::to_string(gw) + ", but within the peak " + std::to_string(th) + " " + std::to_string(work) + " is enough"; });
  c.require(gp <= pk, [&] { return what + ": peak " + std::to_string(gp) + " for work " + std::to_string(work) + " that is possible with peak " + std::to_string(pk); });
}
std::vector<Opt> all_options(bool aux, bool protos, bool t, bool few) {
  std::vector<Opt> v;
  std::vector<int> exts = {0, 1, 2, 3, 4, 5};
  if (!vf::thorough()) exts = few ? std::vector<int>{2, 5} : std::vector<int>{0, 2, 3, 5};
  for (int ext : exts)
    for (bool prune : {true, false}) {
      for (bool inner : {false, true}) {
        if (inner && !protos) continue;
        v.push_back({.of = OF::DenseFLOPs, .ext = ext, .prune = prune, .inner = inner});
        v.push_back({.of = OF::DenseSize, .ext = ext, .prune = prune, .inner = inner});
        v.push_back({.of = OF::DensePeakSize, .ext = ext, .prune = prune, .inner = inner});
      }
      v.push_back({.of = OF::DenseFLOPs, .ext = ext, .prune = prune, .fw = 7});
      if (t) {
        v.push_back({.of = OF::DenseFLOPs, .ext = ext, .prune = prune, .vol = true, .vw = 10});
        v.push_back({.of = OF::DenseFLOPs, .ext = ext, .prune = prune, .vol = true, .vw = 3, .fw = 5});
        v.push_back({.of = OF::DensePeakSize, .ext = ext, .prune = prune, .vol = true, .vw = 10, .tol = 0.1});
      }
      v.push_back({.of = OF::DensePeakSize, .ext = ext, .prune = prune, .tol = 0.5});
      v.push_back({.of = OF::DensePeakSize, .ext = ext, .prune = prune, .tol = 0.1, .roof = 1});
      v.push_back({.of = OF::DensePeakSize, .ext = ext, .prune = prune, .tol = 0.25, .roof = 2});
      if (aux) {
        v.push_back({.of = OF::DensePeakSizeBatched, .ext = ext, .prune = prune});
        v.push_back({.of = OF::DensePeakSizeBatched, .ext = ext, .prune = prune, .tol = 0.3, .batch = 1});
        if (t) v.push_back({.of = OF::DensePeakSizeBatched, .ext = ext, .prune = prune, .vol = true, .pers = true, .vw = 4, .tol = 0.1, .roof = 2});
      }
      if (ext == exts[0] || ext == 3) v.push_back({.of = OF::DenseFLOPs, .ext = ext, .prune = prune, .cse = true});
    }
  if (aux) for (int ext : {0, 2}) v.push_back({.of = OF::DensePeakSizeBatched, .ext = ext, .acc = 1.5});
  return v;
}
/// optimizes the product of the network's tensors (and the scalars) for every objective
void check(vf::Case& c, const Net& n, const std::vector<ExprPtr>& scal = {}, int scalpos = 0, long num = 1, bool val = true) {
  auto f = n.factors();
  std::vector<ExprPtr> v = f;
  for (std::size_t k = 0; k < scal.size(); ++k) v.insert(v.begin() + std::min<std::size_t>(v.size(), scalpos + k * 2), scal[k]);
  ExprPtr e = ex<Product>(num, v, Product::Flatten::No);
  c.describe(show(e));
  c.state(show(e));
  bool aux = false, protos = false, t = false;
  for (auto& x : n.t) { aux |= x.na > 0; t |= x.label == L"t"; }
  for (auto& x : n.ix) protos |= !x.protos.empty();
  int naux = 0;
  for (std::size_t q = 0; q < n.ix.size(); ++q) naux += n.ix[q].space == L'x' && n.deg[q];
  auto ext = n.externals();
  std::vector<Lin> want;
  if (val) want = value(model(), e, ext);
  std::multiset<std::string> ws;
  for (auto& s : scal) ws.insert(show(s));
  std::string before = show(e);
  std::set<std::string> seen;
  for (auto& o : all_options(aux, protos, t, f.size() < 4 && !aux)) {
    if (o.acc && naux > 1) continue;
    ExprPtr r = optimize(e, options(o));
    c.step();
    c.require(show(e) == before, [&] { return o.str() + ": the argument was changed to " + show(e); });
    std::string sr = show(r);
    if (val && seen.insert(sr).second) c.require(value(model(), r, ext) == want, [&] { return o.str() + ": the result " + sr + " has a different value"; });
    std::vector<char> used(f.size(), 0);
    std::multiset<std::string> gs;
    auto tr = parse(c, r, f, used, gs, true);
    c.require(std::count(used.begin(), used.end(), 1) == long(f.size()) && gs == ws, [&] { return o.str() + ": factors were lost or added: " + sr; });
    c.require(r->is<Product>() && r->as<Product>().scalar() == num, [&] { return o.str() + ": the prefactor is wrong: " + sr; });
    if (f.size() < 3 || o.cse) continue;
    Ref ref(n, o);
    optimal(c, ref, ref.of(*tr), o.str() + ": " + sr);
  }
  for (auto& s : seen) c.outcome(s);
}
TSpec f{L"f", 1, 1}, h{L"h", 1, 1}, g{L"g", 2, 2}, t{L"t", 1, 1}, t2{L"t", 2, 2}, u{L"u", 1, 0}, v{L"v", 0, 1}, w{L"w", 2, 1}, y{L"y", 1, 2}, B{L"B", 1, 1, 1, N, bS}, C{L"C", 1, 1, 1, N, bS}, Z{L"Z", 0, 0, 2}, X{L"X", 1, 0, 1, N, bS}, Y{L"Y", 0, 1, 1, N, bS};
NetSpaces np{.traces = false};
NetSpaces one{.spaces = {L'i'}, .traces = false};
void nets(vf::Case& c, std::vector<TSpec> t, NetSpaces sp = np, bool val = true) {
  use_context(Vacuum::Physical);
  Net n = gen_net(c, t, sp);
  c.mine();
  check(c, n, {}, 0, 1, val);
}
std::vector<std::vector<TSpec>> small3() { return {{u, f, v}, {u, f, t}, {f, h, t}, {u, v, w}, {u, v, g}, {w, y, t}, {f, h, g}, {t, t, f}}; }
}  // namespace
SCENARIO("three", c) { auto s = small3(); auto& k = c.pick(s); nets(c, k, {.max_ext = vf::thorough() ? 8 : 4, .traces = false}); }
SCENARIO("three.wide", c) {
  std::vector<std::vector<TSpec>> s = {{g, t2, f}, {t2, t, g}};
  auto& k = c.pick(s);
  nets(c, k, {.spaces = {L'i'}, .max_ext = 4, .traces = false}, false);
}
SCENARIO("three.aux", c) {
  std::vector<std::vector<TSpec>> s = {{B, C, f}, {B, C, t}, {X, Y, Z}, {B, C, Z}, {X, Y, B}, {X, X, Y}};
  auto& k = c.pick(s);
  nets(c, k, one, true);
}
SCENARIO("three.protos", c) {
  std::vector<std::vector<TSpec>> s = {{f, h, t}, {w, y, f}};
  if (!vf::thorough()) s.pop_back();
  auto& k = c.pick(s);
  nets(c, k, {.spaces = {L'i', L'a'}, .protos = true, .max_ext = vf::thorough() ? 4 : 2, .traces = false}, false);
}
SCENARIO("four", c) {
  std::vector<std::vector<TSpec>> s = {{u, v, f, t}, {u, u, v, g}, {f, h, t, h}, {u, v, w, y}, {u, u, v, v}};
  auto& k = c.pick(s);
  nets(c, k, {.spaces = {L'i'}, .max_ext = vf::thorough() ? 8 : 4, .traces = false}, false);
}
SCENARIO("four.aux", c) {
  std::vector<std::vector<TSpec>> s = {{X, Y, X, Y}, {B, C, u, v}, {X, Y, Z, t}, {B, C, f, t}};
  auto& k = c.pick(s);
  nets(c, k, {.spaces = {L'i'}, .max_ext = 3, .traces = false, .min_int = 2}, false);
}
SCENARIO("five", c) {
  std::vector<std::vector<TSpec>> s = {{u, v, u, v, g}, {u, f, h, t, v}};
  auto& k = c.pick(s);
  nets(c, k, {.spaces = {L'i'}, .max_ext = 2, .traces = false, .min_int = 3}, false);
}
// numbers, variables and powers between the tensors
SCENARIO("scalars", c) {
  use_context(Vacuum::Physical);
  std::vector<std::vector<TSpec>> s = {{}, {f}, {f, h}, {f, h, t}, {u, v, f}};
  auto& k = c.pick(s);
  Net n = gen_net(c, k, one);
  std::vector<ExprPtr> pool = {ex<Variable>(L"x"), ex<Variable>(L"y"), ex<Power>(L"z", rational(1, 2))};
  int ns = c.choose(4);
  std::vector<ExprPtr> sc;
  for (int q = 0; q < ns; ++q) sc.push_back(pool[c.choose(3)]);
  int pos = c.choose(4);
  long num = std::vector<long>{1, -1, 3}[c.choose(3)];
  c.mine();
  if (k.empty()) {
    ExprPtr e = ex<Product>(num, sc, Product::Flatten::No);
    c.describe(show(e));
    auto r = optimize(e);
    c.step();
    c.require(value(model(), r) == value(model(), e), [&] { return "different value: " + show(r); });
    return;
  }
  check(c, n, sc, pos, num);
}
// factors that are sums or products
SCENARIO("mixed", c) {
  use_context(Vacuum::Physical);
  std::vector<TSpec> k = std::vector<std::vector<TSpec>>{{f}, {f, h}, {f, h, t}, {f, w, v}}[c.choose(4)];
  Net n = gen_net(c, k, one);
  int which = c.choose(int(k.size())), kind = c.choose(5), ns = c.choose(3);
  long num = c.flip() ? 1 : -2;
  c.mine();
  auto fs = n.factors();
  auto o = fs[which];
  auto& T = o->as<Tensor>();
  auto other = ex<Tensor>(L"q", bra(T.bra()), ket(T.ket()), aux(T.aux()));
  ExprPtr m;
  Index a(L"i_80");
  if (kind == 0) m = ex<Sum>(ExprPtrList{o, other});
  if (kind == 1) m = ex<Sum>(ExprPtrList{o, ex<Product>(2, ExprPtrList{ex<Variable>(L"x"), other})});
  if (kind == 2) { if (T.bra_rank() == 0) throw vf::Skip{}; std::vector<Index> b(T.bra().begin(), T.bra().end()); b[0] = a; m = ex<Product>(3, ExprPtrList{ex<Tensor>(L"f", bra{T.bra()[0]}, ket{a}), ex<Tensor>(L"q", bra(b), ket(T.ket()))}, Product::Flatten::No); }
  if (kind == 3) m = ex<Sum>(ExprPtrList{ex<Constant>(2), ex<Variable>(L"x")});
  if (kind == 4) m = ex<Sum>(ExprPtrList{ex<Tensor>(L"f", bra{a}, ket{a}), ex<Constant>(2)});
  if (kind < 3) fs[which] = m; else fs.insert(fs.begin() + which, m);
  if (ns) fs.insert(fs.begin() + (ns == 1), ns == 1 ? 1 : 11, ex<Variable>(L"z"));
  auto e = ex<Product>(num, fs, Product::Flatten::No);
  c.describe(show(e));
  c.state(show(e));
  auto want = value(model(), e, n.externals());
  for (OF of : {OF::DenseFLOPs, OF::DenseSize, OF::DensePeakSize, OF::DensePeakSizeBatched})
    for (bool cse : {false, true}) {
      if (cse && (of == OF::DensePeakSize || of == OF::DensePeakSizeBatched)) continue;
      auto before = show(e);
      auto r = optimize(e, options({.of = of, .ext = 2, .cse = cse}));
      c.step();
      c.require(value(model(), r, n.externals()) == want, [&] { return "different value: " + show(r); });
      c.require(show(e) == before, [&] { return "the argument was changed: " + show(e); });
      c.outcome(show(r));
    }
}
// the cost functions themselves, with target indices that occur several times
SCENARIO("targets", c) {
  use_context(Vacuum::Physical);
  std::vector<std::vector<TSpec>> s = {{X, Y, Z}, {X, X, Y}, {f, h, t}, {B, C, X}, {X, Y, X, Y}};
  auto& k = c.pick(s);
  Net n = gen_net(c, k, {.spaces = {L'i'}, .max_ext = 4, .traces = false, .min_int = 1});
  std::set<int> tg;
  std::vector<Index> ti;
  for (std::size_t q = 0; q < n.ix.size(); ++q)
    if (n.deg[q] == 1 || (n.deg[q] && c.flip())) { tg.insert(int(q)); ti.push_back(n.index(int(q))); }
  c.mine();
  std::string d = show(n.expr()) + " ->";
  for (auto& i : ti) d += " " + show(i);
  c.describe(d);
  c.state(d);
  IndexSet tidxs;
  for (auto& i : ti) tidxs.emplace(i);
  TensorNetwork net{n.factors()};
  auto batchable = [](Index const& i) { return i.label()[0] == L'x'; };
  for (int ext : {0, 2, 5}) {
    auto sz = [ext](Index const& i) { return ext_of(ext, i); };
    auto mn = [&](Opt o) { Ref r(n, o, tg); double m = 1e300; for (auto& p : r.all(r.full)) m = std::min(m, p.peak); c.step(r.schedules); return m; };
    double p = opt::detail::peak_cost(net, tidxs, sz), w = mn({.of = OF::DensePeakSize, .ext = ext});
    c.require(p == w, [&] { return "peak_cost " + std::to_string(p) + ", the best schedule needs " + std::to_string(w) + ", extents " + std::to_string(ext); });
    for (bool vol : {false, true}) {
      std::function<bool(Tensor const&)> vl;
      if (vol) vl = [](Tensor const& t) { return t.label() == L"t"; };
      double b = opt::detail::peak_cost_batched(net, tidxs, sz, batchable, [](Index const&) { return std::size_t(2); }, vl), wb = mn({.of = OF::DensePeakSizeBatched, .ext = ext, .vol = vol});
      c.require(b == wb, [&] { return "peak_cost_batched " + std::to_string(b) + ", the best schedule needs " + std::to_string(wb); });
      double rb = opt::detail::reconstructed_batched_peak(net, tidxs, sz, batchable, [](Index const&) { return std::size_t(2); }, vl);
      c.require(rb == wb, [&] { return "the reconstructed schedule needs " + std::to_string(rb) + ", the best " + std::to_string(wb); });
    }
    for (bool prune : {true, false})
      for (bool flops : {true, false}) {
        Opt o{.of = flops ? OF::DenseFLOPs : OF::DenseSize, .ext = ext, .prune = prune};
        Ref ref(n, o, tg);
        auto run = [&](auto cost) {
          opt::detail::AdditiveModel m{cost, opt::detail::footprint_counter(sz), 0, 1.0, 0.0, false};
          m.prune_outer_products = prune;
          return opt::detail::run_single_term_opt(m, net, tidxs);
        };
        EvalSequence seq = flops ? run(opt::detail::flops_counter(sz)) : run(opt::detail::memsize_counter(sz));
        std::vector<std::shared_ptr<Tree>> st;
        std::string ss;
        for (int q : seq) {
          ss += std::to_string(q) + " ";
          auto t = std::make_shared<Tree>();
          if (q >= 0) { t->leaf = q; t->s = 1u << q; }
          else { c.require(st.size() > 1, "bad sequence"); t->r = st.back(); st.pop_back(); t->l = st.back(); st.pop_back(); t->s = t->l->s | t->r->s; }
          st.push_back(t);
        }
        c.require(st.size() == 1 && st[0]->s == ref.full, "bad sequence " + ss);
        optimal(c, ref, ref.of(*st[0]), o.str() + ": sequence " + ss);
      }
  }
}
int main(int c, char** v) { return vf::main_impl(c, v, "C12"); }
