// LINK: mbpt
// Default contexts: after any history of setting, scoping, resetting, cloning
// and modifying, every query gives what was set last and is in scope.
#include <SeQuant/core/context.hpp>
#include <SeQuant/core/reserved.hpp>
#include <SeQuant/domain/mbpt/context.hpp>

#include <optional>

#include "lib/oracle.hpp"
#include "lib/setup.hpp"
using namespace sequant;
namespace {
using Map = container::map<Statistics, sequant::Context>;
const std::vector<Statistics> ST{Statistics::Arbitrary, Statistics::FermiDirac, Statistics::BoseEinstein};
// what a context is
struct M {
  const void* reg = nullptr;          // the registry object
  Vacuum vac = Vacuum::Physical;
  IndexSpaceMetric metric = IndexSpaceMetric::Unit;
  bool strict = true;
  SPBasis sp = SPBasis::Spinor;
  std::size_t ord = 100;
  int canon = 0;                      // 0 none, 1 method, 2 another method, 3 with named indices, 4 with other flag
  BraKetTypesetting t1 = BraKetTypesetting::ContraSub;
  BraKetSlotTypesetting t2 = BraKetSlotTypesetting::TensorPackage;
  bool operator==(const M&) const = default;
};
int canon_of(const std::optional<CanonicalizeOptions>& o) {
  if (!o) return 0;
  if (o->named_indices) return o->named_indices->size() == 1 ? 3 : -1;
  if (o->ignore_named_index_labels == CanonicalizeOptions::IgnoreNamedIndexLabel::No) return 4;
  return o->method == CanonicalizationMethod::Complete ? 1 : o->method == CanonicalizationMethod::Topological ? 2 : -1;
}
std::optional<CanonicalizeOptions> canon(int k) {
  if (!k) return std::nullopt;
  CanonicalizeOptions o;
  if (k == 2) o.method = CanonicalizationMethod::Topological;
  if (k == 3) o.named_indices = container::set<Index>{Index(L"k_7", IndexSpace(L"k", 0b1, 0))};
  if (k == 4) o.ignore_named_index_labels = CanonicalizeOptions::IgnoreNamedIndexLabel::No;
  return o;
}
M read(const sequant::Context& c) {
  return {c.index_space_registry().get(), c.vacuum(), c.metric(), c.assert_strict_braket_symmetry(), c.spbasis(), c.first_dummy_index_ordinal(), canon_of(c.canonicalization_options()), c.braket_typesetting(), c.braket_slot_typesetting()};
}
std::string show(const M& m) {
  std::ostringstream o;
  o << "[registry " << m.reg << " vacuum " << int(m.vac) << " metric " << int(m.metric) << " strict " << m.strict << " basis " << int(m.sp) << " ordinal " << m.ord << " canon " << m.canon << " typeset " << int(m.t1) << int(m.t2) << "]";
  return o.str();
}
struct World {
  std::vector<std::shared_ptr<IndexSpaceRegistry>> keep;
  std::vector<sequant::Context> ctx;
  std::vector<M> m;
  std::map<const void*, int> extra;   // registry -> number of spaces added
  World() {
    auto isr = orc::basic_registry();
    auto other = std::make_shared<IndexSpaceRegistry>();
    other->add(L"m", 0b1, is_vacuum_occupied).add(L"e", 0b10, is_particle);
    keep = {isr, other};
    sequant::Context a({.index_space_registry_shared_ptr = isr, .vacuum = Vacuum::SingleProduct});
    add(a);
    add(a.clone());                                     // equal to the first one
    add(sequant::Context(a).set(Vacuum::MultiProduct));
    add(sequant::Context(a).set(*canon(3)));
    add(sequant::Context({.index_space_registry_shared_ptr = other, .first_dummy_index_ordinal = 7}));
    add(sequant::Context());                            // no registry
  }
  void add(sequant::Context c) { keep.push_back(c.mutable_index_space_registry()); ctx.push_back(c); m.push_back(read(c)); }
};
struct Boom {};

SCENARIO("default", c) {
  reset_default_context();
  World w;
  using Def = std::map<int, M>;       // statistics -> context
  Def def;
  std::vector<std::pair<std::unique_ptr<detail::ImplicitContextResetter<Map>>, Def>> scopes;
  auto value = [&](int s) { return def.count(s) ? def[s] : def.count(0) ? def[0] : M{}; };
  auto observe = [&](const char* when) {
    for (int s = 0; s < 3; ++s) {
      auto& x = get_default_context(ST[s]);
      M got = read(x), want = value(s);
      c.require(got == want, [&] { return std::string(when) + ": the context is " + show(got) + ", expected " + show(want); });
      if (got.reg) {
        int n = 0;
        for (auto l : {L"y", L"z", L"w", L"v", L"u"}) n += x.index_space_registry()->contains(l);
        c.require(n == w.extra[got.reg], [&] { return std::string(when) + ": " + std::to_string(n) + " spaces were added, expected " + std::to_string(w.extra[got.reg]); });
      }
    }
  };
  auto pop = [&] { def = scopes.back().second; scopes.pop_back(); };
  using R = detail::ImplicitContextResetter<Map>;
  auto push = [&](auto&& f) { Def old = def; std::unique_ptr<R> r(new R(f())); scopes.emplace_back(std::move(r), std::move(old)); };
  int len = vf::thorough() ? 4 : 3;
  std::string d;
  auto step = [&](bool nested) {
    int op = c.choose(nested ? 8 : 11);
    switch (op) {
      case 0: { int k = c.choose(int(w.ctx.size())), s = c.choose(3); d += " set(" + std::to_string(k) + "," + std::to_string(s) + ")"; set_default_context(w.ctx[k], ST[s]); def[s] = w.m[k]; break; }
      case 1: { int s = c.choose(2); d += " set(options," + std::to_string(s) + ")"; set_default_context({.index_space_registry_shared_ptr = w.keep[1], .vacuum = Vacuum::SingleProduct, .spbasis = SPBasis::Spinfree}, ST[s]); M m; m.reg = w.keep[1].get(); m.vac = Vacuum::SingleProduct; m.sp = SPBasis::Spinfree; def[s] = m; break; }
      case 2: { int k = c.choose(2); d += " set(map)"; set_default_context(k ? Map{{ST[0], w.ctx[2]}, {ST[1], w.ctx[4]}} : Map{{ST[2], w.ctx[1]}}); if (k) { def[0] = w.m[2]; def[1] = w.m[4]; } else def[2] = w.m[1]; break; }
      case 3: d += " reset"; reset_default_context(); def.clear(); break;
      case 4: {                       // extend the registry of a default context
        int s = c.choose(2);
        d += " add(" + std::to_string(s) + ")";
        M m = value(s);
        if (!m.reg) return;
        auto r = get_default_context(ST[s]).mutable_index_space_registry();
        int& n = w.extra[m.reg];
        static const std::vector<const wchar_t*> L{L"y", L"z", L"w", L"v", L"u"};
        r->add(L[n], IndexSpace::Type(1 << (6 + n)));
        ++n;
        break;
      }
      case 5: {                       // clone and use the clone
        int s = c.choose(2), how = c.choose(2);
        d += " clone(" + std::to_string(s) + ")";
        M m = value(s);
        auto x = get_default_context(ST[s]).clone();
        w.keep.push_back(x.mutable_index_space_registry());
        M n = read(x);
        c.require((n.reg == nullptr) == (m.reg == nullptr) && (!n.reg || n.reg != m.reg), "a clone shares the registry");
        if (m.reg) w.extra[n.reg] = w.extra[m.reg];
        m.reg = n.reg;
        c.require(n == m, [&] { return "the clone is " + show(n) + ", expected " + show(m); });
        if (how) { push([&] { return set_scoped_default_context(x); }); def.clear(); def[0] = n; }
        else { set_default_context(x, ST[s]); def[s] = n; }
        break;
      }
      case 6: { int s = c.choose(3); d += " modify(" + std::to_string(s) + ")"; M m = value(s); auto x = get_default_context(ST[s]); x.set(SPBasis::Spinfree).set(IndexSpaceMetric::General).set_first_dummy_index_ordinal(55); m.sp = SPBasis::Spinfree; m.metric = IndexSpaceMetric::General; m.ord = 55; set_default_context(x, ST[s]); def[s] = m; break; }
      case 7: {                       // enter a scope
        int k = c.choose(int(w.ctx.size()) + 3);
        d += " scope(" + std::to_string(k) + ")";
        if (k < int(w.ctx.size())) { push([&] { return set_scoped_default_context(w.ctx[k]); }); def.clear(); def[0] = w.m[k]; }
        else if (k == int(w.ctx.size())) { push([&] { return set_scoped_default_context(Map{{ST[1], w.ctx[0]}, {ST[0], w.ctx[4]}}); }); def.clear(); def[1] = w.m[0]; def[0] = w.m[4]; }
        else if (k == int(w.ctx.size()) + 1) { push([&] { return set_scoped_default_context({.index_space_registry_shared_ptr = w.keep[0], .vacuum = Vacuum::SingleProduct}); }); def.clear(); def[0] = w.m[0]; }
        else { push([&] { return set_scoped_default_context(Map{{ST[2], w.ctx[0]}}); }); def.clear(); def[2] = w.m[0]; }
        break;
      }
      case 8: d += " leave"; if (scopes.empty()) throw vf::Skip{}; pop(); break;
      case 9: d += " observe"; observe("in between"); break;
    }
  };
  for (int i = 0; i < len; ++i) {
    int k = c.choose(3);
    if (k == 2) break;                // end
    c.describe(d);
    if (k == 1) {                     // a scope left by an exception
      d += " try {";
      Def old = def;
      auto depth = scopes.size();
      int x = c.choose(3);
      try {
        auto r = set_scoped_default_context(w.ctx[x == 2 ? 4 : x]);
        def.clear();
        def[0] = w.m[x == 2 ? 4 : x];
        step(true);
        if (scopes.size() > depth) { pop(); }
        throw Boom{};
      } catch (Boom&) {}
      def = old;
      d += " }";
    } else
      step(false);
    if (i == 0) { c.describe(d); c.mine(); }
  }
  c.describe(d);
  c.mine();
  c.step(len);
  observe("at the end");
  while (!scopes.empty()) { pop(); observe("after leaving a scope"); }
  c.state(d);
  reset_default_context();
}
// contexts are equal if all they say is equal
SCENARIO("equal", c) {
  reset_default_context();
  auto isr = orc::basic_registry();  // shared: which registries are equal is not specified
  auto make = [&](int k) {
    sequant::Context a({.index_space_registry_shared_ptr = isr, .vacuum = Vacuum::SingleProduct});
    switch (k) {
      case 0: return a;
      case 1: return a.set(Vacuum::Physical);
      case 2: return a.set(IndexSpaceMetric::General);
      case 3: return a.set(AssertStrictBraKetSymmetry::No);
      case 4: return a.set(SPBasis::Spinfree);
      case 5: return a.set_first_dummy_index_ordinal(101);
      case 6: case 7: case 8: case 9: return a.set(*canon(k - 5));
      case 10: return a.set(BraKetTypesetting::CoSub);
      case 11: return a.set(BraKetSlotTypesetting::Naive);
      case 12: return a.set(std::shared_ptr<IndexSpaceRegistry>{});
      default: return sequant::Context{};
    }
  };
  int x = c.choose(14), y = c.choose(14);
  c.describe("contexts " + std::to_string(x) + ", " + std::to_string(y));
  c.mine();
  c.step();
  auto a = make(x), b = make(y);
  bool same = x == y;
  c.require((a == b) == same, [&] { return "contexts " + std::to_string(x) + " and " + std::to_string(y) + (same ? " differ" : " are equal"); });
  c.require((a != b) == !same, "operator!= disagrees with operator==");
  sequant::Context k(a), l;
  l = b;
  c.require(k == a && (k == l) == same, "a copy is not equal to its original");
}
// the same for many-body contexts and their operator registries
namespace mb = sequant::mbpt;
SCENARIO("mbpt", c) {
  using Reg = std::shared_ptr<mb::OpRegistry>;
  using Ops = std::map<std::wstring, std::pair<int, int>>;  // class, hermiticity
  struct MM { const void* reg = nullptr; mb::CSV csv = mb::CSV::No; };
  std::map<const void*, std::shared_ptr<Ops>> content;
  auto small = [&] { auto r = std::make_shared<mb::OpRegistry>(); r->add(L"h", mb::OpClass::Gen).add(L"t", mb::OpClass::Ex); return r; };
  std::vector<Reg> keep{small(), small()};
  for (auto& r : keep) content[r.get()] = std::make_shared<Ops>(Ops{{L"h", {2, int(Hermiticity::Hermitian)}}, {L"t", {0, int(Hermiticity::NonHermitian)}}});
  std::vector<mb::Context> ctx;
  std::vector<MM> m;
  ctx.push_back(mb::Context({.csv = mb::CSV::No, .op_registry_ptr = keep[0]})); m.push_back({keep[0].get(), mb::CSV::No});
  ctx.push_back(mb::Context({.csv = mb::CSV::No, .op_registry_ptr = keep[1]})); m.push_back({keep[1].get(), mb::CSV::No});
  ctx.push_back(mb::Context({.csv = mb::CSV::Yes, .op_registry_ptr = keep[0]})); m.push_back({keep[0].get(), mb::CSV::Yes});
  ctx.push_back(mb::Context()); m.push_back({});
  mb::reset_default_mbpt_context();
  MM def;
  using R = detail::ImplicitContextResetter<mb::Context>;
  std::vector<std::pair<std::unique_ptr<R>, MM>> scopes;
  static const std::vector<std::wstring> LAB{L"h", L"t", L"z", L"δ"};
  auto observe = [&] {
    auto& x = mb::get_default_mbpt_context();
    c.require(x.csv() == def.csv, "the CSV setting is not what was set");
    const void* p = nullptr;
    bool null = false;
    try { p = x.op_registry().get(); } catch (sequant::Exception&) { null = true; }
    c.require(p == def.reg && null == !def.reg, "the operator registry is not the one that was set");
    if (!p) return;
    auto& o = *content.at(p);
    std::size_t n = 0;
    for (auto l : x.op_registry()->ops()) { ++n; c.require(o.count(l), "an operator is in the registry that should not be"); }
    c.require(n == o.size(), "an operator is missing");
    for (auto& l : LAB) {
      bool has = o.count(l), res = l == L"δ";
      c.require(x.op_registry()->contains(l) == has, "contains() is wrong");
      int cl = -1, he = -1;
      try { cl = int(mb::to_op_class(l)); he = int(mb::op_hermiticity(l)); } catch (sequant::Exception&) {}
      int wc = res ? int(mb::OpClass::Gen) : has ? o[l].first : -1, wh = res ? int(Hermiticity::Hermitian) : has ? o[l].second : -1;
      c.require(cl == wc, "the class of an operator is wrong");
      c.require(he == wh, "the hermiticity of an operator is wrong");
    }
  };
  auto pop = [&] { def = scopes.back().second; scopes.pop_back(); };
  auto push = [&](auto&& f) { MM old = def; std::unique_ptr<R> r(new R(f())); scopes.emplace_back(std::move(r), old); };
  std::string d;
  int len = vf::thorough() ? 5 : 4;
  static_assert(int(mb::OpClass::Ex) == 0 && int(mb::OpClass::Deex) == 1 && int(mb::OpClass::Gen) == 2);
  for (int i = 0; i < len; ++i) {
    int op = c.choose(9);
    if (op == 8) break;
    switch (op) {
      case 0: { int k = c.choose(4); d += " set(" + std::to_string(k) + ")"; mb::set_default_mbpt_context(ctx[k]); def = m[k]; break; }
      case 1: { d += " reset"; mb::reset_default_mbpt_context(); def = {}; break; }
      case 2: { int k = c.choose(5); d += " scope(" + std::to_string(k) + ")"; if (k < 4) { push([&] { return mb::set_scoped_default_mbpt_context(ctx[k]); }); def = m[k]; } else { push([&] { return mb::set_scoped_default_mbpt_context({.csv = mb::CSV::Yes, .op_registry_ptr = keep[1]}); }); def = {keep[1].get(), mb::CSV::Yes}; } break; }
      case 3: d += " leave"; if (scopes.empty()) throw vf::Skip{}; pop(); break;
      case 4: case 5: {               // change the registry in place
        int how = c.choose(6);
        d += " change(" + std::to_string(how) + ")";
        if (!def.reg) throw vf::Skip{};
        auto r = mb::get_default_mbpt_context().mutable_op_registry();
        if (op == 5) {                // a copy shares the operators
          d += "copy";
          auto x = mb::get_default_mbpt_context();
          x.set(mb::OpRegistry(*r));
          keep.push_back(x.mutable_op_registry());
          content[keep.back().get()] = content.at(r.get());
          c.require(keep.back() != r, "set(registry) does not copy");
          def.reg = keep.back().get();
          mb::set_default_mbpt_context(x);
        }
        auto& o = *content.at(r.get());
        bool threw = false, want = false;
        auto& l = LAB[how == 0 ? 2 : how == 1 ? 3 : how == 2 ? 1 : how == 3 ? 0 : how == 4 ? 2 : 1];
        try {
          if (how == 0) { want = o.count(l); if (!want) o[l] = {1, int(Hermiticity::NonHermitian)}; r->add(l, mb::OpClass::Deex); }
          if (how == 1) { want = true; r->add(l, mb::OpClass::Gen); }
          if (how == 2) { want = !o.count(l); o.erase(l); r->remove(l); }
          if (how == 3) { want = !o.count(l); if (!want) o[l].second = int(Hermiticity::AntiHermitian); r->set_hermiticity(l, Hermiticity::AntiHermitian); }
          if (how == 4) { want = o.count(l); if (!want) o[l] = {0, int(Hermiticity::Hermitian)}; r->add(l, mb::OpClass::Ex, Hermiticity::Hermitian); }
          if (how == 5) { o.clear(); r->purge(); }
        } catch (sequant::Exception&) { threw = true; }
        c.require(threw == want, want ? "a change of the registry that should fail does not" : "a change of the registry fails");
        break;
      }
      case 6: {
        int how = c.choose(2);
        d += " clone";
        auto x = mb::get_default_mbpt_context().clone();
        MM n = def;
        if (def.reg) {
          keep.push_back(x.mutable_op_registry());
          n.reg = keep.back().get();
          c.require(n.reg != def.reg, "a clone shares the registry");
          content[n.reg] = std::make_shared<Ops>(*content.at(def.reg));
        }
        c.require(x == mb::get_default_mbpt_context(), "a clone differs from its original");
        if (how) push([&] { return mb::set_scoped_default_mbpt_context(x); }); else mb::set_default_mbpt_context(x);
        def = n;
        break;
      }
      case 7: {
        d += " csv";
        auto x = mb::get_default_mbpt_context();
        def.csv = def.csv == mb::CSV::Yes ? mb::CSV::No : mb::CSV::Yes;
        c.require(x.set(def.csv) != mb::get_default_mbpt_context(), "contexts with different CSV settings are equal");
        mb::set_default_mbpt_context(x);
        break;
      }
    }
    if (i == 1) { c.describe(d); c.mine(); }
  }
  c.describe(d);
  c.mine();
  c.step(len);
  observe();
  while (!scopes.empty()) { pop(); observe(); }
  c.state(d);
  mb::reset_default_mbpt_context();
}
}  // namespace
int main(int c, char** v) { return vf::main_impl(c, v, "C10"); }
