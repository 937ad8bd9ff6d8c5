// LINK: export
// Code generation: executing the exported operations - literally, on a machine
// whose objects exist only between create/load and unload/persist - yields the
// value of every exported expression, whatever the generator supports.
#include <SeQuant/core/expr.hpp>
#include <SeQuant/core/io/shorthands.hpp>
#include <SeQuant/core/export/export.hpp>
#include <SeQuant/core/export/generation_optimizer.hpp>
#include <SeQuant/core/export/python_einsum.hpp>
#include <SeQuant/core/export/reordering_context.hpp>
#include <SeQuant/core/export/text_generator.hpp>
#include "lib/evalback.hpp"
using namespace orc;
#pragma GCC diagnostic ignored "-Wdeprecated-declarations"
namespace {
constexpr auto N = Symmetry::Nonsymm, A = Symmetry::Antisymm, S = Symmetry::Symm;
Model& model() { static Model m; static bool i = [] { m.per_bit[1] = 3; return true; }(); (void)i; return m; }
ExprPtr Pr(std::vector<ExprPtr> v, Constant::scalar_type s = 1) { return ex<Product>(s, v, Product::Flatten::No); }
ExprPtr Sm(std::vector<ExprPtr> v) { return ex<Sum>(v); }
ExprPtr T(const wchar_t* l, std::vector<Index> b, std::vector<Index> k, std::vector<Index> a = {}, Symmetry s = N, BraKetSymmetry bk = BraKetSymmetry::Nonsymm) { return ex<Tensor>(l, bra(b), ket(k), aux(a), s, bk); }
struct Eq { std::wstring name; ExprPtr e; std::vector<Index> b, k; ExprPtr full = {};  // e, earlier results replaced by what they are
  ResultExpr res() const {
    if (b.empty() && k.empty()) return ResultExpr(Variable(name), e->clone());
    return ResultExpr(Tensor(name, bra(b), ket(k)), e->clone());
  }
  std::vector<Index> ext() const { auto v = b; v.insert(v.end(), k.begin(), k.end()); return v; }
};
// ------------------------------------------------------------------ recording
enum K { Create, Load, Zero, Unload, Destroy, Persist, Compute, BeginE, EndE, BeginS, EndS, DeclI, DeclV, DeclT };
const char* kname[] = {"create", "load", "zero", "unload", "destroy", "persist", "compute", "begin", "end", "section", "endsection", "index", "variable", "tensor"};
struct Op { K k; ExprPtr obj; bool zero = false; ExprPtr e; std::vector<Index> batch; UsageSet use; };
std::string show(const Op& o) { return std::string(kname[o.k]) + (o.zero ? "+0" : "") + (o.obj ? " " + orc::show(o.obj) : "") + (o.e ? " += " + orc::show(o.e) : ""); }
std::string show(const std::vector<Op>& v) { std::string s; for (auto& o : v) s += show(o) + "; "; return s; }
class Ctx : public ReorderingContext {
 public:
  Ctx() : ReorderingContext(MemoryLayout::Unspecified) { enable_rewriting(false); }
  std::vector<Index> batch;
  std::vector<Index> batch_indices(std::optional<std::size_t> = {}) const override { return batch; }
};
struct Conf { PrunableScalars prune = PrunableScalars::All; DeclarationScope di = DeclarationScope::Global, dv = DeclarationScope::Section, dt = DeclarationScope::Section; bool batching = true, req = false; };
struct Rec final : Generator<Ctx> {
  std::shared_ptr<std::vector<Op>> ops = std::make_shared<std::vector<Op>>();
  Conf cf;
  using C = const Ctx&;
  void put(K k, ExprPtr o, bool z = false, ExprPtr e = {}) { ops->push_back({k, o, z, e, {}, {}}); }
  std::string get_format_name() const override { return "recorder"; }
  bool supports_named_sections() const override { return true; }
  bool requires_named_sections() const override { return cf.req; }
  bool supports_index_batching() const override { return cf.batching; }
  DeclarationScope index_declaration_scope() const override { return cf.di; }
  DeclarationScope variable_declaration_scope() const override { return cf.dv; }
  DeclarationScope tensor_declaration_scope() const override { return cf.dt; }
  PrunableScalars prunable_scalars() const override { return cf.prune; }
  std::string represent(const Index&, C) const override { return ""; }
  std::string represent(const Tensor&, C) const override { return ""; }
  std::string represent(const Variable&, C) const override { return ""; }
  std::string represent(const Constant&, C) const override { return ""; }
  std::string represent(const Power&, C) const override { return ""; }
#define OBJ(X) \
  void create(const X& t, bool z, C) override { put(Create, t.clone(), z); } \
  void load(const X& t, bool z, C) override { put(Load, t.clone(), z); } \
  void set_to_zero(const X& t, C) override { put(Zero, t.clone()); } \
  void unload(const X& t, C) override { put(Unload, t.clone()); } \
  void destroy(const X& t, C) override { put(Destroy, t.clone()); } \
  void persist(const X& t, C) override { put(Persist, t.clone()); } \
  void compute(const Expr& e, const X& t, C) override { put(Compute, t.clone(), false, e.clone()); }
  OBJ(Tensor)
  OBJ(Variable)
  void declare(const Index& i, C) override { ops->push_back({DeclI, {}, false, {}, {i}, {}}); }
  void declare(const Variable& v, UsageSet u, C) override { ops->push_back({DeclV, v.clone(), false, {}, {}, u}); }
  void declare(const Tensor& t, UsageSet u, C) override { ops->push_back({DeclT, t.clone(), false, {}, {}, u}); }
  void all_indices_declared(std::size_t, C) override {}
  void all_variables_declared(std::size_t, C) override {}
  void all_tensors_declared(std::size_t, C) override {}
  void begin_declarations(DeclarationScope, C) override {}
  void end_declarations(DeclarationScope, C) override {}
  void insert_comment(const std::string&, C) override {}
  void begin_named_section(std::string_view, C) override { put(BeginS, {}); }
  void end_named_section(std::string_view, C) override { put(EndS, {}); }
  void begin_expression(C c) override { ops->push_back({BeginE, {}, false, {}, c.batch_indices(c.current_expression_id()), {}}); }
  void end_expression(C) override { put(EndE, {}); }
  void begin_export(C) override { ops->clear(); }
  void end_export(C) override {}
  std::string get_generated_code() const override { return ""; }
};
// ------------------------------------------------------------------ execution
struct Machine {
  std::set<std::string> leaves;  // labels of the inputs
  struct Cell { Arr v; bool ok; };
  std::map<std::string, Cell> mem;
  std::map<std::string, Arr> disk;
  std::set<std::string> made;
  std::map<std::string, int> batch;  // label -> current value
  std::vector<std::string> stack;
  bool lifo = true;
  bool keep_batch = true;
  std::size_t loads = 0, steps = 0;
  [[noreturn]] void bad(const std::string& m) { throw vf::Fail{m}; }
  static std::vector<Index> slots(const Tensor& t) { std::vector<Index> v; for (auto& i : t.const_slots()) if (i.nonnull()) v.push_back(i); return v; }
  /// what the object is called on disk; in memory, slots fixed by batching matter too
  std::string key(const Expr& o, bool in_mem) {
    if (o.is<Variable>()) return "$" + u8(o.as<Variable>().label()) + (o.as<Variable>().conjugated() ? "*" : "");
    auto& t = o.as<Tensor>();
    std::string k = u8(t.label()) + "|";
    for (auto& i : slots(t)) {
      k += u8(i.space().base_key()) + ",";
      if (in_mem && batch.count(u8(i.full_label()))) k += "@" + u8(i.full_label());
    }
    return k;
  }
  Labels free(const Expr& o) { Labels l; if (o.is<Tensor>()) for (auto& i : slots(o.as<Tensor>())) if (auto s = u8(i.full_label()); !batch.count(s)) l.push_back(s); return l; }
  Arr zeros(const Expr& o, bool full) {
    Arr a;
    std::size_t n = 1;
    if (o.is<Tensor>()) for (auto& i : slots(o.as<Tensor>())) {
      if (!full && batch.count(u8(i.full_label()))) continue;
      a.dim.push_back(int(model().values(i.space()).size()));
      n *= a.dim.back();
    }
    a.d.assign(n, F{});
    return a;
  }
  /// the part of the array of all slots that the current batch selects
  template <typename Fn> void each_sliced(const Expr& o, const Fn& f) {
    Arr z = zeros(o, true);
    auto ix = o.is<Tensor>() ? slots(o.as<Tensor>()) : std::vector<Index>{};
    std::size_t m = 0;
    for (std::size_t q = 0; q < z.d.size(); ++q) {
      std::size_t x = q;
      bool in = true;
      for (std::size_t k = 0; k < ix.size(); ++k) {
        int v = int(x % z.dim[k]);
        x /= z.dim[k];
        auto it = batch.find(u8(ix[k].full_label()));
        if (it != batch.end() && it->second != v) in = false;
      }
      if (in) f(q, m++);
    }
  }
  Arr leaf(const Expr& o) {
    if (o.is<Variable>()) return want(model(), o.clone(), {});
    auto& t = o.as<Tensor>();
    std::map<std::wstring, int> n;
    auto fresh = [&](const Index& i) { auto b = std::wstring(i.space().base_key()); return Index(b + L"_" + std::to_wstring(70 + n[b]++)); };
    std::vector<Index> all, p[3];
    int w = 0;
    auto add = [&](auto&& r) { for (auto& i : r) if (i.nonnull()) { all.push_back(fresh(i)); p[w].push_back(all.back()); } ++w; };
    add(t.bra()); add(t.ket()); add(t.aux());
    return want(model(), ex<Tensor>(t.label(), bra(p[0]), ket(p[1]), aux(p[2]), t.symmetry(), t.braket_symmetry(), t.column_symmetry()), all);
  }
  void push(const std::string& k) { stack.push_back(k); }
  void pop(const std::string& k) {
    if (stack.empty() || stack.back() != k) lifo = false;
    auto it = std::find(stack.rbegin(), stack.rend(), k);
    if (it != stack.rend()) stack.erase(std::next(it).base());
  }
  Cell& at(const Expr& o, const std::string& what) {
    auto it = mem.find(key(o, true));
    if (it == mem.end()) bad(what + " " + orc::show(o.clone()) + ", which is not in memory");
    return it->second;
  }
  void gather(const Expr& e, F& s, std::vector<std::pair<Arr, Labels>>& ts) {
    if (e.is<Constant>()) s = s * from(e.as<Constant>().value());
    else if (e.is<Variable>() || e.is<Tensor>()) {
      auto& c = at(e, "uses");
      if (!c.ok) bad("uses " + orc::show(e.clone()) + ", which has not been initialized");
      if (e.is<Variable>()) s = s * c.v.d[0]; else ts.push_back({c.v, free(e)});
    } else if (e.is<Power>()) {
      auto& p = e.as<Power>();
      if (denominator(p.exponent()) != 1) bad("fractional power");
      F b{1, 0};
      std::vector<std::pair<Arr, Labels>> none;
      gather(*p.base(), b, none);
      if (!none.empty()) bad("power of an array");
      b = orc::pow(b, static_cast<long>(numerator(p.exponent())));
      s = s * (p.conjugated() ? b.conj() : b);
    } else if (e.is<Product>()) {
      s = s * from(e.as<Product>().scalar());
      for (auto& f : e.as<Product>()) gather(*f, s, ts);
    } else bad("computes something other than a product: " + orc::show(e.clone()));
  }
  void run(const Op& o) {
    ++steps;
    std::string k = o.obj ? key(*o.obj, true) : "";
    switch (o.k) {
      case Create:
        if (mem.count(k)) bad("creates " + orc::show(o.obj) + ", which is in memory already");
        mem[k] = {zeros(*o.obj, false), o.zero};
        made.insert(key(*o.obj, false));
        push(k);
        break;
      case Load: {
        if (mem.count(k)) bad("loads " + orc::show(o.obj) + ", which is in memory already");
        ++loads;
        push(k);
        if (o.zero) { mem[k] = {zeros(*o.obj, false), true}; break; }
        std::string dk = key(*o.obj, false);
        bool is_leaf = leaves.count(o.obj->is<Tensor>() ? u8(o.obj->as<Tensor>().label()) : u8(o.obj->as<Variable>().label()));
        Arr full;
        if (disk.count(dk)) full = disk.at(dk);
        else if (is_leaf) full = leaf(*o.obj);
        else if (made.count(dk)) { mem[k] = {zeros(*o.obj, false), false}; break; }
        else bad("loads " + orc::show(o.obj) + ", which does not exist");
        Arr a = zeros(*o.obj, false);
        each_sliced(*o.obj, [&](std::size_t q, std::size_t m) { a.d[m] = full.d[q]; });
        mem[k] = {a, true};
        break;
      }
      case Zero: at(*o.obj, "sets to zero") = {zeros(*o.obj, false), true}; break;
      case Unload: at(*o.obj, "unloads"); mem.erase(k); pop(k); break;
      case Destroy: at(*o.obj, "destroys"); mem.erase(k); disk.erase(key(*o.obj, false)); pop(k); break;
      case Persist: {
        auto& c = at(*o.obj, "stores");
        if (!c.ok) bad("stores " + orc::show(o.obj) + ", which has not been initialized");
        auto& full = disk[key(*o.obj, false)];
        if (full.d.empty()) full = zeros(*o.obj, true);
        each_sliced(*o.obj, [&](std::size_t q, std::size_t m) { full.d[q] = c.v.d[m]; });
        mem.erase(k);
        pop(k);
        break;
      }
      case Compute: {
        auto& c = at(*o.obj, "adds to");
        if (!c.ok) bad("adds to " + orc::show(o.obj) + ", which has not been initialized");
        F s{1, 0};
        std::vector<std::pair<Arr, Labels>> ts;
        gather(*o.e, s, ts);
        Labels to = free(*o.obj);
        bool self = false;
        std::function<void(const Expr&)> look = [&](const Expr& e) {
          if ((e.is<Tensor>() || e.is<Variable>()) && key(e, true) == k) self = true;
          if (e.is<Power>()) look(*e.as<Power>().base());
          if (e.is<Product>()) for (auto& f : e.as<Product>()) look(*f);
        };
        look(*o.e);
        if (self) bad("adds to " + orc::show(o.obj) + " while reading it");
        Arr r = zeros(*o.obj, false);
        if (ts.size() > 2) bad("contracts more than two arrays at once");
        if (ts.empty()) { if (!to.empty()) bad("adds a number to an array"); r.d[0] = s; }
        else {
          Arr x = einsum(ts[0].first, ts[0].second, ts.size() > 1 ? &ts[1].first : nullptr, ts.size() > 1 ? ts[1].second : Labels{}, to);
          if (x.dim != r.dim) bad("computes an array of another shape");
          for (std::size_t q = 0; q < x.d.size(); ++q) r.d[q] = x.d[q] * s;
        }
        for (std::size_t q = 0; q < r.d.size(); ++q) c.v.d[q] += r.d[q];
        break;
      }
      default: break;
    }
  }
  void program(const std::vector<Op>& ops) {
    for (std::size_t k = 0; k < ops.size(); ++k) {
      if (ops[k].k != BeginE) {
        if (ops[k].k <= Compute) bad("an operation outside of any expression");
        continue;
      }
      std::size_t e = k;
      while (e < ops.size() && ops[e].k != EndE) ++e;
      if (e == ops.size()) bad("an expression is begun but not ended");
      std::vector<Index> bi = keep_batch ? ops[k].batch : std::vector<Index>{};
      std::size_t tot = 1;
      for (auto& i : bi) tot *= model().values(i.space()).size();
      for (std::size_t q = 0; q < tot; ++q) {
        std::size_t x = q;
        batch.clear();
        for (auto& i : bi) { std::size_t n = model().values(i.space()).size(); batch[u8(i.full_label())] = int(x % n); x /= n; }
        for (std::size_t j = k + 1; j < e; ++j) run(ops[j]);
        if (!mem.empty()) bad("at the end of an expression, " + mem.begin()->first + " is still in memory");
      }
      batch.clear();
      k = e;
    }
  }
};
/// everything used is declared, once, before its use, in its scope
void declarations(vf::Case& c, const std::vector<Op>& ops, const Conf& cf, const std::set<std::string>& leaves, const std::set<std::string>& results) {
  struct Use { std::set<std::string> dec, used; };
  Machine mk;
  auto opens = [](DeclarationScope s, K k) { return (s == DeclarationScope::Section && k == BeginS) || false; };
  (void)opens;
  // group the operations by scope: number of the section / expression each operation belongs to
  std::vector<int> sec(ops.size()), exn(ops.size());
  int s = 0, e = 0;
  for (std::size_t k = 0; k < ops.size(); ++k) {
    if (ops[k].k == BeginS) ++s;
    sec[k] = s;
    exn[k] = e;
    if (ops[k].k == EndE) ++e;
  }
  std::map<std::string, int> dec;
  auto name = [&](DeclarationScope sc, std::size_t k) { return sc == DeclarationScope::Global ? std::string("g") : sc == DeclarationScope::Section ? "s" + std::to_string(sec[k]) : "e" + std::to_string(exn[k]); };
  for (std::size_t k = 0; k < ops.size(); ++k) {
    auto& o = ops[k];
    auto once = [&](std::string n) { if (++dec[n] > 1) throw vf::Fail{n + " is declared twice"}; };
    auto there = [&](std::string n) { if (!dec[n]) throw vf::Fail{n + " is used without having been declared"}; };
    if (o.k == DeclI) once(name(cf.di, k) + " index " + u8(o.batch[0].full_label()));
    if (o.k == DeclV || o.k == DeclT) {
      once(name(o.k == DeclV ? cf.dv : cf.dt, k) + " " + mk.key(*o.obj, false));
      std::string l = u8(o.k == DeclV ? std::wstring(o.obj->as<Variable>().label()) : std::wstring(o.obj->as<Tensor>().label()));
      if (leaves.count(l) && !(o.use & Usage::Terminal)) throw vf::Fail{l + " is declared, but not as an input"};
      if (!leaves.count(l) && !results.count(l) && (o.use & Usage::Terminal)) throw vf::Fail{l + " is declared as an input"};
      if (results.count(l) && !(o.use & Usage::Result)) { bool comp = false; for (std::size_t j = k; j < ops.size(); ++j) if (ops[j].k == Persist && mk.key(*ops[j].obj, false) == mk.key(*o.obj, false) && name(o.k == DeclV ? cf.dv : cf.dt, j) == name(o.k == DeclV ? cf.dv : cf.dt, k)) comp = true; if (comp) throw vf::Fail{l + " is declared, but not as a result"}; }
    }
    if (o.k > Compute) continue;
    std::function<void(const Expr&)> look = [&](const Expr& x) {
      if (x.is<Variable>()) there(name(cf.dv, k) + " " + mk.key(x, false));
      if (x.is<Tensor>()) {
        there(name(cf.dt, k) + " " + mk.key(x, false));
        for (auto& i : Machine::slots(x.as<Tensor>())) there(name(cf.di, k) + " index " + u8(i.full_label()));
      }
      if (x.is<Power>()) look(*x.as<Power>().base());
      if (x.is<Product>()) for (auto& f : x.as<Product>()) look(*f);
    };
    look(*o.obj);
    if (o.e) look(*o.e);
  }
  c.checked();
}
void inputs(const ExprPtr& e, std::set<std::string>& s) {
  if (e->is<Tensor>()) s.insert(u8(e->as<Tensor>().label()));
  else if (e->is<Variable>()) s.insert(u8(e->as<Variable>().label()));
  else if (e->is<Power>()) inputs(e->as<Power>().base(), s);
  else if (e->is<Product>() || e->is<Sum>()) for (auto& x : *e) inputs(x, s);
}
std::vector<Op> computes(const std::vector<Op>& v) { std::vector<Op> r; for (auto& o : v) if (o.k == Compute) r.push_back(o); return r; }
struct Setup { std::vector<Eq> eqs; std::vector<int> groups; std::vector<Index> batch; MemoryLayout layout = MemoryLayout::Unspecified; bool retain = false; };
std::vector<ExpressionGroup<>> build(const Setup& s) {
  std::vector<ExpressionGroup<>> g;
  std::size_t k = 0;
  for (std::size_t j = 0; j < s.groups.size(); ++j) {
    ExpressionGroup<> x(s.groups.size() > 1 ? std::optional<std::string>("part" + std::to_string(j)) : std::nullopt);
    for (int n = 0; n < s.groups[j]; ++n, ++k) x.add(to_export_tree(s.eqs[k].res(), s.retain));
    g.push_back(x);
  }
  return g;
}
Ctx context(const Setup& s) {
  Ctx x;
  x.batch = s.batch;
  if (s.layout != MemoryLayout::Unspecified) { x.set_memory_layout(s.layout); x.enable_rewriting(true); }
  return x;
}
/// value of every result, results of earlier equations being inputs of later ones
std::vector<Arr> wanted(const Setup& s) {
  std::vector<Arr> w;
  for (auto& q : s.eqs) w.push_back(want(model(), q.full ? q.full : q.e, q.ext()));
  return w;
}
void run(vf::Case& c, Setup s, const std::vector<Arr>& w, Conf cf, bool opt, std::vector<Op>* plain, bool* plain_lifo, std::size_t* plain_loads) {
  std::string how = std::string(opt ? "optimized" : "plain") + ", prunable scalars " + std::to_string(int(cf.prune)) + ", scopes " + std::to_string(int(cf.di)) + std::to_string(int(cf.dv)) + std::to_string(int(cf.dt)) + ", layout " + std::to_string(int(s.layout)) + (s.retain ? ", bra and ket kept" : "") + ": ";
  Rec rec;
  rec.cf = cf;
  auto ops = rec.ops;
  try {
    if (opt) { GenerationOptimizer<Rec> g(rec); export_groups<ExportExpr>(build(s), g, context(s)); }
    else export_groups<ExportExpr>(build(s), rec, context(s));
  } catch (vf::Fail&) { throw; } catch (std::exception& x) { throw vf::Fail{how + "exporting throws " + x.what()}; }
  c.step(ops->size());
  std::set<std::string> leaves, results;
  for (auto& q : s.eqs) { inputs(q.e, leaves); }
  for (auto& q : s.eqs) { results.insert(u8(q.name)); leaves.erase(u8(q.name)); }
  Machine m;
  m.leaves = leaves;
  m.keep_batch = cf.batching;
  try {
    m.program(*ops);
    declarations(c, *ops, cf, leaves, results);
  } catch (vf::Fail& f) { throw vf::Fail{how + f.msg + " in: " + show(*ops)}; }
  for (std::size_t k = 0; k < s.eqs.size(); ++k) {
    bool last = true;
    for (std::size_t j = k + 1; j < s.eqs.size(); ++j) if (s.eqs[j].name == s.eqs[k].name) last = false;
    if (!last) continue;
    Expr const* o = nullptr;
    for (auto& p : *ops) if (p.k == Persist && u8(p.obj->is<Tensor>() ? std::wstring(p.obj->as<Tensor>().label()) : std::wstring(p.obj->as<Variable>().label())) == u8(s.eqs[k].name)) o = p.obj.get();
    c.require(o, [&] { return how + u8(s.eqs[k].name) + " is never stored: " + show(*ops); });
    // the result may have been given another order of its slots
    Labels have;
    if (o->is<Tensor>()) for (auto& i : Machine::slots(o->as<Tensor>())) have.push_back(u8(i.full_label()));
    Arr got = einsum(m.disk.at(m.key(*o, false)), have, nullptr, {}, labels(s.eqs[k].ext()));
    c.require(got == w[k], [&] { return how + u8(s.eqs[k].name) + " is computed as " + orc::show(got) + ", expected " + orc::show(w[k]) + " in: " + show(*ops); });
  }
  c.state(show(*ops));
  if (!opt) { *plain = *ops; *plain_lifo = m.lifo; *plain_loads = m.loads; c.count("plain_operations", ops->size()); if (!m.lifo) c.count("not_nested"); return; }
  auto a = computes(*plain), b = computes(*ops);
  c.require(show(a) == show(b), [&] { return how + "the computations differ: " + show(a) + " vs " + show(b); });
  c.require(m.loads <= *plain_loads, [&] { return how + "more loads than without optimization"; });
  c.require(m.lifo || !*plain_lifo, [&] { return how + "memory operations no longer nest: " + show(*ops) + " from " + show(*plain); });
  c.count("elided_operations", plain->size() - ops->size());
}
constexpr DeclarationScope G = DeclarationScope::Global, SE = DeclarationScope::Section, EX = DeclarationScope::Expression;
void check(vf::Case& c, Setup s, bool all = true) {
  std::string d;
  for (auto& q : s.eqs) d += (d.empty() ? "" : " ; ") + u8(q.name) + " = " + orc::show(q.e);
  c.describe(d);
  c.mine();
  auto w = wanted(s);
  std::vector<Conf> cfs{{PrunableScalars::All}};
  if (all) for (auto p : {PrunableScalars::None, PrunableScalars::Constants, PrunableScalars::Variables}) cfs.push_back({p});
  cfs.push_back({PrunableScalars::All, EX, EX, EX, false});
  cfs.push_back({PrunableScalars::All, SE, G, G, true, true});
  for (auto& cf : cfs) {
    std::vector<Op> plain;
    bool lifo;
    std::size_t loads;
    run(c, s, w, cf, false, &plain, &lifo, &loads);
    run(c, s, w, cf, true, &plain, &lifo, &loads);
  }
}
// ------------------------------------------------------------------ matrix expressions
struct Mat {
  vf::Case& c;
  std::vector<wchar_t> spaces{L'i'};
  int scal = 0;  // how many nodes may still get a number
  int nlab = 2, dm = 2;
  bool sums = true;
  Index dummy() { wchar_t sp = spaces[c.choose(int(spaces.size()))]; return Index(std::wstring(1, sp) + L"_" + std::to_wstring(++dm)); }
  ExprPtr leaf(Index a, Index b) { static const wchar_t* l[] = {L"f", L"h", L"g"}; return T(l[c.choose(nlab)], {a}, {b}); }
  std::vector<ExprPtr> number() {
    if (!scal) return {};
    int k = c.choose(6);
    if (k) --scal;
    switch (k) {
      case 1: return {ex<Constant>(rational(-2, 3))};
      case 2: return {ex<Variable>(L"y")};
      case 3: return {ex<Power>(ex<Variable>(L"y"), 2)};
      case 4: return {ex<Constant>(2), ex<Variable>(L"z")};
      case 5: return {ex<Power>(ex<Constant>(3), -1)};
    }
    return {};
  }
  ExprPtr with(std::vector<ExprPtr> f) {
    auto n = number();
    if (n.empty()) return f.size() == 1 ? f[0] : Pr(f);
    bool back = c.choose(2);
    if (n[0]->is<Constant>() && !back) { auto s = n[0]->as<Constant>().value(); n.erase(n.begin()); n.insert(n.end(), f.begin(), f.end()); return Pr(n, s); }
    if (back) f.insert(f.end(), n.begin(), n.end()); else f.insert(f.begin(), n.begin(), n.end());
    return Pr(f);
  }
  ExprPtr operator()(int n, Index a, Index b) {
    if (n == 1) return with({leaf(a, b)});
    int k = 1 + (n > 2 ? c.choose(n - 1) : 0);
    if (sums && c.choose(2)) { auto x = (*this)(k, a, b), y = (*this)(n - k, a, b); return Sm({x, y}); }
    Index d = dummy();
    auto x = (*this)(k, a, d), y = (*this)(n - k, d, b);
    return with({x, y});
  }
};
#define SETUP use_context(Vacuum::Physical); Index i1(L"i_1"), i2(L"i_2"), a1(L"a_1"), a2(L"a_2"); (void)a1, (void)a2, (void)i1, (void)i2
// sums and products of matrices over one space: every intermediate is a block
// of the same shape, so names are reused and renamed
SCENARIO("matrix", c) {
  SETUP;
  Mat m{c};
  int n = 1 + c.choose(vf::thorough() ? 6 : 5);
  if (n >= 5) m.nlab = 1;
  check(c, {{{L"R", m(n, i1, i2), {i1}, {i2}}}, {1}, {}});
}
// ... over two spaces
SCENARIO("matrix.2", c) {
  SETUP;
  Mat m{c};
  m.spaces = {L'i', L'a'};
  m.nlab = 1;
  int n = 2 + c.choose(vf::thorough() ? 4 : 3);
  Index k = c.choose(2) ? i2 : a1;
  check(c, {{{L"R", m(n, i1, k), {i1}, {k}}}, {1}, {}});
}
// ... with numbers in front of, behind and inside the factors
SCENARIO("scaled", c) {
  SETUP;
  Mat m{c};
  int n = 1 + c.choose(vf::thorough() ? 4 : 3);
  m.scal = n == 1 ? 1 : 2;
  m.nlab = n > 2 ? 1 : 2;
  check(c, {{{L"R", m(n, i1, i2), {i1}, {i2}}}, {1}, {}});
}
// results that are numbers
SCENARIO("number", c) {
  SETUP;
  Mat m{c};
  m.nlab = 1;
  std::function<ExprPtr(int)> sc = [&](int depth) -> ExprPtr {
    int q = depth == 0 && !vf::thorough() ? std::array{1, 2, 5}[c.choose(3)] : c.choose(depth ? 8 : 6);
    switch (q) {
      case 0: return ex<Constant>(rational(2, 3));
      case 1: return ex<Variable>(L"x");
      case 2: return ex<Power>(ex<Variable>(L"y"), 2);
      case 3: return ex<Power>(ex<Variable>(L"x"), -1);
      case 4: { m.sums = false; Index d = m.dummy(); return m(2, d, d); }
      case 5: { m.sums = true; Index d = m.dummy(), e = m.dummy(); auto x = m.leaf(d, e); return Pr({x, m(2, e, d)}); }
      case 6: { auto x = sc(depth - 1), y = sc(depth - 1); return Sm({x, y}); }
      default: { auto x = sc(depth - 1), y = sc(depth - 1); return Pr({x, y}, c.choose(2) ? 1 : -2); }
    }
  };
  auto e = sc(vf::thorough() ? 2 : 2);
  check(c, {{{L"R", e, {}, {}}}, {1}, {}});
}
// arrays times numbers that have to be computed
SCENARIO("number.array", c) {
  SETUP;
  Mat m{c};
  m.nlab = 1;
  std::function<ExprPtr(int)> sc = [&](int depth) -> ExprPtr {
    int q = depth == 0 && !vf::thorough() ? std::array{0, 1, 3}[c.choose(3)] : c.choose(depth ? 6 : 4);
    switch (q) {
      case 0: return ex<Constant>(rational(2, 3));
      case 1: return ex<Variable>(L"x");
      case 2: return ex<Power>(ex<Variable>(L"y"), 2);
      case 3: { Index d = m.dummy(), e = m.dummy(); return Pr({m.leaf(d, e), m.leaf(e, d)}); }
      case 4: { auto x = sc(depth - 1), y = sc(depth - 1); return Sm({x, y}); }
      default: { auto x = sc(depth - 1), y = sc(depth - 1); return Pr({x, y}, c.choose(2) ? 1 : -2); }
    }
  };
  auto e = sc(2);
  int w = c.choose(vf::thorough() ? 5 : 3);
  ExprPtr r;
  auto f = T(L"f", {i1}, {i2}), h = T(L"h", {i1}, {i2});
  if (w == 0) r = Pr({e, f});
  if (w == 1) r = Pr({f, e});
  if (w == 2) r = Sm({h, Pr({f, e})});
  if (w == 3) { Index d = m.dummy(); r = Pr({e, Pr({T(L"f", {i1}, {d}), T(L"h", {d}, {i2})})}); }
  if (w == 4) { Index d = m.dummy(); r = Pr({Pr({e, T(L"f", {i1}, {d})}), T(L"h", {d}, {i2})}); }
  check(c, {{{L"R", r, {i1}, {i2}}}, {1}, {}});
}
// several expressions: later ones read what earlier ones stored; one result may be
// computed twice; all of them in one section or every one in its own
struct Ast { int op; std::vector<Ast> k; };  // 0: f, 1: the first result, 2: sum, 3: product
Ast ast(vf::Case& c, int n, int leaves) {
  if (n == 1) return {leaves > 1 ? c.choose(leaves) : 0, {}};
  int l = 1 + (n > 2 ? c.choose(n - 1) : 0);
  int op = 2 + c.choose(2);
  auto x = ast(c, l, leaves), y = ast(c, n - l, leaves);
  return {op, {x, y}};
}
ExprPtr inst(const Ast& t, const Ast* r, Index a, Index b, int& dm) {
  if (t.op == 0) return T(L"f", {a}, {b});
  if (t.op == 1) return r ? inst(*r, nullptr, a, b, dm) : T(L"R", {a}, {b});
  if (t.op == 2) { auto x = inst(t.k[0], r, a, b, dm), y = inst(t.k[1], r, a, b, dm); return Sm({x, y}); }
  Index d(L"i_" + std::to_wstring(++dm));
  auto x = inst(t.k[0], r, a, d, dm), y = inst(t.k[1], r, d, b, dm);
  return Pr({x, y});
}
SCENARIO("several", c) {
  SETUP;
  Ast r = ast(c, 1 + c.choose(vf::thorough() ? 4 : 3), 1), q = ast(c, 1 + c.choose(vf::thorough() ? 4 : 3), 2);
  int d1 = 2, d2 = 2, d3 = 2, d4 = 2;
  bool swap = c.choose(2);  // the second expression reads the transposed first result
  Index x = swap ? i2 : i1, y = swap ? i1 : i2;
  Setup s{{{L"R", inst(r, nullptr, i1, i2, d1), {i1}, {i2}, inst(r, nullptr, i1, i2, d2)}, {L"Q", inst(q, nullptr, x, y, d3), {i1}, {i2}, inst(q, &r, x, y, d4)}}, {}, {}};
  if (c.choose(2)) s.groups = {1, 1}; else s.groups = {2};
  check(c, s, false);
}
// the same name is given to two results: the second replaces the first
SCENARIO("again", c) {
  SETUP;
  Mat m{c};
  m.nlab = 1;
  int n = 1 + c.choose(3), k = 1 + c.choose(3);
  auto e1 = m(n, i1, i2), e2 = m(k, i1, i2);
  bool num = c.choose(2);
  Setup s{{{L"R", e1, {i1}, {i2}, {}}, {L"R", e2, {i1}, {i2}, {}}}, {}, {}};
  if (num) for (auto& q : s.eqs) { Index d(L"i_70"), f(L"i_71"); q.e = Pr({q.e, T(L"f", {i2}, {i1})}); q.b = q.k = {}; }
  if (c.choose(2)) s.groups = {1, 1}; else s.groups = {2};
  check(c, s, false);
}
// part of the indices are batched over: the program is the body of a loop
SCENARIO("batch", c) {
  SETUP;
  Mat m{c};
  m.nlab = 1;
  int n = 1 + c.choose(vf::thorough() ? 5 : 4), w = c.choose(4);
  auto e = m(n, i1, i2);
  Setup s{{{L"R", e, {i1}, {i2}}}, {1}, {}};
  if (w == 0) s.batch = {i1};
  if (w == 1) s.batch = {i2};
  if (w == 2) s.batch = {i1, i2};
  if (w == 3) s.batch = {i2, i1};
  check(c, s, false);
}
// conjugated numbers
SCENARIO("conj", c) {
  SETUP;
  Mat m{c};
  m.nlab = 1;
  auto V = [&](int k) -> ExprPtr {
    Variable v(k < 4 ? L"y" : L"z");
    if (k & 1) v.conjugate();
    if (k & 2) { auto p = ex<Power>(ex<Variable>(v), 2); return p; }
    return ex<Variable>(v);
  };
  int x = c.choose(8), y = c.choose(8), w = c.choose(4);
  auto f = T(L"f", {i1}, {i2}), h = T(L"h", {i1}, {i2});
  Index d = m.dummy();
  if (w == 0) check(c, {{{L"R", Pr({V(x), V(y), f}), {i1}, {i2}}}, {1}, {}});
  if (w == 1) check(c, {{{L"R", Sm({Pr({V(x), f}), Pr({V(y), h})}), {i1}, {i2}}}, {1}, {}});
  if (w == 2) check(c, {{{L"R", Pr({V(x), V(y)}), {}, {}}}, {1}, {}});
  if (w == 3) check(c, {{{L"R", Pr({V(x), Pr({V(y), Pr({T(L"f", {i1}, {d}), T(L"h", {d}, {i2})})})}), {i1}, {i2}}}, {1}, {}});
}
// tensors whose slots may be reordered for locality
SCENARIO("layout", c) {
  SETUP;
  int w = c.choose(4);
  Setup s;
  s.layout = c.choose(2) ? MemoryLayout::RowMajor : MemoryLayout::ColumnMajor;
  s.retain = c.choose(2);
  auto sy = c.pick(std::vector{S, N, A});
  auto bk = c.choose(2) ? BraKetSymmetry::Symm : BraKetSymmetry::Nonsymm;
  // slots of g: spaces in all ways
  auto sp = [&](int k) { return c.choose(2) ? Index(L"i_" + std::to_wstring(k)) : Index(L"a_" + std::to_wstring(k)); };
  Index p = sp(11), q = sp(12), r = sp(13), t = sp(14);
  ExprPtr g = T(L"g", {p, q}, {r, t}, {}, sy, bk);
  if (w == 0) s.eqs = {{L"R", g, {p, q}, {r, t}}};
  if (w == 1) s.eqs = {{L"R", Pr({g, T(L"f", {r}, {Index(L"i_1")})}), {p, q}, {Index(L"i_1"), t}}};
  if (w == 2) s.eqs = {{L"R", Pr({g, T(L"h", {r, t}, {Index(L"i_1"), Index(L"a_1")}, {}, sy, bk)}), {p, q}, {Index(L"i_1"), Index(L"a_1")}}};
  if (w == 3) s.eqs = {{L"R", Sm({g, Pr({T(L"f", {p}, {r}), T(L"f", {q}, {t})})}), {p, q}, {r, t}}};
  s.groups = {1};
  check(c, s, false);
}
// ------------------------------------------------------------------ Python
// A generated program in NumPy or PyTorch is executed statement by statement.
struct Py {
  struct V { bool arr = false; F s; Arr a; };
  std::map<std::string, V> env, disk;
  std::function<V(const std::string&)> input;  // the contents of a file that was not written
  std::string t;  // the statement
  std::size_t p = 0, lines = 0;
  [[noreturn]] void bad(const std::string& m) { throw vf::Fail{m + " in statement '" + t + "'"}; }
  void ws() { while (p < t.size() && t[p] == ' ') ++p; }
  bool eat(const std::string& x) { ws(); if (t.compare(p, x.size(), x) == 0) { p += x.size(); return true; } return false; }
  void need(const std::string& x) { if (!eat(x)) bad("expected " + x + " at " + t.substr(std::min(p, t.size()))); }
  static bool idc(char ch) { return std::isalnum(static_cast<unsigned char>(ch)) || ch == '_' || (ch & 0x80); }
  std::string ident() { ws(); std::size_t b = p; while (p < t.size() && idc(t[p])) ++p; if (b == p) bad("expected a name at " + t.substr(p)); if (std::isdigit(static_cast<unsigned char>(t[b]))) bad("not a name: " + t.substr(b, p - b)); return t.substr(b, p - b); }
  std::string str() { need("'"); std::size_t b = p; while (p < t.size() && t[p] != '\'') ++p; auto r = t.substr(b, p - b); need("'"); return r; }
  static V num(F f) { V v; v.s = f; return v; }
  V mul(const V& x, const V& y, bool div = false) {
    if (div) { if (y.arr) bad("divides by an array"); return mul(x, num(orc::pow(y.s, -1))); }
    if (!x.arr && !y.arr) return num(x.s * y.s);
    if (x.arr && y.arr) bad("multiplies arrays elementwise");
    V r = x.arr ? x : y;
    F f = x.arr ? y.s : x.s;
    for (auto& e : r.a.d) e = e * f;
    return r;
  }
  V add(const V& x, const V& y) {
    if (!x.arr && !y.arr) return num(x.s + y.s);
    if (x.arr != y.arr) { // an array without axes is a number
      const V &ar = x.arr ? x : y, &sc = x.arr ? y : x;
      if (!ar.a.dim.empty()) bad("adds a number to every element of an array");
      return num(ar.a.d[0] + sc.s);
    }
    if (x.a.dim != y.a.dim) bad("adds arrays of different shapes");
    V r = x;
    for (std::size_t k = 0; k < r.a.d.size(); ++k) r.a.d[k] += y.a.d[k];
    return r;
  }
  V einsum_() {
    auto spec = str();
    std::vector<Labels> ls(1);
    std::size_t k = 0;
    for (; k < spec.size() && spec.compare(k, 2, "->"); ++k) {
      if (spec[k] == ',') { ls.emplace_back(); continue; }
      if (!std::isalpha(static_cast<unsigned char>(spec[k]))) bad("einsum subscripts have to be letters");
      ls.back().push_back(std::string(1, spec[k]));
    }
    if (k == spec.size()) bad("einsum without a result");
    Labels to;
    for (k += 2; k < spec.size(); ++k) to.push_back(std::string(1, spec[k]));
    std::vector<V> as;
    while (eat(",")) {
      ws();
      if (t.compare(p, 9, "optimize=") == 0) { p += 9; need("True"); continue; }
      as.push_back(sum());
      if (!as.back().arr) bad("einsum of a number");
    }
    need(")");
    if (as.size() != ls.size()) bad("einsum of " + std::to_string(as.size()) + " arrays, subscripts for " + std::to_string(ls.size()));
    std::map<std::string, int> ext;
    for (std::size_t q = 0; q < as.size(); ++q) {
      if (as[q].a.dim.size() != ls[q].size()) bad("einsum: wrong number of subscripts");
      for (std::size_t j = 0; j < ls[q].size(); ++j) { auto [it, fresh] = ext.emplace(ls[q][j], as[q].a.dim[j]); if (!fresh && it->second != as[q].a.dim[j]) bad("einsum: extents differ"); }
    }
    for (auto& l : to) { if (!ext.count(l)) bad("einsum: unknown subscript of the result"); if (std::count(to.begin(), to.end(), l) > 1) bad("einsum: repeated subscript of the result"); }
    V r;
    r.arr = true;
    Arr cur = as[0].a;
    Labels cl = ls[0];
    if (as.size() > 2) bad("einsum of more than two arrays");
    r.a = einsum(cur, cl, as.size() > 1 ? &as[1].a : nullptr, as.size() > 1 ? ls[1] : Labels{}, to);
    return r;
  }
  V atom() {
    ws();
    if (eat("(")) { V v = sum(); need(")"); return v; }
    if (eat("np.conj(") || eat("torch.conj(")) { V v = sum(); need(")"); if (v.arr) bad("conj of an array"); return num(v.s.conj()); }
    if (eat("np.einsum(") || eat("torch.einsum(")) return einsum_();
    if (p < t.size() && std::isdigit(static_cast<unsigned char>(t[p]))) {
      long n = 0;
      while (p < t.size() && std::isdigit(static_cast<unsigned char>(t[p]))) n = n * 10 + (t[p++] - '0');
      if (p < t.size() && t[p] == '.') { ++p; while (p < t.size() && t[p] == '0') ++p; }
      if (p < t.size() && t[p] == 'j') { ++p; return num(from(Constant::scalar_type(0, n))); }
      if (p < t.size() && idc(t[p])) bad("malformed number");
      return num(from(Constant::scalar_type(n)));
    }
    auto n = ident();
    auto it = env.find(n);
    if (it == env.end()) bad("uses " + n + ", which is not defined,");
    return it->second;
  }
  V power() {
    V b = atom();
    if (!eat("**")) return b;
    V e = unary();
    if (b.arr || e.arr) bad("power of an array");
    for (long k = -9; k <= 9; ++k) if (from(Constant::scalar_type(k)) == e.s) return num(orc::pow(b.s, k));
    bad("unexpected exponent");
  }
  V unary() { if (eat("-")) return mul(num(from(Constant::scalar_type(-1))), unary()); return power(); }
  V term() {
    V x = unary();
    for (;;) {
      ws();
      if (t.compare(p, 2, "**") == 0) bad("unexpected **");
      if (eat("*")) x = mul(x, unary());
      else if (eat("/")) x = mul(x, unary(), true);
      else return x;
    }
  }
  V sum() {
    V x = term();
    for (;;) {
      if (eat("+")) x = add(x, term());
      else if (eat("-")) x = add(x, mul(num(from(Constant::scalar_type(-1))), term()));
      else return x;
    }
  }
  V zeros() {
    need("(");
    V r;
    r.arr = true;
    std::size_t n = 1;
    while (!eat(")")) { ws(); std::size_t d = 0; while (p < t.size() && std::isdigit(static_cast<unsigned char>(t[p]))) d = d * 10 + std::size_t(t[p++] - '0'); if (!d) bad("bad shape"); r.a.dim.push_back(int(d)); n *= d; eat(","); }
    r.a.d.assign(n, F{});
    while (p < t.size() && t[p] != ')') ++p;
    need(")");
    return r;
  }
  void statement(const std::string& line) {
    t = line;
    p = 0;
    ++lines;
    ws();
    if (p == t.size() || t[p] == '#') return;
    if (eat("import ")) return;
    if (eat("def ")) { ident(); need("():"); return; }
    if (eat("del ")) { auto n = ident(); if (!env.erase(n)) bad("deletes " + n + ", which is not defined,"); }
    else if (eat("os.remove(")) { auto f = str(); need(")"); disk.erase(f); }
    else if (eat("np.save(")) { auto f = str(); need(","); V v = sum(); need(")"); disk[f] = v; }
    else if (eat("torch.save(")) { V v = sum(); need(","); auto f = str(); need(")"); disk[f] = v; }
    else {
      auto n = ident();
      if (eat(".fill(0)") || eat(".zero_()")) { auto it = env.find(n); if (it == env.end() || !it->second.arr) bad("clears " + n + ", which is not an array,"); for (auto& e : it->second.a.d) e = F{}; }
      else if (eat("+=")) { V v = sum(); auto it = env.find(n); if (it == env.end()) bad("adds to " + n + ", which is not defined,"); bool was = it->second.arr; it->second = add(it->second, v); if (was && !it->second.arr) bad("array became a number"); }
      else {
        need("=");
        if (eat("np.load(") || eat("torch.load(")) { auto f = str(); need(")"); if (disk.count(f)) env[n] = disk.at(f); else env[n] = input(f); }
        else if (eat("np.zeros(") || eat("torch.zeros(")) env[n] = zeros();
        else env[n] = sum();
      }
    }
    ws();
    if (p != t.size()) bad("trailing text");
  }
  void program(const std::string& code) { std::istringstream is(code); std::string l; while (std::getline(is, l)) statement(l); }
};
template <typename Gen, typename Cx> void python(vf::Case& c, const Setup& s, const std::vector<Arr>& w, const char* ext, bool opt) {
  Cx cx;
  for (auto* b : {L"i", L"a"}) { auto sp = Index(std::wstring(b) + L"_1").space(); cx.set_shape(sp, std::to_string(model().values(sp).size())); }
  std::string code, how = std::string(ext) + (opt ? " (optimized)" : "") + ": ";
  try {
    if (opt) { GenerationOptimizer<Gen> g{Gen()}; export_groups<ExportExpr>(build(s), g, cx); code = g.get_generated_code(); }
    else { Gen g; export_groups<ExportExpr>(build(s), g, cx); code = g.get_generated_code(); }
  } catch (std::exception& x) { throw vf::Fail{how + "exporting throws " + x.what()}; }
  Py m;
  auto space = [](char ch) { return std::string(1, ch) == "i" ? L"i" : L"a"; };
  m.input = [&](const std::string& file) {
    auto n = file.substr(0, file.size() - std::string(ext).size());
    if (n + ext != file) m.bad("odd file name");
    Py::V v;
    if (n.size() == 1) return Py::num(want(model(), ex<Variable>(std::wstring(1, wchar_t(n[0]))), {}).d[0]);
    if (n.size() != 4 || n[1] != '_' || std::string("fhg").find(n[0]) == std::string::npos) m.bad("loads something that does not exist");
    Index x(std::wstring(space(n[2])) + L"_70"), y(std::wstring(space(n[3])) + L"_71");
    v.arr = true;
    v.a = want(model(), T(std::wstring(1, wchar_t(n[0])).c_str(), {x}, {y}), {x, y});
    return v;
  };
  try { m.program(code); } catch (vf::Fail& f) { throw vf::Fail{how + f.msg + " of " + code}; }
  c.step(m.lines);
  for (std::size_t k = 0; k < s.eqs.size(); ++k) {
    std::string n = u8(s.eqs[k].name), tag;
    for (auto& i : s.eqs[k].ext()) tag += u8(i.space().base_key()).substr(0, 1);
    if (!tag.empty()) n += "_" + tag;
    n += ext;
    c.require(m.disk.count(n), [&] { return how + n + " is never written by " + code; });
    auto& v = m.disk.at(n);
    Arr a = v.a;
    if (!v.arr) a = Arr{{}, {v.s}};
    c.require(a == w[k], [&] { return how + n + " is " + orc::show(a) + ", expected " + orc::show(w[k]) + ", computed by " + code; });
  }
}
void pycheck(vf::Case& c, const Setup& s) {
  std::string d;
  for (auto& q : s.eqs) d += (d.empty() ? "" : " ; ") + u8(q.name) + " = " + orc::show(q.e);
  c.describe(d);
  c.mine();
  auto w = wanted(s);
  for (bool opt : {false, true}) {
    python<NumPyEinsumGenerator, NumPyEinsumGeneratorContext>(c, s, w, ".npy", opt);
    python<PyTorchEinsumGenerator, PyTorchEinsumGeneratorContext>(c, s, w, ".pt", opt);
  }
}
// the Python programs: matrices over two spaces, with numbers
SCENARIO("python", c) {
  SETUP;
  Mat m{c};
  m.nlab = 1;
  m.spaces = {L'i', L'a'};
  int n = 1 + c.choose(vf::thorough() ? 4 : 3);
  m.scal = n == 1 ? 1 : n == 2 ? 1 : vf::thorough() && n == 3 ? 1 : 0;
  Index k = c.choose(2) ? i2 : a1;
  pycheck(c, {{{L"R", m(n, i1, k), {i1}, {k}}}, {1}, {}});
}
// ... numbers
SCENARIO("python.number", c) {
  SETUP;
  Mat m{c};
  m.nlab = 1;
  std::function<ExprPtr(int)> sc = [&](int depth) -> ExprPtr {
    switch (c.choose(depth ? 9 : 7)) {
      case 0: return ex<Constant>(rational(-2, 3));
      case 1: return ex<Variable>(L"x");
      case 2: return ex<Power>(ex<Variable>(L"y"), 2);
      case 3: return ex<Power>(ex<Variable>(L"x"), -1);
      case 4: { m.sums = false; Index d = m.dummy(); return m(2, d, d); }
      case 5: return ex<Power>(ex<Constant>(rational(-2, 3)), c.choose(2) ? 3 : -2);
      case 6: return ex<Constant>(Constant::scalar_type(rational(1, 2), rational(c.choose(2) ? 2 : -2, 3)));
      case 7: { auto x = sc(depth - 1), y = sc(depth - 1); return Sm({x, y}); }
      default: { auto x = sc(depth - 1), y = sc(depth - 1); return Pr({x, y}, c.choose(2) ? 1 : rational(-1, 2)); }
    }
  };
  auto e = sc(vf::thorough() ? 2 : 1);
  pycheck(c, {{{L"R", e, {}, {}}}, {1}, {}});
}
// ... several expressions, in functions or not
SCENARIO("python.several", c) {
  SETUP;
  Ast r = ast(c, 1 + c.choose(3), 1), q = ast(c, 1 + c.choose(3), 2);
  int d1 = 2, d2 = 2, d3 = 2, d4 = 2;
  bool swap = c.choose(2);
  Index x = swap ? i2 : i1, y = swap ? i1 : i2;
  Setup s{{{L"R", inst(r, nullptr, i1, i2, d1), {i1}, {i2}, inst(r, nullptr, i1, i2, d2)}, {L"Q", inst(q, nullptr, x, y, d3), {i1}, {i2}, inst(q, &r, x, y, d4)}}, {}, {}};
  if (c.choose(2)) s.groups = {1, 1}; else s.groups = {2};
  pycheck(c, s);
}
// ... conjugated variables
void pyconj(vf::Case& c, bool both) {
  SETUP;
  auto V = [&](int k) -> ExprPtr {
    Variable v(k < 4 ? L"y" : L"z");
    if (k & 1) v.conjugate();
    if (k & 2) return ex<Power>(ex<Variable>(v), 2);
    return ex<Variable>(v);
  };
  int x = c.choose(8), y = c.choose(8), w = c.choose(3);
  auto f = T(L"f", {i1}, {i2}), h = T(L"h", {i1}, {i2});
  if (both != (((x ^ y) & 5) == 1 && w != 1)) return;
  if (w == 0) pycheck(c, {{{L"R", Pr({V(x), V(y), f}), {i1}, {i2}}}, {1}, {}});
  if (w == 1) pycheck(c, {{{L"R", Sm({Pr({V(x), f}), Pr({V(y), h})}), {i1}, {i2}}}, {1}, {}});
  if (w == 2) pycheck(c, {{{L"R", Pr({V(x), V(y)}), {}, {}}}, {1}, {}});
}
SCENARIO("python.conj", c) { pyconj(c, false); }
SCENARIO("python.conj.both", c) { pyconj(c, true); }
}  // namespace
int main(int c, char** v) { return vf::main_impl(c, v, "C16"); }
