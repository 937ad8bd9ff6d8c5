// LINK: symb
// Every sequence of operations on two index-space registries (which may share
// their set of spaces) against a plain model; all queries after every step.
#include "lib/setup.hpp"
using namespace orc;
namespace {
using QN = IndexSpace::QuantumNumbers;
using Ty = IndexSpace::Type;
struct Sp { int type, qn; unsigned long size; Field f; bool operator==(const Sp&) const = default; };
using Spaces = std::map<std::wstring, Sp>;
struct Role { int def = 0; std::map<int, int> qn; };
struct M {
  std::shared_ptr<Spaces> s = std::make_shared<Spaces>(Spaces{{std::wstring(IndexSpace::null.base_key()), {0, 0, IndexSpace::null.approximate_size(), IndexSpace::null.field()}}});
  int mask = 0;
  Role role[5];
  const Sp* find(int t, int q) const { for (auto& [k, x] : *s) if (x.type == t && x.qn == q) return &x; return nullptr; }
  const Sp* find(const std::wstring& l) const { auto i = s->find(l); return i == s->end() ? nullptr : &i->second; }
  std::wstring label(int t, int q) const { for (auto& [k, x] : *s) if (x.type == t && x.qn == q) return k; return L"?"; }
  bool hastype(int t) const { for (auto& [k, x] : *s) if (x.type == t) return true; return false; }
  static bool single(int t) { return t && !(t & (t - 1)); }
};
struct Bad {};
void m_add(M& m, const std::wstring& l, Sp x) {
  if (m.find(l) || m.find(x.type, x.qn)) throw Bad{};
  (*m.s)[l] = x;
}
unsigned long m_size(const M& m, int t, int q) {
  if (M::single(t)) { auto* p = m.find(t, q); if (!p) throw Bad{}; return p->size; }
  unsigned long n = 0;
  for (auto& [k, x] : *m.s) if (x.qn == q && M::single(x.type) && (x.type & t)) n += x.size;
  return n;
}
Field m_field(const M& m, int t, int q) {
  if (M::single(t)) { auto* p = m.find(t, q); if (!p) throw Bad{}; return p->f; }
  for (auto& [k, x] : *m.s) if (x.qn == q && M::single(x.type) && (x.type & t) && x.f == Field::Complex) return Field::Complex;
  return Field::Real;
}
void m_union(M& m, const std::wstring& l, std::vector<std::wstring> c, bool isect) {
  int t = 0, q = 0;
  bool first = true;
  for (auto& k : c) {
    auto* p = m.find(k);
    if (!p) throw Bad{};
    if (first) { t = p->type; q = p->qn; first = false; }
    else if (isect) { t &= p->type; q &= p->qn; }
    else { t |= p->type; q |= p->qn; }
  }
  m_add(m, l, {t, q, m_size(m, t, q), m_field(m, t, q)});
}
void m_role(M& m, int r, int t) { if (!m.hastype(t)) throw Bad{}; m.role[r].def = t; }
using R = IndexSpaceRegistry;
void r_role(R& r, int k, Ty t) {
  switch (k) { case 0: r.vacuum_occupied_space(t); break; case 1: r.reference_occupied_space(t); break; case 2: r.complete_space(t); break; case 3: r.hole_space(t); break; default: r.particle_space(t); }
}
void r_role(R& r, int k, container::map<QN, Ty> t) {
  switch (k) { case 0: r.vacuum_occupied_space(t); break; case 1: r.reference_occupied_space(t); break; case 2: r.complete_space(t); break; case 3: r.hole_space(t); break; default: r.particle_space(t); }
}
Ty r_get(const R& r, int k) {
  switch (k) { case 0: return r.vacuum_occupied_space(); case 1: return r.reference_occupied_space(); case 2: return r.complete_space(); case 3: return r.hole_space(); default: return r.particle_space(); }
}
IndexSpace r_get(const R& r, int k, QN q) {
  switch (k) { case 0: return r.vacuum_occupied_space(q); case 1: return r.reference_occupied_space(q); case 2: return r.complete_space(q); case 3: return r.hole_space(q); default: return r.particle_space(q); }
}
IndexSpace m_get(const M& m, int k, int q) {
  int t;
  if (m.role[k].qn.count(q)) t = m.role[k].qn.at(q);
  else { t = m.role[k].def; if (!t) throw Bad{}; }
  auto* p = m.find(t, q);
  if (!p) throw Bad{};
  return IndexSpace(m.label(t, q), Ty(t), QN(q), p->size, p->f);
}
struct Op { std::string name; std::function<void(R&, R&)> r; std::function<void(M&, M&)> m; };
const std::vector<Op>& ops() {
  static std::vector<Op> v = [] {
    std::vector<Op> v;
    auto add = [&](const wchar_t* l, int t, int q, unsigned long n, Field f) {
      v.push_back({"add " + u8(l), [=](R& r, R&) { r.add(std::wstring(l), Ty(t), QN(q), n, f); }, [=](M& m, M&) { m_add(m, l, {t, q, n, f}); }});
    };
    add(L"i", 1, 0, 3, Field::Real);
    add(L"a", 2, 0, 5, Field::Real);
    add(L"u", 4, 0, 7, Field::Complex);
    add(L"c", 1, 1, 2, Field::Complex);
    add(L"i", 8, 0, 3, Field::Real);
    add(L"z", 2, 0, 5, Field::Real);
    v.push_back({"add m=3 with all tags", [](R& r, R&) { r.add(L"m", Ty(3), is_vacuum_occupied, is_complete, is_particle, 4); }, [](M& m, M&) { m_add(m, L"m", {3, 0, 4, Field::Complex}); for (int k : {0, 2, 4}) m_role(m, k, 3); }});
    v.push_back({"add o=1 occupied", [](R& r, R&) { r.add("o", Ty(1), is_vacuum_occupied, is_reference_occupied, is_hole); }, [](M& m, M&) { m_add(m, L"o", {1, 0, 10, Field::Complex}); for (int k : {0, 1, 3}) m_role(m, k, 1); }});
    v.push_back({"add_union p={i,a} complete", [](R& r, R&) { r.add_union(L"p", {L"i", L"a"}, is_complete); }, [](M& m, M&) { m_union(m, L"p", {L"i", L"a"}, false); m_role(m, 2, m.find(L"p")->type); }});
    v.push_back({"add_union q={i,a,u} complete", [](R& r, R&) { r.add_unIon(L"q", {L"i", L"a", L"u"}, is_complete); }, [](M& m, M&) { m_union(m, L"q", {L"i", L"a", L"u"}, false); m_role(m, 2, m.find(L"q")->type); }});
    v.push_back({"add_union w={a,u} occupied", [](R& r, R&) { r.add_unIon(L"w", {L"a", L"u"}, is_vacuum_occupied); }, [](M& m, M&) { m_union(m, L"w", {L"a", L"u"}, false); m_role(m, 0, m.find(L"w")->type); }});
    v.push_back({"add_union v={i,u}", [](R& r, R&) { r.add_unIon(L"v", {L"i", L"u"}); }, [](M& m, M&) { m_union(m, L"v", {L"i", L"u"}, false); }});
    v.push_back({"add_intersection y={p,w}", [](R& r, R&) { r.add_intersection(L"y", {L"p", L"w"}); }, [](M& m, M&) { m_union(m, L"y", {L"p", L"w"}, true); }});
    v.push_back({"add_intersection x={q,v}", [](R& r, R&) { r.add_intersection(L"x", {L"q", L"v"}, is_hole); }, [](M& m, M&) { m_union(m, L"x", {L"q", L"v"}, true); m_role(m, 3, m.find(L"x")->type); }});
    for (auto l : {L"i", L"a", L"p", L"c"})
      v.push_back({"remove " + u8(l), [=](R& r, R&) { r.remove(std::wstring(l)); }, [=](M& m, M&) { if (!m.find(l)) throw Bad{}; m.s->erase(l); }});
    v.push_back({"replace i by size 9", [](R& r, R&) { r.replace(IndexSpace(L"i", Ty(1), QN(0), 9)); }, [](M& m, M&) { auto* c = m.find(1, 0); if (c && m.label(1, 0) != L"i") throw Bad{}; (*m.s)[L"i"] = {1, 0, 9, Field::Complex}; }});
    v.push_back({"replace i by type 2", [](R& r, R&) { r.replace(IndexSpace(L"i", Ty(2), QN(0), 9)); }, [](M& m, M&) { auto* c = m.find(2, 0); if (c && m.label(2, 0) != L"i") throw Bad{}; (*m.s)[L"i"] = {2, 0, 9, Field::Complex}; }});
    v.push_back({"clear", [](R& r, R&) { r.clear(); }, [](M& m, M&) { m = M{}; }});
    for (int k : {0, 1, 3}) v.push_back({"mask " + std::to_string(k), [=](R& r, R&) { r.physical_particle_attribute_mask(k); }, [=](M& m, M&) { m.mask = k; }});
    for (int k = 0; k < 5; ++k) {
      v.push_back({"role " + std::to_string(k) + " type 2", [=](R& r, R&) { r_role(r, k, Ty(2)); }, [=](M& m, M&) { m_role(m, k, 2); }});
      if (k % 2 == 0) v.push_back({"role " + std::to_string(k) + " for qn 1: type 1", [=](R& r, R&) { r_role(r, k, container::map<QN, Ty>{{QN(1), Ty(1)}}); },
                   [=](M& m, M&) { if (!m.find(1, 1)) throw Bad{}; m.role[k].qn = {{1, 1}}; }});
    }
    v.push_back({"role 0 per qn", [=](R& r, R&) { r_role(r, 0, container::map<QN, Ty>{{QN(0), Ty(2)}, {QN(1), Ty(1)}}); }, [=](M& m, M&) { if (!m.find(1, 1) || !m.find(2, 0)) throw Bad{}; m.role[0].qn = {{0, 2}, {1, 1}}; }});
    v.push_back({"= other", [](R& r, R& o) { r = o; }, [](M& m, M& o) { m = o; }});
    v.push_back({"= copy of other", [](R& r, R& o) { R c(o); r = std::move(c); }, [](M& m, M& o) { m = o; }});
    v.push_back({"= clone of other", [](R& r, R& o) { r = o.clone(); }, [](M& m, M& o) { m = o; m.s = std::make_shared<Spaces>(*o.s); }});
    return v;
  }();
  return v;
}
template <typename X, typename FR, typename FM>
void same(vf::Case& c, const std::string& what, FR&& fr, FM&& fm) {
  std::optional<X> a, b;
  try { a = fr(); } catch (vf::Fail&) { throw; } catch (std::exception&) {}
  try { b = fm(); } catch (Bad&) {}
  c.require(a.has_value() == b.has_value(), [&] { return what + (a ? " succeeds, should fail" : " fails, should succeed"); });
  if (a) c.require(*a == *b, what + " gives a wrong result");
}
const std::vector<std::wstring> labels{L"i", L"a", L"u", L"c", L"z", L"m", L"o", L"p", L"q", L"w", L"v", L"y", L"x"};
IndexSpace mk(const std::wstring& l, const Sp& s) { return IndexSpace(l, Ty(s.type), QN(s.qn), s.size, s.f); }
bool full(const IndexSpace& a, const IndexSpace& b) { return a.base_key() == b.base_key() && a.type() == b.type() && a.qns() == b.qns() && a.approximate_size() == b.approximate_size() && a.field() == b.field(); }
struct W { IndexSpace s; bool operator==(const W& o) const { return full(s, o.s); } };
void check(vf::Case& c, const R& r, const M& m, const std::string& who, bool basis = true) {
  std::string key = std::to_string(m.mask);
  for (auto& [l, s] : *m.s) key += "|" + u8(l) + std::to_string(s.type) + "," + std::to_string(s.qn) + "," + std::to_string(s.size);
  for (auto& x : m.role) { key += "/" + std::to_string(x.def); for (auto& [q, t] : x.qn) key += ":" + std::to_string(q) + "=" + std::to_string(t); }
  c.state(key);
  c.require(r.spaces()->size() == m.s->size(), who + "number of spaces");
  c.require(r.physical_particle_attribute_mask() == m.mask, who + "mask");
  std::vector<std::pair<std::wstring, Sp>> reg;
  for (auto& l : labels) {
    auto* p = m.find(l);
    c.require(r.contains(l) == !!p && r.contains(l + L"_7") == !!p && !!r.retrieve_ptr(l) == !!p && r.contains(u8(l)) == !!p, [&] { return who + "contains " + u8(l); });
    same<W>(c, who + "retrieve " + u8(l), [&] { return W{r.retrieve(l)}; }, [&]() -> W { if (!p) throw Bad{}; return {mk(l, *p)}; });
    if (p) {
      reg.push_back({l, *p});
      same<W>(c, who + "retrieve index label", [&] { return W{r.retrieve(l + L"_12")}; }, [&] { return W{mk(l, *p)}; });
      c.require(r.is_base(l) == (M::single(p->type) && !(p->qn & ~m.mask)), [&] { return who + "is_base " + u8(l); });
    }
  }
  for (int t : {1, 2, 3, 4, 6, 7, 8})
    for (int q : {0, 1, 2}) {
      auto* p = m.find(t, q);
      c.require(r.contains(Ty(t), QN(q)) == !!p && r.contains(IndexSpace::Attr(Ty(t), QN(q))) == !!p && !!r.retrieve_ptr(Ty(t), QN(q)) == !!p, [&] { return who + "contains type,qn"; });
      same<W>(c, who + "retrieve type,qn", [&] { return W{r.retrieve(Ty(t), QN(q))}; }, [&]() -> W { if (!p) throw Bad{}; return {mk(m.label(t, q), *p)}; });
    }
  if (basis) {
  // basis
  std::set<int> bt;
  std::multiset<std::pair<int, std::wstring>> bs;
  for (auto& [l, s] : *m.s) { if (M::single(s.type)) bt.insert(s.type); if (M::single(s.type) && !(s.qn & ~m.mask)) bs.insert({s.type, l}); }
  std::vector<int> got, want(bt.begin(), bt.end());
  for (auto& t : r.base_space_types()) got.push_back(t.to_int32());
  c.require(got == want, who + "base_space_types()");
  std::multiset<std::pair<int, std::wstring>> gb;
  int last = 0;
  bool sorted = true;
  for (auto& s : r.base_spaces()) { gb.insert({s.type().to_int32(), std::wstring(s.base_key())}); sorted &= s.type().to_int32() >= last; last = s.type().to_int32(); }
  c.require(gb == bs, who + "base_spaces()");
  c.require(sorted, who + "base_spaces() not sorted");
  for (auto& s : r.base_spaces()) c.require(full(s, mk(std::wstring(s.base_key()), *m.find(std::wstring(s.base_key())))), who + "base_spaces() has an old space");
  }
  // roles
  for (int k = 0; k < 5; ++k) {
    same<int>(c, who + "role " + std::to_string(k), [&] { return r_get(r, k).to_int32(); }, [&] { if (!m.role[k].def) throw Bad{}; return m.role[k].def; });
    for (int q : {0, 1}) same<W>(c, who + "role " + std::to_string(k) + " for qn " + std::to_string(q), [&] { return W{r_get(r, k, QN(q))}; }, [&] { return W{m_get(m, k, q)}; });
  }
  for (int q : {0, 1})
    same<W>(c, who + "vacuum_unoccupied_space", [&] { return W{r.vacuum_unoccupied_space(QN(q))}; }, [&]() -> W {
      int t = m_get(m, 2, q).type().to_int32() & ~m_get(m, 0, q).type().to_int32();
      auto* p = m.find(t, q);
      if (!p) throw Bad{};
      return {mk(m.label(t, q), *p)};
    });
  for (auto& [l, s] : reg) {
    auto sp = mk(l, s);
    same<bool>(c, who + "is_pure_occupied " + u8(l), [&] { return r.is_pure_occupied(sp); }, [&] { int o = m_get(m, 0, s.qn).type().to_int32(); return (s.type & o) == s.type; });
    same<bool>(c, who + "is_pure_unoccupied " + u8(l), [&] { return r.is_pure_unoccupied(l); }, [&] { return !(s.type & m_get(m, 0, s.qn & m.mask).type().to_int32()); });
    same<bool>(c, who + "contains_occupied " + u8(l), [&] { return r.contains_occupied(l); }, [&] { return (s.type & m_get(m, 0, s.qn).type().to_int32()) != 0; });
    same<bool>(c, who + "contains_unoccupied " + u8(l), [&] { return r.contains_unoccupied(sp); }, [&] {
      int t = m_get(m, 2, s.qn).type().to_int32() & ~m_get(m, 0, s.qn).type().to_int32();
      if (!m.find(t, s.qn)) throw Bad{};
      return (s.type & t) != 0;
    });
    for (auto& [l2, s2] : reg) {
      auto sp2 = mk(l2, s2);
      int t = s.type & s2.type, q = s.qn & s2.qn;
      c.require(r.valid_intersection(l, l2) == (t && m.find(t, q)), [&] { return who + "valid_intersection " + u8(l) + "," + u8(l2); });
      same<W>(c, who + "intersection " + u8(l) + "," + u8(l2), [&] { return W{r.intersection(sp, sp2)}; }, [&]() -> W {
        if (l == l2) return {sp};
        if (s.qn != s2.qn && !q) return {IndexSpace::null};
        auto* p = m.find(t, q);
        if (!p && t) throw Bad{};
        if (!p) return {IndexSpace::null};
        return {mk(m.label(t, q), *p)};
      });
      same<W>(c, who + "union " + u8(l) + "," + u8(l2), [&] { return W{r.unIon(l, l2)}; }, [&]() -> W {
        if (l == l2) return {sp};
        auto* p = m.find(s.type | s2.type, s.qn);
        if (s.qn != s2.qn || !p) throw Bad{};
        return {mk(m.label(s.type | s2.type, s.qn), *p)};
      });
      if (s.qn == s2.qn && (s2.type & ~s.type)) c.require(r.valid_union(l, l2) == !!m.find(s.type | s2.type, s.qn), [&] { return who + "valid_union " + u8(l) + "," + u8(l2); });
    }
  }
}
void run(vf::Case& c, int start, const std::vector<std::pair<int, int>>& seq, bool watch, bool want_stale = false) {
  bool stale[2] = {false, false};
  R r[2];
  M m[2];
  auto both = [&](const char* name, int k) {
    for (auto& o : ops()) if (o.name == name) { o.r(r[k], r[1 - k]); o.m(m[k], m[1 - k]); return; }
    throw std::runtime_error(name);
  };
  if (start >= 1) { both("add i", 0); both("add a", 0); both("add_union p={i,a} complete", 0); }
  if (start >= 2) { both("add u", 0); both("add_union w={a,u} occupied", 0); both("add c", 0); }
  if (start == 3) both("= copy of other", 1);
  if (start == 4) both("= clone of other", 1);
  if (start == 5) { both("add i", 1); both("add u", 1); both("add_union v={i,u}", 1); both("mask 1", 1); both("add c", 1); }
  if (watch) { check(c, r[0], m[0], "start: "); check(c, r[1], m[1], "start: "); }
  std::string d = "start " + std::to_string(start);
  for (auto& [k, o] : seq) d += "; R" + std::to_string(k) + " " + ops()[o].name;
  c.describe(d + (watch ? " (queried before)" : ""));
  std::size_t at = 0;
  for (auto& [k, o] : seq) {
    auto& op = ops()[o];
    bool okm = true, okr = true;
    M save[2] = {m[0], m[1]};
    save[0].s = std::make_shared<Spaces>(*m[0].s);
    save[1].s = m[0].s == m[1].s ? save[0].s : std::make_shared<Spaces>(*m[1].s);
    try { op.m(m[k], m[1 - k]); } catch (Bad&) { okm = false; m[0] = save[0]; m[1] = save[1]; }
    std::string why;
    try { op.r(r[k], r[1 - k]); } catch (std::exception& e) { okr = false; why = e.what(); }
    c.step();
    c.require(okm == okr, [&] { return op.name + (okr ? " succeeds, should fail" : " fails: " + why); });
    bool shared = m[0].s == m[1].s;
    // an operation on the set that is shared with the other registry
    if (okm && op.name.substr(0, 4) != "role") stale[k] = false;
    if (okm && shared && op.name[0] != '=' && op.name.substr(0, 4) != "mask" && op.name.substr(0, 4) != "role") stale[1 - k] = true;
    if (++at < seq.size()) {  // checked as the shorter sequence
      if (watch) for (auto& x : r) { (void)x.base_spaces(); (void)x.base_space_types(); }
      continue;
    }
    for (int j = 0; j < 2; ++j) check(c, r[j], m[j], op.name + (okm ? "" : " (failed)") + ": R" + std::to_string(j) + (shared ? " (shared)" : "") + ": ", want_stale || !stale[j]);
    c.require((r[0] == r[1]) == [&] {
      if (m[0].s->size() != m[1].s->size()) return false;
      for (auto& [l, s] : *m[0].s) { auto* p = m[1].find(l); if (!p || p->type != s.type || p->qn != s.qn) return false; }
      return true;
    }(), "equality of registries");
  }
  c.outcome(c.desc);
}
}  // namespace
SCENARIO("one", c) {
  int start = c.choose(3);
  std::vector<std::pair<int, int>> s;
  int depth = 1 + c.choose(vf::thorough() ? 4 : 3);
  for (int d = 0; d < depth; ++d) { s.push_back({0, c.choose(int(ops().size()) - 3)}); if (d == 1) c.mine(); }
  c.mine();
  run(c, start, s, true);
}
SCENARIO("two", c) {
  int start = c.choose(6);
  std::vector<std::pair<int, int>> s;
  int depth = 1 + c.choose(vf::thorough() ? 3 : 2);
  for (int d = 0; d < depth; ++d) { int k = c.choose(2); s.push_back({k, c.choose(int(ops().size()))}); if (d == 0) c.mine(); }
  run(c, start, s, c.flip());
}
// the memoized base spaces of a registry whose set of spaces is changed through a copy
SCENARIO("shared.memo", c) {
  int k = c.choose(2);
  int o = c.choose(int(ops().size()) - 3);
  c.mine();
  run(c, 3, {{k, o}}, true, true);
}
int main(int c, char** v) { return vf::main_impl(c, v, "C09"); }
