// Enumerates tensor networks: every way to connect/label the slots of a list
// of tensors, up to the names of the indices.
#pragma once
#include "lib/setup.hpp"
namespace orc {
struct TSpec {
  std::wstring label;
  int nb, nk, na = 0;
  Symmetry s = Symmetry::Nonsymm;
  BraKetSymmetry b = BraKetSymmetry::Nonsymm;
  ColumnSymmetry c = ColumnSymmetry::Symm;
  bool nop = false;   // fermionic normal operator: bra = annihilators, ket = creators
};
struct Net {
  std::vector<TSpec> t;
  struct Ix { wchar_t space; int ord; std::vector<int> protos; };
  std::vector<Ix> ix;
  std::vector<std::vector<int>> slots;  // per tensor: bra, ket, aux
  std::vector<int> order;               // tensors in the product
  std::vector<int> deg;
  int sign = 1;
  Vacuum vac = Vacuum::Physical;
  Index index(int k) const {
    auto& x = ix[k];
    std::wstring l = std::wstring(1, x.space) + L"_" + std::to_wstring(x.ord);
    if (x.protos.empty()) return Index(l);
    std::vector<Index> p;
    for (int q : x.protos) p.push_back(index(q));
    return Index(l, p);
  }
  ExprPtr tensor(int k) const {
    std::vector<Index> b, kt, a;
    auto& s = t[k];
    for (int j = 0; j < s.nb; ++j) b.push_back(index(slots[k][j]));
    for (int j = 0; j < s.nk; ++j) kt.push_back(index(slots[k][s.nb + j]));
    for (int j = 0; j < s.na; ++j) a.push_back(index(slots[k][s.nb + s.nk + j]));
    if (s.nop) return ex<FNOperator>(cre(kt), ann(b), vac);
    return ex<Tensor>(s.label, bra(b), ket(kt), aux(a), s.s, s.b, s.c);
  }
  std::vector<ExprPtr> factors() const {
    std::vector<ExprPtr> v;
    for (int k : order) v.push_back(tensor(k));
    return v;
  }
  ExprPtr expr() const { return ex<Product>(sign, factors(), Product::Flatten::No); }
  std::vector<int> ext_ids() const {
    std::vector<int> r;
    for (std::size_t k = 0; k < ix.size(); ++k) if (deg[k] == 1) r.push_back(int(k));
    // protoindices of externals are external
    for (std::size_t k = 0; k < ix.size(); ++k)
      if (deg[k] == 1) for (int p : ix[k].protos) if (std::find(r.begin(), r.end(), p) == r.end()) r.push_back(p);
    for (std::size_t k = 0; k < ix.size(); ++k)
      for (int p : ix[k].protos) if (deg[p] == 0 && std::find(r.begin(), r.end(), p) == r.end()) r.push_back(p);
    return r;
  }
  std::vector<Index> externals() const {
    std::vector<Index> r;
    for (int k : ext_ids()) r.push_back(index(k));
    return r;
  }
};
/// how the slots may be labelled
struct NetSpaces {
  std::vector<wchar_t> spaces{L'i', L'a'};
  std::vector<wchar_t> aux_spaces{L'x'};
  bool protos = false;       // a may depend on (up to 2) existing i indices
  int max_ext = 8;
  bool traces = true;
  int min_int = 0;
};
/// strict: an index connects one bra to one ket slot (any two slots if one of the tensors is bra-ket symmetric)
inline Net gen_net(vf::Case& c, std::vector<TSpec> t, const NetSpaces& sp = {}) {
  Net n;
  n.t = t;
  std::map<wchar_t, int> cnt;
  std::vector<int> owner, type;  // of the first slot of each index
  for (std::size_t k = 0; k < t.size(); ++k) {
    n.order.push_back(int(k));
    n.slots.emplace_back();
    int N = t[k].nb + t[k].nk + t[k].na;
    for (int j = 0; j < N; ++j) {
      int ty = j < t[k].nb ? 0 : j < t[k].nb + t[k].nk ? 1 : 2;
      std::vector<int> can;
      for (std::size_t q = 0; q < n.ix.size(); ++q) {
        if (n.deg[q] != 1 && !(ty == 2 && type[q] == 2 && n.deg[q])) continue;
        bool auxq = type[q] == 2;
        if (auxq != (ty == 2)) continue;
        if (owner[q] == int(k) && (!sp.traces || ty == 2)) continue;
        bool opp = type[q] != ty;
        bool bks = t[k].b == BraKetSymmetry::Symm || t[owner[q]].b == BraKetSymmetry::Symm;
        if (ty != 2 && !opp && !(bks && owner[q] != int(k))) continue;
        bool dup = false;
        for (int z = (ty == 0 ? 0 : ty == 1 ? t[k].nb : t[k].nb + t[k].nk); z < j; ++z) dup |= n.slots[k][z] == int(q);
        if (dup) continue;
        can.push_back(int(q));
      }
      auto& S = ty == 2 ? sp.aux_spaces : sp.spaces;
      int nn = int(S.size());
      // with protoindices: further alternatives for 'a'
      std::vector<std::vector<int>> pr;
      if (sp.protos && ty != 2) {
        std::vector<int> is;
        for (std::size_t q = 0; q < n.ix.size(); ++q) if (n.ix[q].space == L'i' && n.ix[q].protos.empty()) is.push_back(int(q));
        for (int q : is) pr.push_back({q});
        for (std::size_t a = 0; a + 1 < is.size(); ++a) pr.push_back({is[a], is[a + 1]});
      }
      int ch = c.choose(int(can.size()) + nn + int(pr.size()));
      int id;
      if (ch < int(can.size())) { id = can[ch]; n.deg[id]++; }
      else {
        ch -= int(can.size());
        wchar_t s = ch < nn ? S[ch] : L'a';
        id = int(n.ix.size());
        n.ix.push_back({s, ++cnt[s], ch < nn ? std::vector<int>{} : pr[ch - nn]});
        n.deg.push_back(1);
        owner.push_back(int(k));
        type.push_back(ty);
      }
      n.slots[k].push_back(id);
    }
  }
  int e = 0, in = 0;
  for (int d : n.deg) (d == 1 ? e : in)++;
  if (e > sp.max_ext || in < sp.min_int) throw vf::Skip{};
  return n;
}
inline bool is_ext(const Net& n, int k) { auto e = n.ext_ids(); return std::find(e.begin(), e.end(), k) != e.end(); }
/// all presentations one elementary step away
inline std::vector<std::pair<std::string, Net>> presentations(const Net& n) {
  std::vector<std::pair<std::string, Net>> r;
  for (std::size_t k = 0; k + 1 < n.order.size(); ++k)
    if (!(n.t[n.order[k]].nop && n.t[n.order[k + 1]].nop)) {
      Net m = n; std::swap(m.order[k], m.order[k + 1]);
      r.push_back({"factors " + std::to_string(k) + "," + std::to_string(k + 1) + " swapped", m});
    }
  for (std::size_t a = 0; a < n.ix.size(); ++a) {
    if (is_ext(n, int(a)) || n.deg[a] == 0) continue;
    for (std::size_t b = a + 1; b < n.ix.size(); ++b)
      if (!is_ext(n, int(b)) && n.deg[b] && n.ix[a].space == n.ix[b].space) {
        Net m = n; std::swap(m.ix[a].ord, m.ix[b].ord);
        r.push_back({"dummies renamed into each other", m});
      }
    Net m = n; m.ix[a].ord += 20;
    r.push_back({"dummy renamed", m});
    Net m2 = n; m2.ix[a].ord += 50;
    r.push_back({"dummy renamed to a larger ordinal", m2});
  }
  for (std::size_t k = 0; k < n.t.size(); ++k) {
    auto& t = n.t[k];
    bool anti = t.s == Symmetry::Antisymm || t.nop, sym = t.s == Symmetry::Symm;
    if (anti || sym) {
      for (int off : {0, t.nb})
        for (int j = 0; j + 1 < (off ? t.nk : t.nb); ++j) {
          if (off == 0 && t.nb == 0) continue;
          Net m = n; std::swap(m.slots[k][off + j], m.slots[k][off + j + 1]);
          if (anti) m.sign = -m.sign;
          r.push_back({"symmetric slots swapped", m});
        }
    } else if (t.c == ColumnSymmetry::Symm && t.nb == t.nk)
      for (int j = 0; j + 1 < t.nb; ++j) {
        Net m = n;
        std::swap(m.slots[k][j], m.slots[k][j + 1]);
        std::swap(m.slots[k][t.nb + j], m.slots[k][t.nb + j + 1]);
        r.push_back({"columns swapped", m});
      }
    if (t.b == BraKetSymmetry::Symm && t.nb == t.nk) {
      Net m = n;
      for (int j = 0; j < t.nb; ++j) std::swap(m.slots[k][j], m.slots[k][t.nb + j]);
      r.push_back({"bra and ket swapped", m});
    }
  }
  return r;
}
}  // namespace orc
