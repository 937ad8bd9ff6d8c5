// Wick's theorem by brute force over concrete orbitals: sums over all (partial)
// matchings of a sequence of normal-ordered strings, with constraints on which
// strings are contracted with each other.
#pragma once
#include "lib/setup.hpp"
namespace orc {
struct WickRef {
  std::set<int> occ;                 // empty: physical vacuum
  bool full = true;
  std::vector<std::pair<int, int>> need, avoid;
  struct Item { int op, nop; };
  bool ann(int x) const { bool a = x & 1; return occ.count((x & 4095) >> 1) ? !a : a; }
  Lin operator()(const std::vector<Str>& v) const {
    std::vector<Item> s;
    for (std::size_t n = 0; n < v.size(); ++n) for (int x : v[n]) s.push_back({x, int(n)});
    Lin out;
    std::vector<std::pair<int, int>> con;
    std::vector<Item> rest;
    rec(s, F{1, 0}, con, rest, out);
    return out;
  }
  void rec(std::vector<Item> s, F c, std::vector<std::pair<int, int>>& con, std::vector<Item>& rest, Lin& out) const {
    if (s.empty()) {
      for (auto& [a, b] : need) {
        bool ok = false;
        for (auto& [x, y] : con) ok |= (x == a && y == b) || (x == b && y == a);
        if (!ok) return;
      }
      // normal order the rest with respect to the vacuum
      std::vector<Item> r = rest;
      for (std::size_t a = 0; a < r.size(); ++a)
        for (std::size_t b = 0; b + 1 < r.size(); ++b)
          if (ann(r[b].op) && !ann(r[b + 1].op)) { if (!(r[b].op & 4096) && !(r[b + 1].op & 4096)) c = -c; std::swap(r[b], r[b + 1]); }
      Str str;
      for (auto& x : r) str.push_back(x.op);
      normal_form(str, c, out);
      return;
    }
    Item l = s.front();
    s.erase(s.begin());
    if (!full) { rest.push_back(l); rec(s, c, con, rest, out); rest.pop_back(); }
    if (!ann(l.op)) return;
    for (std::size_t k = 0; k < s.size(); ++k) {
      if (s[k].nop == l.nop || (s[k].op ^ 1) != l.op || ann(s[k].op)) continue;
      bool bad = false;
      for (auto& [a, b] : avoid) bad |= (a == l.nop && b == s[k].nop) || (b == l.nop && a == s[k].nop);
      if (bad) continue;
      auto t = s; t.erase(t.begin() + k);
      con.push_back({l.nop, s[k].nop});
      // moving the partner next to l: past k operators; both are right of `rest`
      rec(t, (k % 2 && !(l.op & 4096)) ? -c : c, con, rest, out);
      con.pop_back();
    }
  }
};
}  // namespace orc
