// LINK: eval
// Asymptotic costs: exact arithmetic of polynomials in the sizes of the index
// spaces, and their asymptotic order.
#include <SeQuant/core/asy_cost.hpp>
#include <cmath>
#include <sstream>
#include "lib/setup.hpp"
using namespace orc;
namespace {
using Mono = std::vector<int>;   // exponents of i, a, x
const std::vector<IndexSpace>& spaces() {
  static std::vector<IndexSpace> s = [] {
    auto isr = basic_registry();
    std::vector<IndexSpace> v{isr->retrieve(L"i"), isr->retrieve(L"a"), isr->retrieve(L"x")};
    std::sort(v.begin(), v.end());
    return v;
  }();
  return s;
}
/// by total degree, then by the powers of the greatest space, ...
struct ByCost {
  bool operator()(const Mono& l, const Mono& r) const {
    int a = 0, b = 0;
    for (int x : l) a += x;
    for (int x : r) b += x;
    if (a != b) return a < b;
    for (std::size_t k = l.size(); k-- > 0;) if (l[k] != r[k]) return l[k] < r[k];
    return false;
  }
};
using Poly = std::map<Mono, rational, ByCost>;   // no zero coefficients
Poly plus(Poly a, const Poly& b, rational f = 1) {
  for (auto& [m, c] : b) { auto& x = a[m]; x += c * f; if (x == 0) a.erase(m); }
  return a;
}
AsyCost cost(const Mono& m, rational c = 1) {
  AsyCost::ExponentMap e;
  for (std::size_t k = 0; k < m.size(); ++k) e.emplace(spaces()[k], m[k]);
  return AsyCost(e, c);
}
AsyCost build(const Poly& p) { AsyCost r; for (auto& [m, c] : p) r += cost(m, c); return r; }
std::string str(const rational& r) { std::ostringstream o; o << numerator(r); if (denominator(r) != 1) o << '/' << denominator(r); return o.str(); }
std::string name(std::size_t k) { return toUtf8(spaces()[k].base_key()); }
std::string text(const Poly& p) {
  if (p.empty()) return "0";
  std::string r;
  for (auto it = p.rbegin(); it != p.rend(); ++it) {
    auto& [m, c] = *it;
    if (!r.empty()) r += " + ";
    if (c < 0) r += "- ";
    rational a = abs(c);
    if (a != 1) r += str(a) + "*";
    for (std::size_t k = 0; k < m.size(); ++k) if (m[k]) r += name(k) + (m[k] > 1 ? "^" + std::to_string(m[k]) : "");
  }
  return r;
}
std::string latex(const Poly& p) {
  if (p.empty()) return "0";
  std::string r;
  for (auto it = p.rbegin(); it != p.rend(); ++it) {
    auto& [m, c] = *it;
    if (!r.empty()) r += " + ";
    if (c < 0) r += "- ";
    rational a = abs(c);
    if (denominator(a) != 1) { std::ostringstream o; o << "\\frac{" << numerator(a) << "}{" << denominator(a) << "}"; r += o.str(); }
    else if (a != 1) r += str(a);
    for (std::size_t k = 0; k < m.size(); ++k) if (m[k]) r += name(k) + (m[k] > 1 ? "^{" + std::to_string(m[k]) + "}" : "");
  }
  return r;
}
/// sizes for which all values are small dyadic numbers if the coefficients are
double ops(const Poly& p, const std::vector<std::size_t>& n) {
  double s = 0;
  for (auto& [m, c] : p) { double t = double(numerator(c)) / double(denominator(c)); for (std::size_t k = 0; k < m.size(); ++k) for (int j = 0; j < m[k]; ++j) t *= double(n[k]); s += t; }
  return s;
}
void check(vf::Case& c, const AsyCost& got, const Poly& want, const std::string& what) {
  c.step();
  auto t = text(want);
  c.require(got.text() == t, [&] { return what + ": " + got.text() + " instead of " + t; });
  auto l = latex(want);
  c.require(toUtf8(got.to_latex()) == l, [&] { return what + ": LaTeX " + toUtf8(got.to_latex()) + " instead of " + l; });
  c.require((got == AsyCost::zero()) == want.empty(), [&] { return what + ": " + t + (want.empty() ? " is not equal to zero" : " is equal to zero"); });
  auto again = build(want);
  c.require(got == again && again == got && !(got != again), [&] { return what + ": " + t + " is not equal to the same cost built anew"; });
  for (auto& n : std::vector<std::vector<std::size_t>>{{1, 1, 1}, {2, 3, 5}, {7, 1, 4}}) {
    AsyCost::ExtentMap e;
    for (std::size_t k = 0; k < 3; ++k) e.emplace(spaces()[k], n[k]);
    double a = got.ops(e), b = ops(want, n);
    c.require(std::abs(a - b) <= 1e-9 * (1 + std::abs(b)), [&] { return what + ": " + t + " amounts to " + std::to_string(a) + " instead of " + std::to_string(b); });
  }
}
struct Op { std::string name; std::function<void(AsyCost&)> f; std::function<void(Poly&)> g; };
const std::vector<Op>& operations() {
  static const std::vector<Op> v = [] {
    std::vector<Op> r;
    for (auto& [m, c] : std::vector<std::pair<Mono, rational>>{{{1, 0, 0}, 1}, {{0, 1, 0}, rational(1, 2)}, {{1, 1, 0}, 2}, {{2, 0, 1}, 1}, {{0, 3, 0}, rational(2, 3)}}) {
      Poly p{{m, c}};
      auto t = text(p);
      r.push_back({"+= " + t, [=](AsyCost& x) { x += cost(m, c); }, [=](Poly& x) { x = plus(x, p); }});
      r.push_back({"-= " + t, [=](AsyCost& x) { x -= cost(m, c); }, [=](Poly& x) { x = plus(x, p, -1); }});
    }
    Poly two{{{1, 0, 0}, 1}, {{1, 2, 0}, 3}};
    r.push_back({"+ (" + text(two) + ")", [=](AsyCost& x) { x = x + build(two); }, [=](Poly& x) { x = plus(x, two); }});
    r.push_back({"(" + text(two) + ") -", [=](AsyCost& x) { x = build(two) - x; }, [=](Poly& x) { x = plus(two, x, -1); }});
    r.push_back({"+= itself", [](AsyCost& x) { x += x; }, [](Poly& x) { x = plus(x, Poly(x)); }});
    r.push_back({"-= itself", [](AsyCost& x) { x -= x; }, [](Poly& x) { x = {}; }});
    for (auto& s : std::vector<rational>{2, -1, rational(-3, 2), 0}) {
      r.push_back({"* " + str(s), [=](AsyCost& x) { x = x * s; }, [=](Poly& x) { x = plus({}, x, s); }});
      if (s != 0) r.push_back({"/ " + str(s), [=](AsyCost& x) { x = x / s; }, [=](Poly& x) { x = plus({}, x, 1 / s); }});
    }
    r.push_back({"3 *", [](AsyCost& x) { x = 3 * x; }, [](Poly& x) { x = plus({}, x, 3); }});
    return r;
  }();
  return v;
}
/// sign of l - r, the most expensive differing term decides
int order(const Poly& l, const Poly& r) {
  auto d = plus(l, r, -1);
  return d.empty() ? 0 : d.rbegin()->second < 0 ? -1 : 1;
}
void relations(vf::Case& c, const AsyCost& l, const AsyCost& r, int w, const std::string& what) {
  c.step();
  c.require((l < r) == (w < 0) && (r > l) == (w < 0), [&] { return what + ": < is wrong"; });
  c.require((l > r) == (w > 0) && (r < l) == (w > 0), [&] { return what + ": > is wrong"; });
  c.require((l == r) == (w == 0) && (l != r) == (w != 0), [&] { return what + ": == is wrong"; });
  c.require((l <= r) == (w <= 0) && (l >= r) == (w >= 0), [&] { return what + ": <= or >= is wrong"; });
}
}  // namespace
SCENARIO("histories", c) {
  auto& o = operations();
  AsyCost x;
  Poly p;
  std::string h = "0";
  for (int d = 0, n = vf::thorough() ? 5 : 4; d < n; ++d) {
    int k = c.choose(int(o.size()));
    if (d == 1) c.mine();
    h += " " + o[k].name + ";";
    c.describe(h);
    auto keep = x;
    auto kt = keep.text();
    o[k].f(x);
    o[k].g(p);
    c.require(keep.text() == kt, "the operation changed a copy made before");
    check(c, x, p, "after the last operation");
  }
  c.state(text(p));
  c.outcome(text(p));
}
SCENARIO("order", c) {
  // non-negative costs
  const std::vector<Mono> m{{1, 0, 0}, {0, 1, 0}, {1, 1, 0}, {2, 0, 0}, {0, 2, 1}};
  int nc = vf::thorough() ? 4 : 3;
  const std::vector<rational> co{0, 1, rational(1, 2), 3};
  Poly l, r;
  for (auto& x : m) { auto& k = co[c.choose(nc)]; if (k != 0) l[x] = k; }
  c.mine();
  for (auto& x : m) { auto& k = co[c.choose(nc)]; if (k != 0) r[x] = k; }
  c.describe(text(l) + " against " + text(r));
  c.state(text(l) + "|" + text(r));
  int w = order(l, r);
  relations(c, build(l), build(r), w, "comparison");
  c.outcome(std::to_string(w));
}
SCENARIO("max", c) {
  const std::vector<Mono> m{{1, 0, 0}, {0, 1, 0}, {9, 9, 9}};
  Poly l;
  for (auto& x : m) { int k = c.choose(3); if (k) l[x] = k == 1 ? rational(1, 2) : rational(1000); }
  c.mine();
  c.describe(text(l) + " against the infinite cost");
  c.state(text(l));
  relations(c, build(l), AsyCost::max(), -1, "comparison");
  relations(c, AsyCost::max(), AsyCost::max(), 0, "comparison with itself");
  c.require(std::isinf(AsyCost::max().ops()) && std::isinf((build(l) + AsyCost::max()).ops()), "the infinite cost is finite");
  c.require(!((build(l) + AsyCost::max()) < AsyCost::max()), "adding to the infinite cost makes it smaller");
  c.outcome("max");
}
int main(int c, char** v) { return vf::main_impl(c, v, "C19"); }
