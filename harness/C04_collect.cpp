// LINK: symb
// A term and every elementary re-presentation of it are recognized as one:
// their difference simplifies to zero, sums collect coefficients, and the
// canonical hash of the network agrees.
#include <SeQuant/core/expressions/expr_algorithms.hpp>
#include <SeQuant/core/expressions/expr_operators.hpp>
#include <SeQuant/core/tensor_canonicalizer.hpp>
#include <SeQuant/core/tensor_network.hpp>

#include "lib/gen.hpp"
using namespace orc;
namespace {
using CM = CanonicalizationMethod;
constexpr auto N = Symmetry::Nonsymm, A = Symmetry::Antisymm, S = Symmetry::Symm;
constexpr auto bN = BraKetSymmetry::Nonsymm, bS = BraKetSymmetry::Symm, bC = BraKetSymmetry::Conjugate;
constexpr auto cS = ColumnSymmetry::Symm, cN = ColumnSymmetry::Nonsymm;
Model& model() { static Model m; return m; }
bool is_nil(const ExprPtr& d) { return d->is_zero() || (d->is<Sum>() && d->empty()); }
std::size_t slot_hash(const Net& n) {
  auto f = n.factors();
  TensorNetwork tn(f);
  auto m = tn.canonicalize_slots(TensorCanonicalizer::cardinal_tensor_labels());
  return m.hash_value();
}
void run(vf::Case& c, std::vector<TSpec> t, const NetSpaces& sp, bool slots = true) {
  use_context(Vacuum::Physical);
  Net n = gen_net(c, t, sp);
  c.mine();
  auto ext = n.externals();
  c.describe(show(n.expr()));
  c.state(show(n.expr()));
  bool vanishes = true;
  for (auto& l : value(model(), n.expr(), ext, 48)) vanishes &= l.t.empty();
  // a term that is identically zero may be rewritten to either sign
  if (vanishes) c.count("vanishing");
  std::size_t h = slots ? slot_hash(n) : 0;
  for (auto& [w, m] : presentations(n)) {
    auto& what = w; auto& mm = m;
    if (!vanishes) {
      auto d = n.expr() - m.expr();
      simplify(d);
      c.step();
      c.require(is_nil(d), [&] { return "difference to the presentation " + show(mm.expr()) + " (" + what + ") simplifies to " + show(d); });
      d = n.expr() + ex<Constant>(2) * m.expr();
      simplify(d);
      c.step();
      c.require(!is_nil(d) && !d->is<Sum>(), [&] { return "sum with twice the presentation " + show(mm.expr()) + " (" + what + ") simplifies to " + show(d); });
      if (d->is<Product>()) {
        auto s = d->as<Product>().scalar();
        c.require(s == Product::scalar_type(3) || s == Product::scalar_type(-3), [&] { return "coefficients were not added: " + show(d); });
      }
      c.outcome(show(d));
    }
    if (slots) { c.step(); c.require(slot_hash(m) == h, [&] { return "canonical hash of the presentation " + show(mm.expr()) + " (" + what + ") differs"; }); }
  }
}
}  // namespace
SCENARIO("f.f", c) {
  auto s1 = c.pick(std::vector{bN, bS, bC}); auto l2 = c.pick(std::vector<std::wstring>{L"f", L"g"});
  run(c, {{L"f", 1, 1, 0, N, s1}, {l2, 1, 1, 0, N, l2 == L"f" ? s1 : bN}}, {});
}
SCENARIO("f.f.f", c) {
  auto l3 = c.pick(std::vector<std::wstring>{L"f", L"h"});
  auto b = c.pick(std::vector{bN, bS});
  run(c, {{L"f", 1, 1, 0, N, b}, {L"f", 1, 1, 0, N, b}, {l3, 1, 1, 0, N, b}}, {.max_ext = vf::thorough() ? 6 : 2});
}
SCENARIO("f.f.f.f", c) {
  run(c, {{L"f", 1, 1}, {L"f", 1, 1}, {L"f", 1, 1}, {L"f", 1, 1}}, {.spaces = vf::thorough() ? std::vector<wchar_t>{L'i', L'a'} : std::vector<wchar_t>{L'i'}, .max_ext = 2});
}
SCENARIO("g.f", c) {
  auto b = c.pick(std::vector{bN, bS, bC}); auto s = c.pick(std::vector{N, A, S}); auto cs = c.pick(std::vector{cS, cN});
  if (s != N && cs == cN) throw vf::Skip{};
  run(c, {{L"g", 2, 2, 0, s, b, cs}, {L"f", 1, 1, 0, N, bN}}, {.max_ext = vf::thorough() ? 6 : 4});
}
SCENARIO("g.t", c) {
  auto b = c.pick(std::vector{bN, bS}); auto s = c.pick(std::vector{N, A}); auto s2 = c.pick(std::vector{N, A, S});
  auto l = c.pick(std::vector<std::wstring>{L"g", L"t"});
  run(c, {{L"g", 2, 2, 0, s, b}, {l, 2, 2, 0, l == L"g" ? s : s2, l == L"g" ? b : bN}}, {.max_ext = vf::thorough() ? 6 : 2, .traces = vf::thorough()});
}
SCENARIO("g.t.t", c) {
  auto s = c.pick(std::vector{N, A});
  run(c, {{L"g", 2, 2, 0, s}, {L"t", 1, 1}, {L"t", 1, 1}}, {.max_ext = vf::thorough() ? 4 : 2, .traces = false});
}
SCENARIO("t3.g", c) {
  auto s = c.pick(std::vector{N, A, S}); auto cs = c.pick(std::vector{cS, cN});
  if (s != N && cs == cN) throw vf::Skip{};
  run(c, {{L"t", 3, 3, 0, s, bN, cs}, {L"g", 2, 2, 0, A}}, {.spaces = {L'i'}, .max_ext = 6, .traces = false, .min_int = 2});
}
SCENARIO("uneven", c) {
  auto s = c.pick(std::vector{N, A, S}); auto cs = c.pick(std::vector{cS, cN});
  if (s != N && cs == cN) throw vf::Skip{};
  int k = c.choose(3);
  if (k == 0) run(c, {{L"r", 2, 1, 0, s, bN, cs}, {L"r", 1, 2, 0, s, bN, cs}}, {.max_ext = 4});
  else if (k == 1) run(c, {{L"r", 0, 2, 0, s, bN, cs}, {L"g", 2, 2, 0, s}}, {.max_ext = 4});
  else run(c, {{L"r", 2, 1, 0, s, bN, cs}, {L"l", 0, 1}, {L"l", 0, 1}}, {.max_ext = 3});
}
SCENARIO("aux", c) {
  int k = c.choose(3);
  NetSpaces sp{.aux_spaces = {L'x', L'i'}, .max_ext = 4, .traces = false};
  auto b = k < 2 ? c.pick(std::vector{bN, bS, bC}) : bN;
  if (k == 0) run(c, {{L"B", 1, 1, 1, N, b}, {L"B", 1, 1, 1, N, b}}, sp);
  else if (k == 1) run(c, {{L"B", 1, 1, 1, N, b}, {L"B", 1, 1, 1, N, b}, {L"f", 1, 1}}, {.max_ext = 2, .traces = false});
  else run(c, {{L"X", 1, 0, 2}, {L"Y", 0, 1, 2}}, sp);
}
SCENARIO("proto", c) {
  int k = c.choose(3);
  auto s = c.pick(std::vector{N, A});
  NetSpaces sp{.protos = true, .max_ext = 4, .traces = false};
  if (k == 0) run(c, {{L"f", 1, 1}, {L"t", 1, 1}}, {.protos = true, .max_ext = 6}, false);
  else if (k == 1) run(c, {{L"t", 2, 2, 0, s}, {L"f", 1, 1}}, sp, false);
  else run(c, {{L"t", 1, 1}, {L"t", 1, 1}, {L"f", 1, 1}}, {.protos = true, .max_ext = 2, .traces = false}, false);
}
SCENARIO("nop", c) {
  int k = c.choose(3);
  auto s = c.pick(std::vector{N, A});
  if (s == A && k != 1) throw vf::Skip{};
  TSpec a11{L"", 1, 1}; a11.nop = true;
  TSpec a22{L"", 2, 2}; a22.nop = true;
  if (k == 0) run(c, {{L"f", 1, 1}, a11}, {.max_ext = 4}, false);
  else if (k == 1) run(c, {{L"g", 2, 2, 0, s}, a22}, {.max_ext = 2, .traces = false}, false);
  else run(c, {{L"f", 1, 1}, {L"t", 1, 1}, a11}, {.max_ext = 2, .traces = false}, false);
}
int main(int c, char** v) { return vf::main_impl(c, v, "C04"); }
