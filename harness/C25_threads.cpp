// LINK: symbmc
// Everything that runs in threads, under all schedules (lib/sched.hpp).
#include <SeQuant/core/expr.hpp>
#include <SeQuant/core/io/shorthands.hpp>
#include <SeQuant/core/math.hpp>
#include <SeQuant/core/runtime.hpp>
#include <SeQuant/core/tensor_canonicalizer.hpp>
#include <SeQuant/core/utility/memoize.hpp>
#include <SeQuant/core/utility/singleton.hpp>
#include <SeQuant/core/wick.hpp>

#include <condition_variable>
#include <thread>

#include "lib/sched.hpp"
#include "lib/oracle.hpp"
#include "lib/setup.hpp"
using namespace sequant;
namespace {
int B() { return vf::thorough() ? 3 : 2; }
template <typename F> sched::Report explore(vf::Case& c, int bound, F&& f) {
  auto r = sched::run(c, bound, f);
  c.count("points", r.points);
  c.count("schedules with preemptions", r.preemptions > 0);
  c.require(r.race.empty(), [&] { return r.race; });
  return r;
}
template <typename... F> void together(F&&... f) { std::vector<std::thread> t; (t.emplace_back(f), ...); for (auto& x : t) x.join(); }
struct Boom { int k; };

// an item of work is done exactly once
SCENARIO("for_each", c) {
  int nt = 1 + c.choose(3), n = c.choose(nt > 2 ? 3 : 4), w = c.choose(3);
  int bad = c.choose(n + 1) - 1;      // the item that throws
  c.describe(std::to_string(nt) + " threads, " + std::to_string(n) + " items, kind " + std::to_string(w) + ", item " + std::to_string(bad) + " throws");
  c.mine();
  std::vector<int> v;
  for (int i = 0; i < n; ++i) v.push_back(1 << i);
  std::vector<int> done(n);
  long sum = -1;
  int thrown = -1;
  if (w == 2 && (n != 0)) return;
  set_num_threads(nt);
  explore(c, nt > 2 ? B() - 1 : B(), [&] {
    try {
      if (w == 0) for_each(v, [&](int x) { int k = 31 - __builtin_clz(x); if (k == bad) throw Boom{k}; ++done[k]; });
      if (w == 1) sum = transform_reduce(v, 100l, [](long a, long b) { return a + b; }, [&](int x) { int k = 31 - __builtin_clz(x); if (k == bad) throw Boom{k}; ++done[k]; return long(x); });
      if (w == 2) { done.assign(nt, 0); parallel_do([&](int id) { ++done.at(id); }); }
    } catch (Boom& b) { thrown = b.k; }
  });
  set_num_threads(1);
  if (bad >= 0) {
    c.require(thrown == bad, "the exception is lost");
    for (int k = 0; k < n; ++k) c.require(done[k] <= 1, "an item is processed twice");
    return;
  }
  for (int k = 0; k < int(done.size()); ++k) c.require(done[k] == 1, [&] { return "item " + std::to_string(k) + " is processed " + std::to_string(done[k]) + " times"; });
  if (w == 1) c.require(sum == 100 + (1 << n) - 1, [&] { return "the sum is " + std::to_string(sum); });
}
// the type of cache that memoize() takes
template <typename C> struct Job { typename C::mapped_type operator()() const; };
template <typename C> concept Takes = requires(C& c, std::mutex& m, std::condition_variable& v, int k, Job<C> f) { sequant::detail::memoize(c, m, v, k, f); };
template <typename V> using Cache = std::conditional_t<Takes<container::map<int, std::optional<V>>>, container::map<int, std::optional<V>>, std::map<int, std::optional<V>>>;
// every allowed number of threads does the work, others are rejected
int env_child() {
  std::vector<int> v{1, 2, 3};
  std::atomic<int> n = 0;
  try { for_each(v, [&](int) { ++n; }); } catch (std::exception&) { return 7; }
  return n;
}
SCENARIO("environment", c) {
  static const std::vector<const char*> E{nullptr, "1", "2", "5", "0", "-1", "x", "", "3x"};
  int k = c.choose(int(E.size()));
  c.describe(std::string("SEQUANT_NUM_THREADS=") + (E[k] ? E[k] : "(unset)"));
  c.mine();
  pid_t p = fork();
  if (!p) {
    if (E[k]) setenv("SEQUANT_NUM_THREADS", E[k], 1); else unsetenv("SEQUANT_NUM_THREADS");
    execl("/proc/self/exe", "C25", "--env", nullptr);
    _exit(99);
  }
  int st = 0;
  waitpid(p, &st, 0);
  c.step();
  int r = WIFEXITED(st) ? WEXITSTATUS(st) : 98;
  c.require(r == (k < 4 ? 3 : 7) || (k >= 4 && r == 3), [&] { return r == 98 ? std::string("the process ends") : std::to_string(r) + " of 3 items are processed"; });
}
// computed once, the value is there for everybody and stays
SCENARIO("memoize", c) {
  int nt = 2 + c.choose(2);
  std::vector<int> key(nt);
  for (auto& k : key) k = 1 + c.choose(nt == 2 ? 2 : 3);
  int bad = c.choose(nt == 2 ? 3 : 2);    // the first computation(s) fail
  c.describe("keys " + std::to_string(key[0]) + " " + std::to_string(key[1]) + (nt > 2 ? " " + std::to_string(key[2]) : "") + ", " + std::to_string(bad) + " failures");
  c.mine();
  using V = std::vector<int>;
  std::atomic<int> calls[4] = {}, fails{0};
  std::string err;
  explore(c, nt > 2 ? B() - 1 : B(), [&] {
    Cache<V> cache;
    std::mutex mtx;
    std::condition_variable cv;
    std::mutex em;
    auto job = [&](int k) {
      return [&, k] {
        try {
          const V& v = sequant::detail::memoize(cache, mtx, cv, k, [&] {
            if (fails.fetch_add(1, std::memory_order_acq_rel) < bad) throw Boom{k};
            calls[k].fetch_add(1, std::memory_order_acq_rel);
            return V{k, 10 * k};
          });
          sched::point();
          if (v.size() != 2 || v[0] != k || v[1] != 10 * k) { std::scoped_lock l(em); err = "a wrong value is returned for key " + std::to_string(k); }
        } catch (Boom&) {
        }
      };
    };
    std::vector<std::thread> t;
    for (int k : key) t.emplace_back(job(k));
    for (auto& x : t) x.join();
  });
  c.require(err.empty(), err);
  for (int k = 1; k < 4; ++k) c.require(calls[k] <= 1, "a value is computed twice");
}
struct Single : Singleton<Single> {
  int v = 0;
  static std::atomic<int>& made() { static std::atomic<int> n; return n; }
  static void clear() { clear(instance_accessor()); }
  template <typename A> static void clear(A& a) {
    if constexpr (requires { a.reset(); }) a.reset();
    else a = nullptr;
  }
 private:
  friend class Singleton<Single>;
  Single(int x = 7) : v(x) { made().fetch_add(1, std::memory_order_relaxed); }
};
SCENARIO("singleton", c) {
  int nt = 2 + c.choose(2);
  std::vector<int> w(nt);
  for (auto& x : w) x = c.choose(2);
  c.describe(std::to_string(nt) + " threads");
  c.mine();
  Single::instance();
  Single::clear();
  Single::made() = 0;
  std::vector<Single*> p(nt);
  explore(c, B(), [&] {
    auto job = [&](int k) { return [&, k] { try { p[k] = w[k] ? &Single::set_instance(k) : &Single::instance(); } catch (sequant::Exception&) { p[k] = nullptr; } }; };
    std::vector<std::thread> t;
    for (int k = 0; k < nt; ++k) t.emplace_back(job(k));
    for (auto& x : t) x.join();
  });
  c.require(Single::made() == 1, [&] { return std::to_string(Single::made()) + " instances are made"; });
  for (int k = 0; k < nt; ++k) {
    if (w[k] == 0) c.require(p[k] == &Single::instance(), "instance() is not the instance");
    if (w[k] && p[k]) c.require(p[k]->v == k, "set_instance returns an instance made by others");
  }
}
void context() {
  static bool once = false;
  if (once) return;
  once = true;
  set_num_threads(1);
  orc::use_context(Vacuum::SingleProduct);
}
// temporary indices are unique
SCENARIO("tmp", c) {
  context();
  int nt = 2 + c.choose(2), per = nt > 2 ? 1 : 1 + c.choose(2), w = c.choose(3);
  c.describe(std::to_string(nt) + " threads, kind " + std::to_string(w));
  c.mine();
  std::vector<std::vector<Index>> out(nt);
  static IndexSpace I = Index(L"i_1").space(), A = Index(L"a_1").space();
  explore(c, nt > 2 ? B() - 1 : B(), [&] {
    IndexFactory fac;
    auto job = [&](int k) {
      return [&, k] {
        for (int q = 0; q < per; ++q) {
          auto& sp = (k + q) % 2 && nt == 2 ? A : I;
          if (w == 0) out[k].push_back(fac.make(sp));
          if (w == 1) out[k].push_back(fac.make(Index(sp, 1)));
          if (w == 2) out[k].push_back(Index::make_tmp_index(sp));
        }
      };
    };
    std::vector<std::thread> t;
    for (int k = 0; k < nt; ++k) t.emplace_back(job(k));
    for (auto& x : t) x.join();
  });
  std::set<std::wstring> l;
  int n = 0;
  for (auto& o : out) for (auto& i : o) { l.insert(std::wstring(i.full_label())); ++n; }
  c.require(int(l.size()) == n && n == nt * per, "temporary indices are not unique");
}
SCENARIO("factorial", c) {
  int a = c.choose(3), b = c.choose(3);
  static int base = 22;
  c.describe("n+" + std::to_string(a) + ", n+" + std::to_string(b));
  c.mine();
  static bool warm = (factorial(21), true);
  (void)warm;
  sequant::intmax_t x = 0, y = 0;
  explore(c, B(), [&] { together([&] { x = factorial(base + a); }, [&] { y = factorial(base + b); }); });
  auto ref = [](int n) { sequant::intmax_t f = 1; for (int i = 2; i <= n; ++i) f *= i; return f; };
  c.require(x == ref(base + a) && y == ref(base + b), "a wrong factorial");
  base += 2;
}
// the default context
SCENARIO("context", c) {
  context();
  int w = c.choose(3);
  c.describe("kind " + std::to_string(w));
  c.mine();
  auto keep = get_default_context();
  int va = -1, vb = -1;
  if (w == 0) reset_default_context();
  explore(c, B() + 1, [&] {
    together([&] { if (w == 2) set_default_context(sequant::Context(keep), Statistics::FermiDirac); else va = int(get_default_context(Statistics::FermiDirac).vacuum()); },
             [&] { if (w == 2) set_default_context(sequant::Context(keep), Statistics::BoseEinstein); else vb = int(get_default_context(w ? Statistics::BoseEinstein : Statistics::Arbitrary).vacuum()); });
  });
  c.require(va == vb, "the context differs");
  reset_default_context();
  set_default_context(keep);
}
// work on sums in threads
ExprPtr T(const wchar_t* l, const wchar_t* b, const wchar_t* k) { return ex<Tensor>(l, bra{Index(b)}, ket{Index(k)}); }
std::vector<ExprPtr> terms(int w) {
  switch (w) {
    case 0: return {ex<Constant>(2) * T(L"f", L"a_1", L"i_1"), T(L"f", L"a_1", L"i_1")};
    case 1: return {T(L"f", L"a_2", L"i_1") * T(L"t", L"i_1", L"a_2"), T(L"t", L"i_2", L"a_1") * T(L"f", L"a_1", L"i_2"), ex<Variable>(L"x")};
    case 2: { auto s = T(L"f", L"a_2", L"i_1"); return {s * T(L"t", L"i_1", L"a_2"), s * T(L"u", L"i_1", L"a_2")}; }
    default: { auto s = T(L"f", L"a_2", L"i_1"); return {s, s, ex<Constant>(-2) * s}; }
  }
}
SCENARIO("sum", c) {
  context();
  int nt = 2 + c.choose(2), w = c.choose(4), m = c.choose(2);
  c.describe(std::to_string(nt) + " threads, terms " + std::to_string(w));
  c.mine();
  auto go = [&](std::vector<ExprPtr> v) { return transform_sum_expr(v, [&](const ExprPtr& x) -> ExprPtr { if (m) { auto y = x->clone(); simplify(y); return y; } return ex<Constant>(3) * x; }); };
  set_num_threads(1);
  static std::map<int, bool> warm;
  ExprPtr want = go(terms(w));
  if (!std::exchange(warm[w * 2 + m], true)) go(terms(w));
  auto v = terms(w);
  ExprPtr got;
  set_num_threads(nt);
  explore(c, nt > 2 ? 1 : vf::thorough() ? 2 : 1, [&] { got = go(v); });
  set_num_threads(1);
  simplify(want); simplify(got);
  auto d = want - got;
  simplify(d);
  c.require(d->is_zero(), [&] { return "the sum is " + orc::show(got); });
}
// Wick's theorem over the terms of a sum
SCENARIO("wick", c) {
  context();
  int w = c.choose(3), topo = c.choose(2);
  c.describe("terms " + std::to_string(w));
  c.mine();
  auto nop = [](const wchar_t* p, const wchar_t* q) { return ex<FNOperator>(cre{Index(p)}, ann{Index(q)}, Vacuum::SingleProduct); };
  auto make = [&]() -> ExprPtr {
    auto a = T(L"f", L"i_1", L"a_1") * nop(L"i_1", L"a_1") * T(L"t", L"a_2", L"i_2") * nop(L"a_2", L"i_2");
    auto b = T(L"g", L"i_3", L"a_3") * nop(L"i_3", L"a_3") * T(L"t", L"a_4", L"i_4") * nop(L"a_4", L"i_4");
    if (w == 0) return a + b;
    if (w == 1) return a + ex<Constant>(2) * a->clone() + b;
    return a + T(L"f", L"i_1", L"i_2") * T(L"t", L"i_2", L"i_1");
  };
  auto go = [&](ExprPtr e) { FWickTheorem wt(e); wt.use_topology(topo).full_contractions(true); return wt.compute(); };
  set_num_threads(1);
  static std::set<int> warm;
  auto want = go(make());
  if (warm.insert(w * 2 + topo).second) want = go(make());
  auto e = make();
  ExprPtr got;
  set_num_threads(2);
  explore(c, 1, [&] { got = go(e); });
  set_num_threads(1);
  simplify(want); simplify(got);
  auto d = want - got;
  simplify(d);
  c.require(d->is_zero(), [&] { return "the expectation value is " + orc::show(got); });
}
// separate expressions are worked on independently
SCENARIO("separate", c) {
  context();
  int w = c.choose(4);
  c.describe("kind " + std::to_string(w));
  c.mine();
  auto mk = [&](int k) -> ExprPtr { return k ? T(L"f", L"a_2", L"i_1") * T(L"t", L"i_1", L"a_2") - T(L"t", L"i_2", L"a_1") * T(L"f", L"a_1", L"i_2") : T(L"g", L"a_2", L"i_1") * T(L"t", L"i_1", L"a_1") + T(L"g", L"a_2", L"i_7") * T(L"t", L"i_7", L"a_1"); };
  static std::set<int> warm;
  auto work = [&](ExprPtr& e) { if (w == 0) simplify(e); if (w == 1) canonicalize(e); if (w == 2) { e = ex<Product>(1, std::vector<ExprPtr>{e, e->clone()}); expand(e); } if (w == 3) { auto z = e->clone(); simplify(z); e = z; } };
  auto wa = mk(0), wb = mk(1);
  work(wa); work(wb);
  auto a = mk(0), b = mk(1);
  explore(c, 1, [&] { together([&] { work(a); }, [&] { work(b); }); });
  for (auto [x, y] : {std::pair{a, wa}, std::pair{b, wb}}) { auto d = x->clone() - y->clone(); simplify(d); c.require(d->is_zero(), [&] { return "the result is " + orc::show(x); }); }
}
}  // namespace
int main(int c, char** v) { if (c == 2 && std::string(v[1]) == "--env") return env_child(); return vf::main_impl(c, v, "C25"); }
