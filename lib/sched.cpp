#include "lib/sched.hpp"

#include <cxxabi.h>
#include <dlfcn.h>
#include <errno.h>
#include <pthread.h>
#include <map>
#include <semaphore.h>
#include <malloc.h>

extern "C" char __libc_single_threaded;
extern "C" void __libc_free(void*);
extern "C" void* __libc_malloc(std::size_t);
extern "C" void* __libc_calloc(std::size_t, std::size_t);
extern "C" void* __libc_realloc(void*, std::size_t);

namespace sched {
namespace {
template <typename F> F real(const char* n) { return reinterpret_cast<F>(dlsym(RTLD_NEXT, n)); }
constexpr int MAXT = 8;
struct VC { uint32_t c[MAXT] = {}; void join(const VC& o) { for (int i = 0; i < MAXT; ++i) if (o.c[i] > c[i]) c[i] = o.c[i]; } };
struct Access { void* pc; uint32_t clk; uint8_t tid, mask; bool write; };
struct Cell { std::vector<Access> a; bool freed = false; };
struct Page { Cell c[512]; };
enum St { READY, LOCK, COND, JOIN, DONE };
struct Thread {
  pthread_t h;
  sem_t go;
  St st = READY;
  void* on = nullptr;                 // what it waits for
  VC vc;
  void* (*f)(void*) = nullptr;
  void* arg = nullptr;
  uintptr_t lo = 0, hi = 0;           // stack
  std::vector<void*> held;
  bool signalled = false, joined = false;
  int id = 0;
};
struct Mutex { int owner = -1, n = 0; VC vc; };
struct State {
  vf::Case* c = nullptr;
  int bound = 0, cur = 0;
  std::vector<Thread*> t;
  std::map<void*, Mutex> m;
  std::map<void*, VC> at;             // atomics, conditions, guards
  std::unordered_map<uintptr_t, Page*> mem;
  Report r;
};
State* S = nullptr;
bool on = false;
std::map<void*, bool>& wrote() { static auto* w = new std::map<void*, bool>; return *w; }  // static mutexes: written under it?
bool pilot = false;
thread_local int me = -1;
thread_local int busy = 0, spin = 0;
struct Busy { Busy() { ++busy; } ~Busy() { --busy; } };
bool live() { return on && me >= 0 && !busy; }
extern "C" char __data_start, _end;
bool is_static(void* p) { return p >= &__data_start && p < &_end; }

std::string name(void* pc) {
  Dl_info i;
  if (!dladdr(pc, &i) || !i.dli_sname) return "?";
  int st = 0;
  char* d = abi::__cxa_demangle(i.dli_sname, nullptr, nullptr, &st);
  std::string s = d ? d : i.dli_sname;
  std::free(d);
  return s.size() > 160 ? s.substr(0, 160) : s;
}
bool enabled(Thread* t) {
  switch (t->st) {
    case READY: return true;
    case LOCK: return S->m[t->on].owner < 0;
    case JOIN: return static_cast<Thread*>(t->on)->st == DONE;
    case COND: return t->signalled && S->m[t->on].owner < 0;   // on = mutex to be reacquired
    default: return false;
  }
}
[[noreturn]] void die(const std::string& m) {
  vf::one_line(m);
  std::fprintf(stderr, "%s\n", m.c_str());
  if (S->c->sh) { std::string d = S->c->desc + " *** " + m; std::strncpy(S->c->sh->desc, d.c_str(), sizeof(S->c->sh->desc) - 1); }
  std::_Exit(50);
}
/// picks the next thread and hands over; returns when this thread runs again
void next(bool must) {
  Busy b;
  std::vector<int> e;
  Thread* t = S->t[me];
  if (!must && enabled(t)) e.push_back(me);
  bool self = !e.empty();
  for (int i = 0; i < int(S->t.size()); ++i) if (i != me && enabled(S->t[i])) e.push_back(i);
  if (e.empty() && must && t->st != DONE && enabled(t)) e.push_back(me);
  if (e.empty()) die("deadlock: no thread can go on");
  int k = 0;
  if (self && S->r.preemptions >= S->bound) k = 0;
  else if (e.size() > 1) k = S->c->choose(int(e.size()));
  if (self && k) ++S->r.preemptions;
  S->c->step();
  if (++S->r.points > 200000) die("no end of the schedule");
  int n = e[k];
  if (n == me) return;
  S->cur = n;
  int self_id = me;
  bool done = t->st == DONE;
  sem_post(&S->t[n]->go);
  if (done) { me = -1; return; }
  while (sem_wait(&S->t[self_id]->go)) {}
}
void sync_point(void* m = nullptr) {
  if (!live() || spin) return;
  if (m && is_static(m)) { auto it = wrote().find(m); if (it != wrote().end() && !it->second) return; }
  next(false);
}
void acquire(VC& v) { S->t[me]->vc.join(v); }
void release(VC& v) { v.join(S->t[me]->vc); ++S->t[me]->vc.c[me]; }

void lock(void* m) {
  Busy b;
  Thread* t = S->t[me];
  Mutex& x = S->m[m];
  if (x.owner == me) { ++x.n; return; }
  while (S->m[m].owner >= 0) { t->st = LOCK; t->on = m; next(true); t->st = READY; }
  Mutex& y = S->m[m];
  y.owner = me; y.n = 1;
  acquire(y.vc);
  t->held.push_back(m);
  if (is_static(m)) wrote().try_emplace(m, false);
}
void unlock(void* m) {
  Busy b;
  Mutex& x = S->m[m];
  if (x.owner != me) die("a mutex is unlocked by a thread that does not hold it");
  if (--x.n) return;
  release(x.vc);
  x.owner = -1;
  auto& h = S->t[me]->held;
  h.erase(std::find(h.begin(), h.end(), m));
}
void access(uintptr_t p, std::size_t n, bool w, void* pc) {
  if (!live()) return;
  Busy b;
  Thread* t = S->t[me];
  if (w && !t->held.empty() && !(p >= t->lo && p < t->hi)) for (void* m : t->held) if (is_static(m)) wrote()[m] = true;
  uintptr_t e = p + n;
  while (p < e) {
    uintptr_t g = p & ~uintptr_t(7), up = std::min(e, g + 8);
    uint8_t mask = uint8_t((0xff << (p - g)) & (0xff >> (g + 8 - up)));
    Page*& pg = S->mem[g >> 12];
    if (!pg) pg = new Page;
    auto& cell = pg->c[g >> 3 & 511];
    auto& a = cell.a;
    if (cell.freed && S->r.race.empty()) S->r.race = std::string(w ? "write to" : "read of") + " memory that has been released, in " + name(pc);
    std::size_t k = 0;
    bool have = false;
    for (auto& x : a) {
      if (x.tid != me && (x.mask & mask) && (x.write || w) && x.clk > t->vc.c[x.tid] && S->r.race.empty())
        S->r.race = std::string("data race: ") + (w ? "write" : "read") + " in " + name(pc) + ", " + (x.write ? "write" : "read") + " in " + name(x.pc) + " of another thread";
      bool same = x.tid == me && x.write == w && x.mask == mask;
      if (same) { x.clk = t->vc.c[me]; x.pc = pc; have = true; }
      a[k++] = x;
    }
    if (!have) a.push_back({pc, t->vc.c[me], uint8_t(me), mask, w});
    p = up;
  }
}
void forget(uintptr_t p, std::size_t n, bool freed = false) {
  if (!S || !on) return;
  Busy b;
  uintptr_t e = (p + n + 7) & ~uintptr_t(7);
  for (p &= ~uintptr_t(7); p < e; p += 8) {
    auto it = S->mem.find(p >> 12);
    if (it == S->mem.end()) {
      if (!freed) { p = (p | 4095) - 7; continue; }
      it = S->mem.emplace(p >> 12, new Page).first;
    }
    auto& c = it->second->c[p >> 3 & 511];
    c.a.clear();
    c.freed = freed;
  }
}
void* start(void* q) {
  Thread* t = static_cast<Thread*>(q);
  int id = t->id;
  while (sem_wait(&t->go)) {}
  {
    pthread_attr_t at;
    pthread_getattr_np(pthread_self(), &at);
    void* a; std::size_t n;
    pthread_attr_getstack(&at, &a, &n);
    pthread_attr_destroy(&at);
    t->lo = uintptr_t(a); t->hi = t->lo + n;
    forget(t->lo, n);
  }
  me = id;
  void* r = t->f(t->arg);
  ++busy;
  t->st = DONE;
  next(true);
  me = -1;
  return r;
}
}  // namespace

void point() { sync_point(); }
Report run(vf::Case& c, int bound, const std::function<void()>& f) {
  __libc_single_threaded = 0;
  State s;
  s.c = &c; s.bound = bound;
  auto* t = new Thread;
  sem_init(&t->go, 0, 0);
  t->vc.c[0] = 1;
  {
    pthread_attr_t at;
    pthread_getattr_np(pthread_self(), &at);
    void* a; std::size_t n;
    pthread_attr_getstack(&at, &a, &n);
    pthread_attr_destroy(&at);
    t->lo = uintptr_t(a); t->hi = t->lo + n;
  }
  s.t.push_back(t);
  S = &s;
  me = 0;
  on = true;
  std::exception_ptr e;
  try { f(); } catch (...) { e = std::current_exception(); }
  ++busy;
  for (std::size_t i = 1; i < s.t.size(); ++i) if (s.t[i]->st != DONE) die("a thread is left running");
  on = false;
  me = -1;
  S = nullptr;
  for (auto& [k, p] : s.mem) delete p;
  s.r.threads = int(s.t.size());
  for (auto* x : s.t) delete x;
  --busy;
  if (e) std::rethrow_exception(e);
  return s.r;
}
}  // namespace sched

using namespace sched;
// ------------------------------------------------------------------ pthreads
extern "C" {
int pthread_create(pthread_t* h, const pthread_attr_t* a, void* (*f)(void*), void* arg) {
  static auto R = real<int (*)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*)>("pthread_create");
  if (!live()) return R(h, a, f, arg);
  Thread* t = new Thread;
  {
    Busy b;
    if (S->t.size() >= MAXT) die("too many threads");
    sem_init(&t->go, 0, 0);
    t->f = f; t->arg = arg;
    t->vc = S->t[me]->vc;
    int id = int(S->t.size());
    t->vc.c[id] = 1;
    t->id = id;
    ++S->t[me]->vc.c[me];
    S->t.push_back(t);
    pthread_attr_t at;
    pthread_attr_init(&at);
    pthread_attr_setstacksize(&at, 1 << 20);
    R(&t->h, &at, start, t);
    pthread_attr_destroy(&at);
    *h = t->h;
  }
  sync_point();
  return 0;
}
int pthread_join(pthread_t h, void** r) {
  static auto R = real<int (*)(pthread_t, void**)>("pthread_join");
  if (!live()) return R(h, r);
  {
    Busy b;
    Thread* t = S->t[me];
    for (auto* x : S->t) if (x != S->t[0] && !x->joined && pthread_equal(x->h, h)) {
      if (x->st != DONE) { t->st = JOIN; t->on = x; next(true); t->st = READY; }
      t->vc.join(x->vc);
      x->joined = true;
      break;
    }
  }
  Busy b;
  return R(h, r);
}
int pthread_mutex_lock(pthread_mutex_t* m) {
  static auto R = real<int (*)(pthread_mutex_t*)>("pthread_mutex_lock");
  if (!live()) return R(m);
  bool again = S->m.count(m) && S->m[m].owner == me;
  if (again && (m->__data.__kind & 3) != PTHREAD_MUTEX_RECURSIVE_NP) { Busy b; die("deadlock: a thread locks a mutex twice"); }
  if (!again) sync_point(m);
  lock(m);
  return 0;
}
int pthread_mutex_trylock(pthread_mutex_t* m) {
  static auto R = real<int (*)(pthread_mutex_t*)>("pthread_mutex_trylock");
  if (!live()) return R(m);
  sync_point();
  if (S->m[m].owner >= 0 && S->m[m].owner != me) return EBUSY;
  lock(m);
  return 0;
}
int pthread_mutex_unlock(pthread_mutex_t* m) {
  static auto R = real<int (*)(pthread_mutex_t*)>("pthread_mutex_unlock");
  if (!live()) return R(m);
  unlock(m);
  return 0;
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) {
  static auto R = real<int (*)(pthread_cond_t*, pthread_mutex_t*)>("pthread_cond_wait");
  if (!live()) return R(c, m);
  Thread* t = S->t[me];
  unlock(m);
  { Busy b; t->st = COND; t->on = m; t->signalled = false; t->arg = c; next(true); t->st = READY; }
  lock(m);
  Busy b;
  acquire(S->at[c]);
  return 0;
}
static int notify(pthread_cond_t* c, bool all) {
  sync_point();
  Busy b;
  release(S->at[c]);
  std::vector<Thread*> w;
  for (auto* t : S->t) if (t->st == COND && t->arg == c && !t->signalled) w.push_back(t);
  if (w.empty()) return 0;
  if (all) for (auto* t : w) t->signalled = true;
  else w[w.size() > 1 ? S->c->choose(int(w.size())) : 0]->signalled = true;
  return 0;
}
int pthread_cond_signal(pthread_cond_t* c) {
  static auto R = real<int (*)(pthread_cond_t*)>("pthread_cond_signal");
  return live() ? notify(c, false) : R(c);
}
int pthread_cond_broadcast(pthread_cond_t* c) {
  static auto R = real<int (*)(pthread_cond_t*)>("pthread_cond_broadcast");
  return live() ? notify(c, true) : R(c);
}
void free(void* p) {
  if (p && live()) forget(uintptr_t(p), malloc_usable_size(p), true);
  __libc_free(p);
}
static void* fresh(void* p) { if (p && live()) forget(uintptr_t(p), malloc_usable_size(p)); return p; }
void* malloc(std::size_t n) { return fresh(__libc_malloc(n)); }
void* calloc(std::size_t k, std::size_t n) { return fresh(__libc_calloc(k, n)); }
void* realloc(void* p, std::size_t n) { return fresh(__libc_realloc(p, n)); }
// function-local statics
int vf_guard_acquire(uint64_t*) asm("__cxa_guard_acquire");
void vf_guard_release(uint64_t*) asm("__cxa_guard_release");
void vf_guard_abort(uint64_t*) asm("__cxa_guard_abort");
int vf_guard_acquire(uint64_t* g) {
  auto* b = reinterpret_cast<volatile uint8_t*>(g);
  if (!live()) { if (b[0]) return 0; b[1] = 1; return 1; }
  sync_point();
  if (b[0]) { Busy y; acquire(S->at[g]); return 0; }
  lock(g);
  if (b[0]) { Busy y; acquire(S->at[g]); unlock(g); return 0; }
  b[1] = 1;
  return 1;
}
void vf_guard_release(uint64_t* g) {
  auto* b = reinterpret_cast<volatile uint8_t*>(g);
  b[0] = 1; b[1] = 0;
  if (!live()) return;
  { Busy y; release(S->at[g]); }
  if (S->m[g].owner == me) unlock(g);
}
void vf_guard_abort(uint64_t* g) {
  auto* b = reinterpret_cast<volatile uint8_t*>(g);
  b[1] = 0;
  if (live() && S->m[g].owner == me) unlock(g);
}
// ------------------------------------------------------------------ accesses
#define PC __builtin_return_address(0)
#define A(n) \
  void __tsan_read##n(void* p) { access(uintptr_t(p), n, false, PC); } \
  void __tsan_write##n(void* p) { access(uintptr_t(p), n, true, PC); } \
  void __tsan_unaligned_read##n(void* p) { access(uintptr_t(p), n, false, PC); } \
  void __tsan_unaligned_write##n(void* p) { access(uintptr_t(p), n, true, PC); } \
  void __tsan_volatile_read##n(void* p) {} \
  void __tsan_volatile_write##n(void* p) {}
A(1) A(2) A(4) A(8) A(16)
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
void __tsan_vptr_update(void** p, void*) { access(uintptr_t(p), 8, true, PC); }
void __tsan_vptr_read(void** p) { access(uintptr_t(p), 8, false, PC); }
void __tsan_read_range(void* p, std::size_t n) { access(uintptr_t(p), n, false, PC); }
void __tsan_write_range(void* p, std::size_t n) { access(uintptr_t(p), n, true, PC); }
// the spin lock inside std::atomic<std::shared_ptr>: never preempted while it is held
void __tsan_mutex_create(void*, unsigned) {}
void __tsan_mutex_destroy(void*, unsigned) {}
void __tsan_mutex_pre_lock(void*, unsigned) { sync_point(); }
void __tsan_mutex_post_lock(void* m, unsigned flags, int) { if (live() && !(flags & (1u << 5))) { acquire(S->at[m]); ++spin; } }
int __tsan_mutex_pre_unlock(void*, unsigned) { return 0; }
void __tsan_mutex_post_unlock(void* m, unsigned) { if (live()) { release(S->at[m]); --spin; } }
void __tsan_mutex_pre_signal(void*, unsigned) {}
void __tsan_mutex_post_signal(void*, unsigned) {}
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}
}
namespace {
// bit 0: acquire, bit 1: release
int order(int mo) { return mo == __ATOMIC_RELAXED ? 0 : mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_CONSUME ? 1 : mo == __ATOMIC_RELEASE ? 2 : 3; }
void pre(int mo) { if (mo == __ATOMIC_SEQ_CST) sync_point(); }
void post(const volatile void* p, int mo, int what) {
  if (!live()) return;
  Busy b;
  auto& v = S->at[const_cast<void*>(p)];
  int o = order(mo) & what;
  if (o & 1) acquire(v);
  if (o & 2) release(v);
}
}
#define AT(bits, T) \
  T __tsan_atomic##bits##_load(const volatile T* p, int mo) { pre(mo); T r = __atomic_load_n(p, __ATOMIC_SEQ_CST); post(p, mo, 1); return r; } \
  void __tsan_atomic##bits##_store(volatile T* p, T v, int mo) { pre(mo); post(p, mo, 2); __atomic_store_n(p, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##bits##_exchange(volatile T* p, T v, int mo) { pre(mo); post(p, mo, 3); return __atomic_exchange_n(p, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##bits##_fetch_add(volatile T* p, T v, int mo) { pre(mo); post(p, mo, 3); return __atomic_fetch_add(p, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##bits##_fetch_sub(volatile T* p, T v, int mo) { pre(mo); post(p, mo, 3); return __atomic_fetch_sub(p, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##bits##_fetch_and(volatile T* p, T v, int mo) { pre(mo); post(p, mo, 3); return __atomic_fetch_and(p, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##bits##_fetch_or(volatile T* p, T v, int mo) { pre(mo); post(p, mo, 3); return __atomic_fetch_or(p, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##bits##_fetch_xor(volatile T* p, T v, int mo) { pre(mo); post(p, mo, 3); return __atomic_fetch_xor(p, v, __ATOMIC_SEQ_CST); } \
  int __tsan_atomic##bits##_compare_exchange_strong(volatile T* p, T* e, T v, int mo, int) { pre(mo); post(p, mo, 3); return __atomic_compare_exchange_n(p, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
  int __tsan_atomic##bits##_compare_exchange_weak(volatile T* p, T* e, T v, int mo, int) { pre(mo); post(p, mo, 3); return __atomic_compare_exchange_n(p, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##bits##_compare_exchange_val(volatile T* p, T e, T v, int mo, int) { pre(mo); post(p, mo, 3); __atomic_compare_exchange_n(p, &e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return e; }
extern "C" {
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
}
// red-black trees of the C++ library, which is not instrumented
namespace std {
void _Rb_tree_insert_and_rebalance(const bool l, _Rb_tree_node_base* x, _Rb_tree_node_base* p, _Rb_tree_node_base& h) throw() {
  using F = void (*)(bool, _Rb_tree_node_base*, _Rb_tree_node_base*, _Rb_tree_node_base&);
  static auto R = real<F>("_ZSt29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_baseS0_RS_");
  R(l, x, p, h);
  for (auto* q : {x, p, &h}) access(uintptr_t(q), sizeof *q, true, __builtin_return_address(0));
}
_Rb_tree_node_base* _Rb_tree_rebalance_for_erase(_Rb_tree_node_base* const x, _Rb_tree_node_base& h) throw() {
  using F = _Rb_tree_node_base* (*)(_Rb_tree_node_base*, _Rb_tree_node_base&);
  static auto R = real<F>("_ZSt28_Rb_tree_rebalance_for_erasePSt18_Rb_tree_node_baseRS_");
  auto* r = R(x, h);
  for (auto* q : {r, &h}) access(uintptr_t(q), sizeof *q, true, __builtin_return_address(0));
  return r;
}
}  // namespace std
