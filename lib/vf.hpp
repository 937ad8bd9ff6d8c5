// Bounded-exhaustive explorer.
//
// A scenario is a function of a Case; every nondeterministic decision (shape of
// the input, next operation, next scheduled thread, ...) is taken by
// Case::choose(n).  The explorer enumerates *all* choice sequences depth first
// (stateless search), split over worker processes by the hash of the choice
// prefix at Case::mine().  A failing case is re-run alone in a fresh process
// before it is reported.  Cases are identified by "scenario/c0.c1.c2...".
#pragma once
#include <poll.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>

#include <algorithm>
#include <chrono>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <unordered_set>
#include <vector>

namespace vf {

inline uint64_t mix(uint64_t x) {
  x += 0x9e3779b97f4a7c15ull;
  x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
  x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
  return x ^ (x >> 31);
}
inline uint64_t hash_str(std::string_view s, uint64_t h = 1469598103934665603ull) {
  for (unsigned char c : s) h = (h ^ c) * 1099511628211ull;
  return mix(h);
}

struct Skip {};                      // leaf not explored by this worker / not in the space
struct Fail { std::string msg; };    // property violated

inline bool thorough() {
  const char* t = std::getenv("VERIF_TIER");
  return t && std::string(t) == "thorough";
}

struct Shared {                      // worker -> parent, survives a crash
  int n;
  int choice[4096];
  int arity[4096];
  char desc[2048];
};

struct Stats {
  uint64_t leaves = 0, execs = 0, transitions = 0, checks = 0;
  std::unordered_set<uint64_t> states, outcomes;
  std::map<std::string, uint64_t> counters;
};

class Case {
 public:
  std::vector<int> pre;              // forced prefix
  std::vector<int> ch, ar;
  Shared* sh = nullptr;
  Stats* st = nullptr;
  int w = 0, W = 1;
  bool replay = false;
  std::string desc;
  bool mined = false;

  int choose(int n, const char* = "") {
    if (n <= 0) throw Skip{};
    std::size_t i = ch.size();
    int c = 0;
    if (i < pre.size()) {
      c = pre[i];
      if (c >= n) {
        std::fprintf(stderr, "replay diverged: choice %zu is %d of %d\n", i, c, n);
        std::_Exit(97);
      }
    }
    ch.push_back(c);
    ar.push_back(n);
    if (sh && i < 4096) { sh->choice[i] = c; sh->arity[i] = n; sh->n = int(i) + 1; }
    return c;
  }
  bool flip(const char* s = "") { return choose(2, s); }
  template <typename C> auto const& pick(const C& c) { return c[choose(int(c.size()))]; }

  /// end of the partitioned prefix: only one worker goes on
  void mine() {
    if (mined) return;
    mined = true;
    if (replay) return;
    uint64_t h = 7;
    for (int c : ch) h = mix(h * 31 + c + 1);
    if (h % W != uint64_t(w)) throw Skip{};
  }
  /// human-readable description of the case (evidence samples, replay files)
  void describe(std::string d) {
    desc = std::move(d);
    if (sh) { std::strncpy(sh->desc, desc.c_str(), sizeof(sh->desc) - 1); sh->desc[sizeof(sh->desc)-1] = 0; }
  }
  void add(const std::string& s) { describe(desc + s); }
  void state(uint64_t h) { st->states.insert(h); }
  void state(std::string_view s) { st->states.insert(hash_str(s)); }
  void outcome(uint64_t h) { st->outcomes.insert(h); }
  void outcome(std::string_view s) { st->outcomes.insert(hash_str(s)); }
  void step(uint64_t n = 1) { st->transitions += n; }
  void checked(uint64_t n = 1) { st->checks += n; }
  void count(const std::string& k, uint64_t n = 1) { st->counters[k] += n; }
  [[noreturn]] void fail(const std::string& m) { throw Fail{m}; }
  void require(bool ok, const std::string& m) { checked(); if (!ok) throw Fail{m}; }
  template <typename F> void require(bool ok, F&& f) requires std::is_invocable_v<F> {
    checked(); if (!ok) throw Fail{f()};
  }
};

using Body = std::function<void(Case&)>;
struct Scenario { std::string name; Body body; };
inline std::vector<Scenario>& scenarios() { static std::vector<Scenario> s; return s; }
inline int add_scenario(const std::string& n, Body b) { scenarios().push_back({n, std::move(b)}); return 0; }

struct Violation { std::string id, desc, msg; bool confirmed = false; };

inline std::string id_of(const std::string& sc, const std::vector<int>& ch) {
  std::string s = sc + "/";
  for (std::size_t i = 0; i < ch.size(); ++i) s += (i ? "." : "") + std::to_string(ch[i]);
  return s;
}

inline std::string one_line(std::string s, std::size_t max = 400) {
  for (char& c : s) if (c == '\n' || c == '\r' || c == '\t') c = ' ';
  if (s.size() > max) s = s.substr(0, max) + "...";
  return s;
}
inline std::string json_str(const std::string& s) {
  std::string o = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += char(c); }
    else if (c < 0x20) { char b[8]; std::snprintf(b, 8, "\\u%04x", c); o += b; }
    else o += char(c);
  }
  return o + "\"";
}

struct Options {
  int jobs = 8;
  int case_timeout = 60;
  int budget = 600;  // seconds for all scenarios together
  std::string out, replay, only;
  bool verbose = false;
};

/// called once in every worker process before any case
inline std::function<void()>& process_init() { static std::function<void()> f = [] {}; return f; }

/// runs one case; returns "" or the failure
inline std::string run_case(const Scenario& s, Case& c) {
  try {
    s.body(c);
  } catch (Skip&) {
    return "\1skip";
  } catch (Fail& f) {
    return f.msg.empty() ? "failed" : f.msg;
  } catch (std::exception& e) {
    return std::string("unexpected exception: ") + e.what();
  } catch (...) {
    return "unexpected exception of unknown type";
  }
  return "";
}

inline void write_all(int fd, const std::string& s) {
  std::size_t o = 0;
  while (o < s.size()) {
    ssize_t k = ::write(fd, s.data() + o, s.size() - o);
    if (k <= 0) std::_Exit(98);
    o += k;
  }
}

struct Result {
  Stats st;
  std::vector<std::string> samples;
  std::vector<Violation> viol;
  bool complete = true;
  std::map<std::string, std::map<std::string, uint64_t>> per;
};

inline std::vector<int> parse_choices(const std::string& s) {
  std::vector<int> v;
  std::stringstream ss(s);
  std::string t;
  while (std::getline(ss, t, '.')) if (!t.empty()) v.push_back(std::stoi(t));
  return v;
}

/// re-runs a case alone in a fresh process. 0 ok, 1 fails, 2 crash, 3 timeout
inline int replay_alone(const Scenario& s, const std::vector<int>& choices, int timeout, std::string& msg, std::string& desc) {
  int p[2];
  if (pipe(p)) return 2;
  std::fflush(nullptr);
  auto* sh = static_cast<Shared*>(mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
  pid_t pid = fork();
  if (pid == 0) {
    close(p[0]);
    if (timeout > 0) alarm(timeout);
    process_init()();
    Stats st;
    Case c;
    c.pre = choices; c.replay = true; c.st = &st; c.sh = sh;
    std::string r = run_case(s, c);
    if (r == "\1skip") r = "";
    write_all(p[1], r);
    close(p[1]);
    std::_Exit(r.empty() ? 0 : 1);
  }
  close(p[1]);
  msg.clear();
  char buf[4096];
  ssize_t k;
  while ((k = read(p[0], buf, sizeof buf)) > 0) msg.append(buf, k);
  close(p[0]);
  int status = 0;
  waitpid(pid, &status, 0);
  desc = sh->desc;
  munmap(sh, sizeof(Shared));
  if (WIFEXITED(status) && WEXITSTATUS(status) <= 1) return WEXITSTATUS(status);
  if (WIFSIGNALED(status) && WTERMSIG(status) == SIGALRM) { msg = "hang: no result in " + std::to_string(timeout) + " s"; return 3; }
  msg = WIFSIGNALED(status) ? std::string("crash: ") + strsignal(WTERMSIG(status))
                            : "process ended with code " + std::to_string(WEXITSTATUS(status));
  return 2;
}

inline bool advance(std::vector<int>& ch, const std::vector<int>& ar) {
  while (!ch.empty()) {
    std::size_t i = ch.size() - 1;
    if (ch[i] + 1 < ar[i]) { ++ch[i]; return true; }
    ch.pop_back();
  }
  return false;
}

/// explores the scenario in worker w, from `start`
inline void worker(const Scenario& s, int w, int W, std::vector<int> start, Shared* sh, int fd, const Options& o, double deadline) {
  process_init()();
  Stats st;
  std::vector<int> pre = std::move(start);
  std::vector<std::string> out;
  int nviol = 0, nsamp = 0;
  auto now = [] { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); };
  bool complete = true;
  uint64_t ticks = 0;
  for (;;) {
    Case c;
    c.pre = pre; c.w = w; c.W = W; c.st = &st; c.sh = sh;
    sh->n = 0; sh->desc[0] = 0;
    alarm(o.case_timeout);
    std::string r = run_case(s, c);
    alarm(0);
    if (r == "\1skip") {
    } else {
      ++st.leaves;
      uint64_t h = hash_str(s.name);
      for (int x : c.ch) h = mix(h * 31 + x + 1);
      if (c.desc.empty()) st.outcomes.size();
      if (!r.empty()) {
        write_all(fd, "V\t" + id_of("", c.ch).substr(1) + "\t" + one_line(c.desc, 1500) + "\t" + one_line(r, 1500) + "\n");
        if (++nviol >= 200) { complete = false; break; }
      } else if (nsamp < 2 && !c.desc.empty() && (st.leaves & 15) == 1) {
        ++nsamp;
        write_all(fd, "S\t" + id_of(s.name, c.ch) + " " + one_line(c.desc, 300) + "\n");
      }
    }
    pre = c.ch;
    if (!advance(pre, c.ar)) break;
    if ((++ticks & 15) == 0 && now() > deadline) { complete = false; break; }
  }
  std::string o2 = "R\t" + std::to_string(st.leaves) + "\t" + std::to_string(st.transitions) + "\t" +
                   std::to_string(st.checks) + "\t" + std::to_string(complete) + "\n";
  for (auto& [k, v] : st.counters) o2 += "C\t" + k + "\t" + std::to_string(v) + "\n";
  std::string bin;
  for (uint64_t x : st.states) o2 += "T\t" + std::to_string(x) + "\n";
  for (uint64_t x : st.outcomes) o2 += "O\t" + std::to_string(x) + "\n";
  o2 += "E\n";
  write_all(fd, o2);
  close(fd);
  std::_Exit(0);
}

inline int main_impl(int argc, char** argv, const std::string& prop) {
  Options o;
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    auto next = [&] { return i + 1 < argc ? std::string(argv[++i]) : std::string(); };
    if (a == "--jobs") o.jobs = std::stoi(next());
    else if (a == "--out") o.out = next();
    else if (a == "--replay") o.replay = next();
    else if (a == "--only") o.only = next();
    else if (a == "--budget") o.budget = std::stoi(next());
    else if (a == "--case-timeout") o.case_timeout = std::stoi(next());
    else if (a == "-v") o.verbose = true;
  }
  signal(SIGPIPE, SIG_IGN);
  if (!o.replay.empty()) {
    auto k = o.replay.find('/');
    std::string sc = o.replay.substr(0, k);
    for (auto& s : scenarios())
      if (s.name == sc) {
        std::string msg, desc;
        int r = replay_alone(s, parse_choices(o.replay.substr(k + 1)), 600, msg, desc);
        std::cout << "case " << o.replay << "\n" << desc << "\n" << (r ? "FAILS: " + msg : "holds") << std::endl;
        return r ? 1 : 0;
      }
    std::cerr << "no scenario " << sc << "\n";
    return 2;
  }
  auto now = [] { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); };
  const double t0 = now(), deadline = t0 + o.budget;
  Result res;
  for (auto& s : scenarios()) {
    if (!o.only.empty() && s.name.find(o.only) == std::string::npos) continue;
    const double ts = now();
    Stats stot;
    bool complete = true;
    int crashes = 0;
    struct W { pid_t pid; int fd; Shared* sh; std::string buf; bool ended = false; };
    std::vector<W> ws(o.jobs);
    auto launch = [&](int w, std::vector<int> start) {
      int p[2];
      if (pipe(p)) std::exit(2);
      std::fflush(nullptr);
      ws[w].sh->n = 0;
      pid_t pid = fork();
      if (pid == 0) {
        close(p[0]);
        for (auto& x : ws) if (&x != &ws[w] && x.fd > 0) close(x.fd);
        worker(s, w, o.jobs, start, ws[w].sh, p[1], o, deadline);
      }
      close(p[1]);
      ws[w].pid = pid; ws[w].fd = p[0]; ws[w].ended = false; ws[w].buf.clear();
    };
    for (int w = 0; w < o.jobs; ++w) {
      ws[w].fd = 0;
      ws[w].sh = static_cast<Shared*>(mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    }
    for (int w = 0; w < o.jobs; ++w) launch(w, {});
    std::vector<Violation> raw;
    auto line = [&](W& w, const std::string& l) {
      std::vector<std::string> f;
      std::stringstream ss(l);
      std::string t;
      while (std::getline(ss, t, '\t')) f.push_back(t);
      if (f.empty()) return;
      if (f[0] == "V") raw.push_back({s.name + "/" + (f.size() > 1 ? f[1] : ""), f.size() > 2 ? f[2] : "", f.size() > 3 ? f[3] : ""});
      else if (f[0] == "S") { if (res.samples.size() < 40) res.samples.push_back(f[1]); }
      else if (f[0] == "R") { stot.leaves += std::stoull(f[1]); stot.transitions += std::stoull(f[2]); stot.checks += std::stoull(f[3]); if (f[4] == "0") complete = false; }
      else if (f[0] == "C") stot.counters[f[1]] += std::stoull(f[2]);
      else if (f[0] == "T") stot.states.insert(std::stoull(f[1]));
      else if (f[0] == "O") stot.outcomes.insert(std::stoull(f[1]));
      else if (f[0] == "E") w.ended = true;
    };
    int live = o.jobs;
    while (live > 0) {
      std::vector<pollfd> ps;
      std::vector<int> wi;
      for (int w = 0; w < o.jobs; ++w) if (ws[w].fd > 0) { ps.push_back({ws[w].fd, POLLIN, 0}); wi.push_back(w); }
      if (poll(ps.data(), ps.size(), 1000) < 0) continue;
      for (std::size_t k = 0; k < ps.size(); ++k) {
        if (!(ps[k].revents & (POLLIN | POLLHUP))) continue;
        W& w = ws[wi[k]];
        char buf[1 << 16];
        ssize_t n = read(w.fd, buf, sizeof buf);
        if (n > 0) {
          w.buf.append(buf, n);
          std::size_t p = 0, q;
          while ((q = w.buf.find('\n', p)) != std::string::npos) { line(w, w.buf.substr(p, q - p)); p = q + 1; }
          w.buf.erase(0, p);
          continue;
        }
        close(w.fd);
        w.fd = 0;
        int status = 0;
        waitpid(w.pid, &status, 0);
        if (w.ended) { --live; continue; }
        // died in a case: report it, go on after it
        std::vector<int> ch(w.sh->choice, w.sh->choice + w.sh->n), ar(w.sh->arity, w.sh->arity + w.sh->n);
        std::string why = WIFSIGNALED(status)
            ? (WTERMSIG(status) == SIGALRM ? "hang" : std::string("crash: ") + strsignal(WTERMSIG(status)))
            : "process ended with code " + std::to_string(WEXITSTATUS(status));
        if (WIFEXITED(status) && WEXITSTATUS(status) == 97) { std::cerr << "explorer diverged in " << id_of(s.name, ch) << "\n"; return 2; }
        raw.push_back({id_of(s.name, ch), w.sh->desc, why});
        if (++crashes >= 24 || !advance(ch, ar)) { if (crashes >= 24) complete = false; --live; continue; }
        launch(wi[k], ch);
      }
    }
    for (auto& w : ws) munmap(w.sh, sizeof(Shared));
    // replay before report (smallest case ids first)
    std::sort(raw.begin(), raw.end(), [](auto& a, auto& b) { return std::make_pair(a.id.size(), a.id) < std::make_pair(b.id.size(), b.id); });
    int confirmed = 0;
    for (auto& v : raw) {
      if (confirmed >= 60) break;
      std::string msg, desc;
      int r = replay_alone(s, parse_choices(v.id.substr(v.id.find('/') + 1)), v.msg == "hang" ? 3 * o.case_timeout : 2 * o.case_timeout, msg, desc);
      if (r == 0) { stot.counters["unconfirmed"]++; std::cerr << "not reproduced alone: " << v.id << " " << v.msg << "\n"; continue; }
      v.msg = one_line(msg, 1500);
      v.desc = one_line(desc.empty() ? v.desc : desc, 1500);
      v.confirmed = true;
      ++confirmed;
      res.viol.push_back(v);
    }
    stot.counters["raw_violations"] += raw.size();
    auto& per = res.per[s.name];
    per["executions"] = stot.leaves; per["transitions"] = stot.transitions; per["comparisons"] = stot.checks;
    per["states"] = stot.states.size(); per["distinct_outcomes"] = stot.outcomes.size(); per["complete"] = complete;
    for (auto& [k, v] : stot.counters) if (v) per[k] = v;
    std::cerr << prop << " " << s.name << ": executions=" << stot.leaves << " states=" << stot.states.size() << " transitions=" << stot.transitions
              << " comparisons=" << stot.checks << " outcomes=" << stot.outcomes.size() << (complete ? "" : " INCOMPLETE") << " violations=" << raw.size();
    for (auto& [k, v] : stot.counters) if (v && k != "raw_violations") std::cerr << " " << k << "=" << v;
    std::cerr << " [" << now() - ts << " s]" << std::endl;
    res.complete = res.complete && complete;
    res.st.leaves += stot.leaves; res.st.transitions += stot.transitions; res.st.checks += stot.checks;
    res.st.execs += stot.states.size();
    res.st.outcomes.insert(stot.outcomes.begin(), stot.outcomes.end());
  }
  std::string j = "{\n \"states\": " + std::to_string(res.st.execs) + ",\n \"transitions\": " + std::to_string(res.st.transitions) +
      ",\n \"executions\": " + std::to_string(res.st.leaves) + ",\n \"comparisons\": " + std::to_string(res.st.checks) +
      ",\n \"distinct_outcomes\": " + std::to_string(res.st.outcomes.size()) + ",\n \"complete\": " + (res.complete ? "true" : "false") +
      ",\n \"wall\": " + std::to_string(now() - t0) + ",\n \"scenarios\": {";
  bool first = true;
  for (auto& [n, m] : res.per) {
    j += std::string(first ? "" : ",") + "\n  " + json_str(n) + ": {";
    first = false;
    bool f2 = true;
    for (auto& [k, v] : m) { j += std::string(f2 ? "" : ", ") + json_str(k) + ": " + std::to_string(v); f2 = false; }
    j += "}";
  }
  j += "\n },\n \"samples\": [";
  for (std::size_t i = 0; i < res.samples.size(); ++i) j += std::string(i ? "," : "") + "\n  " + json_str(res.samples[i]);
  j += "\n ],\n \"violations\": [";
  for (std::size_t i = 0; i < res.viol.size(); ++i)
    j += std::string(i ? "," : "") + "\n  {\"id\": " + json_str(res.viol[i].id) + ", \"desc\": " + json_str(res.viol[i].desc) + ", \"msg\": " + json_str(res.viol[i].msg) + "}";
  j += "\n ]\n}\n";
  if (!o.out.empty()) { std::ofstream f(o.out); f << j; }
  else std::cout << j;
  return 0;
}

}  // namespace vf

#define VF_CAT2(a, b) a##b
#define VF_CAT(a, b) VF_CAT2(a, b)
/// SCENARIO("name", c) { ... c.choose(n) ... }
#define SCENARIO(name, c)                                                         \
  static void VF_CAT(vf_body_, __LINE__)(vf::Case&);                              \
  static int VF_CAT(vf_reg_, __LINE__) = vf::add_scenario(name, VF_CAT(vf_body_, __LINE__)); \
  static void VF_CAT(vf_body_, __LINE__)([[maybe_unused]] vf::Case& c)
