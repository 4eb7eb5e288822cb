// Bounded exhaustive explorer: stateless depth-first enumeration of every sequence of choices a scenario makes.
//
// A scenario is a function of an mc::Run. Every nondeterministic decision (operation, argument, input shape, callback
// answer, schedule, fault) goes through Run::choose(n); the explorer re-executes the scenario once per leaf of the
// resulting choice tree. Executions run in worker processes, so an assertion failure, a crash, a sanitizer report or
// a hang inside the code under test is attributed to the exact choice sequence that caused it.
#ifndef VERIF_MC_HPP
#define VERIF_MC_HPP

#include <fcntl.h>
#include <poll.h>
#include <signal.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/types.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#include <algorithm>
#include <cmath>
#include <fstream>
#include <functional>
#include <iostream>
#include <limits>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <unordered_set>
#include <vector>

namespace mc {

struct Violation {
  std::string msg;
  std::string key;  // identifies the specific failing input, for the known-findings file
};
struct Skip {};
struct Prune {};

inline uint64_t mix(uint64_t h, uint64_t v) {
  h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2);
  h ^= h >> 29;
  h *= 0xbf58476d1ce4e5b9ull;
  return h ^ (h >> 32);
}
inline uint64_t hash_bytes(const void* p, size_t n, uint64_t h = 1469598103934665603ull) {
  const unsigned char* c = (const unsigned char*)p;
  for (size_t i = 0; i < n; i++) {
    h ^= c[i];
    h *= 1099511628211ull;
  }
  return mix(h, n);
}
inline uint64_t hash_str(const std::string& s) { return hash_bytes(s.data(), s.size()); }

template <typename T>
std::string str(const std::vector<T>& v);
template <typename A, typename B>
std::string str(const std::pair<A, B>& p);
template <typename T>
inline std::string str(const T& v) {
  std::ostringstream o;
  o.precision(17);
  o << v;
  return o.str();
}
inline std::string str(const std::vector<uint8_t>& v) {
  std::ostringstream o;
  o << "[";
  for (size_t i = 0; i < v.size(); i++) o << (i ? " " : "") << (int)v[i];
  o << "]";
  return o.str();
}
template <typename T>
inline std::string str(const std::vector<T>& v) {
  std::ostringstream o;
  o.precision(17);
  o << "[";
  for (size_t i = 0; i < v.size(); i++) o << (i ? " " : "") << str(v[i]);
  o << "]";
  return o.str();
}
template <typename A, typename B>
inline std::string str(const std::pair<A, B>& p) {
  return "(" + str(p.first) + "," + str(p.second) + ")";
}
template <typename... Ts>
struct Cat;
template <>
struct Cat<> {
  static void go(std::string&) {}
};
template <typename T, typename... Ts>
struct Cat<T, Ts...> {
  static void go(std::string& s, const T& t, const Ts&... ts) {
    s += str(t);
    Cat<Ts...>::go(s, ts...);
  }
};
// Numbers of another order of magnitude, or that differ little: all exact in binary, so that sums still compare exactly.
struct Scale {
  double offset, unit;
  double operator()(double x) const { return offset + unit * x; }
};
template <typename... Ts>
inline std::string cat(const Ts&... ts) {
  std::string s;
  Cat<Ts...>::go(s, ts...);
  return s;
}

struct Slot {  // shared with the parent
  volatile uint64_t executions;
  volatile uint64_t heartbeat;
  volatile int len;
  volatile int chosen[6000];
  char what[2000];  // last operation noted, for crash reports
};

class Run {
 public:
  // ----- used by scenarios
  int choose(int n, const char* label = "") {
    if (n <= 0) fail(std::string("harness error: empty choice ") + label);
    if (slot) slot->heartbeat = slot->heartbeat + 1;
    if (n == 1) return 0;
    if (pos >= part_depth && !part_checked) check_partition();
    int c;
    if (pos < script.size()) {
      c = script[pos];
      if (c >= n) throw std::logic_error(cat("replay diverged: choice ", (int)pos, " (", label, ") has ", n,
                                             " options, script says ", c));
      if (pos < sizes.size() && sizes[pos] != n)
        throw std::logic_error(cat("nondeterminism: choice ", (int)pos, " (", label, ") had ", sizes[pos],
                                   " options, now ", n));
    } else {
      c = 0;
    }
    if (pos < chosen.size()) {
      chosen[pos] = c;
    } else {
      chosen.push_back(c);
    }
    if (pos < sizes.size()) {
      sizes[pos] = n;
    } else {
      sizes.push_back(n);
    }
    if (slot && pos < 6000) {
      slot->chosen[pos] = c;
      slot->len = (int)pos + 1;
    }
    pos++;
    if (pos >= part_depth && !part_checked) check_partition();
    if (tracing && label[0]) trace.push_back(std::string(label) + "=" + str(c) + "/" + str(n));
    return c;
  }
  bool flip(const char* label = "") { return choose(2, label) == 1; }
  // A choice whose option 0 is the default; at most `bound` departures from defaults per execution.
  int deviate(int n, int bound, const char* label = "") {
    if (deviations >= bound) return 0;
    int c = choose(n, label);
    if (c) deviations++;
    return c;
  }
  Scale scale() {
    static const Scale S[] = {{0, 1.0 / (1ull << 40)}, {0, 1.0 * (1ull << 40)}, {1, 1.0 / (1ull << 40)}};
    return S[choose(3, "tiny / huge / nearly equal")];
  }
  template <typename T>
  const T& pick(const std::vector<T>& v, const char* label = "") {
    return v[(size_t)choose((int)v.size(), label)];
  }
  void step() { transitions++; }
  void state(uint64_t h) {
    h = mix(h, scenario_hash);
    states->insert(h);
  }
  void state(const std::string& s) { state(hash_str(s)); }
  template <typename F>
  void note(F f) {
    if (tracing) trace.push_back(f());
  }
  // Explicit-state pruning: true if this canonical state was already expanded with at least as much remaining depth.
  // A state met while re-executing the choices that lead to a new branch is an ancestor of it and is never cut off.
  bool seen(uint64_t h, int remaining) {
    h = mix(h, scenario_hash);
    states->insert(h);
    if (pos < script.size() || replay_mode) return false;
    auto it = expanded->find(h);
    if (it != expanded->end() && it->second >= remaining) return true;
    (*expanded)[h] = remaining;
    return false;
  }
  [[noreturn]] void fail(const std::string& msg, const std::string& key = "") { throw Violation{msg, key}; }
  bool thorough() const { return is_thorough; }
  int bound(int quick, int thorough_) const { return is_thorough ? thorough_ : quick; }

  // ----- explorer internals
  void check_partition() {
    part_checked = true;
    std::vector<int> p(chosen.begin(), chosen.begin() + (long)std::min(pos, chosen.size()));
    if (parts > 1 && !replay_mode) {
      if (!have_last || p != last_prefix) {
        prefix_id++;
        have_last = true;
        last_prefix = p;
      }
      if ((prefix_id - 1) % parts != part) throw Skip();
    }
  }
  std::vector<int> script, chosen, sizes;
  size_t pos = 0;
  size_t part_depth = 0;
  bool part_checked = false, have_last = false, replay_mode = false;
  std::vector<int> last_prefix;
  uint64_t prefix_id = 0, parts = 1, part = 0;
  int deviations = 0;
  bool tracing = false, is_thorough = false;
  std::vector<std::string> trace;
  uint64_t transitions = 0, scenario_hash = 0;
  std::unordered_set<uint64_t>* states = nullptr;
  std::map<uint64_t, int>* expanded = nullptr;
  Slot* slot = nullptr;
};

struct Scenario {
  std::string name;
  std::string what;  // alphabet / bound / oracle, in one line
  std::function<void(Run&)> fn;
  int part_depth = 1;    // number of leading choices used to split the tree over worker processes
  bool isolate = false;  // one forked process per execution (for process-wide state)
  bool thorough_only = false;
};

inline std::vector<Scenario>& registry() {
  static std::vector<Scenario> r;
  return r;
}
struct Register {
  Register(const std::string& n, const std::string& w, std::function<void(Run&)> f, int pd = 1, bool iso = false,
           bool thorough_only = false) {
    registry().push_back(Scenario{n, w, f, pd, iso, thorough_only});
  }
};

#define MC_CAT2(a, b) a##b
#define MC_CAT(a, b) MC_CAT2(a, b)
#define MC_SCENARIO_X(name, what, pd, iso, tho)                                              \
  static void MC_CAT(scn_, name)(mc::Run&);                                                  \
  static mc::Register MC_CAT(reg_, name)(#name, what, MC_CAT(scn_, name), pd, iso, tho);     \
  static void MC_CAT(scn_, name)(mc::Run & r)
#define MC_SCENARIO(name, what, pd) MC_SCENARIO_X(name, what, pd, false, false)

#define MC_CHECK(cond, msg)                                                               \
  do {                                                                                    \
    if (!(cond)) r.fail(mc::cat("[", #cond, "] ", msg));                                  \
  } while (0)

inline double now_s() {
  struct timespec ts;
  clock_gettime(CLOCK_MONOTONIC, &ts);
  return (double)ts.tv_sec + 1e-9 * (double)ts.tv_nsec;
}

inline std::string jstr(const std::string& s) {
  std::string o = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') {
      o += '\\';
      o += (char)c;
    } else if (c < 32 || c > 126) {
      char b[8];
      snprintf(b, sizeof b, "\\u%04x", c);
      o += b;
    } else {
      o += (char)c;
    }
  }
  return o + "\"";
}

struct ExecOutcome {
  enum Kind { Ok, Skipped, Failed, Error } kind = Ok;
  std::string msg, key;
};

struct Options {
  std::string out, dir = ".", replay, only;
  std::set<std::string> known;
  bool thorough = false;
  int jobs = 8;
  double cap_s = 780, hang_s = 20;
};

class Main {
 public:
  Options opt;

  ExecOutcome exec_once(const Scenario& sc, Run& run) {
    run.pos = 0;
    run.part_checked = false;
    run.deviations = 0;
    run.trace.clear();
    if (run.slot) run.slot->len = 0;
    ExecOutcome out;
    try {
      sc.fn(run);
      if (!run.part_checked) run.check_partition();
    } catch (const Violation& v) {
      out.kind = ExecOutcome::Failed;
      out.msg = v.msg;
      out.key = v.key;
    } catch (const Skip&) {
      out.kind = ExecOutcome::Skipped;
    } catch (const Prune&) {
    } catch (const std::logic_error& e) {
      std::string w = e.what();
      if (w.compare(0, 15, "replay diverged") == 0 || w.compare(0, 14, "nondeterminism") == 0) {
        out.kind = ExecOutcome::Error;
        out.msg = w;
      } else {
        out.kind = ExecOutcome::Failed;
        out.msg = "unexpected exception: " + w;
      }
    } catch (const std::exception& e) {
      out.kind = ExecOutcome::Failed;
      out.msg = std::string("unexpected exception: ") + e.what();
    }
    run.chosen.resize(std::min(run.pos, run.chosen.size()));
    run.sizes.resize(run.chosen.size());
    return out;
  }

  // Runs one execution in a forked child with tracing; returns true if it failed (msg filled in).
  bool replay_once(const Scenario& sc, const std::vector<int>& script, std::string& msg, std::string& key,
                   std::vector<std::string>& trace, double limit) {
    char path[] = "/tmp/mcrepXXXXXX";
    int fd = mkstemp(path);
    close(fd);
    char epath[] = "/tmp/mcrerXXXXXX";
    int efd = mkstemp(epath);
    pid_t pid = fork();
    if (pid == 0) {
      dup2(efd, 2);
      dup2(efd, 1);
      struct rlimit rl = {0, 0};
      setrlimit(RLIMIT_CORE, &rl);
      std::unordered_set<uint64_t> st;
      std::map<uint64_t, int> ex;
      Run run;
      run.states = &st;
      run.expanded = &ex;
      run.script = script;
      run.replay_mode = true;
      run.tracing = true;
      run.is_thorough = opt.thorough;
      run.scenario_hash = hash_str(sc.name);
      ExecOutcome o = exec_once(sc, run);
      std::ofstream f(path);
      f << (int)o.kind << "\n";
      std::string m = o.msg + "\x1f" + o.key;
      std::replace(m.begin(), m.end(), '\n', '\x1e');
      f << m << "\n";
      for (auto t : run.trace) {
        std::replace(t.begin(), t.end(), '\n', ' ');
        f << t << "\n";
      }
      f.close();
      _exit(0);
    }
    close(efd);
    double t0 = now_s();
    int status = 0;
    bool hung = false;
    while (waitpid(pid, &status, WNOHANG) == 0) {
      if (now_s() - t0 > limit) {
        kill(pid, SIGKILL);
        waitpid(pid, &status, 0);
        hung = true;
        break;
      }
      usleep(1000);
    }
    bool failed = false;
    trace.clear();
    std::ifstream ef(epath);
    std::string etext((std::istreambuf_iterator<char>(ef)), std::istreambuf_iterator<char>());
    if (etext.size() > 3000) etext = etext.substr(0, 3000);
    if (hung) {
      failed = true;
      msg = cat("execution did not terminate within ", limit, " s");
    } else if (!WIFEXITED(status) || WEXITSTATUS(status) != 0) {
      failed = true;
      msg = cat("execution crashed (", WIFSIGNALED(status) ? "signal " : "exit status ",
                WIFSIGNALED(status) ? WTERMSIG(status) : WEXITSTATUS(status), "): ", etext);
    } else {
      std::ifstream f(path);
      int kind = 0;
      std::string l;
      std::getline(f, l);
      kind = atoi(l.c_str());
      std::getline(f, l);
      std::replace(l.begin(), l.end(), '\x1e', '\n');
      size_t p = l.find('\x1f');
      if (kind == ExecOutcome::Failed || kind == ExecOutcome::Error) {
        failed = true;
        msg = l.substr(0, p);
        key = p == std::string::npos ? "" : l.substr(p + 1);
      }
      while (std::getline(f, l)) trace.push_back(l);
    }
    unlink(path);
    unlink(epath);
    return failed;
  }

  struct Job {
    int scenario;
    int part, parts;
    pid_t pid = -1;
    Slot* slot = nullptr;
    uint64_t last_beat = 0;
    double last_t = 0;
    std::string file;
    int tries = 0;
    bool unreproduced = false;
    std::string seen_msg;
    std::vector<int> retry_skip;
  };

  static bool advance(Run& run, size_t floor_pos = 0) {
    std::vector<int> s = run.chosen;
    while (s.size() > floor_pos) {
      size_t i = s.size() - 1;
      if (s[i] + 1 < run.sizes[i]) {
        s[i]++;
        run.script = s;
        run.sizes.resize(s.size());
        return true;
      }
      s.pop_back();
      run.sizes.resize(s.size());
    }
    return false;
  }

  void worker(Job& job, double deadline) {
    struct rlimit rl = {0, 0};
    setrlimit(RLIMIT_CORE, &rl);
    int dn = open("/dev/null", O_WRONLY);
    dup2(dn, 1);
    int ef = open((job.file + ".err").c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
    dup2(dn, 2);
    (void)ef;
    mkdir((job.file + ".cwd").c_str(), 0755);  // workers run side by side: each has a directory of its own
    if (chdir((job.file + ".cwd").c_str()) != 0) _exit(3);
    const Scenario& sc = registry()[(size_t)job.scenario];
    std::unordered_set<uint64_t> st;
    std::map<uint64_t, int> ex;
    Run run;
    run.states = &st;
    run.expanded = &ex;
    run.is_thorough = opt.thorough;
    run.scenario_hash = hash_str(sc.name);
    run.part_depth = job.parts > 1 ? (size_t)sc.part_depth : 0;
    run.parts = (uint64_t)job.parts;
    run.part = (uint64_t)job.part;
    run.slot = job.slot;
    uint64_t execs = 0;
    size_t maxdepth = 0;
    bool capped = false;
    std::vector<std::vector<int>> samples;
    std::vector<int> last_run;
    std::string vmsg, vkey;
    std::vector<int> vscript;
    std::map<std::string, std::vector<int>> known_hits;
    int code = 0;
    uint64_t next_sample = 1;
    while (true) {
      ExecOutcome o;
      if (!sc.isolate) {
        o = exec_once(sc, run);
      } else {
        o = exec_isolated(sc, run);
      }
      if (o.kind != ExecOutcome::Skipped) {
        execs++;
        job.slot->executions = execs;
        maxdepth = std::max(maxdepth, run.chosen.size());
        last_run = run.chosen;
        if (execs == next_sample) {
          samples.push_back(run.chosen);
          next_sample *= 10;
        }
      }
      if (o.kind == ExecOutcome::Error) {
        vmsg = o.msg;
        vscript = run.chosen;
        code = 4;
        break;
      }
      if (o.kind == ExecOutcome::Failed) {
        if (!o.key.empty() && opt.known.count(o.key)) {
          known_hits[o.key] = run.chosen;
        } else {
          vmsg = o.msg;
          vkey = o.key;
          vscript = run.chosen;
          code = 3;
          break;
        }
      }
      bool more;
      if (o.kind == ExecOutcome::Skipped) {
        // jump over the whole prefix
        run.chosen.resize(std::min(run.chosen.size(), run.part_depth));
        run.sizes.resize(run.chosen.size());
        more = advance(run);
      } else {
        more = advance(run);
      }
      if (!more) break;
      if ((execs & 63) == 0 && now_s() > deadline) {
        capped = true;
        break;
      }
    }
    if (!last_run.empty()) samples.push_back(last_run);
    std::ofstream f(job.file);
    f << execs << " " << run.transitions << " " << maxdepth << " " << (capped ? 1 : 0) << "\n";
    f << samples.size() << "\n";
    for (auto& s : samples) {
      f << s.size();
      for (int c : s) f << " " << c;
      f << "\n";
    }
    f << vscript.size();
    for (int c : vscript) f << " " << c;
    f << "\n";
    std::string m = vmsg + "\x1f" + vkey;
    std::replace(m.begin(), m.end(), '\n', '\x1e');
    f << m << "\n";
    f << known_hits.size() << "\n";
    for (auto& k : known_hits) f << k.first << "\n";
    f.close();
    std::ofstream sf(job.file + ".states", std::ios::binary);
    for (uint64_t h : st) sf.write((const char*)&h, 8);
    sf.close();
    _exit(code);
  }

  // one execution in its own process; the child streams its choices and results through shared memory
  ExecOutcome exec_isolated(const Scenario& sc, Run& run) {
    struct Sh {
      int kind;
      int len;
      int chosen[6000];
      int sizes[6000];
      uint64_t transitions;
      int nstates;
      uint64_t states[4096];
      int prefix_valid;
      int prefix_len;
      uint64_t prefix_id;
      int last_prefix[64];
      char msg[4000];
      char key[500];
    };
    static Sh* sh = nullptr;
    if (!sh) sh = (Sh*)mmap(nullptr, sizeof(Sh), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    // decide the partition in the child as well; transfer the bookkeeping back
    sh->kind = -1;
    sh->len = 0;
    sh->nstates = 0;
    pid_t pid = fork();
    if (pid == 0) {
      run.states->clear();
      run.transitions = 0;
      ExecOutcome o = exec_once(sc, run);
      sh->len = (int)std::min<size_t>(run.chosen.size(), 6000);
      for (int i = 0; i < sh->len; i++) {
        sh->chosen[i] = run.chosen[(size_t)i];
        sh->sizes[i] = run.sizes[(size_t)i];
      }
      sh->transitions = run.transitions;
      int k = 0;
      for (uint64_t h : *run.states) {
        if (k >= 4096) break;
        sh->states[k++] = h;
      }
      sh->nstates = k;
      sh->prefix_id = run.prefix_id;
      sh->prefix_valid = run.have_last;
      sh->prefix_len = (int)std::min<size_t>(run.last_prefix.size(), 64);
      for (int i = 0; i < sh->prefix_len; i++) sh->last_prefix[i] = run.last_prefix[(size_t)i];
      strncpy(sh->msg, o.msg.c_str(), sizeof(sh->msg) - 1);
      sh->msg[sizeof(sh->msg) - 1] = 0;
      strncpy(sh->key, o.key.c_str(), sizeof(sh->key) - 1);
      sh->key[sizeof(sh->key) - 1] = 0;
      sh->kind = (int)o.kind;
      _exit(0);
    }
    int status = 0;
    waitpid(pid, &status, 0);
    ExecOutcome o;
    if (!WIFEXITED(status) || WEXITSTATUS(status) != 0 || sh->kind < 0) {
      // crash: reproduce it through the slot's record of choices
      run.chosen.clear();
      for (int i = 0; i < run.slot->len && i < 6000; i++) run.chosen.push_back((int)run.slot->chosen[i]);
      o.kind = ExecOutcome::Failed;
      o.msg = cat("execution crashed, status ", status);
      return o;
    }
    o.kind = (ExecOutcome::Kind)sh->kind;
    o.msg = sh->msg;
    o.key = sh->key;
    run.chosen.assign(sh->chosen, sh->chosen + sh->len);
    run.sizes.assign(sh->sizes, sh->sizes + sh->len);
    run.transitions += sh->transitions;
    for (int i = 0; i < sh->nstates; i++) run.states->insert(sh->states[i]);
    run.prefix_id = sh->prefix_id;
    run.have_last = sh->prefix_valid != 0;
    run.last_prefix.assign(sh->last_prefix, sh->last_prefix + sh->prefix_len);
    return o;
  }

  struct Result {
    uint64_t execs = 0, transitions = 0, maxdepth = 0, states = 0;
    bool capped = false;
    std::vector<std::vector<int>> samples;
    double wall = 0;
  };

  int run_all() {
    double t0 = now_s();
    double deadline = t0 + opt.cap_s;
    std::vector<Job> pending, running;
    std::vector<Result> results(registry().size());
    std::vector<std::unordered_set<uint64_t>> states(registry().size());
    int nparts = opt.jobs;
    for (size_t s = 0; s < registry().size(); s++) {
      if (!opt.only.empty() && registry()[s].name != opt.only) continue;
      if (registry()[s].thorough_only && !opt.thorough) continue;
      int parts = registry()[s].part_depth > 0 ? nparts * 2 : 1;
      for (int p = 0; p < parts; p++) {
        Job j;
        j.scenario = (int)s;
        j.part = p;
        j.parts = parts;
        pending.push_back(j);
      }
    }
    // interleave: keep order
    std::reverse(pending.begin(), pending.end());
    int violations = 0;
    std::string vname, vmsg, vkey;
    std::vector<int> vscript;
    std::vector<std::string> vtrace;
    std::string harness_error;
    std::set<std::string> known_hits;
    int jobno = 0;
    std::vector<Slot*> free_slots;
    while ((!pending.empty() || !running.empty()) && violations == 0 && harness_error.empty()) {
      while (!pending.empty() && (int)running.size() < opt.jobs) {
        Job j = pending.back();
        pending.pop_back();
        if (!free_slots.empty()) {
          j.slot = free_slots.back();
          free_slots.pop_back();
        } else {
          j.slot = (Slot*)mmap(nullptr, sizeof(Slot), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
        }
        j.slot->executions = 0;
        j.slot->heartbeat = 0;
        j.slot->len = 0;
        j.slot->what[0] = 0;
        j.file = opt.dir + "/job" + std::to_string(jobno++);
        j.last_beat = 0;
        j.last_t = now_s();
        fflush(stdout);
        fflush(stderr);
        j.pid = fork();
        if (j.pid == 0) {
          setpgid(0, 0);
          worker(j, deadline);
          _exit(0);
        }
        running.push_back(j);
      }
      usleep(2000);
      for (size_t i = 0; i < running.size();) {
        Job& j = running[i];
        int status = 0;
        pid_t w = waitpid(j.pid, &status, WNOHANG);
        bool hang = false;
        if (w == 0) {
          if (j.slot->heartbeat + j.slot->executions != j.last_beat) {
            j.last_beat = j.slot->heartbeat + j.slot->executions;
            j.last_t = now_s();
          } else if (now_s() - j.last_t > opt.hang_s) {
            kill(-j.pid, SIGKILL);
            kill(j.pid, SIGKILL);
            waitpid(j.pid, &status, 0);
            hang = true;
          }
          if (!hang) {
            i++;
            continue;
          }
        }
        Job done = j;
        running.erase(running.begin() + (long)i);
        const Scenario& sc = registry()[(size_t)done.scenario];
        Result& R = results[(size_t)done.scenario];
        if (!hang && WIFEXITED(status) && (WEXITSTATUS(status) == 0 || WEXITSTATUS(status) == 3 ||
                                           WEXITSTATUS(status) == 4)) {
          std::ifstream f(done.file);
          if (!f) {
            harness_error = "missing worker output for " + sc.name;
            break;
          }
          uint64_t e, t, d;
          int cap;
          f >> e >> t >> d >> cap;
          R.execs += e;
          R.transitions += t;
          R.maxdepth = std::max<uint64_t>(R.maxdepth, d);
          R.capped = R.capped || cap;
          size_t ns;
          f >> ns;
          for (size_t k = 0; k < ns; k++) {
            size_t n;
            f >> n;
            std::vector<int> s(n);
            for (auto& c : s) f >> c;
            if (R.samples.size() < 6 || k + 1 == ns) R.samples.push_back(s);
          }
          size_t vn;
          f >> vn;
          std::vector<int> vs(vn);
          for (auto& c : vs) f >> c;
          std::string l;
          std::getline(f, l);
          std::getline(f, l);
          std::replace(l.begin(), l.end(), '\x1e', '\n');
          size_t p = l.find('\x1f');
          size_t nk = 0;
          f >> nk;
          std::getline(f, vname);
          vname.clear();
          for (size_t k = 0; k < nk; k++) {
            std::string ks;
            std::getline(f, ks);
            known_hits.insert(ks);
          }
          std::ifstream sf(done.file + ".states", std::ios::binary);
          uint64_t h;
          while (sf.read((char*)&h, 8)) states[(size_t)done.scenario].insert(h);
          unlink(done.file.c_str());
          unlink((done.file + ".states").c_str());
          unlink((done.file + ".err").c_str());
          if (WEXITSTATUS(status) == 0 && done.unreproduced) {
            // never lose a violation that was seen once
            harness_error = sc.name + ": a violation was seen once in part " + str(done.part) + "/" + str(done.parts) +
                            " and did not come back: " + done.seen_msg;
          }
          if (WEXITSTATUS(status) == 4) {
            harness_error = sc.name + ": " + l.substr(0, p);
          } else if (WEXITSTATUS(status) == 3) {
            std::string m1, k1, m2, k2;
            std::vector<std::string> tr;
            bool f1 = replay_once(sc, vs, m1, k1, tr, opt.hang_s * 2);
            bool f2 = f1 && replay_once(sc, vs, m2, k2, tr, opt.hang_s * 2);
            if (f1 && f2) {
              violations = 1;
              vname = sc.name;
              vmsg = m2;
              vkey = l.substr(p + 1);
              vscript = vs;
              vtrace = tr;
            } else if (done.tries < 1) {
              // process history matters (e.g. static state): the failing history is the whole partition
              Job again = done;
              again.tries++;
              again.unreproduced = true;
              again.seen_msg = l.substr(0, p);
              pending.push_back(again);
            } else {
              violations = 1;
              vname = sc.name;
              vmsg = l.substr(0, p) + "  (reproduced twice as part of a sequence of executions in one process: part " +
                     str(done.part) + "/" + str(done.parts) + ")";
              vkey = l.substr(p + 1);
              vscript = vs;
            }
          }
        } else {
          std::vector<int> vs;
          for (int k = 0; k < done.slot->len && k < 6000; k++) vs.push_back((int)done.slot->chosen[k]);
          std::string m1, k1, m2, k2;
          std::vector<std::string> tr;
          bool f1 = replay_once(sc, vs, m1, k1, tr, opt.hang_s * 2);
          bool f2 = f1 && replay_once(sc, vs, m2, k2, tr, hang ? 5 : opt.hang_s * 2);
          if (f1 && f2) {
            violations = 1;
            vname = sc.name;
            vmsg = m1;
            vscript = vs;
            vtrace = tr;
          } else if (done.tries < 2) {
            Job again = done;
            again.tries++;
            pending.push_back(again);
          } else if (!hang) {
            violations = 1;
            vname = sc.name;
            vmsg = cat("worker process crashed three times in part ", done.part, "/", done.parts,
                       " (wait status ", status, ")");
            vscript = vs;
          } else {
            harness_error = sc.name + ": hang not reproducible in isolation";
          }
        }
        free_slots.push_back(done.slot);
        if (violations || !harness_error.empty()) break;
      }
    }
    for (auto& j : running) {
      kill(-j.pid, SIGKILL);
      kill(j.pid, SIGKILL);
      int st;
      waitpid(j.pid, &st, 0);
    }
    // samples
    std::ostringstream o;
    o << "{\n\"wall_s\": " << now_s() - t0 << ",\n\"violations\": " << violations << ",\n";
    if (!harness_error.empty()) o << "\"error\": " << jstr(harness_error) << ",\n";
    if (violations) {
      o << "\"violation\": {\"scenario\": " << jstr(vname) << ", \"message\": " << jstr(vmsg)
        << ", \"key\": " << jstr(vkey) << ", \"script\": [";
      for (size_t i = 0; i < vscript.size(); i++) o << (i ? "," : "") << vscript[i];
      o << "], \"trace\": [";
      for (size_t i = 0; i < vtrace.size() && i < 400; i++) o << (i ? ",\n" : "") << jstr(vtrace[i]);
      o << "]},\n";
    }
    o << "\"known_hits\": [";
    bool first = true;
    for (auto& k : known_hits) {
      o << (first ? "" : ",") << jstr(k);
      first = false;
    }
    o << "],\n\"scenarios\": [\n";
    first = true;
    for (size_t s = 0; s < registry().size(); s++) {
      const Scenario& sc = registry()[s];
      Result& R = results[s];
      if (!opt.only.empty() && sc.name != opt.only) continue;
      if (sc.thorough_only && !opt.thorough) continue;
      o << (first ? "" : ",\n") << "{\"name\": " << jstr(sc.name) << ", \"what\": " << jstr(sc.what)
        << ", \"executions\": " << R.execs << ", \"transitions\": " << R.transitions
        << ", \"states\": " << states[s].size() << ", \"max_choices\": " << R.maxdepth
        << ", \"capped\": " << (R.capped ? "true" : "false") << ", \"samples\": [";
      first = false;
      bool f2 = true;
      int cnt = 0;
      if (!violations && harness_error.empty()) {
        std::vector<std::vector<int>> pickv;
        if (!R.samples.empty()) pickv.push_back(R.samples[R.samples.size() / 2]);
        if (R.samples.size() > 1) pickv.push_back(R.samples.back());
        for (auto& sm : pickv) {
          if (cnt++ >= 2) break;
          std::string m, k;
          std::vector<std::string> tr;
          bool bad = replay_once(sc, sm, m, k, tr, opt.hang_s);
          o << (f2 ? "" : ",") << "{\"script\": [";
          f2 = false;
          for (size_t i = 0; i < sm.size() && i < 60; i++) o << (i ? "," : "") << sm[i];
          o << "], \"outcome\": " << jstr(bad ? m : "held") << ", \"trace\": [";
          for (size_t i = 0; i < tr.size() && i < 25; i++) o << (i ? "," : "") << jstr(tr[i].substr(0, 300));
          o << "]}";
        }
      }
      o << "]}";
    }
    o << "]\n}\n";
    std::ofstream f(opt.out);
    f << o.str();
    f.close();
    if (!harness_error.empty()) {
      std::cout << "HARNESS-ERROR " << harness_error << std::endl;
      return 2;
    }
    return violations ? 1 : 0;
  }

  int run_replay() {
    // file: scenario name, then the choices
    std::ifstream f(opt.replay);
    std::string name;
    f >> name;
    std::vector<int> s;
    int c;
    while (f >> c) s.push_back(c);
    for (auto& sc : registry()) {
      if (sc.name != name) continue;
      std::string m, k;
      std::vector<std::string> tr;
      bool bad = replay_once(sc, s, m, k, tr, opt.hang_s);
      for (auto& l : tr) std::cout << "  " << l << "\n";
      std::cout << (bad ? "FAILED: " + m : "held") << std::endl;
      return bad ? 1 : 0;
    }
    std::cout << "no scenario " << name << std::endl;
    return 2;
  }
};

inline int main_(int argc, char** argv) {
  Main m;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    auto next = [&]() { return std::string(argv[++i]); };
    if (a == "--out") m.opt.out = next();
    else if (a == "--dir") m.opt.dir = next();
    else if (a == "--replay") m.opt.replay = next();
    else if (a == "--only") m.opt.only = next();
    else if (a == "--jobs") m.opt.jobs = atoi(next().c_str());
    else if (a == "--cap") m.opt.cap_s = atof(next().c_str());
    else if (a == "--known") m.opt.known.insert(next());
    else if (a == "--hang") m.opt.hang_s = atof(next().c_str());
    else if (a == "--thorough") m.opt.thorough = true;
  }
  if (!m.opt.replay.empty()) return m.run_replay();
  return m.run_all();
}
}  // namespace mc

#ifndef MC_NO_MAIN
int main(int argc, char** argv) { return mc::main_(argc, argv); }
#endif

#endif
