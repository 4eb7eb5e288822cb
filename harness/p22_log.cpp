// P22: log objects under every history of opening, logging, copying, assigning, moving and destroying; and (PAR) on
// concurrent threads.
#include "trap.hpp"
#ifdef PAR
#include "sched.hpp"
#endif

#include <arc_utilities/log.hpp>
#include <unistd.h>

static std::string slurp(const std::string& f) {
  std::ifstream in(f);
  std::stringstream s;
  s << in.rdbuf();
  return s.str();
}
static bool header_line(const std::string& l) {
  int y, mo, d, h, mi, s, n = 0;
  return sscanf(l.c_str(), "%4d-%2d-%2d %2d:%2d:%2d%n", &y, &mo, &d, &h, &mi, &s, &n) == 6 && n == 19 && l.size() == 19;
}
#ifndef PAR
struct Slot {
  std::unique_ptr<Log::Log> log;
  int file = -1;  // -1: moved from
};
struct World {
  mc::Run& r;
  std::vector<std::string> names{"logs/deep/x.log", "y.log", "logs/z.log"};
  std::map<int, std::vector<std::string>> want;  // per file opened so far
  Slot slot[3];
  std::string done;
  int messages = 0;
  void check(bool at_end) {
    for (size_t f = 0; f < names.size(); f++) {
      const std::string got = slurp(names[f]);
      if (!want.count((int)f)) {
        if (access(names[f].c_str(), F_OK) == 0 && f != 2) r.fail(mc::cat("file ", names[f], " appeared:", done));
        if (f == 2 && got != "not a log\n") r.fail(mc::cat("another file changed:", done));
        continue;
      }
      std::string text = got, expect;
      for (auto& l : want[(int)f]) {
        if (l == "<header>") {
          const size_t e = text.find('\n');
          if (e == std::string::npos || !header_line(text.substr(0, e))) r.fail(mc::cat("no header in ", got, " after", done));
          text = text.substr(e + 1);
        } else {
          expect += l + "\n";
        }
      }
      if (text != expect) r.fail(mc::cat(names[f], " holds \"", got, "\", logged \"", expect, "\" after", done, at_end ? " and closing" : ""));
    }
  }
  void say(int k) {
    const std::string m = mc::cat("m", messages++, std::string((size_t)(messages % 3) * 4, '+'));
    done += mc::cat(" log", k);
    switch (messages % 3) {
      case 0: slot[k].log->logMessage(m); break;
      case 1: ARC_LOG(*slot[k].log, m); break;
      case 2: ARC_LOG_STREAM(*slot[k].log, "m" << m.substr(1)); break;
    }
    if (slot[k].file >= 0) want[slot[k].file].push_back(m);
  }
  ~World() {
    for (auto& s : slot) s.log.reset();
    boost::filesystem::remove_all("logs");
    unlink("y.log");
  }
};
static void history(mc::Run& r, int length, int slots, int files, bool headers) {
  World w{r};
  boost::filesystem::create_directories("logs");
  std::ofstream("logs/z.log") << "not a log\n";
  for (int i = 0; i < length; i++) {
    struct Op { int kind, a, b; };
    std::vector<Op> ops;
    int fresh = -1;
    for (int k = slots - 1; k >= 0; k--)
      if (!w.slot[k].log) fresh = k;
    if (fresh >= 0)
      for (int f = 0; f < files; f++)
        for (int h = 0; h <= (int)headers; h++) ops.push_back({0 + 10 * h, fresh, f});
    for (int k = 0; k < slots; k++) {
      if (!w.slot[k].log) continue;
      ops.push_back({1, k, 0});
      ops.push_back({2, k, 0});
      if (w.slot[k].file < 0) continue;  // what a copy of a moved-from log refers to is not defined
      if (fresh >= 0) ops.push_back({3, fresh, k}), ops.push_back({4, fresh, k});
      for (int d = 0; d < slots; d++)
        if (w.slot[d].log) ops.push_back({5, d, k}), ops.push_back({6, d, k});
    }
    const Op op = ops[(size_t)r.choose((int)ops.size(), "operation")];
    Slot& a = w.slot[op.a];
    Slot& b = w.slot[op.kind % 10 >= 3 ? op.b : 0];
    r.step();
    switch (op.kind) {
      case 0:
      case 10:
        w.done += mc::cat(" ", op.a, "=open(", op.b, op.kind ? ",header)" : ")");
        if (op.kind)
          a.log.reset(new Log::Log(w.names[(size_t)op.b], true));
        else
          a.log.reset(new Log::Log(w.names[(size_t)op.b]));
        a.file = op.b;
        w.want[op.b].clear();
        if (op.kind) w.want[op.b].push_back("<header>");
        break;
      case 1: w.say(op.a); break;
      case 2:
        w.done += mc::cat(" destroy", op.a);
        a.log.reset();
        break;
      case 3:
        w.done += mc::cat(" ", op.a, "=copy(", op.b, ")");
        a.log.reset(new Log::Log(*b.log));
        a.file = b.file;
        break;
      case 4:
        w.done += mc::cat(" ", op.a, "=move(", op.b, ")");
        a.log.reset(new Log::Log(std::move(*b.log)));
        a.file = b.file;
        b.file = -1;
        break;
      case 5:
        w.done += mc::cat(" ", op.a, ":=", op.b);
        *a.log = *b.log;
        a.file = b.file;
        break;
      case 6: {
        w.done += mc::cat(" ", op.a, ":=move ", op.b);
        Log::Log& src = *b.log;
        *a.log = std::move(src);
        const int f = b.file;
        if (op.a != op.b) b.file = -1;
        a.file = f;
        break;
      }
    }
    w.check(false);
  }
  r.note([&] { return w.done; });
  for (int round = 0; round < 2; round++)
    for (int k = 0; k < slots; k++)
      if (w.slot[k].log) w.say(k);
  w.check(false);
  std::string st;
  for (int k = 0; k < slots; k++) st += w.slot[k].log ? mc::cat(w.slot[k].file, " ") : std::string("- ");
  for (auto& f : w.want) st += mc::cat(f.first, ":", f.second.size(), " ");
  for (auto& s : w.slot) s.log.reset();
  w.check(true);
  r.state(st);
}
MC_SCENARIO(histories, "every history of up to 5 (thorough 6) operations on 2 log objects and 2 files (with and without parent folder): open, log, destroy, copy, move, both assignments (also to itself); files read back after each, then all objects log in turn", 3) {
  history(r, 1 + r.choose(r.bound(5, 6), "length"), 2, 2, true);
}
MC_SCENARIO(three_objects, "every history of 5 (thorough 6) operations on 3 objects", 2) { history(r, r.bound(5, 6), 3, 2, false); }
MC_SCENARIO(one_file, "every history of 6 (thorough 7) operations on 2 objects sharing one file", 2) { history(r, r.bound(6, 7), 2, 1, false); }
MC_SCENARIO(text, "every message of up to 4 characters over {letter, newline, zero byte, percent, high byte}, and numbers with 12 digits: written unchanged", 2) {
  std::string m;
  const int n = r.choose(5, "length");
  for (int i = 0; i < n; i++) m += r.pick(std::vector<char>{'a', '\n', '\0', '%', '\xe9'});
  const double x = r.pick(std::vector<double>{0.1, 1234567.890123, -1e-7, 3.0});
  {
    Log::Log l("t.log");
    l.logMessage(m);
    ARC_LOG(l, x);
    ARC_LOG_STREAM(l, m << " " << x << "!");
    ARC_LOG_COND(l, x > 1, "big");
    ARC_LOG_COND_STREAM(l, x < 0, "neg" << x);
  }
  std::ostringstream num;
  num << std::setprecision(12) << x;
  const std::string want = m + "\n" + num.str() + "\n" + m + " " + num.str() + "!\n" + (x > 1 ? "big\n" : "") + (x < 0 ? "neg" + num.str() + "\n" : "");
  r.step();
  const std::string got = slurp("t.log");
  unlink("t.log");
  if (got != want) r.fail(mc::cat("logged \"", want, "\", the file holds \"", got, "\""));
  r.state(want);
}
MC_SCENARIO(unopenable, "files that cannot be opened are refused with an exception: a directory, and a name below a file", 1) {
  const int which = r.choose(2, "what");
  boost::filesystem::create_directories("folder");
  std::ofstream("plain") << "x";
  bool refused = false;
  try {
    Log::Log l(which ? "plain/x.log" : "folder");
  } catch (const std::exception&) {
    refused = true;
  }
  r.step();
  if (!refused) r.fail("a log was opened on something that is not a file");
  if (slurp("plain") != "x") r.fail("another file changed");
  boost::filesystem::remove_all("folder");
  unlink("plain");
  r.state(mc::cat(which));
}
#else
static void threads(mc::Run& r, int n, int each, bool copies, int preemptions) {
  sched::Scope s(r, preemptions, 1);
  {
    Log::Log a("c.log");
    std::vector<std::unique_ptr<Log::Log>> own;
    for (int t = 0; t < n; t++) own.emplace_back(copies && t ? new Log::Log(a) : nullptr);
    std::vector<std::function<void()>> bodies;
    for (int t = 0; t < n; t++)
      bodies.push_back([&, t] {
        for (int i = 0; i < each; i++) {
          (own[(size_t)t] ? *own[(size_t)t] : a).logMessage(mc::cat("t", t, ".", i, std::string((size_t)(t * 3), '#')));
          sched::yield("between");
        }
      });
    sched::run_threads(bodies);
  }
  const std::string got = slurp("c.log");
  unlink("c.log");
  std::vector<int> next((size_t)n, 0);
  std::istringstream in(got);
  std::string line;
  int lines = 0;
  while (std::getline(in, line)) {
    int t = -1, i = -1, used = 0;
    if (sscanf(line.c_str(), "t%d.%d%n", &t, &i, &used) != 2 || t < 0 || t >= n || line != mc::cat("t", t, ".", i, std::string((size_t)(t * 3), '#')) || i != next[(size_t)t]++)
      r.fail(mc::cat("messages of concurrent threads are mixed up: \"", got, "\""));
    lines++;
  }
  if (lines != n * each || got.back() != '\n') r.fail(mc::cat("messages of concurrent threads are missing: \"", got, "\""));
  r.step();
  r.state(got);
}
MC_SCENARIO(concurrent, "2 threads with 1-2 messages and 3 threads with 1 message on one log: every schedule with up to 2 (thorough 4) pre-emptions", 2) {
  const int n = 2 + r.choose(2, "threads");
  threads(r, n, n == 2 ? 1 + r.choose(2, "messages") : 1, false, r.bound(2, 4));
}
MC_SCENARIO(concurrent_copies, "2-3 threads, each logging to its own copy of one log: every schedule with up to 2 (thorough 3) pre-emptions", 2) {
  const int n = 2 + r.choose(2, "threads");
  threads(r, n, n == 2 ? 2 : 1, true, r.bound(2, 3));
}
#endif
