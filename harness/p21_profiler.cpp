// P21: profiler and stopwatches under every call history, against plain lists; time is moved by the harness.
#include "trap.hpp"

#include "fakeclock.hpp"
#include <limits>
#include <stdexcept>
#include <arc_utilities/timing.hpp>
#include <fcntl.h>
#include <fstream>
#include <unistd.h>

using arc_utilities::Profiler;

static std::string slurp(const std::string& f) {
  std::ifstream in(f);
  std::stringstream s;
  s << in.rdbuf();
  return s.str();
}
template <class F>
static std::string printed(F f) {
  fflush(stdout);
  std::cout.flush();
  const int saved = dup(1), fd = open("printed.txt", O_RDWR | O_CREAT | O_TRUNC, 0600);
  dup2(fd, 1);
  f();
  fflush(stdout);
  std::cout.flush();
  dup2(saved, 1);
  close(saved);
  close(fd);
  return slurp("printed.txt");
}
struct Series {
  std::vector<double> data;
  std::vector<std::pair<double, double>> timed;
  bool has_data = false, has_timed = false, started = false;
  int64_t since = 0;
};
struct Model {
  mc::Run& r;
  std::string tag;
  std::map<std::string, Series> s;
  double elapsed(const std::string& n) { return (double)(fakeclock::now_ns - s[n].since) * 1e-9; }
};
// numbers after the name on every line that starts with it
static std::vector<std::vector<double>> lines_of(const std::string& text, const std::string& name) {
  std::vector<std::vector<double>> out;
  std::istringstream in(text);
  std::string line;
  while (std::getline(in, line)) {
    if (line.compare(0, name.size(), name) != 0 || line.size() == name.size() || line[name.size()] != ' ') continue;
    std::istringstream l(line.substr(name.size()));
    std::vector<double> v;
    std::string w;
    while (l >> w) v.push_back(atof(w.c_str()));
    out.push_back(v);
  }
  return out;
}
static bool near(const std::vector<double>& a, const std::vector<double>& b) {
  if (a.size() != b.size()) return false;
  for (size_t i = 0; i < a.size(); i++)
    if (!(std::fabs(a[i] - b[i]) < 1e-5 + 1e-5 * std::fabs(b[i]))) return false;  // six digits are printed
  return true;
}
static void check_group(Model& m, const char* what, const std::string& text, const std::string& name, const Series& s, bool values) {
  auto rows = lines_of(text, name);
  if (rows.size() != 1) m.r.fail(mc::cat(what, " has ", rows.size(), " lines for ", name, ":\n", text));
  double tot = 0, val = 0;
  const bool timed = values && s.has_timed && !s.has_data;
  const size_t n = timed ? s.timed.size() : s.data.size();
  for (double d : s.data) tot += d;
  if (timed)
    for (auto& t : s.timed) {
      tot += t.first;
      val += t.second;
    }
  std::vector<double> want{tot, (double)n}, got = rows[0];
  if (n) want.push_back(tot / (double)n);
  if (timed) {
    want.push_back(val);
    want.push_back(val / (double)n);
  }
  if (!n && got.size() == 3) got.pop_back();  // average of nothing
  if (!near(got, want)) m.r.fail(mc::cat(what, " shows ", mc::str(rows[0]), " for ", name, ", expected ", mc::str(want)));
}
static void check_all(Model& m, bool files) {
  for (auto& e : m.s) {
    const auto got = Profiler::getData(e.first);
    if (!near(got, e.second.data)) m.r.fail(mc::cat("data of ", e.first, " is ", mc::str(got), ", recorded ", mc::str(e.second.data)));
  }
  if (!Profiler::getData(m.tag + "unknown").empty()) m.r.fail("data for a name never used");
  if (!files) return;
  // one name
  for (auto& e : m.s) {
    const std::string text = printed([&] { Profiler::printSingleSummary(e.first); });
    if (text.find("|| " + e.first + " ||") == std::string::npos) m.r.fail("summary without its name: " + text);
    if (e.second.data.empty()) {
      if (text.find("never called") == std::string::npos) m.r.fail(mc::cat("summary of nothing: ", text));
      continue;
    }
    double tot = 0, lo = 1e300, hi = -1e300;
    for (double d : e.second.data) {
      tot += d;
      lo = std::min(lo, d);
      hi = std::max(hi, d);
    }
    auto field = [&](const char* label) {
      const size_t p = text.find(label);
      if (p == std::string::npos) m.r.fail(mc::cat("summary lacks ", label, ": ", text));
      return atof(text.c_str() + p + strlen(label));
    };
    if (!near({field("total time : "), field("called "), field("min time   : "), field("max time   : "), field("average    : ")},
              {tot, (double)e.second.data.size(), lo, hi, tot / (double)e.second.data.size()}))
      m.r.fail(mc::cat("summary of ", mc::str(e.second.data), " is\n", text));
  }
  // groups
  std::vector<std::string> names{m.tag + "unused", "~~~~~~"};
  for (auto& e : m.s) names.push_back(e.first);
  Series none;
  const std::string shown = printed([&] { Profiler::printGroupSummary(names); });
  unlink("group.txt");
  unlink("all.txt");
  unlink("few.txt");
  unlink("sum.txt");
  std::string said = printed([&] { Profiler::writeGroupSummary("group.txt", names); });
  const std::string group = slurp("group.txt");
  check_group(m, "printed summary", shown, m.tag + "unused", none, false);
  check_group(m, "written summary", group, m.tag + "unused", none, true);
  for (auto& e : m.s) {
    check_group(m, "printed summary", shown, e.first, e.second, false);
    if (!(e.second.has_data && e.second.has_timed)) check_group(m, "written summary", group, e.first, e.second, true);
  }
  said = printed([&] {
    Profiler::printAllSummary();
    Profiler::writeAllSummary("sum.txt");
  });
  const std::string sum = slurp("sum.txt");
  for (auto& e : m.s) {
    const size_t want = e.second.has_data || e.second.has_timed;
    if (lines_of(sum, e.first).size() != want) m.r.fail(mc::cat("summary of everything lists ", e.first, " ", lines_of(sum, e.first).size(), " times"));
    if (lines_of(said, e.first).size() != want) m.r.fail(mc::cat("printed summary of everything lists ", e.first, " ", lines_of(said, e.first).size(), " times"));
    if (want && !(e.second.has_data && e.second.has_timed)) check_group(m, "summary of everything", sum, e.first, e.second, true);
  }
  // everything, and short series only; files are appended to
  Profiler::writeAll("all.txt");
  const std::string all = slurp("all.txt");
  Profiler::writeAll("all.txt", 2);
  const std::string both = slurp("all.txt");
  if (both.compare(0, all.size(), all) != 0) m.r.fail("writing a second time damaged the file");
  const std::string few = both.substr(all.size());
  for (auto& e : m.s)
    for (int limited = 0; limited < 2; limited++) {
      std::vector<std::vector<double>> want;
      if (!limited || e.second.data.size() < 2)
        for (double d : e.second.data) want.push_back({d});
      if (!limited || e.second.timed.size() < 2)
        for (auto& t : e.second.timed) want.push_back({t.first, t.second});
      auto got = lines_of(limited ? few : all, e.first);
      bool ok = got.size() == want.size();
      for (size_t i = 0; ok && i < got.size(); i++) ok = near(got[i], want[i]);
      if (!ok) m.r.fail(mc::cat(limited ? "limited " : "", "dump of ", e.first, " is wrong: ", limited ? few : all, " expected lines ", want.size()));
    }
}
static int g_run = 0;
static void history(mc::Run& r, int length, int names, bool query_op) {
  fakeclock::Scope clock;
  Profiler::reset_and_preallocate(0, 0);
  Model m{r, mc::cat("n", ++g_run, "_"), {}};
  std::vector<std::string> nm{m.tag + "a", m.tag + "a_longer_name", m.tag + "c"};
  for (int k = 0; k < names; k++) m.s[nm[(size_t)k]] = Series();
  std::string log;
  const char* const ops[] = {"start", "record", "recordDouble", "addData", "reset"};
  for (int i = 0; i < length; i++) {
    fakeclock::advance(0.5 * (1 << i));
    const int op = r.choose(5 * names + 2 + query_op, "operation");
    r.step();
    if (op < 5 * names) {
      const std::string& n = nm[(size_t)(op / 5)];
      Series& s = m.s[n];
      log += mc::cat(" ", ops[op % 5], op / 5);
      switch (op % 5) {
        case 0:
          PROFILE_START(n);
          s.started = true;
          s.since = fakeclock::now_ns;
          break;
        case 1: {
          bool refused = false;
          double got = -1;
          try { got = PROFILE_RECORD(n); } catch (const std::logic_error&) { refused = true; }
          if (refused == s.started) r.fail(mc::cat(refused ? "recording a started timer was refused:" : "recording a timer that was never started was accepted:", log));
          if (refused) break;
          if (std::fabs(got - m.elapsed(n)) > 1e-9) r.fail(mc::cat("recorded ", got, ", elapsed ", m.elapsed(n), ":", log));
          s.data.push_back(m.elapsed(n));
          s.has_data = true;
          break;
        }
        case 2: {
          const double v = -3.5 + i;
          const double want = s.started ? m.elapsed(n) : 0, got = PROFILE_RECORD_DOUBLE(n, v);
          if (std::fabs(got - want) > 1e-9) r.fail(mc::cat("value recorded at ", got, ", elapsed ", want, ":", log));
          s.timed.push_back({want, v});
          s.has_timed = true;
          break;
        }
        case 3:
          Profiler::addData(n, 100.25 + i);
          s.data.push_back(100.25 + i);
          s.has_data = true;
          break;
        case 4:
          PROFILE_RESET(n);
          if (s.has_data) {
            s.started = true;
            s.since = fakeclock::now_ns;
          }
          s.data.clear();
          s.timed.clear();
          s.has_timed = false;
          break;
      }
    } else if (op < 5 * names + 2) {
      const bool room = op - 5 * names;
      log += room ? " clear+room" : " clear";
      if (room)
        PROFILE_REINITIALIZE(2, 3)
      else
        PROFILE_REINITIALIZE(0, 0)
      for (auto& e : m.s) {
        e.second.data.clear();
        e.second.timed.clear();
        e.second.has_data = e.second.has_timed = false;
      }
    } else {
      log += " queries";
      check_all(m, true);
    }
    check_all(m, false);
  }
  r.note([&] { return log; });
  check_all(m, true);
  std::string st;
  for (auto& e : m.s) st += mc::cat(mc::str(e.second.data), mc::str(e.second.timed), e.second.started, e.second.has_data, e.second.has_timed);
  r.state(st);
}
MC_SCENARIO(histories, "every history of up to 4 (thorough 5) of: start, record, value, datum, reset (2 names), clear with or without preallocation, all queries; then all queries, summaries and files", 2) {
  history(r, 1 + r.choose(r.bound(4, 5), "length"), 2, true);
}
MC_SCENARIO(one_name, "every history of 5 (thorough 6) operations on one name, then all queries", 2) { history(r, r.bound(5, 6), 1, true); }
MC_SCENARIO(three_names, "every history of 3 (thorough 4) operations on three names with preallocated room for two", 2) { history(r, r.bound(3, 4), 3, false); }
MC_SCENARIO(long_series, "series of 0..40 timings in two interleaved names with room preallocated for 0..3 names of 0..2 events", 2) {
  fakeclock::Scope clock;
  Profiler::reset_and_preallocate((size_t)r.choose(4, "names"), (size_t)r.choose(3, "events"));
  Model m{r, mc::cat("n", ++g_run, "_"), {}};
  const int n = r.choose(41, "count"), stride = 1 + r.choose(3, "interleaving");
  m.s[m.tag + "x"], m.s[m.tag + "y"];
  for (auto& e : m.s) {
    Profiler::startTimer(e.first);
    e.second.started = true;
    e.second.since = fakeclock::now_ns;
  }
  for (int i = 0; i < n; i++) {
    fakeclock::advance(0.25);
    const std::string name = m.tag + (i % (stride + 1) ? "x" : "y");
    Profiler::record(name);
    m.s[name].data.push_back(m.elapsed(name));
    m.s[name].has_data = true;
    r.step();
  }
  check_all(m, true);
  r.state(mc::cat(n, stride));
}
MC_SCENARIO(stopwatch, "every sequence of 6 (thorough 8) readings and restarts of two stopwatches and the global one", 2) {
  fakeclock::Scope clock;
  using namespace arc_utilities;
  Stopwatch a;
  fakeclock::advance(0.5);
  Stopwatch b;
  GlobalStopwatch(RESET);
  int64_t since[3] = {1000000000, 1500000000, 1500000000};
  for (int i = 0; i < r.bound(6, 8); i++) {
    fakeclock::advance(0.25 * (1 + i % 3));
    const int op = r.choose(6, "operation"), which = op % 3;
    const StopwatchControl c = op < 3 ? READ : RESET;
    const double want = c == RESET ? 0 : (double)(fakeclock::now_ns - since[which]) * 1e-9;
    const double got = which == 0 ? a(c) : which == 1 ? b(c) : GlobalStopwatch(c);
    if (std::fabs(got - want) > 1e-9) r.fail(mc::cat("stopwatch shows ", got, " after ", want));
    if (c == RESET) since[which] = fakeclock::now_ns;
    r.step();
  }
  r.state(mc::cat(since[0], " ", since[1], " ", since[2]));
}
MC_SCENARIO(unopenable, "results written to a file that cannot be opened, for every recorded content and way of writing", 2) {
  fakeclock::Scope clock;
  Profiler::reset_and_preallocate(0, 0);
  Model m{r, mc::cat("n", ++g_run, "_"), {}};
  const int n = r.choose(3, "timings"), data = r.choose(3, "data"), how = r.choose(3, "writer");
  const std::string path = r.pick(std::vector<std::string>{"missing/dir/out.txt", ".", ""}, "path");
  if (n) {
    const std::string name = m.tag + "x";
    Profiler::startTimer(name);
    m.s[name].started = true;
    m.s[name].since = fakeclock::now_ns;
    for (int i = 0; i < n; i++) {
      fakeclock::advance(0.25);
      Profiler::record(name);
      m.s[name].data.push_back(m.elapsed(name));
      m.s[name].has_data = true;
    }
  }
  for (int i = 0; i < data; i++) {
    Profiler::addData(m.tag + "y", 3.0 + i);
    m.s[m.tag + "y"].data.push_back(3.0 + i);
    m.s[m.tag + "y"].has_data = true;
  }
  std::vector<std::string> names;
  for (auto& e : m.s) names.push_back(e.first);
  bool refused = false;
  printed([&] {
    try {
      if (how == 0) Profiler::writeGroupSummary(path, names);
      if (how == 1) Profiler::writeAllSummary(path);
      if (how == 2) Profiler::writeAll(path);
    } catch (const std::exception&) {
      refused = true;
    }
  });
  if (!refused) r.fail(mc::cat("writing to \"", path, "\" claims success"));
  r.step();
  check_all(m, true);  // and what was recorded is still there
  r.state(mc::cat(n, data, how, path));
}
