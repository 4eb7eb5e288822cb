// P41: parameters, spinning and node set-up on the C++ side.
#include "trap.hpp"

#include <arc_utilities/ros_helpers.hpp>
#include <../src/roscpp_initializer.cpp>

typedef std::vector<std::string> Strings;

// ------------------------------------------------------------------ parameters
enum What { Missing, OtherType, Present };
static What state = Missing;
static std::string on_server;  // full name of the one parameter on the server
static int asked = 0;
template <class T>
static void serve(const T& value) {
  ros::stub_node() = ros::StubNode();
  asked = 0;
  ros::stub_log().clear();
  ros::stub_node().param = [value](const std::string& name, void* to, const std::type_info& t) {
    asked++;
    if (state != Present || name != on_server || t != typeid(T)) return false;
    if (to) *(T*)to = value;
    return true;
  };
}
template <class T>
static std::string show(const T& v) {
  std::ostringstream o;
  o << v;
  return o.str();
}
template <class T>
static std::string show(const std::vector<T>& v) {
  std::string s = "[";
  for (size_t i = 0; i < v.size(); i++) s += mc::cat(v[i], ";");
  return s + "]";
}
static bool mentions(const std::string& level, const std::string& text) {
  for (auto& l : ros::stub_log())
    if ((level.empty() || l.level == level) && l.text.find(text) != std::string::npos) return true;
  return false;
}
static bool any(const std::string& level) {
  for (auto& l : ros::stub_log())
    if (l.level == level) return true;
  return false;
}
template <class T>
static void scalar(mc::Run& r, const std::vector<T>& values) {
  const T stored = values[(size_t)r.choose((int)values.size(), "stored")], def = values[(size_t)r.choose((int)values.size(), "default")];
  state = (What)r.choose(3, "on the server");
  const Strings names = {"x", "long/parameter/name_that_is_longer_than_the_width_used_for_aligning_the_log_output"};
  const std::string name = r.pick(names), ns = r.flip("namespace") ? "/node" : "";
  on_server = state == OtherType ? ns + "/" + name + "_other" : ns + "/" + name;
  const ros::NodeHandle nh(ns);
  const bool have = state == Present;
  const T want = have ? stored : def;
  const std::string w = mc::cat(name, " stored ", have ? show(stored) : "nothing", ", default ", show(def), ": ");
  using namespace ROSHelpers;
  serve(stored);
  T got = GetParam<T>(nh, name, def);
  if (!(got == want)) r.fail(mc::cat(w, "GetParam returns ", show(got)));
  if (have != any("info") || have == any("warn") || !mentions(have ? "info" : "warn", name) || !mentions(have ? "info" : "warn", show(want)))
    r.fail(mc::cat(w, "GetParam does not report where the value comes from"));
  serve(stored);
  got = GetParam<T>(nh, name, T(def));
  if (!(got == want)) r.fail(mc::cat(w, "GetParam with a temporary returns ", show(got)));
  if (have != any("info") || have == any("warn") || !mentions("", show(want))) r.fail(mc::cat(w, "GetParam with a temporary does not report where the value comes from"));
  serve(stored);
  got = GetParamDebugLog<T>(nh, name, def);
  if (!(got == want)) r.fail(mc::cat(w, "GetParamDebugLog returns ", show(got)));
  if (any("info") || any("warn") || !mentions("debug", show(want))) r.fail(mc::cat(w, "GetParamDebugLog reports elsewhere"));
  serve(stored);
  got = GetParamDebugLog<T>(nh, name, T(def));
  if (!(got == want)) r.fail(mc::cat(w, "GetParamDebugLog with a temporary returns ", show(got)));
  if (any("info") || any("warn") || !mentions("debug", show(want))) r.fail(mc::cat(w, "GetParamDebugLog with a temporary reports elsewhere"));
  serve(stored);
  const Maybe::Maybe<T> o = GetParamOptional<T>(nh, name, "caller");
  if (o.Valid() != have || (have && !(o.GetImmutable() == stored))) r.fail(mc::cat(w, "GetParamOptional is wrong"));
  for (int quiet = 0; quiet < 2; quiet++) {
    serve(stored);
    std::string error;
    bool threw = false;
    try {
      got = quiet ? GetParamRequiredDebugLog<T>(nh, name, "caller_function") : GetParamRequired<T>(nh, name, "caller_function");
    } catch (const std::invalid_argument& e) {
      threw = true;
      error = e.what();
    }
    if (threw == have) r.fail(mc::cat(w, "GetParamRequired ", threw ? "throws" : "returns"));
    if (have && !(got == stored)) r.fail(mc::cat(w, "GetParamRequired returns ", show(got)));
    if (threw && (error.find(ns + "/" + name) == std::string::npos || error.find("caller_function") == std::string::npos)) r.fail(mc::cat(w, "the error does not name the parameter and the caller: ", error));
    if (threw != any("fatal")) r.fail(mc::cat(w, "a missing required parameter is not reported as fatal"));
    if (quiet && (any("info") || any("warn"))) r.fail(mc::cat(w, "GetParamRequiredDebugLog reports above debug"));
  }
  r.step();
  r.state(mc::cat(w, ns, state));
}
MC_SCENARIO(numbers, "double, int and bool parameters: every stored value and default from a list, present, absent or of another name, with and without namespace", 1) {
  switch (r.choose(3, "type")) {
    case 0: return scalar<double>(r, {0.0, -1.5, 1e300, 0.25});
    case 1: return scalar<int>(r, {0, -7, 2147483647});
    default: return scalar<bool>(r, {false, true});
  }
}
MC_SCENARIO(texts, "string parameters, including empty", 1) { scalar<std::string>(r, {"", "a", "value with spaces", "%s%n"}); }

MC_SCENARIO(vectors, "vector parameters of every length up to three, present or absent, for every default of length up to three", 1) {
  auto vec = [&](const char* l, double base) {
    std::vector<double> v;
    const int n = r.choose(4, l);
    for (int i = 0; i < n; i++) v.push_back(base + i * 0.5);
    return v;
  };
  const std::vector<double> stored = vec("stored", 1), def = vec("default", -7);
  state = (What)r.choose(3, "on the server");
  const std::string name = "joints", ns = r.flip("namespace") ? "/node" : "";
  on_server = state == OtherType ? ns + "/joint" : ns + "/" + name;
  const ros::NodeHandle nh(ns);
  const bool have = state == Present;
  const std::string w = mc::cat("stored ", have ? show(stored) : "nothing", ", default ", show(def), ": ");
  using namespace ROSHelpers;
  serve(stored);
  if (GetVector<double>(nh, name, def) != (have ? stored : def)) r.fail(mc::cat(w, "GetVector returns something else"));
  if (have != any("info") || have == any("warn")) r.fail(mc::cat(w, "GetVector does not report where the value comes from"));
  serve(stored);
  const auto o = GetVectorOptional<double>(nh, name, "caller");
  if (o.Valid() != have || (have && o.GetImmutable() != stored)) r.fail(mc::cat(w, "GetVectorOptional is wrong"));
  for (int quiet = 0; quiet < 2; quiet++) {
    serve(stored);
    bool threw = false;
    std::string error;
    std::vector<double> got;
    try {
      got = quiet ? GetVectorRequiredDebugLog<double>(nh, name, "caller_function") : GetVectorRequired<double>(nh, name, "caller_function");
    } catch (const std::invalid_argument& e) {
      threw = true;
      error = e.what();
    }
    if (threw == have || (have && got != stored)) r.fail(mc::cat(w, "GetVectorRequired is wrong"));
    if (threw && (error.find(ns + "/" + name) == std::string::npos || error.find("caller_function") == std::string::npos)) r.fail(mc::cat(w, "the error does not name the parameter and the caller: ", error));
    if (threw != any("fatal")) r.fail(mc::cat(w, "a missing required parameter is not reported as fatal"));
  }
  r.step();
  r.state(w + ns + mc::str((int)state));
}

// ------------------------------------------------------------------ spinning
MC_SCENARIO(spin, "ROS going down after every number of looks, messages arriving before every round, callbacks that shut ROS down: every arrival up to then is called, in order, and spinning ends", 1) {
  ros::stub_node() = ros::StubNode();
  ros::getGlobalCallbackQueue()->clear();
  const int rounds = r.choose(r.thorough() ? 7 : 5, "rounds before ROS goes down");
  std::vector<int> arrive;
  for (int i = 0; i < rounds; i++) arrive.push_back(r.choose(3, "arrivals"));
  const int killer = r.choose(4, "which callback shuts ROS down");  // 0: none
  const double period = r.flip("period") ? 0.01 : 2.5;
  int looks = 0, sent = 0, round = 0, called = 0;
  bool order = true, down = false, after = false;
  ros::stub_node().ok = [&] { return !down && looks++ < rounds; };
  ros::stub_queue_hooks() = ros::StubQueueHooks();
  ros::stub_queue_hooks().available = [&](double t) {
    if (t != period) r.fail(mc::cat("waits ", t, " s per round, asked for ", period));
    if (round > 100) r.fail("keeps spinning after ROS went down");
    if (down || round >= rounds) after = true;
    const int n = round < rounds ? arrive[(size_t)round] : 0;
    round++;
    for (int i = 0; i < n; i++) {
      const int id = ++sent;
      ros::getGlobalCallbackQueue()->add(1, 0, [&, id] {
        if (id != ++called) order = false;
        if (id == killer) down = true;
      });
    }
  };
  ROSHelpers::Spin(period);
  ros::stub_queue_hooks() = ros::StubQueueHooks();
  ros::stub_node() = ros::StubNode();
  const std::string w = mc::cat(rounds, " rounds, arrivals ", mc::str(arrive), ", killer ", killer);
  if (after) r.fail(w + ": a round begins after ROS went down");
  if (!order || called != sent) r.fail(mc::cat(w, ": ", called, " of ", sent, " callbacks called", order ? "" : ", out of order"));
  int expect = rounds, sum = 0;
  if (killer)
    for (int i = 0; i < rounds; i++) {
      sum += arrive[(size_t)i];
      if (sum >= killer) {
        expect = i + 1;
        break;
      }
    }
  if (round != expect) r.fail(mc::cat(w, ": spins ", round, " rounds, ROS was up for ", expect));
  r.step();
  r.state(w + mc::str(period));
}

// ------------------------------------------------------------------ node set-up
MC_SCENARIO(init_node, "every log level from -1 to 5 or none, every combination of the three options (given or left out), argument lists of length 0 to 3, then shutting down", 1) {
  ros::stub_node() = ros::StubNode();
  ros::console::stub_levels().clear();
  spinner.reset();
  pybind11::module_ m;
  stub_module_roscpp_initializer(m);
  if (!m.functions.count("init_node") || !m.functions.count("shutdown")) r.fail("the module does not export init_node and shutdown");
  using pybind11::StubValue;
  std::map<std::string, StubValue> kw;
  const std::string name = r.flip("name") ? "cpp_node" : "n";
  kw["name"] = StubValue::of(name);
  const int level = r.choose(8, "log level") - 1;  // 6: left out
  if (level < 6) kw["log_level"] = StubValue::of(level);
  bool opt[3];
  const char* on[] = {"anonymous", "disable_rosout", "disable_signals"};
  for (int i = 0; i < 3; i++) {
    const int c = r.choose(3, on[i]);
    opt[i] = c == 1;
    if (c < 2) kw[on[i]] = StubValue::of((bool)opt[i]);
  }
  const int n = r.choose(5, "arguments");  // 4: left out
  Strings argv;
  if (n < 4) {
    const char* words[] = {"program", "", "__name:=other with spaces"};
    for (int i = 0; i < n; i++) argv.push_back(words[i]);
    kw["argv"] = StubValue::of(argv);
  }
  std::string w = mc::cat("init_node(", name, ", level ", level, ", anonymous ", opt[0], ", disable_rosout ", opt[1], ", disable_signals ", opt[2], ", ", n, " arguments): ");
  bool refused = false;
  try {
    m.functions["init_node"](kw);
  } catch (const std::invalid_argument&) {
    refused = true;
  }
  const bool bad = level == -1 || level == 5;
  const auto& calls = ros::stub_node().calls;
  if (refused != bad) r.fail(w + (refused ? "refused" : "accepted"));
  if (bad) {
    if (!calls.empty() || !ros::stub_spinners().empty() || !ros::console::stub_levels().empty()) r.fail(w + "refused, but something was set up");
    r.step();
    r.state(w);
    return;
  }
  if (calls.size() != 1 || calls[0][0] != "init" || calls[0][1] != name) r.fail(w + "ROS is not initialised exactly once under the name");
  const uint32_t want = (opt[0] ? ros::init_options::AnonymousName : 0u) | (opt[1] ? ros::init_options::NoRosout : 0u) | (opt[2] ? ros::init_options::NoSigintHandler : 0u);
  if (calls[0][2] != std::to_string(want)) r.fail(mc::cat(w, "ROS is initialised with options ", calls[0][2], ", asked for ", want));
  if (Strings(calls[0].begin() + 3, calls[0].end()) != argv) r.fail(w + "ROS gets other arguments");
  const auto& lv = ros::console::stub_levels();
  const int lw = level == 6 ? 2 : level;
  if (lv.size() != 1 || (lv[0].first != name && lv[0].first != ROSCONSOLE_DEFAULT_NAME) || (int)lv[0].second != lw) r.fail(w + "the level asked for is not set once");
  if (ros::stub_spinners().size() != 1) r.fail(w + "not exactly one spinner");
  ros::AsyncSpinner* s = *ros::stub_spinners().begin();
  if (!s->running || s->threads != 1 || s->queue != ros::getGlobalCallbackQueue()) r.fail(w + "no running spinner of one thread on the global queue");
  r.step();
  m.functions["shutdown"]({});
  if (calls.size() != 2 || calls[1][0] != "shutdown" || ros::ok()) r.fail(w + "shutdown does not shut ROS down");
  spinner.reset();
  r.step();
  r.state(w);
}
