// P44: printed text shows exactly the contents.
#include "trap.hpp"

#include <arc_utilities/pretty_print.hpp>
#include <arc_utilities/moveit_ostream_operators.hpp>
#include <arc_utilities/text_color.hpp>

namespace pp = PrettyPrint;
typedef std::string Str;

// ------------------------------------------------------------------ reference rendering, by kind of container
template <class T>
static Str ref(const T& v, bool, const Str&) {
  std::ostringstream o;
  o << v;
  return o.str();
}
static Str ref(const bool& b, bool, const Str&) { return b ? "true" : "false"; }
static Str number(double v) {
  char b[64];
  snprintf(b, sizeof b, "%.12g", v);
  return b;
}
static Str ref(const Eigen::Vector3d& v, bool d, const Str&) {
  return d ? "Vector3d: <x: " + number(v(0)) + " y: " + number(v(1)) + " z: " + number(v(2)) + ">" : number(v(0)) + ", " + number(v(1)) + ", " + number(v(2));
}
template <class A, class B>
static Str ref(const std::pair<A, B>& p, bool d, const Str& s);
template <class T, class L>
static Str ref(const std::vector<T, L>& c, bool d, const Str& s);
template <class A, class B, class C, class L>
static Str ref(const std::map<A, B, C, L>& c, bool d, const Str& s);
template <class A, class B, class C, class P, class L>
static Str ref(const std::unordered_map<A, B, C, P, L>& c, bool d, const Str& s);
template <class T, class C, class L>
static Str ref(const std::set<T, C, L>& c, bool d, const Str& s);
template <class C>
static Str all(const C& c, bool d, const Str& s, const char* open, const char* close) {
  Str o;
  bool first = true;
  for (const auto& e : c) {
    o += (first ? "" : s) + ref(e, d, s);
    first = false;
  }
  return first ? "" : d ? open + o + close : o;
}
template <class A, class B>
static Str ref(const std::pair<A, B>& p, bool d, const Str& s) {
  return (d ? "<" : "") + ref(p.first, d, s) + ": " + ref(p.second, d, s) + (d ? ">" : "");
}
template <class T, class L>
static Str ref(const std::vector<T, L>& c, bool d, const Str& s) {
  return all(c, d, s, "[", "]");
}
template <class T, size_t N>
static Str ref(const std::array<T, N>& c, bool d, const Str& s) {
  return all(c, d, s, "[", "]");
}
template <class T, class L>
static Str ref(const std::list<T, L>& c, bool d, const Str& s) {
  return all(c, d, s, "[", "]");
}
template <class T, class L>
static Str ref(const std::deque<T, L>& c, bool d, const Str& s) {
  return all(c, d, s, "[", "]");
}
template <class A, class B, class C, class L>
static Str ref(const std::map<A, B, C, L>& c, bool d, const Str& s) {
  return all(c, d, s, "{", "}");
}
template <class A, class B, class C, class L>
static Str ref(const std::multimap<A, B, C, L>& c, bool d, const Str& s) {
  return all(c, d, s, "{", "}");
}
template <class A, class B, class C, class P, class L>
static Str ref(const std::unordered_map<A, B, C, P, L>& c, bool d, const Str& s) {
  return all(c, d, s, "{", "}");
}
template <class A, class B, class C, class P, class L>
static Str ref(const std::unordered_multimap<A, B, C, P, L>& c, bool d, const Str& s) {
  return all(c, d, s, "{", "}");
}
template <class T, class C, class L>
static Str ref(const std::set<T, C, L>& c, bool d, const Str& s) {
  return all(c, d, s, "(", ")");
}
template <class T, class C, class L>
static Str ref(const std::multiset<T, C, L>& c, bool d, const Str& s) {
  return all(c, d, s, "(", ")");
}
template <class T, class C, class P, class L>
static Str ref(const std::unordered_set<T, C, P, L>& c, bool d, const Str& s) {
  return all(c, d, s, "(", ")");
}
template <class T, class C, class P, class L>
static Str ref(const std::unordered_multiset<T, C, P, L>& c, bool d, const Str& s) {
  return all(c, d, s, "(", ")");
}
template <class T>
static void check(mc::Run& r, const char* what, const T& v, bool d, const Str& s, bool plain) {
  const Str want = ref(v, d, s), got = plain ? pp::PrettyPrint(v) : pp::PrettyPrint(v, d, s);
  if (got != want) r.fail(mc::cat(what, d ? " with" : " without", " delimiters, separator '", s, "' prints as '", got, "', its contents are '", want, "'"));
  r.step();
}
MC_SCENARIO(containers, "thirteen containers of every content of up to three (thorough: five) values from four, nested in each other, with and without delimiters, three separators and the defaults", 2) {
  const int n = r.choose(r.thorough() ? 6 : 4, "length");
  std::vector<int> x;
  for (int i = 0; i < n; i++) x.push_back(std::vector<int>{0, -7, 42, 1}[(size_t)r.choose(4, "value")]);
  const int f = r.choose(7, "format");
  const bool plain = f == 6, d = !plain && f >= 3;
  const Str s = plain ? ", " : std::vector<Str>{", ", "", " | "}[(size_t)(f % 3)];
  std::vector<double> xd(x.begin(), x.end());
  std::vector<bool> xb;
  std::vector<Str> xs;
  std::vector<std::pair<int, Str>> prs;
  for (int v : x) {
    xb.push_back(v != 0);
    xs.push_back(v == 0 ? "" : v == 1 ? "one, two" : mc::cat("s", v));
    prs.push_back({v, xs.back()});
  }
  for (double& v : xd) v /= 8;
  check(r, "vector", x, d, s, plain);
  check(r, "vector of doubles", xd, d, s, plain);
  check(r, "vector of bools", xb, d, s, plain);
  check(r, "vector of strings", xs, d, s, plain);
  check(r, "vector of pairs", prs, d, s, plain);
  check(r, "list", std::list<int>(x.begin(), x.end()), d, s, plain);
  check(r, "deque", std::deque<Str>(xs.begin(), xs.end()), d, s, plain);
  check(r, "map", std::map<int, Str>(prs.begin(), prs.end()), d, s, plain);
  check(r, "multimap", std::multimap<int, Str>(prs.begin(), prs.end()), d, s, plain);
  check(r, "unordered map", std::unordered_map<int, Str>(prs.begin(), prs.end()), d, s, plain);
  check(r, "unordered multimap", std::unordered_multimap<int, Str>(prs.begin(), prs.end()), d, s, plain);
  check(r, "set", std::set<int>(x.begin(), x.end()), d, s, plain);
  check(r, "multiset", std::multiset<int>(x.begin(), x.end()), d, s, plain);
  check(r, "unordered set", std::unordered_set<int>(x.begin(), x.end()), d, s, plain);
  check(r, "unordered multiset", std::unordered_multiset<int>(x.begin(), x.end()), d, s, plain);
  if (n == 3) check(r, "array", std::array<int, 3>{{x[0], x[1], x[2]}}, d, s, plain);
  if (n == 1) check(r, "array", std::array<Str, 1>{{xs[0]}}, d, s, plain);
  if (n == 1) check(r, "bool", (bool)xb[0], d, s, plain);
  if (n == 1) check(r, "number", xd[0], d, s, plain);
  // nested
  std::vector<std::vector<int>> vv;
  std::map<Str, std::vector<bool>> mv;
  std::vector<std::map<int, Str>> vm;
  std::map<int, std::map<int, std::set<int>>> mm;
  std::unordered_map<int, std::pair<int, std::vector<Str>>> um;
  std::vector<Eigen::Vector3d> ve;
  for (int i = 0; i < n; i++) {
    vv.push_back(std::vector<int>(x.begin(), x.begin() + i));
    mv[xs[(size_t)i]].push_back(i % 2);
    vm.push_back(std::map<int, Str>(prs.begin() + i, prs.end()));
    mm[i % 2][x[(size_t)i]].insert(i);
    um[x[(size_t)i]] = {i, std::vector<Str>(xs.begin(), xs.begin() + i)};
    ve.push_back(Eigen::Vector3d(i, xd[(size_t)i], 1.0 / 3));
  }
  check(r, "vector of vectors", vv, d, s, plain);
  check(r, "map of vectors of bools", mv, d, s, plain);
  check(r, "vector of maps", vm, d, s, plain);
  check(r, "map of maps of sets", mm, d, s, plain);
  check(r, "unordered map of pairs", um, d, s, plain);
  check(r, "vector of points", ve, d, s, plain);
  r.state(mc::cat(mc::str(x), f));
}
MC_SCENARIO(forward_lists, "forward lists of up to four values", 1) {
  std::forward_list<int> l;
  std::vector<int> x;
  const int n = r.choose(5, "length");
  for (int i = 0; i < n; i++) {
    x.push_back(r.choose(3, "value"));
  }
  l.assign(x.begin(), x.end());
  const bool d = r.flip("delimiters");
  const Str want = ref(x, d, " | ");
  const Str got = pp::PrettyPrint(l, d, " | ");
  if (got != want) r.fail(mc::cat("forward list prints as ", got));
  r.step();
  r.state(want + mc::str((int)d));
}

// ------------------------------------------------------------------ numbers in Eigen types
static bool numbers(const Str& t, std::vector<double>& out) {  // the numbers of a text, skipping words (Vector3d)
  size_t i = 0;
  while (i < t.size()) {
    if (isalpha((unsigned char)t[i]) && t.compare(i, 3, "inf") && t.compare(i, 3, "nan")) {
      while (i < t.size() && isalnum((unsigned char)t[i])) i++;
      continue;
    }
    if (isdigit((unsigned char)t[i]) || t[i] == '-' || t[i] == 'i' || t[i] == 'n') {
      char* e;
      out.push_back(strtod(t.c_str() + i, &e));
      if (e == t.c_str() + i) return false;
      i = (size_t)(e - t.c_str());
    } else i++;
  }
  return true;
}
static bool close12(double a, double b) { return (a != a && b != b) || a == b || std::fabs(a - b) <= 1e-11 * std::fabs(b); }
static void shows(mc::Run& r, const char* what, const Str& text, const std::vector<double>& want, int lines = 1) {
  std::vector<double> got;
  bool ok = numbers(text, got) && got.size() == want.size();
  for (size_t i = 0; ok && i < got.size(); i++) ok = close12(got[i], want[i]);
  if (!ok) r.fail(mc::cat(what, " prints as '", text, "', its numbers are ", mc::str(want)));
  if (lines != 1 + std::count(text.begin(), text.end(), '\n')) r.fail(mc::cat(what, " prints on another number of lines than ", lines, ": ", text));
  r.step();
}
static const std::vector<double> NUM = {0.0, -1.5, 1.0 / 3, 123456789.012, -1e-300, 1e300, std::numeric_limits<double>::infinity()};
MC_SCENARIO(eigen, "vectors of two to four numbers, vectors and matrices of every small size, quaternions and transforms, with and without delimiters: every number, in order, to twelve digits", 2) {
  const bool d = r.flip("delimiters");
  const int kind = r.choose(6, "kind");
  Str w;
  if (kind < 3) {
    std::vector<double> v;
    for (int i = 0; i < kind + 2; i++) v.push_back(r.pick(NUM));
    Str t;
    if (kind == 0) t = pp::PrettyPrint(Eigen::Vector2d(v[0], v[1]), d, " ");
    if (kind == 1) t = pp::PrettyPrint(Eigen::Vector3d(v[0], v[1], v[2]), d, " ");
    if (kind == 2) t = pp::PrettyPrint(Eigen::Vector4d(v[0], v[1], v[2], v[3]), d, " ");
    shows(r, "vector", t, v);
    if (kind == 2) {
      const Eigen::Quaterniond q(v[3], v[0], v[1], v[2]);
      shows(r, "quaternion", pp::PrettyPrint(q, d, " "), v);
    }
    w = mc::str(v);
  } else if (kind == 3) {
    const int n = 1 + r.choose(4, "size");
    Eigen::VectorXd v(n);
    std::vector<double> want;
    for (int i = 0; i < n; i++) want.push_back(v(i) = r.pick(NUM));
    shows(r, "vector of any size", pp::PrettyPrint(v, d, " "), want);
    w = mc::str(want);
  } else if (kind == 4) {
    const int rows = 1 + r.choose(3, "rows"), cols = 1 + r.choose(3, "columns"), off = r.choose((int)NUM.size(), "values");
    Eigen::MatrixXd m(rows, cols);
    std::vector<double> want;
    for (int i = 0; i < rows; i++)
      for (int j = 0; j < cols; j++) want.push_back(m(i, j) = NUM[(size_t)(off + 3 * i + j) % NUM.size()]);
    shows(r, "matrix", pp::PrettyPrint(m, d, " "), want, rows + (d ? 1 : 0));
    w = mc::cat(rows, "x", cols, "+", off);
  } else {
    const int k = r.choose(24, "angle"), axis = r.choose(3, "axis");
    const double h = k * M_PI / 24;
    Eigen::Quaterniond q(std::cos(h), axis == 0 ? std::sin(h) : 0, axis == 1 ? std::sin(h) : 0, axis == 2 ? std::sin(h) : 0);
    const Eigen::Vector3d p(1.25, -3, 1e6 / 3);
    Eigen::Isometry3d t = Eigen::Isometry3d::Identity();
    t.matrix().topLeftCorner<3, 3>() = q.toRotationMatrix();
    t.matrix().topRightCorner<3, 1>() = p;
    const Str text = pp::PrettyPrint(t, d, " ");
    std::vector<double> got;
    bool ok = numbers(text, got) && got.size() == 7;
    if (ok) {
      const double dot = got[3] * q.x() + got[4] * q.y() + got[5] * q.z() + got[6] * q.w();
      ok = close12(got[0], p(0)) && close12(got[1], p(1)) && close12(got[2], p(2)) && std::fabs(std::fabs(dot) - 1) < 1e-9;
    }
    if (!ok) r.fail(mc::cat("transform prints as ", text));
    r.step();
    w = mc::cat(k, axis);
  }
  r.state(mc::cat(kind, d, w));
}

// ------------------------------------------------------------------ stream operators
MC_SCENARIO(streams, "vectors of up to three numbers or words, and collision results with every combination of up to two pairs of bodies and two contacts, written to a stream", 1) {
  std::ostringstream o;
  const int n = r.choose(4, "length");
  std::vector<int> x;
  std::vector<Str> xs;
  Str wx, ws;
  for (int i = 0; i < n; i++) {
    x.push_back(r.choose(3, "value") * 50 - 50);
    xs.push_back(x.back() < 0 ? "" : mc::cat("word ", x.back()));
    wx += mc::cat(x.back(), " ");
    ws += xs.back() + "\n";
  }
  o << x;
  if (o.str() != wx) r.fail(mc::cat("vector of numbers is written as '", o.str(), "'"));
  o.str("");
  o << xs;
  if (o.str() != ws) r.fail(mc::cat("vector of words is written as '", o.str(), "'"));
  r.step();
  collision_detection::CollisionResult c;
  c.collision = r.flip("collision");
  const int pairs = r.choose(3, "pairs");
  std::vector<int> contacts;
  for (int i = 0; i < pairs; i++) {
    contacts.push_back(1 + r.choose(2, "contacts"));
    const Str a = mc::cat("body", i), b = "table";
    for (int k = 0; k < contacts.back(); k++) {
      collision_detection::Contact ct;
      ct.body_name_1 = a;
      ct.body_name_2 = b;
      c.contacts[{a, b}].push_back(ct);
    }
  }
  o.str("");
  o << c;
  const Str t = o.str();
  auto has = [&](const Str& s) { return t.find(s) != Str::npos; };
  if (!c.collision) {
    if (t != "no collision") r.fail("no collision is reported as: " + t);
  } else if (pairs == 0) {
    if (!has("collision") || !has("no contacts")) r.fail("a collision without contacts is reported as: " + t);
  } else {
    if (!has("collision between body0 and table")) r.fail("a collision is reported as: " + t);
    if (has("among others") != (pairs > 1 || contacts[0] > 1)) r.fail(mc::cat(pairs, " pairs, ", contacts[0], " contacts of the first are reported as: ", t));
  }
  r.step();
  r.state(mc::cat(mc::str(x), c.collision, mc::str(contacts)));
}
MC_SCENARIO(colors, "the ten terminal codes", 1) {
  using namespace arc_color;
  const std::pair<const char*, int> C[] = {{RESET, 0}, {RED, 31}, {GREEN, 32}, {YELLOW, 33}, {BLUE, 34}, {MAGENTA, 35}, {CYAN, 36}, {WHITE, 37}, {BOLD, 1}, {UNDERLINED, 4}};
  for (auto& c : C) {
    if (c.first != mc::cat("\x1b[", c.second, "m")) r.fail(mc::cat("terminal code ", c.second, " is something else"));
    r.step();
  }
  r.state("all");
}
