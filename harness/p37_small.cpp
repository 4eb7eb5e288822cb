// P37: neighbour enumeration, clamping, hashing, bits, colours, maps, lists and console input.
#include "trap.hpp"

#include <arc_utilities/arc_helpers.hpp>
#include <arc_utilities/enumerate.h>
#include <arc_utilities/eigen_helpers.hpp>
#include <arc_utilities/get_neighbours.hpp>
#include <arc_utilities/math_helpers.hpp>
#include <arc_utilities/stl_wrappers.hpp>

#include <arc_utilities/enumerate.h>  // a second time

#include <complex>
#include <list>

using namespace arc_helpers;

struct Capture {  // redirects a stream
  std::ostream& s;
  std::ostringstream o;
  std::streambuf* old;
  Capture(std::ostream& st) : s(st), old(st.rdbuf(o.rdbuf())) {}
  ~Capture() { s.rdbuf(old); }
};

// ------------------------------------------------------------------------------------------------ neighbours
template <typename C>
static std::vector<std::vector<long>> cells(const std::vector<C, std::allocator<C>>& v, int dim, double step) {
  std::vector<std::vector<long>> o;
  for (auto& c : v) {
    std::vector<long> p;
    for (int i = 0; i < dim; i++) p.push_back(std::lround((double)c[i] / step));
    o.push_back(p);
  }
  return o;
}
// lo/hi/centre in units of step
static void check_neighbours(mc::Run& r, int dim, const std::vector<long>& lo, const std::vector<long>& hi, const std::vector<long>& c, double step, bool integral, unsigned blocked, bool allow_outside = false) {
  std::set<std::vector<long>> want;
  int idx = 0;
  std::set<std::vector<long>> bad;
  for (int k = 0; k < (dim == 2 ? 9 : 27); k++) {
    std::vector<long> p{c[0] + k % 3 - 1, c[1] + k / 3 % 3 - 1};
    if (dim == 3) p.push_back(c[2] + k / 9 - 1);
    if (p == c) continue;
    if (blocked >> (idx++ % 32) & 1) {
      bad.insert(p);
      continue;
    }
    bool in = true;
    for (int i = 0; i < dim; i++) in = in && lo[(size_t)i] <= p[(size_t)i] && p[(size_t)i] <= hi[(size_t)i];
    if (in) want.insert(p);
  }
  (void)allow_outside;
  std::vector<std::vector<long>> got;
  const std::string at = mc::cat(dim, "-D neighbours of ", mc::str(c), " in ", mc::str(lo), "..", mc::str(hi), " step ", step, " blocked ", blocked);
  if (integral) {
    if (dim == 2) {
      typedef Eigen::Vector2i V;
      const std::function<V(const V&)> round = [](const V& v) { return v; };
      const std::function<bool(const V&)> ok = [&](const V& v) { return !bad.count({v[0], v[1]}); };
      std::vector<V> n = arc_utilities::GetNeighbours::TwoDimensional8Connected(V((int)c[0], (int)c[1]), (int)lo[0], (int)hi[0], (int)lo[1], (int)hi[1], 1, round, ok);
      got = cells(n, 2, 1);
    } else {
      typedef Eigen::Vector3i V;
      const std::function<V(const V&)> round = [](const V& v) { return v; };
      const std::function<bool(const V&)> ok = [&](const V& v) { return !bad.count({v[0], v[1], v[2]}); };
      std::vector<V> n = arc_utilities::GetNeighbours::ThreeDimensional8Connected(V((int)c[0], (int)c[1], (int)c[2]), (int)lo[0], (int)hi[0], (int)lo[1], (int)hi[1], (int)lo[2], (int)hi[2], 1, round, ok);
      got = cells(n, 3, 1);
    }
  } else {
    auto g = [&](long k) { return (double)k * step; };
    auto rd = [&](double x) { return std::round(x / step) * step; };
    if (dim == 2) {
      typedef Eigen::Vector2d V;
      const std::function<V(const V&)> round = [&](const V& v) { return V(rd(v[0]), rd(v[1])); };
      const std::function<bool(const V&)> ok = [&](const V& v) { return !bad.count({std::lround(v[0] / step), std::lround(v[1] / step)}); };
      std::vector<V> n = arc_utilities::GetNeighbours::TwoDimensional8Connected(V(g(c[0]), g(c[1])), g(lo[0]), g(hi[0]), g(lo[1]), g(hi[1]), step, round, ok);
      got = cells(n, 2, step);
    } else {
      typedef Eigen::Vector3d V;
      const std::function<V(const V&)> round = [&](const V& v) { return V(rd(v[0]), rd(v[1]), rd(v[2])); };
      const std::function<bool(const V&)> ok = [&](const V& v) { return !bad.count({std::lround(v[0] / step), std::lround(v[1] / step), std::lround(v[2] / step)}); };
      std::vector<V> n = arc_utilities::GetNeighbours::ThreeDimensional8Connected(V(g(c[0]), g(c[1]), g(c[2])), g(lo[0]), g(hi[0]), g(lo[1]), g(hi[1]), g(lo[2]), g(hi[2]), step, round, ok);
      got = cells(n, 3, step);
    }
  }
  std::set<std::vector<long>> s(got.begin(), got.end());
  if (s.size() != got.size()) r.fail(at + ": a neighbour is listed twice: " + mc::str(got));
  if (s != want) r.fail(mc::cat(at, ": got ", mc::str(got), ", expected ", (int)want.size(), " cells"));
  r.step();
}
MC_SCENARIO(neighbours_plane, "every grid of 1..4 x 1..4 cells at three offsets, every centre in it (and just outside), steps 1, 0.1, 0.25 and 3 plus integer cells, validity checks that reject no, one, every second or every cell: the listed neighbours are exactly the valid cells at distance one inside the inclusive bounds", 1) {
  static const std::vector<long> offs{0, -2, 17};
  const long o = r.pick(offs, "offset");
  const long w = 1 + r.choose(4, "width"), h = 1 + r.choose(4, "height");
  const std::vector<long> c{o - 1 + r.choose((int)w + 2, "x"), 2 * o - 1 + r.choose((int)h + 2, "y")};
  static const std::vector<double> steps{1, 0.1, 0.25, 3};
  const int k = r.choose(5, "step");
  static const std::vector<unsigned> bl{0, 1u, 8u, 128u, 0x55u, 0xffu};
  check_neighbours(r, 2, {o, 2 * o}, {o + w - 1, 2 * o + h - 1}, c, k == 4 ? 1 : steps[(size_t)k], k == 4, r.pick(bl, "blocked"));
  r.state(mc::cat(o, w, h, mc::str(c), k));
}
MC_SCENARIO(neighbours_space, "the same for boxes of 1..3 cells per axis in 3-D", 1) {
  const long o = r.flip("offset") ? -4 : 1;
  std::vector<long> lo{o, o + 1, -o}, hi(3), c(3);
  for (int i = 0; i < 3; i++) {
    const long n = 1 + r.choose(3, "size");
    hi[(size_t)i] = lo[(size_t)i] + n - 1;
    c[(size_t)i] = lo[(size_t)i] + r.choose((int)n, "centre");
  }
  static const std::vector<unsigned> bl{0, 1u, 1u << 13, 0x15555555u, 0xffffffffu};
  const int k = r.choose(3, "step");
  check_neighbours(r, 3, lo, hi, c, k == 1 ? 0.1 : 1, k == 2, r.pick(bl, "blocked"));
  r.state(mc::cat(mc::str(lo), mc::str(hi), mc::str(c), k));
}

// ------------------------------------------------------------------------------------------------ bits, clamping
template <typename T>
static void bits(mc::Run& r, T base) {
  const int W = sizeof(T) * 8;
  const int b = r.choose(W, "bit");
  const bool v = r.flip("value");
  const T out = SetBit<T>(base, (uint32_t)b, v);
  for (int i = 0; i < W; i++) {
    const bool want = i == b ? v : (bool)(base >> i & 1), was = base >> i & 1;
    if ((bool)(out >> i & 1) != want) r.fail(mc::cat("setting bit ", b, " to ", v, " in ", (uint64_t)base, " gives ", (uint64_t)out));
    if (GetBit<T>(out, (uint32_t)i) != want || GetBit<T>(base, (uint32_t)i) != was) r.fail(mc::cat("bit ", i, " of the ", W, "-bit value ", (uint64_t)out, " (or ", (uint64_t)base, ") read wrongly"));
  }
  r.step();
  r.state(mc::cat(W, (uint64_t)base, b, v));
}
MC_SCENARIO(bit_access, "every bit of 8-, 16-, 32- and 64-bit words over 9 base patterns, set and cleared: exactly the addressed bit changes, every bit reads back", 1) {
  static const std::vector<uint64_t> base{0, ~0ull, 0x5555555555555555ull, 0xaaaaaaaaaaaaaaaaull, 1, 1ull << 63 | 1ull << 31 | 1ull << 15 | 1ull << 7, 0x00000000ffffffffull, 0xffffffff00000000ull, 0x123456789abcdef0ull};
  const uint64_t b = r.pick(base, "base");
  switch (r.choose(4, "width")) {
    case 0: bits<uint8_t>(r, (uint8_t)b); break;
    case 1: bits<uint16_t>(r, (uint16_t)b); break;
    case 2: bits<uint32_t>(r, (uint32_t)b); break;
    default: bits<uint64_t>(r, b);
  }
}
MC_SCENARIO(clamping, "all values and bounds over {-inf,-1.5,-0,0,1,1.5,inf} (and integers): clamping gives the nearest value of the interval, warning exactly when it changes something; spreading moves values strictly inside the dead band to its ends; reversed bounds refused; unit-interval check and sign", 1) {
  static const std::vector<double> c{-INFINITY, -1.5, -0.0, 0.0, 1, 1.5, INFINITY};
  const double v = r.pick(c, "value"), lo = r.pick(c, "low"), hi = r.pick(c, "high");
  const std::string at = mc::cat(v, " to [", lo, ", ", hi, "]");
  Capture cap(std::cerr);
  double a = 0, b = 0;
  const bool ra = trap::refused([&] { a = ClampValue(v, lo, hi); }), rb = trap::refused([&] { b = ClampValueAndWarn(v, lo, hi); });
  if (ra != (lo > hi) || rb != (lo > hi)) r.fail(mc::cat("clamping ", at, " refused: ", ra, rb));
  if (lo <= hi) {
    const double want = v < lo ? lo : v > hi ? hi : v;
    if (a != want || b != want) r.fail(mc::cat("clamping ", at, " gives ", a, " and ", b));
    if (cap.o.str().empty() != (want == v)) r.fail(mc::cat("clamping ", at, " warned: ", cap.o.str()));
    int ia = ClampValue<int>((int)std::max(-9.0, std::min(9.0, v * 2)), (int)std::max(-9.0, std::min(9.0, lo * 2)), (int)std::max(-9.0, std::min(9.0, hi * 2)));
    if (ia != (int)std::max(-9.0, std::min(9.0, want * 2))) r.fail(mc::cat("integer clamping ", at, " gives ", ia));
  }
  r.step();
  const double mid = r.pick(c, "midpoint");
  cap.o.str("");
  const bool bad = !(lo <= mid && mid <= hi);
  const bool sa = trap::refused([&] { a = SpreadValue(v, lo, mid, hi); }), sb = trap::refused([&] { b = SpreadValueAndWarn(v, lo, mid, hi); });
  if (sa != bad || sb != bad) r.fail(mc::cat("spreading ", at, " around ", mid, " refused: ", sa, sb));
  if (!bad) {
    const double want = !(v > lo && v < hi) && !(v >= mid && v < hi) && !(v > lo && v < mid) ? v : (v >= mid ? hi : lo);
    if (a != want || b != want) r.fail(mc::cat("spreading ", at, " around ", mid, " gives ", a, " and ", b, ", expected ", want));
    if (cap.o.str().empty() != (want == v)) r.fail(mc::cat("spreading ", at, " around ", mid, " warned: ", cap.o.str()));
  }
  const double u = EigenHelpers::SafetyCheckUnitInterval(v);
  if (u != std::max(0.0, std::min(1.0, v))) r.fail(mc::cat("ratio ", v, " becomes ", u));
  if (EigenHelpers::Sign(v) != (v > 0 ? 1 : v < 0 ? -1 : 0)) r.fail(mc::cat("sign of ", v));
  r.step();
  r.state(mc::cat(at, mid));
}

// ------------------------------------------------------------------------------------------------ hashing
template <typename T>
static void eqhash(mc::Run& r, const T& a, const T& b, const char* what) {
  if (a == b && std::hash<T>()(a) != std::hash<T>()(b)) r.fail(mc::cat("equal ", what, " hash differently"));
  std::unordered_map<T, int> m;
  m[a] = 1;
  if ((m.count(b) == 1) != (a == b)) r.fail(mc::cat(what, " key found although different, or lost"));
  r.step();
}
MC_SCENARIO(hashing, "all pairs of vectors, pairs and complex numbers over {-1,-0,+0,1,0.5}: equal values (signed zeros included) hash equal and find each other as map keys, different ones do not", 1) {
  static const std::vector<double> c{-1, -0.0, 0.0, 1, 0.5};
  double x[6];
  for (int i = 0; i < 6; i++) x[i] = r.pick(c, "component");
  eqhash(r, Eigen::Vector3d(x[0], x[1], x[2]), Eigen::Vector3d(x[3], x[4], x[5]), "3-vectors");
  eqhash(r, Eigen::Vector3f((float)x[0], (float)x[1], (float)x[2]), Eigen::Vector3f((float)x[3], (float)x[4], (float)x[5]), "float 3-vectors");
  Eigen::VectorXd a(2), b(2);
  a << x[0], x[1];
  b << x[3], x[4];
  eqhash(r, a, b, "dynamic vectors");
  eqhash(r, std::complex<double>(x[0], x[1]), std::complex<double>(x[3], x[4]), "complex numbers");
  eqhash(r, std::make_pair(x[0], (int)x[1]), std::make_pair(x[3], (int)x[4]), "pairs");
  eqhash(r, std::make_pair(std::make_pair(x[0], x[2]), x[1]), std::make_pair(std::make_pair(x[3], x[5]), x[4]), "nested pairs");
  std::size_t s1 = 7, s2 = 7;
  hash_combine(s1, x[0]);
  hash_combine(s2, x[3]);
  if (x[0] == x[3] && s1 != s2) r.fail("combining equal values differs");
  std::ostringstream o;
  for (double v : x) o << v << ",";
  r.state(o.str());
}

template <typename T, typename F>
static void sensitive(mc::Run& r, int size, F make, const char* what) {
  // changing one component alone must be able to change the hash
  for (int at = 0; at < size; at++) {
    std::set<std::size_t> seen;
    for (double v : {1.0, 2.0, 3.0, 5.0, -1.0, 0.5}) {
      std::vector<double> c((size_t)size, 7.0);
      c[(size_t)at] = v;
      seen.insert(std::hash<T>()(make(c)));
      r.step();
    }
    MC_CHECK(seen.size() > 1, mc::cat("the hash of ", what, " ignores component ", at));
  }
}
MC_SCENARIO(hashes_see_everything, "vectors of up to six components, complex numbers and nested pairs: every component is able to change the hash", 1) {
  const int kind = r.choose(11, "type");
  typedef std::vector<double> V;
  typedef std::pair<int, double> P;
  if (kind == 0) sensitive<Eigen::Vector3d>(r, 3, [](const V& c) { return Eigen::Vector3d(c[0], c[1], c[2]); }, "3-vectors");
  if (kind == 1) sensitive<Eigen::Vector3f>(r, 3, [](const V& c) { return Eigen::Vector3f((float)c[0], (float)c[1], (float)c[2]); }, "float 3-vectors");
  if (kind == 2) sensitive<Eigen::Vector4d>(r, 4, [](const V& c) { return Eigen::Vector4d(c[0], c[1], c[2], c[3]); }, "4-vectors");
  if (kind >= 3 && kind < 9) sensitive<Eigen::VectorXd>(r, kind - 2, [](const V& c) { Eigen::VectorXd v((int)c.size()); for (size_t i = 0; i < c.size(); i++) v((int)i) = c[i]; return v; }, "dynamic vectors");
  if (kind == 9) sensitive<std::complex<double>>(r, 2, [](const V& c) { return std::complex<double>(c[0], c[1]); }, "complex numbers");
  if (kind == 10) sensitive<std::pair<P, P>>(r, 4, [](const V& c) { return std::make_pair(P((int)(c[0] * 2), c[1]), P((int)(c[2] * 2), c[3])); }, "nested pairs");
  r.state(mc::cat(kind));
}

// ------------------------------------------------------------------------------------------------ maps and lists
MC_SCENARIO(maps_and_lists, "all maps from up to 3 keys of {0..3} to values of {0..2}, all lists of up to 4 elements of {0..2}: keys, key-value lists and back, default on absent keys only, first position of an element, enumeration in order with 0-based indices, substring test over string lists", 1) {
  std::map<int, std::string> m;
  const int n = r.choose(4, "map size");
  for (int i = 0; i < n; i++) {
    const int k = r.choose(4, "key");
    m[k] = std::string((size_t)r.choose(3, "value"), 'v');
  }
  std::unordered_map<int, std::string> um(m.begin(), m.end());
  const std::map<int, std::string> cm = m;
  for (int k = -1; k < 5; k++) {
    const std::string want = m.count(k) ? m[k] : "dflt";
    if (RetrieveOrDefault(cm, k, std::string("dflt")) != want || RetrieveOrDefault(um, k, std::string("dflt")) != want) r.fail(mc::cat("lookup of ", k));
  }
  if (cm.size() != um.size()) r.fail("lookup inserted a key");
  const std::vector<int> keys = GetKeys(cm);
  std::vector<int> wk;
  std::vector<std::string> wv;
  for (auto& p : cm) wk.push_back(p.first), wv.push_back(p.second);
  if (keys != wk) r.fail(mc::cat("keys ", mc::str(keys)));
  const auto kv = GetKeysAndValues(cm);
  if (kv.size() != cm.size()) r.fail("key-value list");
  for (size_t i = 0; i < kv.size(); i++)
    if (kv[i].first != wk[i] || kv[i].second != wv[i]) r.fail("key-value list");
  if (MakeFromKeysAndValues<int, std::string>(kv) != cm || MakeFromKeysAndValues<int, std::string>(wk, wv) != cm) r.fail("map rebuilt from keys and values differs");
  wk.push_back(9);
  if (!trap::refused([&] { MakeFromKeysAndValues<int, std::string>(wk, wv); })) r.fail("keys and values of different number not refused");
  r.step();
  std::vector<int> l;
  const int ln = n == 3 ? 0 : r.choose(5, "list length");
  for (int i = 0; i < ln; i++) l.push_back(r.choose(3, "element"));
  for (int e = 0; e < 4; e++) {
    int want = -1;
    for (int i = ln - 1; i >= 0; i--)
      if (l[(size_t)i] == e) want = i;
    if (arc_std::find(l, e) != want) r.fail(mc::cat("position of ", e, " in ", mc::str(l), " is ", arc_std::find(l, e)));
  }
  size_t i = 0;
  for (auto p : enumerate<std::vector<int>>(l)) {
    if (p.first != i || i >= l.size() || p.second != l[i]) r.fail(mc::cat("enumeration of ", mc::str(l), " at ", (int)i));
    i++;
  }
  if (i != l.size()) r.fail("enumeration too short");
  i = 0;
  const enumerate<std::list<int>> el(std::list<int>(l.begin(), l.end()));
  for (auto p : el)
    if (p.first != i || p.second != l[i++]) r.fail("enumeration of a list");
  std::vector<std::string> ss;
  static const std::vector<std::string> words{"", "ab", "b"};
  for (int e : l) ss.push_back(words[(size_t)e]);
  for (auto& sub : {"", "b", "ab", "c"}) {
    bool all = true;
    for (auto& s : ss) all = all && s.find(sub) != std::string::npos;
    if (CheckAllStringsForSubstring(ss, sub) != all) r.fail(mc::cat("substring ", sub, " in all of ", mc::str(ss)));
  }
  r.step();
  r.state(mc::str(keys) + mc::str(l));
}

// ------------------------------------------------------------------------------------------------ colours
struct Plain {
  float r, g, b, a;
};
static bool unit(float x) { return x >= 0 && x <= 1; }
MC_SCENARIO(colours, "all colour channels over {-1,0,0.25,0.5,1,2} and all 256 bytes: channels always within [0,1], byte conversions are inverse, interpolation of two colours linear, at its ends exact, ratios clamped, scaling keeps alpha, conversion between colour types preserves", 1) {
  static const std::vector<float> c{-1, 0, 0.25f, 0.5f, 1, 2};
  const float R = r.pick(c), G = r.pick(c), B = r.pick(c), A = r.pick(c);
  auto cl = [](float x) { return std::max(0.f, std::min(1.f, x)); };
  auto is = [&](float r1, float g1, float b1, float a1, double r2, double g2, double b2, double a2) { return std::fabs(r1 - r2) < 1e-6 && std::fabs(g1 - g2) < 1e-6 && std::fabs(b1 - b2) < 1e-6 && std::fabs(a1 - a2) < 1e-6; };
  const std::string at = mc::cat(R, " ", G, " ", B, " ", A);
  const RGBAColor k(R, G, B, A), k3(R, G, B);
  if (!is(k.r, k.g, k.b, k.a, cl(R), cl(G), cl(B), cl(A)) || !is(k3.r, k3.g, k3.b, k3.a, cl(R), cl(G), cl(B), 1)) r.fail("colour from floats " + at);
  RGBAColor z;
  if (!is(z.r, z.g, z.b, z.a, 0, 0, 0, 0)) r.fail("default colour");
  z.SetR(R), z.SetG(G), z.SetB(B), z.SetA(A);
  if (!is(z.GetR(), z.GetG(), z.GetB(), z.GetA(), cl(R), cl(G), cl(B), cl(A))) r.fail("setters " + at);
  auto hex = [&](float x) { return (uint8_t)std::lround(cl(x) * 255); };
  if (z.GetRHex() != hex(R) || z.GetGHex() != hex(G) || z.GetBHex() != hex(B) || z.GetAHex() != hex(A)) r.fail("byte getters " + at);
  const uint8_t hr = (uint8_t)r.choose(16, "byte") * 17, hg = (uint8_t)(hr + 1), hb = (uint8_t)(hr + 2), ha = (uint8_t)(hr + 3);
  z.SetRHex(hr), z.SetGHex(hg), z.SetBHex(hb), z.SetAHex(ha);
  if (z.GetRHex() != hr || z.GetGHex() != hg || z.GetBHex() != hb || z.GetAHex() != ha) r.fail("byte setters");
  const RGBAColor h4(hr, hg, hb, ha), h3(hr, hg, hb), hm(hr, hg, hb, A);
  for (auto& q : {h4, h3, hm})
    if (q.GetRHex() != hr || q.GetGHex() != hg || q.GetBHex() != hb) r.fail("colour from bytes");
  if (h4.GetAHex() != ha || h3.GetAHex() != 255 || h3.GetA() != 1 || hm.GetA() != cl(A)) r.fail("alpha of a colour from bytes");
  typedef RGBAColorBuilder<Plain> PB;
  const Plain p = PB::MakeFromFloatColors(R, G, B, A), ph = PB::MakeFromHexColors(hr, hg, hb, ha), pm = PB::MakeFromMixedColors(hr, hg, hb, A), p1 = PB::MakeFromFloatColors(R, G, B);
  if (!is(p.r, p.g, p.b, p.a, cl(R), cl(G), cl(B), cl(A)) || p1.a != 1 || !is(ph.r, ph.g, ph.b, ph.a, hr / 255., hg / 255., hb / 255., ha / 255.) || !is(pm.r, pm.g, pm.b, pm.a, hr / 255., hg / 255., hb / 255., cl(A))) r.fail("colour builder " + at);
  const RGBAColor cv = ConvertColor<Plain, RGBAColor>(p);
  if (!is(cv.r, cv.g, cv.b, cv.a, p.r, p.g, p.b, p.a)) r.fail("colour conversion");
  const Plain raw{R, G, B, A};
  const RGBAColor cr = ConvertColor<Plain, RGBAColor>(raw);
  if (!is(cr.r, cr.g, cr.b, cr.a, cl(R), cl(G), cl(B), cl(A))) r.fail("colour conversion does not trim");
  for (float f : {0.f, 0.5f, 1.f, 3.f, -1.f}) {
    const Plain q = Multiply(p, f);
    if (!is(q.r, q.g, q.b, q.a, cl(f * p.r), cl(f * p.g), cl(f * p.b), p.a)) r.fail(mc::cat("scaling ", at, " by ", f));
  }
  Capture cap(std::cerr);
  for (float t : {0.f, 0.25f, 0.5f, 1.f, -0.5f, 1.5f}) {
    const Plain q = InterpolateColor(p, ph, t);
    const double u = cl(t);
    if (!is(q.r, q.g, q.b, q.a, p.r + u * (ph.r - p.r), p.g + u * (ph.g - p.g), p.b + u * (ph.b - p.b), p.a + u * (ph.a - p.a))) r.fail(mc::cat("interpolating colours ", at, " at ", t));
  }
  r.step();
  r.state(at + mc::cat((int)hr));
}
MC_SCENARIO(colour_maps, "all 256 bytes; heat map at 81 values over 6 ranges: blue to red, in range, continuous, hue order blue-cyan-green-yellow-red, clamped outside; unique colours for codes 0..40: the 20 listed ones pairwise distinct, generator yields them in order", 1) {
  const int h = r.choose(256, "byte");
  if (ColorChannelToHex(ColorChannelFromHex((uint8_t)h)) != h) r.fail(mc::cat("byte ", h, " does not survive"));
  static const std::vector<std::pair<double, double>> rg{{0, 1}, {-1, 1}, {2, 2.5}, {-8, -3}, {0, 1e6}, {-1e-3, 1e-3}};
  for (auto& q : rg) {
    typedef RGBAColorBuilder<Plain> PB;
    const double w = q.second - q.first;
    const double t = (h - 28) / 200.0, v = q.first + t * w;
    const Plain c = PB::InterpolateHotToCold(v, q.first, q.second), d = PB::InterpolateHotToCold(v + w * 1e-4, q.first, q.second);
    const std::string at = mc::cat("heat map of ", v, " in [", q.first, ", ", q.second, "]");
    if (!unit(c.r) || !unit(c.g) || !unit(c.b) || c.a != 1) r.fail(at + " outside [0,1]");
    if (std::fabs(c.r - d.r) > 1e-3 || std::fabs(c.g - d.g) > 1e-3 || std::fabs(c.b - d.b) > 1e-3) r.fail(at + " jumps");
    const double u = std::max(0.0, std::min(1.0, t));
    // piecewise linear between the five anchor colours
    static const double anchor[5][3] = {{0, 0, 1}, {0, 1, 1}, {0, 1, 0}, {1, 1, 0}, {1, 0, 0}};
    const int k = std::min(3, (int)(u * 4));
    const double f = u * 4 - k;
    const float got[3] = {c.r, c.g, c.b};
    for (int i = 0; i < 3; i++)
      if (std::fabs(got[i] - ((1 - f) * anchor[k][i] + f * anchor[k + 1][i])) > 1e-4) r.fail(mc::cat(at, " is ", c.r, " ", c.g, " ", c.b));
    if (!trap::refused([&] { PB::InterpolateHotToCold(v, q.second, q.first); })) r.fail("reversed range not refused");
  }
  if (h < 41) {
    const Plain c = GenerateUniqueColor<Plain>((uint32_t)h, 0.5f);
    if (h == 0 && (c.r != 1 || c.g != 1 || c.b != 1 || c.a != 0)) r.fail("colour code 0");
    if (h > 20 && (c.r != 0 || c.g != 0 || c.b != 0)) r.fail("colour code beyond the table is not black");
    if (h > 0 && c.a != 0.5f) r.fail("alpha of a unique colour");
    for (int o = 0; o <= 20; o++) {
      const Plain e = GenerateUniqueColor<Plain>((uint32_t)o, 0.5f);
      if (o != h && h <= 21 && e.r == c.r && e.g == c.g && e.b == c.b) r.fail(mc::cat("codes ", h, " and ", o, " share a colour"));
    }
    UniqueColorGenerator<Plain> gen(0.5f);
    Plain e = GenerateUniqueColor<Plain>(0, 0.5f);
    for (int i = 0; i < h; i++) e = gen.next();
    if (e.r != c.r || e.g != c.g || e.b != c.b || e.a != c.a) r.fail(mc::cat("generator yields another colour as number ", h));
  }
  r.step();
  r.state(mc::cat(h));
}

// ------------------------------------------------------------------------------------------------ console
MC_SCENARIO(console, "all sequences of up to 4 operations (line input, single character input, conditional messages at levels around the threshold) over 5 inputs: every call consumes exactly its part of the input, messages appear exactly when their level is within the print level", 1) {
  static const std::vector<std::string> ins{"", "a\nbc\n", "xy", "\n\nz\n", "one two\n3"};
  const std::string input = r.pick(ins, "input");
  std::istringstream is(input);
  Capture out(std::cout), err(std::cerr);
  struct CinBuf {
    std::streambuf* old;
    ~CinBuf() { std::cin.rdbuf(old), std::cin.clear(); }
  } cin_guard{std::cin.rdbuf(is.rdbuf())};
  std::cin.clear();
  size_t pos = 0;
  for (int i = 0; i < r.bound(3, 4); i++) {
    const int op = r.choose(4, "operation");
    out.o.str(""), err.o.str("");
    r.step();
    if (op == 0) {
      std::string want;
      size_t e = input.find('\n', pos);
      want = pos < input.size() ? input.substr(pos, e == std::string::npos ? e : e - pos) : "";
      if (!std::cin) want = "";
      const std::string got = WaitForInput("prompt>");
      if (got != want || out.o.str() != "prompt>") r.fail(mc::cat("line input from ", input, " gives '", got, "', expected '", want, "'"));
      pos = e == std::string::npos ? input.size() : e + 1;
      std::cin.clear();
    } else if (op == 1) {
      const int got = GetChar();
      const int want = pos < input.size() ? (unsigned char)input[pos] : std::char_traits<char>::eof();
      if (got != want) r.fail(mc::cat("character input at ", (int)pos, " of '", input, "' gives ", got, ", expected ", want));
      if (pos < input.size()) pos++;
      if (!std::cin) r.fail("input unusable after reading a character");
    } else {
      const int lvl = r.choose(3, "level") - 1;
      if (op == 2)
        ConditionalPrint("hello", lvl, 0);
      else
        ConditionalError("hello", lvl, 0);
      const std::string& hit = op == 2 ? out.o.str() : err.o.str();
      const std::string& miss = op == 2 ? err.o.str() : out.o.str();
      if ((hit.find("hello") != std::string::npos) != (lvl <= 0) || !miss.empty() || (lvl > 0 && !hit.empty())) r.fail(mc::cat("message at level ", lvl, " with print level 0: '", hit, "'"));
    }
    r.state(mc::cat(input, (int)pos, op));
  }
}
MC_SCENARIO(alignment, "all alignments 1..64 and offsets 0..63 within an aligned buffer: alignment test agrees with the address, required alignment refused exactly when violated", 1) {
  alignas(64) static char buf[128];
  static const std::vector<uint64_t> al{1, 2, 4, 8, 16, 32, 64};
  const uint64_t a = r.pick(al, "alignment");
  const int o = r.choose(64, "offset");
  Capture cap(std::cout);
  const bool want = (uint64_t)o % a == 0;
  if (CheckAlignment(buf[o], a) != want) r.fail(mc::cat("address at offset ", o, " alignment ", a));
  if (trap::refused([&] { RequireAlignment(buf[o], a); }) == want) r.fail(mc::cat("required alignment ", a, " at offset ", o));
  r.step();
  r.state(mc::cat(a, o));
}
