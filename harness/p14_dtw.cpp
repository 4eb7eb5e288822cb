// P14: dynamic time warping against explicit enumeration of all warpings.
#include "trap.hpp"

#include <arc_utilities/simple_dtw.hpp>
typedef std::function<double(const int&, const int&)> Fn;
typedef simple_dtw::SimpleDTW<int, int, Fn> DTW;

static double brute(const std::vector<int>& a, const std::vector<int>& b, const Fn& f, size_t i, size_t j) {
  const double c = f(a[i], b[j]);
  if (i + 1 == a.size() && j + 1 == b.size()) return c;
  double best = std::numeric_limits<double>::infinity();
  if (i + 1 < a.size()) best = std::min(best, brute(a, b, f, i + 1, j));
  if (j + 1 < b.size()) best = std::min(best, brute(a, b, f, i, j + 1));
  if (i + 1 < a.size() && j + 1 < b.size()) best = std::min(best, brute(a, b, f, i + 1, j + 1));
  return c + best;
}

// items are positions into a table of pairwise distances
static std::vector<int> iota(int n) {
  std::vector<int> v;
  for (int i = 0; i < n; i++) v.push_back(i);
  return v;
}
static void check_table(mc::Run& r, int n, int m, const std::vector<double>& t) {
  const std::vector<int> a = iota(n), b = iota(m);
  Fn f = [&](const int& x, const int& y) { return t[(size_t)(x * m + y)]; };
  Fn g = [&](const int& y, const int& x) { return t[(size_t)(x * m + y)]; };
  const double want = brute(a, b, f, 0, 0);
  r.step();
  const double got = simple_dtw::ComputeDTWDistance(a, b, f);
  MC_CHECK(got == want, mc::cat(n, "x", m, " table ", mc::str(t), ": ", got, " expected ", want));
  const double swapped = simple_dtw::ComputeDTWDistance(b, a, g);
  MC_CHECK(swapped == want, mc::cat(n, "x", m, " table ", mc::str(t), " with the arguments swapped: ", swapped, " expected ", want));
  r.state(mc::cat(n, m, want));
}
MC_SCENARIO(tables, "every table of pairwise distances from {0,1,3} for all shapes up to 3x3 (thorough: also 0.5), and 0/1 tables up to 4x4", 3) {
  static const double D[] = {0, 1, 3, 0.5};
  const int n = 1 + r.choose(3, "first length"), m = 1 + r.choose(3, "second length");
  std::vector<double> t;
  for (int i = 0; i < n * m; i++) t.push_back(D[r.choose(n * m == 9 && !r.thorough() ? 3 : n * m == 9 ? 4 : 4, "distance")]);
  check_table(r, n, m, t);
}
MC_SCENARIO(long_tables, "every 0/1 table for shapes 1x6, 2x5, 4x3 and (thorough) 4x4, 3x5", 3) {
  static const int S[][2] = {{1, 6}, {2, 5}, {5, 2}, {4, 3}, {3, 4}, {4, 4}, {3, 5}};
  const int k = r.choose(r.bound(5, 7), "shape");
  std::vector<double> t;
  for (int i = 0; i < S[k][0] * S[k][1]; i++) t.push_back(r.choose(2, "distance"));
  check_table(r, S[k][0], S[k][1], t);
}
MC_SCENARIO(histories, "every history of up to 3 evaluations (lengths 0..4) on one evaluator built for any size: each equals a fresh evaluation", 3) {
  static const int V[4][4] = {{0, 3, 1, 2}, {2, 0, 0, 3}, {1, 1, 3, 0}, {3, 2, 1, 0}};
  const int ia = r.choose(4, "initial rows"), ib = r.choose(4, "initial columns");
  const bool def = ia == 0 && ib == 0;
  DTW d = def ? DTW() : DTW((size_t)ia, (size_t)ib);
  Fn f = [](const int& x, const int& y) { return std::fabs(x - y); };
  std::string h;
  for (int k = 0; k < r.bound(2, 3); k++) {
    const int n = r.choose(5, "first length"), m = r.choose(5, "second length");
    std::vector<int> a(V[k], V[k] + n), b(V[k + 1], V[k + 1] + m);
    const double got = d.EvaluateWarpingCost(a, b, f);
    r.step();
    h += mc::cat(n, ",", m, ";");
    if (!n || !m) continue;
    const double want = brute(a, b, f, 0, 0);
    MC_CHECK(got == want, mc::cat("evaluator built for ", ia, "x", ib, ", lengths ", h, ": ", got, " expected ", want));
    r.state(mc::cat(h, ia, ib));
  }
}
MC_SCENARIO(scales, "every table of pairwise distances from {0,1,3} for all shapes up to 3x2 and every 0/1 table up to 3x3, scaled to tiny, huge and nearly equal distances", 3) {
  const mc::Scale sc = r.scale();
  const int n = 1 + r.choose(3, "first length"), m = 1 + r.choose(3, "second length");
  std::vector<double> t;
  for (int i = 0; i < n * m; i++) t.push_back(sc(r.pick(n * m > 6 ? std::vector<double>{0, 1} : std::vector<double>{0, 1, 3}, "distance")));
  check_table(r, n, m, t);
}
