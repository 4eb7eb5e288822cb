// P23: pseudo-random generators and the distributions built on them.
#include "trap.hpp"

#include <arc_utilities/arc_helpers.hpp>

static const double INF = std::numeric_limits<double>::infinity();

// --- published reference algorithms
struct RefSplit {
  uint64_t x;
  void seed(uint64_t s) { x = s; }
  uint64_t operator()() {
    uint64_t z = (x += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
};
struct Ref128 {
  uint64_t s[2];
  void seed(uint64_t v) {
    RefSplit g{v};
    s[0] = g();
    s[1] = g();
  }
  uint64_t operator()() {
    uint64_t s1 = s[0];
    const uint64_t s0 = s[1];
    s[0] = s0;
    s1 ^= s1 << 23;
    s[1] = s1 ^ s0 ^ (s1 >> 18) ^ (s0 >> 5);
    return s[1] + s0;
  }
};
struct Ref1024 {
  uint64_t s[16];
  int p;
  void seed(uint64_t v) {
    RefSplit g{v};
    for (auto& e : s) e = g();
    p = 0;
  }
  uint64_t operator()() {
    const uint64_t s0 = s[p];
    uint64_t s1 = s[p = (p + 1) & 15];
    s1 ^= s1 << 31;
    s[p] = s1 ^ s0 ^ (s1 >> 11) ^ (s0 >> 30);
    return s[p] * 1181783497276652981ull;
  }
};
static const std::vector<uint64_t> SEEDS{0, 1, 42, 0x8000000000000000ull, ~0ull};

template <typename G, typename R>
static void history(mc::Run& r, const char* which) {
  const uint64_t s0 = r.pick(SEEDS);
  G g(s0);
  R ref;
  ref.seed(s0);
  std::string did = mc::cat(which, " seeded ", s0);
  r.note([&] { return did; });
  static const std::vector<int> skips{0, 1, 2, 3, 15, 16, 17, 33};
  const int depth = r.bound(4, 5);
  for (int d = 0; d < depth; d++) {
    const int op = r.choose(d == 0 ? 4 : 5, "operation");
    if (op == 4) break;
    if (op == 0) {
      const int n = r.pick(std::vector<int>{1, 2, 7, 18});
      for (int i = 0; i < n; i++)
        if (g() != ref()) r.fail(mc::cat(did, ": value ", i, " of the next ", n, " differs"));
      did += mc::cat(", ", n, " drawn");
    } else if (op == 1) {
      const int n = r.pick(skips);
      g.discard((unsigned long long)n);
      for (int i = 0; i < n; i++) ref();
      did += mc::cat(", ", n, " discarded");
    } else if (op == 2) {
      const uint64_t s = r.pick(SEEDS);
      g.seed(s);
      ref.seed(s);
      did += mc::cat(", seeded ", s);
    } else {
      G copy(g);
      R rc(ref);
      for (int i = 0; i < 3; i++)
        if (copy() != rc()) r.fail(did + ": a copy does not continue the sequence");
      did += ", copied";
    }
    r.step();
  }
  for (int i = 0; i < 40; i++) {
    const uint64_t a = g(), b = ref();
    if (a != b) r.fail(mc::cat(did, ": value ", i, " that follows is ", a, ", the sequence has ", b));
  }
  if (G::min() != 0 || G::max() != ~(uint64_t)0) r.fail(mc::cat(which, ": declared range"));
  r.state(did);
}
MC_SCENARIO(generators, "three generators; every history of draws, discards (0..33), re-seeds and copies up to depth 4 (thorough 5) over five seeds, each compared with the published algorithm", 4) {
  switch (r.choose(3, "generator")) {
    case 0: return history<arc_helpers::SplitMix64PRNG, RefSplit>(r, "splitmix64");
    case 1: return history<arc_helpers::XorShift128PlusPRNG, Ref128>(r, "xorshift128+");
    default: return history<arc_helpers::XorShift1024StarPRNG, Ref1024>(r, "xorshift1024*");
  }
}

// --- engine whose draws are dictated
struct Draws {
  typedef uint64_t result_type;
  static constexpr uint64_t min() { return 0; }
  static constexpr uint64_t max() { return ~(uint64_t)0; }
  std::function<double()> unit;
  uint64_t operator()() {
    const double u = unit();
    return u >= 1 ? ~(uint64_t)0 : (uint64_t)(u * 18446744073709551616.0);
  }
};
struct Trunc {
  double mean, sd, lo, hi;
};
static const std::vector<Trunc> TRUNC{
    {0, 1, -1, 2},      {3, 0.5, 2, 3.2},  {-4, 2, -4, -1},  {5, 3, 1, 5},      {0, 1, -INF, INF}, {2, 1, -INF, 3}, {2, 1, 1.5, INF},  // the mean inside
    {0, 1, 1, INF},     {-2, 0.5, -1, INF}, {7, 2, 8, INF},                                                                              // a tail above
    {0, 1, -INF, -1},   {4, 2, -INF, 1},   {-2, 0.25, -INF, -2.5},                                                                       // a tail below
    {0, 1, 1, 6},       {1, 0.5, 2, 6},    {-3, 2, -1, 9},   {0, 1, 0.5, 5},                                                             // a wide range beside the mean
    {0, 1, 1, 1.3},     {0, 1, -2, -1.5},  {10, 4, 2, 3},    {10, 0.5, 10.5, 11}, {-1, 3, 1, 3},     {0, 1, -6, -1},   {5, 0.5, 1, 4},   {0, 1, 2, 2}, {3, 2, 1, 1}};
static std::string str(const Trunc& t) { return mc::cat("normal(", t.mean, ", ", t.sd, ") truncated to [", t.lo, ", ", t.hi, "]"); }

MC_SCENARIO(truncated_range, "26 truncated normal distributions (mean inside the range, one-sided tails above and below, wide and narrow ranges beside the mean, single points); every sequence of up to 6 (thorough 8) draws out of {0, 1/6.., 1-} through up to three samples: every sample within the bounds", 2) {
  const Trunc t = r.pick(TRUNC);
  arc_helpers::TruncatedNormalDistribution dist(t.mean, t.sd, t.lo, t.hi);
  int draws = 0;
  const int budget = r.bound(6, 8);
  static const double grid[] = {0.0, 0.17, 0.41, 0.58, 0.83, 1.0 - 1.0 / 9007199254740992.0};
  Draws rng{[&] {
    if (draws++ >= budget) throw mc::Prune();
    return grid[r.choose(draws > 4 ? 4 : 6, "draw")];
  }};
  const double big = std::max(std::fabs(t.mean), std::max(std::isfinite(t.lo) ? std::fabs(t.lo) : 0, std::isfinite(t.hi) ? std::fabs(t.hi) : 0));
  const double tol = 1e-14 * (1 + big);
  std::string got;
  for (int i = 0; i < 3; i++) {
    const double v = dist(rng);
    r.step();
    if (!(v >= t.lo - tol && v <= t.hi + tol) || !std::isfinite(v)) r.fail(mc::cat(str(t), ": sample ", i, " is ", v));
    got += mc::cat(v, ";");
    r.state(got);
  }
}
MC_SCENARIO(truncated_shape, "the same distributions: every pair of draws on a 240 x 240 grid; the accepted samples follow the truncated Gaussian", 1) {
  const Trunc t = r.pick(TRUNC);
  if (t.lo == t.hi) throw mc::Prune();
  const bool second = r.flip("the second sample of the distribution");
  const int N = 240;
  std::vector<double> s;
  struct More {};
  for (int a = 0; a < N; a++)
    for (int b = 0; b < N; b++) {
      arc_helpers::TruncatedNormalDistribution dist(t.mean, t.sd, t.lo, t.hi);
      if (second) {
        arc_helpers::SplitMix64PRNG warm(7);
        if (a == 0 && b == 0)
          for (int i = 0; i < 50; i++) {
            const double v = dist(warm);
            if (!(v >= t.lo - 1e-9 && v <= t.hi + 1e-9)) r.fail(mc::cat(str(t), ": sample ", v));
          }
        arc_helpers::SplitMix64PRNG one(3);
        dist(one);
      }
      int i = 0;
      Draws rng{[&] {
        if (i >= 2) throw More();
        return ((i++ == 0 ? a : b) + 0.5) / N;
      }};
      try {
        const double v = dist(rng);
        r.step();
        if (i == 0) throw mc::Prune();  // a value kept from the first sample: one constant for the whole grid
        s.push_back(v);
      } catch (More&) {
      }
    }
  if (s.size() < 40) r.fail(mc::cat(str(t), ": only ", s.size(), " samples accepted out of ", N * N));
  std::sort(s.begin(), s.end());
  auto phi = [&](double x) { return 0.5 * std::erfc(-(x - t.mean) / t.sd / std::sqrt(2.0)); };
  const double z0 = phi(t.lo), z1 = phi(t.hi);
  const std::vector<double>& u = s;
  double worst = 0, where = 0;
  for (size_t i = 0; i < u.size(); i++) {
    const double f = (phi(u[i]) - z0) / (z1 - z0);
    const double d = std::max(std::fabs(f - (double)i / u.size()), std::fabs(f - (double)(i + 1) / u.size()));
    if (d > worst) worst = d, where = u[i];
  }
  if (worst > (u.size() > 20000 ? 0.01 : 0.04)) r.fail(mc::cat(str(t), ": the share of samples below ", where, " is off by ", worst));
  r.state(str(t));
}
MC_SCENARIO(truncated_border, "the same distributions: along every line of draws (one of two draws fixed to 8 values, the other on a grid of 400) each place where a draw stops being accepted is narrowed down by 50 halvings: no sample on the way is out of the bounds, however little", 2) {
  const Trunc t = r.pick(TRUNC);
  const int axis = r.choose(2, "moving draw");
  const double fixed = r.pick(std::vector<double>{0.0, 0.1, 0.3, 0.45, 0.55, 0.7, 0.9, 1.0 - 1.0 / 4194304});
  struct More {};
  const double big = std::max(std::fabs(t.mean), std::max(std::isfinite(t.lo) ? std::fabs(t.lo) : 0, std::isfinite(t.hi) ? std::fabs(t.hi) : 0));
  const double tol = 1e-14 * (1 + big);
  auto accepted = [&](double u) {
    arc_helpers::TruncatedNormalDistribution dist(t.mean, t.sd, t.lo, t.hi);
    int i = 0;
    Draws rng{[&] {
      if (i >= 2) throw More();
      return i++ == axis ? u : fixed;
    }};
    r.step();
    try {
      const double v = dist(rng);
      if (!(v >= t.lo - tol && v <= t.hi + tol)) r.fail(mc::cat(str(t), ": a sample is ", v, ", outside by ", std::max(t.lo - v, v - t.hi)));
      return 1;
    } catch (More&) {
      return 0;
    }
  };
  const int N = 400;
  int before = accepted(0), borders = 0;
  for (int k = 1; k <= N; k++) {
    const double end = k == N ? 1.0 - 1.0 / 9007199254740992.0 : (double)k / N;
    const int now = accepted(end);
    if (now != before) {
      double a = (double)(k - 1) / N, b = end;
      for (int i = 0; i < 50; i++) {
        const double m = 0.5 * (a + b);
        (accepted(m) == before ? a : b) = m;
      }
      borders++;
    }
    before = now;
  }
  r.state(mc::cat(str(t), axis, fixed, borders));
}
MC_SCENARIO(degenerate_truncated, "standard deviation zero inside the bounds gives the mean", 0) {
  for (double m : {-2.0, 0.0, 1.5})
    for (double w : {0.0, 1.0, INF}) {
      arc_helpers::TruncatedNormalDistribution dist(m, 0.0, m - w, m + w);
      arc_helpers::SplitMix64PRNG g(5);
      for (int i = 0; i < 4; i++)
        if (dist(g) != m) r.fail(mc::cat("sample differs from the mean ", m));
      r.step();
    }
}
MC_SCENARIO(single_points, "a range of one value, at the mean, beside it and far from it, four deviations: every sample is that value, drawn within 200 draws", 1) {
  const double m = r.pick(std::vector<double>{-2.0, 0.0, 1.5}), sd = r.pick(std::vector<double>{0.25, 1.0, 3.0, 100.0});
  const double at = m + sd * r.pick(std::vector<double>{0.0, 0.5, -0.5, 2.0, -3.0, 6.0}, "place");
  arc_helpers::TruncatedNormalDistribution dist(m, sd, at, at);
  int draws = 0;
  arc_helpers::SplitMix64PRNG g(5);
  Draws rng{[&] {
    if (++draws > 200) r.fail(mc::cat("normal(", m, ", ", sd, ") truncated to the value ", at, " draws without end"));
    return (double)(g() >> 11) / 9007199254740992.0;
  }};
  for (int i = 0; i < 3; i++) {
    draws = 0;
    const double v = dist(rng);
    r.step();
    if (std::fabs(v - at) > 1e-12 * (1 + std::fabs(at) + std::fabs(m))) r.fail(mc::cat("normal(", m, ", ", sd, ") truncated to the value ", at, " gives ", v));
  }
  r.state(mc::cat(m, sd, at));
}

// --- closed forms
MC_SCENARIO(gaussian_functions, "five means, four deviations, all pairs of 13 limits in units of the deviation and all bounds: cumulative, density and integral against each other and against erfc", 2) {
  const double mean = r.pick(std::vector<double>{0, 1.5, -3, 100, -0.001});
  const double sd = r.pick(std::vector<double>{1, 0.25, 3, 40});
  const std::vector<double> k{-5, -3, -2, -1.25, -1, -0.5, 0, 0.5, 1, 1.25, 2, 3, 5};
  const double a = mean + sd * k[(size_t)r.choose(13, "lower")], b = mean + sd * k[(size_t)r.choose(13, "upper")];
  if (b < a) throw mc::Prune();
  auto phi = [&](double x) { return 0.5 * std::erfc(-(x - mean) / sd / std::sqrt(2.0)); };
  const std::string at = mc::cat("mean ", mean, " deviation ", sd, " between ", a, " and ", b);
  const double ca = arc_helpers::EvaluateGaussianCDF(mean, sd, a), cb = arc_helpers::EvaluateGaussianCDF(mean, sd, b);
  auto near = [&](double x, double y, double tol, const char* what) {
    r.step();
    if (!(std::fabs(x - y) <= tol)) r.fail(mc::cat(at, ": ", what, " is ", x, ", not ", y));
  };
  near(ca, phi(a), 1e-12, "cumulative");
  near(arc_helpers::EvaluateGaussianPDF(mean, sd, a), std::exp(-0.5 * std::pow((a - mean) / sd, 2)) / (sd * std::sqrt(2 * M_PI)), 1e-12, "density");
  near(arc_helpers::IntegrateGaussian(mean, sd, a, b), phi(b) - phi(a), 1e-12, "integral");
  near(arc_helpers::IntegrateGaussian(mean, sd, -INF, INF), 1, 1e-12, "the whole integral");
  near(arc_helpers::EvaluateGaussianCDF(mean, sd, mean - (b - mean)), 1 - cb, 1e-12, "mirrored cumulative");
  if (b - a < 1e-9) {  // a range of one value
    near(arc_helpers::EvaluateTruncatedGaussianCDF(mean, a, a, sd, a - sd), 0, 0, "truncated cumulative below a range of one value");
    near(arc_helpers::EvaluateTruncatedGaussianCDF(mean, a, a, sd, a + sd), 1, 0, "truncated cumulative above a range of one value");
    const double c = arc_helpers::EvaluateTruncatedGaussianCDF(mean, a, a, sd, a);
    if (!(c >= 0 && c <= 1)) r.fail(mc::cat(at, ": truncated cumulative at the only value is ", c));
    return;
  }
  const double h = (b - a) / 1000;
  double sum = 0, tsum = 0;
  for (int i = 0; i < 1000; i++) {
    sum += arc_helpers::EvaluateGaussianPDF(mean, sd, a + (i + 0.5) * h) * h;
    tsum += arc_helpers::EvaluateTruncatedGaussianPDF(mean, a, b, sd, a + (i + 0.5) * h) * h;
  }
  near(sum, phi(b) - phi(a), 1e-4, "density summed");
  near(tsum, 1, 1e-4, "truncated density summed");
  near(arc_helpers::IntegrateTruncatedGaussian(mean, a, b, sd, a - 1, b + 1), 1, 1e-12, "truncated integral over everything");
  double last = 0;
  for (double f : k) {
    const double v = mean + sd * f;
    const double c = arc_helpers::EvaluateTruncatedGaussianCDF(mean, a, b, sd, v);
    const double expect = v <= a ? 0 : v >= b ? 1 : (phi(v) - phi(a)) / (phi(b) - phi(a));
    near(c, expect, 1e-9, "truncated cumulative");
    if (c < last) r.fail(at + ": truncated cumulative decreases");
    near(arc_helpers::IntegrateTruncatedGaussian(mean, a, b, sd, mean - 6 * sd, v), expect, 1e-9, "truncated integral");
    near(arc_helpers::IntegrateTruncatedGaussian(mean, a, b, sd, v, mean + 6 * sd), 1 - expect, 1e-9, "truncated integral above");
    if (v < a || v > b) near(arc_helpers::EvaluateTruncatedGaussianPDF(mean, a, b, sd, v), 0, 0, "truncated density outside");
    if (v > a && v < b) near(arc_helpers::EvaluateTruncatedGaussianPDF(mean, a, b, sd, v), arc_helpers::EvaluateGaussianPDF(mean, sd, v) / (phi(b) - phi(a)), 1e-9, "truncated density");
    last = c;
  }
  near(arc_helpers::EvaluateTruncatedGaussianCDF(mean, -INF, b, sd, a), phi(a) / phi(b), 1e-9, "cumulative truncated above only");
  near(arc_helpers::EvaluateTruncatedGaussianCDF(mean, a, INF, sd, b), (phi(b) - phi(a)) / (1 - phi(a)), 1e-9, "cumulative truncated below only");
  r.state(at);
}

// --- multivariate Gaussian: moments over the whole grid of draws
MC_SCENARIO(multivariate, "means and covariances of dimension 1..3 (definite, singular, zero); every combination of draws on a grid: the samples have the mean and covariance asked for", 1) {
  typedef Eigen::MatrixXd M;
  std::vector<M> covs;
  auto add = [&](int d, std::vector<double> v) { covs.push_back(Eigen::Map<Eigen::Matrix<double, -1, -1, Eigen::RowMajor>>(v.data(), d, d)); };
  add(1, {4});
  add(1, {0});
  add(2, {1, 0, 0, 1});
  add(2, {4, 0, 0, 0.25});
  add(2, {2, 1, 1, 3});
  add(2, {2, -1.5, -1.5, 2});
  add(2, {1, 1, 1, 1});
  add(2, {1, -2, -2, 4});
  add(2, {0, 0, 0, 2});
  add(2, {0, 0, 0, 0});
  add(3, {1, 0, 0, 0, 2, 0, 0, 0, 3});
  add(3, {2, 1, 0, 1, 2, 1, 0, 1, 2});
  add(3, {1, 1, 0, 1, 1, 0, 0, 0, 1});
  const M cov = r.pick(covs);
  const int d = (int)cov.rows();
  Eigen::VectorXd mean = Eigen::VectorXd::Zero(d);
  if (r.flip("mean not zero"))
    for (int i = 0; i < d; i++) mean(i) = 1.5 * i - 2;
  const int pairs = (d + 1) / 2, N = pairs == 1 ? 300 : r.bound(26, 40);
  struct More {};
  Eigen::VectorXd sum = Eigen::VectorXd::Zero(d);
  M sq = M::Zero(d, d);
  double n = 0;
  std::vector<int> idx((size_t)(2 * pairs), 0);
  while (true) {
    arc_helpers::MultivariteGaussianDistribution dist(mean, cov);
    size_t i = 0;
    Draws rng{[&] {
      if (i >= idx.size()) throw More();
      return (idx[i++] + 0.5) / N;
    }};
    try {
      const Eigen::VectorXd v = dist(rng);
      if (v.rows() != d) r.fail("wrong dimension");
      sum += v - mean;
      sq += (v - mean) * (v - mean).transpose();
      n++;
      r.step();
    } catch (More&) {
    }
    size_t j = 0;
    while (j < idx.size() && ++idx[j] == N) idx[j++] = 0;
    if (j == idx.size()) break;
  }
  sum /= n;
  sq /= n;
  const double scale = std::max(1e-12, cov.diagonal().maxCoeff()), off = (sq - cov).cwiseAbs().maxCoeff(), bias = sum.cwiseAbs().maxCoeff();
  if (!(off <= 0.04 * scale) || !(bias <= 0.02 * std::sqrt(scale)))
    r.fail(mc::cat("mean off by ", bias, ", covariance off by ", off, " for covariance of dimension ", d, " [", cov(0, 0), " ", d > 1 ? cov(0, 1) : 0, " ..]"));
  r.state(mc::cat(d, " ", n));
}

// --- random rotations
MC_SCENARIO(quaternions, "every triple of draws on a grid that includes the extremes: unit norm; over the whole grid the rotations are uniform (zero means, second moments 1/4)", 1) {
  const bool raw = r.flip("raw form");
  const int N = r.bound(30, 60);
  arc_helpers::RandomRotationGenerator gen;
  Eigen::Vector4d sum = Eigen::Vector4d::Zero();
  Eigen::Matrix4d sq = Eigen::Matrix4d::Zero();
  Eigen::Matrix3d rs = Eigen::Matrix3d::Zero(), rsq = Eigen::Matrix3d::Zero();
  auto get = [&](double a, double b, double c) {
    const double d[3] = {a, b, c};
    int i = 0;
    Draws rng{[&]() -> double {
      if (i >= 3) throw mc::Prune();
      return d[i++];
    }};
    Eigen::Vector4d q;
    if (raw) {
      const std::vector<double> v = gen.GetRawQuaternion(rng);
      if (v.size() != 4) r.fail("raw quaternion has not four numbers");
      q << v[0], v[1], v[2], v[3];
    } else
      q = gen.GetQuaternion(rng).coeffs();
    r.step();
    if (!(std::fabs(q.norm() - 1) <= 1e-9)) r.fail(mc::cat("norm ", q.norm(), " for draws ", a, " ", b, " ", c));
    return q;
  };
  const double ex[] = {0, 1.0 / 9007199254740992.0, 0.5, 1 - 1.0 / 9007199254740992.0, 1.0};
  for (double a : ex)
    for (double b : ex)
      for (double c : ex) get(a, b, c);
  for (int a = 0; a < N; a++)
    for (int b = 0; b < N; b++)
      for (int c = 0; c < N; c++) {
        const Eigen::Vector4d q = get((a + 0.5) / N, (b + 0.5) / N, (c + 0.5) / N);
        sum += q;
        sq += q * q.transpose();
        const Eigen::Matrix3d m = Eigen::Quaterniond(q(3), q(0), q(1), q(2)).toRotationMatrix();
        rs += m;
        rsq += m.cwiseProduct(m);
      }
  const double n = (double)N * N * N;
  const double e1 = (sum / n).cwiseAbs().maxCoeff(), e2 = (sq / n - Eigen::Matrix4d::Identity() / 4).cwiseAbs().maxCoeff();
  const double e3 = (rs / n).cwiseAbs().maxCoeff(), e4 = (rsq / n - Eigen::Matrix3d::Constant(1.0 / 3)).cwiseAbs().maxCoeff();
  if (!(e1 < 1e-3 && e2 < 1e-3 && e3 < 1e-3 && e4 < 2e-3)) r.fail(mc::cat("not uniform: ", e1, " ", e2, " ", e3, " ", e4));
  r.state(mc::cat(raw));
}
MC_SCENARIO(eulers, "every quadruple of draws on a grid that includes the extremes: finite angles within one turn; over the whole grid the rotations are uniform", 1) {
  const bool raw = r.flip("raw form");
  const int N = r.bound(20, 36), H = 4;
  arc_helpers::RandomRotationGenerator gen;
  auto get = [&](const double* d) {
    int i = 0;
    Draws rng{[&]() -> double {
      if (i >= 4) throw mc::Prune();
      return d[i++];
    }};
    Eigen::Vector3d e;
    if (raw) {
      const std::vector<double> v = gen.GetRawEulerAngles(rng);
      if (v.size() != 3) r.fail("raw Euler angles are not three numbers");
      e << v[0], v[1], v[2];
    } else
      e = gen.GetEulerAngles(rng);
    r.step();
    if (!(std::fabs(e(0)) <= M_PI + 1e-12 && std::fabs(e(2)) <= M_PI + 1e-12 && e(1) >= -2 * M_PI - 1e-12 && e(1) <= 2 * M_PI + 1e-12)) r.fail(mc::cat("angles ", e(0), " ", e(1), " ", e(2)));
    return e;
  };
  const double ex[] = {0, 1.0 / 9007199254740992.0, 0.5, 1 - 1.0 / 9007199254740992.0, 1.0};
  for (double a : ex)
    for (double b : ex)
      for (double c : ex)
        for (double f : ex) {
          const double d[4] = {a, b, c, f};
          get(d);
        }
  Eigen::Matrix3d rs = Eigen::Matrix3d::Zero(), rsq = Eigen::Matrix3d::Zero();
  for (int a = 0; a < N; a++)
    for (int b = 0; b < N; b++)
      for (int c = 0; c < H; c++)
        for (int f = 0; f < N; f++) {
          const double d[4] = {(a + 0.5) / N, (b + 0.5) / N, (c + 0.5) / H, (f + 0.5) / N};
          const Eigen::Vector3d e = get(d);
          const Eigen::Matrix3d m = (Eigen::AngleAxisd(e(2), Eigen::Vector3d::UnitZ()) * Eigen::AngleAxisd(e(1), Eigen::Vector3d::UnitY()) * Eigen::AngleAxisd(e(0), Eigen::Vector3d::UnitX())).toRotationMatrix();
          rs += m;
          rsq += m.cwiseProduct(m);
        }
  const double n = (double)N * N * H * N;
  const double e3 = (rs / n).cwiseAbs().maxCoeff(), e4 = (rsq / n - Eigen::Matrix3d::Constant(1.0 / 3)).cwiseAbs().maxCoeff();
  if (!(e3 < 1e-3 && e4 < 3e-3)) r.fail(mc::cat("not uniform: ", e3, " ", e4));
  r.state(mc::cat(raw));
}
