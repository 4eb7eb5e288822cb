// P17: k-means. The header's random engine is replaced by one whose draws are explored.
#include "trap.hpp"

#include <Eigen/Geometry>
#include <chrono>
#include <functional>
#include <random>

// Engine whose outputs fall in the middle of one of `cells` equal ranges: an integer distribution over `cells` values
// yields exactly the chosen one. After `free_draws` draws it cycles through all cells (so that rejection loops end).
struct Draws {
  mc::Run* r = nullptr;
  uint64_t cells = 1, next = 0, stride = 1;
  int free_draws = 0;
  long limit = -1;  // draws left before the wait counts as endless
};
static Draws g_draws;
namespace std {
struct mc_engine {
  typedef uint64_t result_type;
  explicit mc_engine(uint64_t = 0) {}
  void seed(uint64_t) {}
  static constexpr result_type min() { return 0; }
  static constexpr result_type max() { return ~0ull; }
  result_type operator()() {
    if (g_draws.limit >= 0 && g_draws.limit-- == 0) {
      g_draws.limit = -1;
      g_draws.r->fail("items are drawn without end");
    }
    uint64_t c;
    if (g_draws.free_draws > 0) {
      g_draws.free_draws--;
      c = (uint64_t)g_draws.r->choose((int)g_draws.cells, "draw");
      g_draws.next = c + g_draws.stride;
    } else {
      c = g_draws.next % g_draws.cells;
      g_draws.next += g_draws.stride;
    }
    return (uint64_t)((((unsigned __int128)c << 64) + ((unsigned __int128)1 << 63)) / g_draws.cells);
  }
};
}  // namespace std
#define mt19937_64 mc_engine
#define mt19937 mc_engine
#include <arc_utilities/simple_kmeans_clustering.hpp>
#undef mt19937_64
#undef mt19937
typedef simple_kmeans_clustering::SimpleKMeansClustering KM;
typedef std::vector<double> Data;
static const double W1 = 1, W3 = 3;
static double weight_of(double x, int scheme) { return scheme == 0 ? 1.0 : ((int)std::fabs(x) % 2 ? W3 : W1); }

struct Ctx {
  mc::Run& r;
  Data data;
  bool weighted;
  int scheme;
  std::string bad;
};
static mc::Scale g_scale{0, 1};  // of all distances: what is closest stays closest
static double mean(const Data& v) {
  double s = 0;
  for (double x : v) s += x;
  return s / (double)v.size();
}
static std::function<double(const double&, const double&)> dist_fn() {
  return [](const double& a, const double& b) { return g_scale(std::fabs(a - b)); };
}
static std::function<double(const Data&)> avg_fn(Ctx& c) {
  return [&c](const Data& v) {
    if (v.empty()) c.bad = "the average of no items was requested";
    return v.empty() ? 0.0 : mean(v);
  };
}
static std::function<double(const Data&, const std::vector<double>&)> wavg_fn(Ctx& c) {
  return [&c](const Data& v, const std::vector<double>& w) {
    if (v.empty()) c.bad = "the average of no items was requested";
    if (w.size() != v.size()) c.bad = "weights and items given to the average differ in number";
    double s = 0, t = 0;
    for (size_t i = 0; i < v.size() && i < w.size(); i++) {
      if (w[i] != weight_of(v[i], c.scheme)) c.bad = mc::cat("item ", v[i], " was averaged with weight ", w[i]);
      s += w[i] * v[i];
      t += w[i];
    }
    return t > 0 ? s / t : 0.0;
  };
}
static double center(const Ctx& c, const std::vector<uint32_t>& labels, uint32_t k) {
  double s = 0, t = 0;
  for (size_t i = 0; i < labels.size(); i++)
    if (labels[i] == k) {
      const double w = c.weighted ? weight_of(c.data[i], c.scheme) : 1.0;
      s += w * c.data[i];
      t += w;
    }
  return t > 0 ? s / t : NAN;
}
static void judge(Ctx& c, const std::vector<uint32_t>& labels, uint32_t k, const Data* centers = nullptr) {
  const std::string in = mc::cat(c.weighted ? "weighted " : "", "clustering of ", mc::str(c.data), " into ", k, " gives ", mc::str(labels));
  if (!c.bad.empty()) c.r.fail(in + ": " + c.bad);
  if (labels.size() != c.data.size()) c.r.fail(in + ": wrong number of labels");
  for (uint32_t l : labels)
    if (l >= k) c.r.fail(in + ": label out of range");
  if (k == 1) return;
  Data cen;
  for (uint32_t j = 0; j < k; j++) {
    const double m = center(c, labels, j);
    if (centers) {
      if ((*centers).size() != k) c.r.fail(in + ": wrong number of centres");
      if (!std::isnan(m) && std::fabs(m - (*centers)[j]) > 1e-9)
        c.r.fail(mc::cat(in, ": centre ", j, " is ", (*centers)[j], ", its members average ", m));
      cen.push_back((*centers)[j]);
    } else {
      cen.push_back(m);
    }
  }
  for (size_t i = 0; i < labels.size(); i++)
    for (uint32_t j = 0; j < k; j++)
      if (std::fabs(c.data[i] - cen[j]) < std::fabs(c.data[i] - cen[labels[i]]) - 1e-9)
        c.r.fail(mc::cat(in, ": item ", i, " (", c.data[i], ") is closer to cluster ", j, ", centres ", mc::str(cen)));
  c.r.step();
  c.r.state(in);
}
static std::vector<double> weights(const Ctx& c) {
  std::vector<double> w;
  for (double x : c.data) w.push_back(weight_of(x, c.scheme));
  return w;
}
static void run_random(Ctx& c, uint32_t k, bool prelim = false) {
  if (c.weighted) {
    judge(c, KM::ClusterWeighted(c.data, weights(c), dist_fn(), wavg_fn(c), k, prelim), k);
  } else {
    judge(c, KM::Cluster(c.data, dist_fn(), avg_fn(c), k, prelim), k);
  }
}

MC_SCENARIO(random_start, "every data set of 1..5 (thorough 6) items over {0,1,3,7}, every number of clusters up to the items, every choice of initial items, unweighted and weighted", 3) {
  const int n = 1 + r.choose(r.bound(5, 6), "items");
  Ctx c{r, {}, r.flip("weighted"), 1, ""};
  int last = 0;  // the order of items only permutes the initial draw: non-decreasing data
  static const double V[] = {0, 1, 3, 7};
  for (int i = 0; i < n; i++) {
    last += r.choose(4 - last, "value");
    c.data.push_back(V[last]);
  }
  if (r.flip("reversed")) std::reverse(c.data.begin(), c.data.end());
  const uint32_t k = 1 + (uint32_t)r.choose(n, "clusters");
  g_draws = Draws{&r, (uint64_t)n, 0, 1, std::min((int)k, n - (int)k) + 1};  // enough to start from every subset
  run_random(c, k);
}
MC_SCENARIO(given_centres, "every data set of 1..4 items over {0,1,4,9} and every pair and triple of starting centres over {-3,0,2,8,100}", 3) {
  const int n = 1 + r.choose(4, "items"), k = 2 + r.choose(2, "clusters");
  Ctx c{r, {}, r.flip("weighted"), 1, ""};
  for (int i = 0; i < n; i++) c.data.push_back(r.pick(std::vector<double>{0, 1, 4, 9}, "value"));
  Data start;
  for (int i = 0; i < k; i++) start.push_back(r.pick(std::vector<double>{-3, 0, 2, 8, 100}, "centre"));
  if (c.weighted) {
    const auto res = KM::ClusterWeighted(c.data, weights(c), dist_fn(), wavg_fn(c), start);
    judge(c, res.first, (uint32_t)k, &res.second);
  } else {
    const auto res = KM::Cluster(c.data, dist_fn(), avg_fn(c), start);
    judge(c, res.first, (uint32_t)k, &res.second);
  }
}
MC_SCENARIO(scales, "every data set of 1..3 items over {0,1,4,9} and every pair of starting centres over {-3,0,2,8}, every distance scaled to be tiny, huge or nearly equal to all others", 3) {
  struct Scaled {
    Scaled(mc::Scale s) { g_scale = s; }
    ~Scaled() { g_scale = mc::Scale{0, 1}; }
  } scaled(r.scale());
  Ctx c{r, {}, r.flip("weighted"), 1, ""};
  const int n = 1 + r.choose(3, "items");
  for (int i = 0; i < n; i++) c.data.push_back(r.pick(std::vector<double>{0, 1, 4, 9}, "value"));
  Data start;
  for (int i = 0; i < 2; i++) start.push_back(r.pick(std::vector<double>{-3, 0, 2, 8}, "centre"));
  const auto res = c.weighted ? KM::ClusterWeighted(c.data, weights(c), dist_fn(), wavg_fn(c), start) : KM::Cluster(c.data, dist_fn(), avg_fn(c), start);
  judge(c, res.first, 2, &res.second);
}
MC_SCENARIO(preliminary, "100 and 137 items in two or three shapes with preliminary clustering of a subset drawn from every start (step 9) and stride", 3) {
  const int n = r.flip("larger") ? 137 : 100, shape = r.choose(3, "shape");
  Ctx c{r, {}, r.flip("weighted"), 1, ""};
  for (int i = 0; i < n; i++) c.data.push_back(shape == 0 ? i : shape == 1 ? (i % 2) * 50 + i % 7 : (i * 37) % 101);
  const uint32_t k = 2;
  g_draws = Draws{&r, (uint64_t)n, (uint64_t)r.choose(n / 9, "start") * 9, (uint64_t)r.pick(std::vector<int>{1, 2, 7, 50, 99}, "stride"), 0};
  if (n % (int)g_draws.stride == 0 && n / (int)g_draws.stride < 14) g_draws.stride++;
  run_random(c, k, true);
}

MC_SCENARIO(too_many_clusters, "every number of clusters from one more than the items to twice as many, 1..4 items, with and without preliminary clustering and weights: refused, not waited for", 1) {
  const int n = 1 + r.choose(4, "items");
  Ctx c{r, {}, r.flip("weighted"), 1, ""};
  for (int i = 0; i < n; i++) c.data.push_back(i);
  const uint32_t k = (uint32_t)(n + 1 + r.choose(n, "more"));
  const bool prelim = r.flip("preliminary");
  g_draws = Draws{&r, (uint64_t)n, 0, 1, 0};
  r.step();
  g_draws.limit = 100 * n;
  const bool refused = trap::refused([&] { run_random(c, k, prelim); });
  g_draws.limit = -1;
  if (!refused) r.fail(mc::cat("clustering of ", n, " items into ", k, " was accepted"));
  r.state(mc::cat(n, k, prelim, c.weighted));
}
