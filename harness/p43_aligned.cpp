// P43: Aligned4Vector3 behaves as a plain three-dimensional vector under every sequence of operations.
#include "trap.hpp"

#include <assert.h>

#include <arc_utilities/aligned_eigen_types.hpp>

typedef Eigen::Vector3d V3;
typedef Eigen::Vector4d V4;

template <class T>
struct Machine {
  typedef Eigen::Aligned4Vector3<T> A;
  typedef Eigen::Matrix<T, 3, 1> R3;
  typedef Eigen::Matrix<T, 4, 1> R4;
  double tol;
  A a[2];
  double m[2][3];  // the model: plain numbers
  std::string w;

  static std::string S(const double* v) { return mc::cat("(", v[0], " ", v[1], " ", v[2], ")"); }
  bool near(double x, double y, double scale) const { return std::fabs(x - y) <= tol * (1 + scale); }
  double size(int i) const { return std::fabs(m[i][0]) + std::fabs(m[i][1]) + std::fabs(m[i][2]); }
  void look(mc::Run& r) {
    for (int i = 0; i < 2; i++) {
      const A& v = a[i];
      const double s = size(i);
      for (int k = 0; k < 3; k++)
        if (!near((double)v(k), m[i][k], s) || !near((double)v.coeff(k), m[i][k], s) || !near((double)v.coeff(k, 0), m[i][k], s) || !near((double)v.data()[k], m[i][k], s))
          r.fail(mc::cat(w, ": vector ", i, " is (", (double)v(0), " ", (double)v(1), " ", (double)v(2), "), should be ", S(m[i])));
      if (v.rows() != 3 || v.cols() != 1 || v.size() != 3) r.fail(mc::cat(w, ": not three numbers"));
      const double sum = m[i][0] + m[i][1] + m[i][2], sq = m[i][0] * m[i][0] + m[i][1] * m[i][1] + m[i][2] * m[i][2];
      if (!near((double)v.sum(), sum, s)) r.fail(mc::cat(w, ": sum of ", S(m[i]), " is ", (double)v.sum()));
      if (!near((double)v.squaredNorm(), sq, sq)) r.fail(mc::cat(w, ": squared norm of ", S(m[i]), " is ", (double)v.squaredNorm()));
      // relative to the numbers it holds, however short it is
      const double e[3] = {(double)v(0), (double)v(1), (double)v(2)}, exact = e[0] * e[0] + e[1] * e[1] + e[2] * e[2], rel = std::is_same<T, float>::value ? 1e-5 : 1e-13;
      if (std::fabs((double)v.squaredNorm() - exact) > rel * exact) r.fail(mc::cat(w, ": squared norm of ", S(e), " is ", (double)v.squaredNorm()));
      if (std::fabs((double)v.norm() - std::sqrt(exact)) > rel * std::sqrt(exact)) r.fail(mc::cat(w, ": norm of ", S(e), " is ", (double)v.norm()));
      if (std::fabs((double)v.sum() - (e[0] + e[1] + e[2])) > rel * (std::fabs(e[0]) + std::fabs(e[1]) + std::fabs(e[2]))) r.fail(mc::cat(w, ": sum of ", S(e), " is ", (double)v.sum()));
      const R3 plain((T)m[i][0], (T)m[i][1], (T)m[i][2]);
      if (sq > 1e-2 && !v.isApprox(plain, (T)(tol * 10))) r.fail(mc::cat(w, ": not approximately ", S(m[i])));
      if (sq > 1e-2 && v.isApprox(R3(plain * (T)2), (T)0.1)) r.fail(mc::cat(w, ": approximately twice itself"));
      const R3 copy = v, twice = v + plain, el = v.cwiseProduct(plain);
      for (int k = 0; k < 3; k++)
        if (!near((double)copy(k), m[i][k], s) || !near((double)twice(k), 2 * m[i][k], s) || !near((double)el(k), m[i][k] * m[i][k], sq)) r.fail(mc::cat(w, ": an expression of ", S(m[i]), " is wrong"));
    }
    double d = 0;
    for (int k = 0; k < 3; k++) d += m[0][k] * m[1][k];
    const double sc = size(0) * size(1);
    if (!near((double)a[0].dot(a[1]), d, sc) || !near((double)a[1].dot(a[0]), d, sc)) r.fail(mc::cat(w, ": dot product of ", S(m[0]), " and ", S(m[1]), " is ", (double)a[0].dot(a[1])));
  }
  void set(int i, double x, double y, double z) {
    m[i][0] = x;
    m[i][1] = y;
    m[i][2] = z;
  }
  bool op(mc::Run& r, int which) {
    const int i = which & 1, j = 1 - i;
    double *x = m[i], *y = m[j];
    const double old[3] = {x[0], x[1], x[2]};
    A &p = a[i], &q = a[j];
    const T s = (T)-1.5;
    static const char* NAMES[] = {"+=", "-=", "*=", "/=", "normalize", "=", "= a + b", "= a - b", "= a * s", "= s * a", "= a / s", "= normalized", "= cross", "= plain 3", "= plain 4", "= copy of plain 3", "= default", "[1] =", "= expression", "= short"};
    const int n = which >> 1;
    w += mc::cat(" ", NAMES[n], i);
    switch (n) {
      case 0: p += q; for (int k = 0; k < 3; k++) x[k] += y[k]; break;
      case 1: p -= q; for (int k = 0; k < 3; k++) x[k] -= y[k]; break;
      case 2: p *= s; for (int k = 0; k < 3; k++) x[k] *= s; break;
      case 3: p /= s; for (int k = 0; k < 3; k++) x[k] /= s; break;
      case 4:
      case 11: {
        const double e[3] = {(double)p(0), (double)p(1), (double)p(2)}, l = std::sqrt(e[0] * e[0] + e[1] * e[1] + e[2] * e[2]);
        if (l < 1e-12) return false;
        if (n == 4) p.normalize();
        else p = p.normalized();
        for (int k = 0; k < 3; k++) x[k] = e[k] / l;
        break;
      }
      case 5: p = q; for (int k = 0; k < 3; k++) x[k] = y[k]; break;
      case 6: p = p + q; for (int k = 0; k < 3; k++) x[k] += y[k]; break;
      case 7: p = p - q; for (int k = 0; k < 3; k++) x[k] -= y[k]; break;
      case 8: p = p * s; for (int k = 0; k < 3; k++) x[k] *= s; break;
      case 9: p = s * p; for (int k = 0; k < 3; k++) x[k] *= s; break;
      case 10: p = p / s; for (int k = 0; k < 3; k++) x[k] /= s; break;
      case 12:
        p = p.cross(q);
        x[0] = old[1] * y[2] - old[2] * y[1];
        x[1] = old[2] * y[0] - old[0] * y[2];
        x[2] = old[0] * y[1] - old[1] * y[0];
        break;
      case 13: p = R3((T)0.5, (T)-4, (T)3); set(i, 0.5, -4, 3); break;
      case 14: p = R4((T)2, (T)0, (T)-1, (T)7); set(i, 2, 0, -1); break;
      case 15: { A t(R3((T)-1, (T)1, (T)8)); p = A(t); set(i, -1, 1, 8); break; }
      case 16: p = A(); set(i, 0, 0, 0); break;
      case 17: p.coeffRef(1) = (T)6; p(2) = (T)-2; x[1] = 6; x[2] = -2; break;
      case 19: p = R3((T)1e-9, (T)-2e-9, (T)5e-10); set(i, 1e-9, -2e-9, 5e-10); break;
      case 18: { const R3 g((T)1, (T)2, (T)3); p = g * (T)2 - R3(p); for (int k = 0; k < 3; k++) x[k] = 2 * (k + 1) - x[k]; break; }
    }
    if (size(i) > 1e6) throw mc::Prune();
    (void)r;
    return true;
  }
  void run(mc::Run& r, int depth) {
    a[0] = A((T)1, (T)-2, (T)0.5);
    a[1] = A((T)3, (T)0.25, (T)-1);
    set(0, 1, -2, 0.5);
    set(1, 3, 0.25, -1);
    look(r);
    for (int d = 0; d < depth; d++) {
      if (!op(r, r.choose(40, "operation"))) throw mc::Prune();
      r.step();
      look(r);
      const int left = depth - d - 1;
      if (r.seen(mc::mix(mc::hash_bytes(a, sizeof a), mc::hash_bytes(m, sizeof m)), left)) return;
    }
  }
};
MC_SCENARIO(doubles, "every sequence of four (thorough: five) of 40 operations on two vectors of doubles", 1) {
  Machine<double> s;
  s.tol = 1e-9;
  s.run(r, r.bound(4, 5));
}
MC_SCENARIO(floats, "every sequence of three (thorough: four) of 40 operations on two vectors of floats", 1) {
  Machine<float> s;
  s.tol = 1e-3;
  s.run(r, r.bound(3, 4));
}
