// P02: serialization of Eigen values.
#include "trap.hpp"

#include <Eigen/Geometry>
#include <arc_utilities/serialization_eigen.hpp>
using namespace arc_utilities;
typedef std::vector<uint8_t> Buf;

static Buf junk(size_t n) {
  Buf b;
  for (size_t i = 0; i < n; i++) b.push_back((uint8_t)(0xff - 37 * i));
  return b;
}
template <typename S>
S value(int profile, size_t i) {
  switch (profile) {
    case 0: return (S)(1.25 + (double)i);
    case 1: return i % 3 == 0 ? std::numeric_limits<S>::quiet_NaN() : i % 3 == 1 ? (S)-0.0 : std::numeric_limits<S>::infinity();
    case 2: return i % 2 ? std::numeric_limits<S>::denorm_min() * (S)(i + 1) : std::numeric_limits<S>::max() / (S)(i + 1);
    default: return (S)(i % 2 ? -1e-30 * (double)(i + 1) : 1.0 / (double)(i + 3));
  }
}

inline const double* raw(const Eigen::Isometry3d& m) { return m.matrix().data(); }
template <typename M>
const typename M::Scalar* raw(const M& m) {
  return m.data();
}

template <typename M, typename D>
void check(mc::Run& r, const M& m, const D* data, size_t count, size_t expect_bytes, size_t pre, size_t suf,
           size_t stride = 1) {
  Buf b = junk(pre);
  const Buf before = b;
  const std::vector<D> copy(data, data + count);
  const uint64_t predicted = SerializedSizeEigen(m);
  const uint64_t w = SerializeEigen(m, b);
  r.step();
  MC_CHECK(w == b.size() - pre, mc::cat("reported ", w, " appended ", b.size() - pre));
  MC_CHECK(predicted == w, "predicted size");
  (void)expect_bytes;
  MC_CHECK(Buf(b.begin(), b.begin() + (long)pre) == before, "earlier bytes changed");
  MC_CHECK(memcmp(copy.data(), data, count * sizeof(D)) == 0, "argument changed");
  const Buf exact = b;
  for (uint8_t j : junk(suf)) b.push_back(j);
  const Buf full = b;
  auto d = DeserializeEigen<M>(b, pre);
  r.step();
  MC_CHECK(b == full, "buffer changed");
  MC_CHECK(d.second == w, mc::cat("read ", d.second, " wrote ", w));
  MC_CHECK(d.first.matrix().rows() == m.matrix().rows() && d.first.matrix().cols() == m.matrix().cols(), mc::cat("shape ", d.first.matrix().rows(), "x", d.first.matrix().cols()));
  const M got = d.first;
  MC_CHECK(memcmp(raw(got), data, count * sizeof(D)) == 0, "coefficients differ");
  r.state(mc::hash_bytes(exact.data(), exact.size(), pre + 77));
  for (size_t cut = pre; cut < exact.size(); cut += (cut > pre + 20 && cut + 24 < exact.size() ? stride : 1)) {
    Buf t(exact.begin(), exact.begin() + (long)cut);
    t.shrink_to_fit();
    r.step();
    MC_CHECK(trap::refused([&]() { DeserializeEigen<M>(t, pre); }), mc::cat("accepted after a cut at ", cut - pre, " of ", w));
  }
}
template <typename M>
void shaped(mc::Run& r, long rows, long cols, size_t stride = 1) {
  typedef typename M::Scalar S;
  M m(rows, cols);
  const int profile = r.choose(4, "values");
  const size_t pre = (size_t)r.choose(9, "prefix");
  const size_t suf = (size_t)r.choose(2, "suffix") * 11;
  for (long i = 0; i < m.size(); i++) m.data()[i] = value<S>(profile, (size_t)i);
  r.note([&]() { return mc::cat("shape ", rows, "x", cols); });
  check<M, S>(r, m, m.data(), (size_t)m.size(), 0, pre, suf, stride);
}
template <int R, int C>
using MX = Eigen::Matrix<double, R, C>;

MC_SCENARIO(fixed_and_dynamic_shapes, "9 value types x all shapes 0..5 (0..7 for vectors) x 4 value profiles x 9 prefixes x 2 suffixes, every truncation", 3) {
  switch (r.choose(8, "type")) {
    case 0: return shaped<Eigen::Vector3d>(r, 3, 1);
    case 1: return shaped<MX<6, 1>>(r, 6, 1);
    case 2: return shaped<MX<7, 1>>(r, 7, 1);
    case 3: return shaped<Eigen::VectorXd>(r, r.choose(8, "length"), 1);
    case 4: {
      long a = r.choose(6, "rows"), b = r.choose(6, "cols");
      return shaped<Eigen::MatrixXd>(r, a, b);
    }
    case 5: {
      long a = r.choose(6, "rows"), b = r.choose(6, "cols");
      return shaped<Eigen::MatrixXf>(r, a, b);
    }
    case 6: return shaped<Eigen::Matrix3Xd>(r, 3, r.choose(6, "cols"));
    default: return shaped<Eigen::Matrix3Xf>(r, 3, r.choose(6, "cols"));
  }
}

MC_SCENARIO(rigid_transforms, "4096 transforms (3 angles x 3 translations per axis, incl. bottom row), 5 prefixes, every truncation", 2) {
  static const double A[] = {0, M_PI / 2, 1.0, -2.5};
  static const double T[] = {0, -1.5, 1e6};
  Eigen::Isometry3d x = Eigen::Isometry3d::Identity();
  x = Eigen::Translation3d(T[r.choose(3, "x")], T[r.choose(3, "y")], T[r.choose(3, "z")]) *
      Eigen::AngleAxisd(A[r.choose(4, "a")], Eigen::Vector3d::UnitX()) *
      Eigen::AngleAxisd(A[r.choose(3, "b")], Eigen::Vector3d::UnitY());
  const size_t pre = (size_t)r.choose(5, "prefix"), suf = (size_t)r.choose(2, "suffix") * 16;
  const std::vector<double> d(x.matrix().data(), x.matrix().data() + 16);
  check<Eigen::Isometry3d, double>(r, x, x.matrix().data(), 16, 128, pre, suf);
}

MC_SCENARIO(large_shapes, "dimensions around 2^7, 2^8 and 2^16", 2) {
  static const long L[] = {100, 127, 128, 255, 256, 257, 1000, 65536};
  const long n = L[r.choose(8, "n")];
  const long m = n > 1000 ? 1 : 1 + r.choose(2, "m") * 2;
  const size_t stride = (size_t)n * (size_t)m;
  switch (r.choose(7, "type")) {
    case 0: return shaped<Eigen::VectorXd>(r, n, 1, stride);
    case 1: return shaped<Eigen::MatrixXd>(r, n, m, stride);
    case 2: return shaped<Eigen::MatrixXd>(r, m, n, stride);
    case 3: return shaped<Eigen::MatrixXf>(r, n, m, stride);
    case 4: return shaped<Eigen::MatrixXf>(r, m, n, stride);
    case 5: return shaped<Eigen::Matrix3Xd>(r, 3, n, stride);
    default: return shaped<Eigen::Matrix3Xf>(r, 3, n, stride);
  }
}

MC_SCENARIO(sequences, "all sequences of up to 4 values of 9 kinds in one buffer, read back in order", 3) {
  const int len = 1 + r.choose(r.bound(4, 5), "length");
  Buf b = junk((size_t)r.choose(2, "prefix"));
  const size_t start = b.size();
  Eigen::Vector3d v3(1, 2, 3);
  MX<6, 1> v6;
  v6 << 1, 2, 3, 4, 5, -6;
  MX<7, 1> v7;
  v7 << 7, 2, 3, 4, 5, -6, 0.5;
  Eigen::VectorXd vx(2), v0(0);
  vx << -1, 9;
  Eigen::MatrixXd mx(2, 3);
  mx << 1, 2, 3, 4, 5, 6;
  Eigen::MatrixXf mf(3, 2);
  mf << 1, 2, 3, 4, 5, 6;
  Eigen::Matrix3Xd m3(3, 2);
  m3 << 9, 8, 7, 6, 5, 4;
  Eigen::Matrix3Xf m3f(3, 1);
  m3f << 9, 8, 7;
  Eigen::Isometry3d iso = Eigen::Translation3d(1, 2, 3) * Eigen::Quaterniond(Eigen::AngleAxisd(1, Eigen::Vector3d(0, 0.6, 0.8)));
  std::vector<int> kinds;
  std::vector<uint64_t> sizes;
  for (int i = 0; i < len; i++) {
    int k = r.choose(10, "kind");
    kinds.push_back(k);
    uint64_t w = 0, before = b.size();
    switch (k) {
      case 0: w = SerializeEigen(v3, b); break;
      case 1: w = SerializeEigen(v6, b); break;
      case 2: w = SerializeEigen(v7, b); break;
      case 3: w = SerializeEigen(vx, b); break;
      case 4: w = SerializeEigen(mx, b); break;
      case 5: w = SerializeEigen(mf, b); break;
      case 6: w = SerializeEigen(m3, b); break;
      case 7: w = SerializeEigen(m3f, b); break;
      case 8: w = SerializeEigen(iso, b); break;
      default: w = SerializeEigen(v0, b); break;
    }
    r.step();
    MC_CHECK(w == b.size() - before, "byte count");
    sizes.push_back(w);
  }
  uint64_t p = start;
  for (int i = 0; i < len; i++) {
    bool eq = false;
    uint64_t n = 0;
    switch (kinds[(size_t)i]) {
#define RD(T, X) { auto d = DeserializeEigen<T>(b, p); n = d.second; eq = d.first.rows() == X.rows() && d.first.cols() == X.cols() && d.first == X; break; }
      case 0: RD(Eigen::Vector3d, v3)
      case 1: { typedef MX<6, 1> V; RD(V, v6) }
      case 2: { typedef MX<7, 1> V; RD(V, v7) }
      case 3: RD(Eigen::VectorXd, vx)
      case 4: RD(Eigen::MatrixXd, mx)
      case 5: RD(Eigen::MatrixXf, mf)
      case 6: RD(Eigen::Matrix3Xd, m3)
      case 7: RD(Eigen::Matrix3Xf, m3f)
      case 8: { auto d = DeserializeEigen<Eigen::Isometry3d>(b, p); n = d.second; eq = d.first.matrix() == iso.matrix(); break; }
      default: RD(Eigen::VectorXd, v0)
    }
    r.step();
    MC_CHECK(eq, mc::cat("value ", i, " kind ", kinds[(size_t)i]));
    MC_CHECK(n == sizes[(size_t)i], "read length");
    p += n;
  }
  MC_CHECK(p == b.size(), "left over bytes");
  r.state(mc::str(kinds));
}
