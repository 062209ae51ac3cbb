// Curved manifolds implemented independently of the library, used as
// components of its product / bundle spaces and as decision spaces.
#pragma once
#include "common.hpp"
#include "proxsuite-nlp/modelling/spaces/vector-space.hpp"
#include "proxsuite-nlp/modelling/spaces/cartesian-product.hpp"
#include "proxsuite-nlp/modelling/spaces/tangent-bundle.hpp"

namespace vf {
using namespace proxsuite::nlp;
using Man = ManifoldAbstractTpl<double>;
using PMan = polymorphic<Man>;
using VecSpace = VectorSpaceTpl<double>;
using Product = CartesianProductTpl<double>;
using V3 = Eigen::Vector3d;
using M3 = Eigen::Matrix3d;

inline M3 skew(const V3 &v) {
  M3 m;
  m << 0, -v[2], v[1], v[2], 0, -v[0], -v[1], v[0], 0;
  return m;
}
inline M3 rodrigues(const V3 &v) {
  double t = v.norm();
  double a = t < 1e-6 ? 1 - t * t / 6 : std::sin(t) / t;
  double b = t < 1e-4 ? 0.5 - t * t / 24 : (1 - std::cos(t)) / (t * t);
  M3 k = skew(v);
  return M3::Identity() + a * k + b * k * k;
}
/// right Jacobian of SO(3)
inline M3 rightJac(const V3 &v) {
  double t = v.norm();
  double b = t < 1e-4 ? 0.5 - t * t / 24 : (1 - std::cos(t)) / (t * t);
  double c = t < 1e-3 ? 1. / 6 - t * t / 120 : (t - std::sin(t)) / (t * t * t);
  M3 k = skew(v);
  return M3::Identity() - b * k + c * k * k;
}
/// unit quaternions (x,y,z,w), tangent in R^3 (body frame)
struct SO3 : Man {
  using ConstVectorRef = Man::ConstVectorRef;
  using VectorRef = Man::VectorRef;
  using MatrixRef = Man::MatrixRef;
  int nx() const override { return 4; }
  int ndx() const override { return 3; }
  static Eigen::Quaterniond q(const ConstVectorRef &x) { return Eigen::Quaterniond(x[3], x[0], x[1], x[2]); }
  V neutral() const override {
    V o(4);
    o << 0, 0, 0, 1;
    return o;
  }
  V rand() const override {
    V o = V::Random(4);
    while (o.norm() < 0.1)
      o = V::Random(4);
    return o.normalized();
  }
  bool isNormalized(const ConstVectorRef &x) const override { return x.size() == 4 && std::abs(x.norm() - 1) < 1e-6; }
  static Eigen::Quaterniond expq(const V3 &v) {
    double t = v.norm();
    double a = t < 1e-6 ? 0.5 - t * t / 48 : std::sin(t / 2) / t;
    return Eigen::Quaterniond(std::cos(t / 2), a * v[0], a * v[1], a * v[2]);
  }
  static V3 logq(Eigen::Quaterniond r) {
    if (r.w() < 0)
      r.coeffs() *= -1;
    double s = r.vec().norm();
    double a = s < 1e-9 ? 2. / r.w() : 2. * std::atan2(s, r.w()) / s;
    return a * r.vec();
  }
  void integrate_impl(const ConstVectorRef &x, const ConstVectorRef &v, VectorRef out) const override {
    Eigen::Quaterniond r = q(x) * expq(V3(v));
    r.normalize();
    out << r.x(), r.y(), r.z(), r.w();
  }
  void difference_impl(const ConstVectorRef &x0, const ConstVectorRef &x1, VectorRef out) const override {
    out = logq(q(x0).conjugate() * q(x1));
  }
  void Jintegrate_impl(const ConstVectorRef &, const ConstVectorRef &v, MatrixRef J, int arg) const override {
    if (arg == 0)
      J = rodrigues(V3(v)).transpose();
    else
      J = rightJac(V3(v));
  }
  void JintegrateTransport(const ConstVectorRef &x, const ConstVectorRef &v, MatrixRef J, int arg) const override {
    M a(3, 3);
    Jintegrate_impl(x, v, a, arg);
    J = (a * J).eval();
  }
  void Jdifference_impl(const ConstVectorRef &x0, const ConstVectorRef &x1, MatrixRef J, int arg) const override {
    V3 d = logq(q(x0).conjugate() * q(x1));
    if (arg == 0)
      J = -rightJac(-d).inverse();
    else
      J = rightJac(d).inverse();
  }
};
/// unit complex numbers
struct SO2 : Man {
  using ConstVectorRef = Man::ConstVectorRef;
  using VectorRef = Man::VectorRef;
  using MatrixRef = Man::MatrixRef;
  int nx() const override { return 2; }
  int ndx() const override { return 1; }
  V neutral() const override {
    V o(2);
    o << 1, 0;
    return o;
  }
  V rand() const override {
    double a = 3.1 * V::Random(1)[0];
    V o(2);
    o << std::cos(a), std::sin(a);
    return o;
  }
  bool isNormalized(const ConstVectorRef &x) const override { return x.size() == 2 && std::abs(x.norm() - 1) < 1e-6; }
  void integrate_impl(const ConstVectorRef &x, const ConstVectorRef &v, VectorRef out) const override {
    double c = std::cos(v[0]), s = std::sin(v[0]), a = x[0], b = x[1];
    out[0] = a * c - b * s;
    out[1] = a * s + b * c;
    out /= out.norm();
  }
  void difference_impl(const ConstVectorRef &x0, const ConstVectorRef &x1, VectorRef out) const override {
    out[0] = std::atan2(x0[0] * x1[1] - x0[1] * x1[0], x0.dot(x1));
  }
  void Jintegrate_impl(const ConstVectorRef &, const ConstVectorRef &, MatrixRef J, int) const override {
    J.setIdentity();
  }
  void JintegrateTransport(const ConstVectorRef &, const ConstVectorRef &, MatrixRef, int) const override {}
  void Jdifference_impl(const ConstVectorRef &, const ConstVectorRef &, MatrixRef J, int arg) const override {
    J.setIdentity();
    if (arg == 0)
      J *= -1;
  }
};

struct SpaceGen {
  Rng &r;
  std::string desc;
  explicit SpaceGen(Rng &r_) : r(r_) {}
  // fills a polymorphic manifold; depth limits nesting
  PMan make(int depth) {
    int k = r.in(0, depth > 0 ? 8 : 3);
    switch (k) {
    case 0: {
      int n = r.many(1, 5, 24, 0.03);
      desc += cat("R", n);
      return PMan(VecSpace(n));
    }
    case 1:
      desc += "SO3";
      return PMan(SO3());
    case 2:
      desc += "SO2";
      return PMan(SO2());
    case 3:
      desc += "R3s";
      return PMan(VectorSpaceTpl<double, 3>());
    case 4: {
      int n = r.many(1, 3, 8, 0.03);
      desc += cat("T(R", n, ")");
      return PMan(TangentBundleTpl<VecSpace>(VecSpace(n)));
    }
    case 5:
      desc += "T(SO3)";
      return PMan(TangentBundleTpl<SO3>(SO3()));
    case 6:
      desc += "T(SO2)";
      return PMan(TangentBundleTpl<SO2>(SO2()));
    case 7: {
      desc += "T";
      return PMan(TangentBundleTpl<Product>(product(depth - 1)));
    }
    default:
      return PMan(product(depth - 1));
    }
  }
  Product product(int depth) {
    Product p;
    int n = r.many(1, 4, 10, 0.03);
    desc += "(";
    for (int i = 0; i < n; i++) {
      if (i)
        desc += "x";
      p.addComponent(make(depth));
    }
    desc += ")";
    return p;
  }
};
/// random point drawn with the harness generator (deterministic)
inline V rpoint(const Man &m, Rng &r, double sc = 1.) {
  V x = m.neutral(), d = r.vec(m.ndx(), sc);
  return m.integrate(x, d);
}
/// tangent bounded per coordinate so that every SO(3) part stays inside the
/// injectivity radius
inline V rtangent(const Man &m, Rng &r, double sc = 0.8) {
  V v(m.ndx());
  for (Index i = 0; i < v.size(); i++)
    v[i] = r.uni(-sc, sc);
  return v;
}
} // namespace vf
