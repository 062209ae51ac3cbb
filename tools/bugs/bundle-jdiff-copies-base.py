prop="C14"
needs="a tangent bundle over a base whose difference Jacobian in the first argument is not minus the identity (a user manifold on a curved space)"
breaks="the tangent part of the difference Jacobian with respect to the first point is a copy of the base part"
edits=[("include/proxsuite-nlp/modelling/spaces/tangent-bundle.hxx","    J_.bottomRightCorner(nv_, nv_).diagonal().array() = Scalar(-1);","    J_.bottomRightCorner(nv_, nv_) = J_.topLeftCorner(nv_, nv_);")]
demo=r'''//PRELUDE
#include "proxsuite-nlp/modelling/spaces/tangent-bundle.hpp"
// the line in the chart x -> sinh(x)
struct Chart : ManifoldAbstractTpl<double> {
  using Base = ManifoldAbstractTpl<double>;
  using typename Base::ConstVectorRef; using typename Base::VectorRef; using typename Base::MatrixRef; using typename Base::VectorXs;
  int nx() const { return 1; } int ndx() const { return 1; }
  VectorXs neutral() const { return V::Zero(1); } VectorXs rand() const { return V::Random(1); }
  bool isNormalized(const ConstVectorRef &) const { return true; }
  void integrate_impl(const ConstVectorRef &x, const ConstVectorRef &v, VectorRef o) const { o[0] = std::asinh(std::sinh(x[0]) + v[0]); }
  void difference_impl(const ConstVectorRef &a, const ConstVectorRef &b, VectorRef o) const { o[0] = std::sinh(b[0]) - std::sinh(a[0]); }
  void Jintegrate_impl(const ConstVectorRef &, const ConstVectorRef &, MatrixRef J, int) const { J(0, 0) = 1; }
  void Jdifference_impl(const ConstVectorRef &a, const ConstVectorRef &b, MatrixRef J, int arg) const { J(0, 0) = arg == 0 ? -2. : 2.; }
  void JintegrateTransport(const ConstVectorRef &, const ConstVectorRef &, MatrixRef, int) const {}
  void interpolate_impl(const ConstVectorRef &a, const ConstVectorRef &b, const double &u, VectorRef o) const { o = (1 - u) * a + u * b; }
};
int main() {
  TangentBundleTpl<Chart> tb{Chart{}};
  V a(2), b(2); a << .1, .2; b << .3, .4;
  M J(2, 2);
  tb.Jdifference(a, b, J, 0);
  std::cout << J << "\n";
  return J(0, 0) == -2. && J(1, 1) == -1. && J(0, 1) == 0 && J(1, 0) == 0 ? 0 : 1;
}
'''
