prop="C14"
needs="transport on a tangent bundle of a matrix with more columns than the dimension of the base"
breaks="only the leading square block of the base rows is transported, the remaining columns keep their old values"
edits=[("include/proxsuite-nlp/modelling/spaces/tangent-bundle.hxx","                            Jout.topRows(nv_), arg);","                            Jout.topLeftCorner(nv_, std::min<long>(nv_, Jout.cols())), arg);")]
demo=r'''
#include "proxsuite-nlp/modelling/spaces/vector-space.hpp"
#include "proxsuite-nlp/modelling/spaces/tangent-bundle.hpp"
#include <iostream>
using namespace proxsuite::nlp;
using Man = ManifoldAbstractTpl<double>;
struct Circle : Man { // angle on R, with a transport that scales
  using Man::ConstVectorRef; using Man::VectorRef; using Man::MatrixRef; using Man::VectorXs;
  int nx() const override { return 1; }
  int ndx() const override { return 1; }
  void integrate_impl(const ConstVectorRef &x, const ConstVectorRef &v, VectorRef o) const override { o[0] = x[0] * std::exp(v[0]); }
  void difference_impl(const ConstVectorRef &a, const ConstVectorRef &b, VectorRef o) const override { o[0] = std::log(b[0] / a[0]); }
  VectorXs neutral() const override { return VectorXs::Ones(1); }
  VectorXs rand() const override { return VectorXs::Ones(1); }
  void Jintegrate_impl(const ConstVectorRef &, const ConstVectorRef &, MatrixRef J, int) const override { J.setIdentity(); }
  void JintegrateTransport(const ConstVectorRef &, const ConstVectorRef &, MatrixRef J, int) const override { J *= 3.; }
  void Jdifference_impl(const ConstVectorRef &, const ConstVectorRef &, MatrixRef J, int a) const override { J.setIdentity(); if (!a) J *= -1; }
};
int main() {
  TangentBundleTpl<Circle> t{Circle()};
  Eigen::VectorXd x(2), v(2);
  x << 2, 1; v << .3, .2;
  Eigen::MatrixXd J = Eigen::MatrixXd::Ones(2, 5), E = J;
  E.row(0) *= 3;
  t.JintegrateTransport(x, v, J, 0);
  std::cout << J << "\n";
  return (J - E).norm() < 1e-12 ? 0 : 1;
}
'''
