prop="C20"
needs="a box with an infinite upper bound and a finite lower bound that is violated"
breaks="lower bounds without a matching upper bound are never reported active: normal-cone Jacobians drop their rows"
edits=[("include/proxsuite-nlp/modelling/constraints/box-constraint.hpp","(z.array() > upper_limit.array()) || (z.array() < lower_limit.array());","(z.array() > upper_limit.array()) ||\n        ((upper_limit - lower_limit).array().isFinite() &&\n         (z.array() < lower_limit.array()));")]
demo=r'''
#include "proxsuite-nlp/modelling/spaces/vector-space.hpp"
#include "proxsuite-nlp/modelling/constraints.hpp"
#include <iostream>
using namespace proxsuite::nlp;
int main() {
  Eigen::VectorXd l(2), u(2), z(2);
  l << 0, 0; u << std::numeric_limits<double>::infinity(), 1;
  z << -1, -1;
  BoxConstraintTpl<double> b(l, u);
  Eigen::Matrix<bool, -1, 1> a(2);
  b.computeActiveSet(z, a);
  Eigen::MatrixXd J = Eigen::MatrixXd::Ones(2, 2);
  b.applyNormalConeProjectionJacobian(z, J);
  std::cout << a.transpose() << "\n" << J << "\n";
  return a[0] && a[1] && J.sum() == 4 ? 0 : 1;
}
'''
