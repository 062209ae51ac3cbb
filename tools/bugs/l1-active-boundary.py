prop="C20"
needs="the active set of the l1 penalty at a negative component beyond the threshold"
breaks="the active set of the soft-thresholding operator depends on the sign: large negative components count as thresholded"
edits=[("include/proxsuite-nlp/modelling/constraints/l1-penalty.hpp","out = z.array().abs() <= mu_;","out = z.array() <= mu_ && z.array() >= -2. * mu_;")]
demo=r'''
#include "proxsuite-nlp/modelling/spaces/vector-space.hpp"
#include "proxsuite-nlp/modelling/constraints.hpp"
#include "proxsuite-nlp/modelling/constraints/l1-penalty.hpp"
#include <iostream>
using namespace proxsuite::nlp;
int main() {
  NonsmoothPenaltyL1Tpl<double> p;
  p.setProxParameter(1.);
  Eigen::VectorXd z(4); z << -1.5, -3, 0.5, 1.5;
  Eigen::Matrix<bool, -1, 1> a(4);
  p.computeActiveSet(z, a);
  std::cout << a.transpose() << "\n";
  return !a[0] && !a[1] && a[2] && !a[3] ? 0 : 1;
}
'''
