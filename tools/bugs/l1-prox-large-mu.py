prop="C19"
needs="the soft-thresholding operator with a proximal parameter above one"
breaks="the threshold of the l1 proximal map saturates at one"
edits=[("include/proxsuite-nlp/modelling/constraints/l1-penalty.hpp","(z.array().abs() - mu_).max(static_cast<Scalar>(0.));","(z.array().abs() - std::min(mu_, Scalar(1.)))\n               .max(static_cast<Scalar>(0.));")]
demo=r'''
#include "proxsuite-nlp/modelling/spaces/vector-space.hpp"
#include "proxsuite-nlp/modelling/constraints.hpp"
#include "proxsuite-nlp/modelling/constraints/l1-penalty.hpp"
#include <iostream>
using namespace proxsuite::nlp;
int main() {
  NonsmoothPenaltyL1Tpl<double> p;
  Eigen::VectorXd z(2), o(2); z << 5, -1.5;
  for (double mu : {0.5, 2.}) {
    p.setProxParameter(mu);
    p.projection(z, o);
    std::cout << o.transpose() << "\n";
    for (int i = 0; i < 2; i++) {
      double w = std::copysign(std::max(std::abs(z[i]) - mu, 0.), z[i]);
      if (std::abs(w - o[i]) > 1e-12) return 1;
    }
  }
  return 0;
}
'''
