prop="C24"
needs="an update which is skipped (negative curvature) followed by a regular one"
breaks="after a skipped update, the next secant pair mixes the old point with the new gradient"
edits=[("include/proxsuite-nlp/bfgs-strategy.hpp","""    x_prev = x;
    g_prev = g;
    PROXSUITE_NLP_NOMALLOC_END;""","""    if (is_psd)
      x_prev = x;
    g_prev = g;
    PROXSUITE_NLP_NOMALLOC_END;""")]
demo=r'''
#include "proxsuite-nlp/fwd.hpp"
#include "proxsuite-nlp/math.hpp"
#include "proxsuite-nlp/exceptions.hpp"
#include "proxsuite-nlp/bfgs-strategy.hpp"
#include <iostream>
using namespace proxsuite::nlp;
using V = Eigen::VectorXd; using M = Eigen::MatrixXd;
int main() {
  BFGSStrategy<double, BFGSType::Hessian> b(2);
  M H = M::Identity(2, 2);
  V x(2), g(2), x1(2), g1(2), x2(2), g2(2);
  x << 0, 0; g << 1, 1; x1 << 1, 0; g1 << 0, 1; x2 << 1.5, 2; g2 << 3, 4;
  b.update(x, g, H); b.update(x1, g1, H); b.update(x2, g2, H);
  double e = (H * (x2 - x1) - (g2 - g1)).norm();
  std::cout << e << "\n";
  return e < 1e-10 ? 0 : 1;
}
'''
