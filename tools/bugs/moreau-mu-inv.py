prop="C21"
needs="two small proximal parameters one after the other on the same set (penalty parameter near its lower bound)"
breaks="the inverse proximal parameter is not refreshed for a small absolute change: envelopes use a stale inverse"
edits=[("include/proxsuite-nlp/constraint-set.hpp","""    mu_ = mu;
    mu_inv_ = 1. / mu;
  };""","""    // skip the division if the parameter did not change
    if (std::abs(mu - mu_) > 1e-8)
      mu_inv_ = 1. / mu;
    mu_ = mu;
  };""")]
demo=r'''
#include "proxsuite-nlp/modelling/spaces/vector-space.hpp"
#include "proxsuite-nlp/modelling/constraints.hpp"
#include <iostream>
using namespace proxsuite::nlp;
int main() {
  NegativeOrthantTpl<double> p;
  Eigen::VectorXd z(1), o(1); z << 2;
  for (double mu : {0.5, 0.01, 1e-8, 1e-9}) {
    p.setProxParameter(mu);
    double m = p.computeMoreauEnvelope(z, o);
    std::cout << mu << " " << m << "\n";
    if (std::abs(m - 2 / mu) > 1e-9 * m) return 1;
  }
  return 0;
}
'''
