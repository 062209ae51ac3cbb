prop="C28"
needs="the infinity norm of a list of vectors with an empty one among them"
breaks="the norm of a list forgets the vectors that follow an empty one"
edits=[("include/proxsuite-nlp/math.hpp","""  typename MatType::Scalar out = 0.;
  for (std::size_t i = 0; i < n; i++) {""","""  typename MatType::Scalar out = 0.;
  for (std::size_t i = 0; i < n && z[i].size() != 0; i++) {""")]
demo=r'''
#include "proxsuite-nlp/fwd.hpp"
#include "proxsuite-nlp/math.hpp"
#include <iostream>
int main() {
  std::vector<Eigen::VectorXd> v{Eigen::VectorXd::Constant(2, 1.), Eigen::VectorXd(0), Eigen::VectorXd::Constant(2, 3.)};
  double n = proxsuite::nlp::math::infty_norm(v);
  std::cout << n << "\n";
  return n == 3 ? 0 : 1;
}
'''
