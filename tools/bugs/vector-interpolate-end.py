prop="C13"
needs='interpolation of vectors with the parameter at (or within 1e-7 of) one'
breaks='the end of the interpolation segment is not reached'
edits=[("include/proxsuite-nlp/modelling/spaces/vector-space.hpp","out = u * x1 + (static_cast<Scalar>(1.) - u) * x0;","out = x0 + std::min(std::max(u, Scalar(0.)), Scalar(1.) - std::numeric_limits<float>::epsilon()) * (x1 - x0);")]
demo=r'''
#include "proxsuite-nlp/modelling/spaces/vector-space.hpp"
#include <iostream>
using namespace proxsuite::nlp;
int main() {
  VectorSpaceTpl<double> s(2);
  Eigen::VectorXd a(2), b(2); a << 1, 2; b << 30, -4;
  Eigen::VectorXd e = s.interpolate(a, b, 1.), h = s.interpolate(a, b, 0.5);
  std::cout.precision(12); std::cout << e.transpose() << "\n";
  return (e - b).norm() < 1e-10 && (h - 0.5 * (a + b)).norm() < 1e-10 ? 0 : 1;
}
'''
