prop="C18"
needs="a wrapped function with more outputs than inputs and non-vanishing third order terms"
breaks="second derivatives of tall functions come from a one-sided difference: first-order instead of second-order accuracy"
edits=[("include/proxsuite-nlp/modelling/autodiff/finite-difference.hpp","""      func.computeJacobian(xminus, Jminus);
      Hout.col(i) = ((Jplus - Jminus) / (2 * fd_eps)).transpose() * v;
""","""      const bool tall = func.nr() > func.ndx();
      func.computeJacobian(tall ? VectorXs(x) : xminus, Jminus);
      Hout.col(i) =
          ((Jplus - Jminus) / (tall ? fd_eps : 2 * fd_eps)).transpose() * v;
""")]
demo=r'''
#include "proxsuite-nlp/modelling/spaces/vector-space.hpp"
#include "proxsuite-nlp/modelling/autodiff/finite-difference.hpp"
#include <iostream>
using namespace proxsuite::nlp;
struct F : C1FunctionTpl<double> {
  F() : C1FunctionTpl<double>(1, 1, 3) {}
  using C1FunctionTpl<double>::computeJacobian;
  VectorXs operator()(const ConstVectorRef &x) const override { VectorXs o(3); o << x[0], std::pow(x[0], 3), std::exp(x[0]); return o; }
  void computeJacobian(const ConstVectorRef &x, MatrixRef J) const override { J(0, 0) = 1; J(1, 0) = 3 * x[0] * x[0]; J(2, 0) = std::exp(x[0]); }
  using V = VectorXs;
};
int main() {
  VectorSpaceTpl<double> s(1);
  F f;
  autodiff::finite_difference_wrapper<double, autodiff::TOC2> w(s, f, 1e-3);
  Eigen::VectorXd x(1), v(3); x << 0.7; v << 1, 1, 1;
  Eigen::MatrixXd H(1, 1);
  w.vectorHessianProduct(x, v, H);
  double e = std::abs(H(0, 0) - (6 * .7 + std::exp(.7)));
  std::cout << e << "\n";
  return e < 1e-5 ? 0 : 1;
}
'''
