prop="C23"
needs="an exception at the full step, then a halved step which can be evaluated but does not decrease the function"
breaks="a step reached after an exception is accepted without the sufficient-decrease test"
edits=[("include/proxsuite-nlp/linesearch-armijo.hpp","""    if (std::abs(dphi0) < options_.dphi_thresh) {""","""    if (alpha_try < 1. || std::abs(dphi0) < options_.dphi_thresh) {""")]
demo=r'''
#include "proxsuite-nlp/fwd.hpp"
#include "proxsuite-nlp/linesearch-armijo.hpp"
#include <iostream>
using namespace proxsuite::nlp;
int main() {
  Linesearch<double>::Options o;
  o.interp_type = LSInterpolation::BISECTION;
  ArmijoLinesearch<double> ls(o);
  auto phi = [](double a) { if (a > 0.7) throw std::runtime_error("domain"); return -a + 6 * a * a; };
  double al = 1;
  double v = ls.run(phi, 0., -1., al);
  std::cout << al << " " << v << "\n";
  return v <= 0 && v <= o.armijo_c1 * al * -1. && v == phi(al) ? 0 : 1;
}
'''
