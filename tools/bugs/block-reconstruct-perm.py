prop="C10"
needs="a block permutation which is not its own inverse (a 3-cycle) with blocks of different sizes"
breaks="reconstruction of the factored matrix applies the inverse permutation"
edits=[("include/proxsuite-nlp/linalg/block-ldlt.hxx","""  res.noalias() = permutationP() * res;
  res.noalias() = res * permutationP().transpose();""","""  res.noalias() = permutationP().transpose() * res;
  res.noalias() = res * permutationP();""")]
demo=r'''
#include "proxsuite-nlp/fwd.hpp"
#include "proxsuite-nlp/linalg/block-ldlt.hpp"
#include <iostream>
using namespace proxsuite::nlp;
using namespace proxsuite::nlp::linalg;
int main() {
  SymbolicBlockMatrix s(std::vector<isize>{1, 2, 3});
  BlockLDLT<double> l(6, s);
  isize p[3] = {1, 2, 0};
  l.setBlockPermutation(p);
  Eigen::MatrixXd a = Eigen::MatrixXd::Random(6, 6);
  a = (a * a.transpose()).eval(); a.diagonal().array() += 1;
  l.compute(a);
  double e = (l.reconstructedMatrix() - a).norm();
  Eigen::VectorXd b = Eigen::VectorXd::Random(6), x = b;
  l.solveInPlace(x);
  std::cout << e << " " << (a * x - b).norm() << "\n";
  s.deallocate();
  return e < 1e-10 && (a * x - b).norm() < 1e-9 ? 0 : 1;
}
'''
