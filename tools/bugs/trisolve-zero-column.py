prop="C12"
needs="a block triangular solve with several right-hand sides, the first of which has a zero block where the others do not"
breaks="the update of the remaining rows is skipped for all right-hand sides if the block of the first one is zero"
edits=[("include/proxsuite-nlp/linalg/block-triangular.hpp","""      if (!inner_flag)
        return false;
""","""      if (!inner_flag)
        return false;

      // nothing to propagate for a sparse right-hand side
      if (b0.col(0).isZero(Scalar(0)))
        continue;
""")]
demo=r'''
#include "proxsuite-nlp/fwd.hpp"
#include "proxsuite-nlp/math.hpp"
#include "proxsuite-nlp/linalg/block-kind.hpp"
#include "proxsuite-nlp/linalg/block-triangular.hpp"
#include <iostream>
using namespace proxsuite::nlp::linalg;
using M = Eigen::MatrixXd;
int main() {
  std::vector<isize> lens{2, 2};
  SymbolicBlockMatrix s(lens);
  s(0, 0) = TriL; s(1, 1) = TriL; s(1, 0) = Dense; s(0, 1) = Zero;
  M t(4, 4); t << 2, 0, 0, 0, 1, 3, 0, 0, 1, 2, 4, 0, -1, 1, 1, 5;
  TriangularBlockMatrix<const M, Eigen::Lower> a(t, s);
  M b(4, 2); b << 0, 1, 0, 2, 1, 1, 2, 3;
  M x = b;
  if (!a.solveInPlace(x)) return 1;
  std::cout << t * x - b << "\n";
  return (t * x - b).norm() < 1e-12 ? 0 : 1;
}
'''
