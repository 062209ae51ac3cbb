prop="C22"
needs="a product set with an equality block whose point is exactly zero (constraint satisfied, multiplier zero)"
breaks="the normal-cone Jacobian of a product drops the rows of a block at the origin"
edits=[("include/proxsuite-nlp/modelling/constraints/constraint-set-product.hpp","""      MatrixRef outblock = blockMatrixGetRow(Jout, m_blockSizes, i);
      m_components[i]->applyNormalConeProjectionJacobian(inblock, outblock);""","""      MatrixRef outblock = blockMatrixGetRow(Jout, m_blockSizes, i);
      if (inblock.isZero()) { // the origin is in the set: nothing is left
        outblock.setZero();
        continue;
      }
      m_components[i]->applyNormalConeProjectionJacobian(inblock, outblock);""")]
demo=r'''
#include "proxsuite-nlp/modelling/spaces/vector-space.hpp"
#include "proxsuite-nlp/modelling/constraints.hpp"
#include "proxsuite-nlp/modelling/constraints/constraint-set-product.hpp"
#include <iostream>
using namespace proxsuite::nlp;
int main() {
  using P = xyz::polymorphic<ConstraintSetTpl<double>>;
  ConstraintSetProductTpl<double> p({P(EqualityConstraintTpl<double>()), P(NegativeOrthantTpl<double>())}, {2, 1});
  Eigen::VectorXd z(3); z << 0, 0, 1;
  Eigen::MatrixXd J = Eigen::MatrixXd::Identity(3, 3);
  p.applyNormalConeProjectionJacobian(z, J);
  std::cout << J << "\n";
  return J == Eigen::MatrixXd::Identity(3, 3) ? 0 : 1;
}
'''
