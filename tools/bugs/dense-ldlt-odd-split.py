prop="C09"
needs="a dense matrix beyond the blocking threshold (more than 128 rows) whose trailing half is reached through the recursive path"
breaks="the sign reported for large matrices ignores the pivots of the trailing half"
edits=[("include/proxsuite-nlp/linalg/dense.hpp","    return backend::dense_ldlt_in_place(l11, sign);","    SignMatrix sign_tail = sign;\n    return backend::dense_ldlt_in_place(l11, sign_tail);")]
demo=r'''
#include "proxsuite-nlp/fwd.hpp"
#include "proxsuite-nlp/linalg/dense.hpp"
#include <iostream>
using namespace proxsuite::nlp;
int main() {
  for (int n : {4, 128, 150, 300}) {
    Eigen::MatrixXd a = Eigen::MatrixXd::Identity(n, n);
    a(n - 1, n - 1) = -1;
    linalg::DenseLDLT<double> l(n);
    l.compute(a);
    std::cout << n << " " << l.sign() << "\n";
    if (l.sign() != linalg::SignMatrix::Indefinite) return 1;
  }
  return 0;
}
'''
