prop="C07"
needs="a complex Hermitian matrix larger than the block size for which a 2x2 pivot is chosen inside a blocked panel"
breaks="the blocked Bunch-Kaufman panel forgets to conjugate the second workspace column after a 2x2 pivot: the trailing update, hence the factorisation and every solve, is wrong"
edits=[("include/proxsuite-nlp/linalg/bunchkaufman.hpp","""        w.col(k + 1).segment(k + 2, n - k - 2) =
            w.col(k + 1).segment(k + 2, n - k - 2).conjugate();
      }
    }
""","""      }
    }
""")]
src=[]
demo=r'''
#include "proxsuite-nlp/linalg/bunchkaufman.hpp"
#include <complex>
#include <iostream>
using namespace Eigen;
int main() {
  std::srand(3);
  for (int n : {4, 40, 100, 200}) {
    MatrixXcd a = MatrixXcd::Random(n, n);
    a = (a + a.adjoint()).eval();
    a.diagonal().setZero();
    MatrixXcd b = MatrixXcd::Random(n, 2);
    BunchKaufman<MatrixXcd> bk(a);
    MatrixXcd x = bk.solve(b);
    double e = (a * x - b).norm() / b.norm();
    std::cout << n << " " << e << "\n";
    if (!(e < 1e-8)) return 1;
  }
  return 0;
}
'''
