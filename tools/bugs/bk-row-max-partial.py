prop="C07"
needs="a matrix in which the largest entry of the pivot candidate's column lies below its diagonal and dwarfs the rest"
breaks="the pivot search only looks at half of the candidate's row, so tiny pivots are accepted and the element growth ruins the solution"
edits=[("include/proxsuite-nlp/linalg/bunchkaufman.hpp","""        if (n - imax - 1 > 0) {
          rowmax = numext::maxi(rowmax, a.col(imax)
                                            .segment(imax + 1, n - imax - 1)
                                            .cwiseAbs()
                                            .maxCoeff());
        }
""","")]
demo=r'''//PRELUDE
#include "proxsuite-nlp/linalg/bunchkaufman.hpp"
int main() {
  double worst = 0;
  std::mt19937 g(3);
  std::normal_distribution<double> N;
  std::uniform_real_distribution<double> U(-8, 8);
  for (int k = 0; k < 20000; k++) {
    const int n = 3 + k % 4;
    M A(n, n);
    for (int i = 0; i < n; i++)
      for (int j = 0; j <= i; j++)
        A(i, j) = A(j, i) = N(g) * std::pow(10., U(g));
    proxsuite::nlp::BunchKaufman<M> bk(n);
    bk.compute(A);
    V b = V::Random(n);
    V x = bk.solve(b);
    worst = std::max(worst, (A * x - b).norm() / (A.norm() * x.norm() + b.norm()));
  }
  std::cout << worst << "\n";
  return worst < 1e-13 ? 0 : 1;
}
'''
