prop="C11"
needs='two triangular blocks of opposite shapes multiplied when the fill-in is predicted'
breaks='the product of triangular blocks of opposite shapes is declared triangular: the predicted pattern misses entries of the factor'
edits=[("src/block-kind.cpp","""    return Zero;
  }
  return linalg::add(a, b);""","""    return Zero;
  }
  return a == Dense || b == Dense ? Dense : std::max(a, b);""")]
src=[]
flags='-I"$r/src"'
demo=r'''
#include "block-kind.cpp"
using namespace proxsuite::nlp::linalg;
int main() {
  for (int a = 0; a < 5; a++) for (int b = 0; b < 5; b++) {
    auto fill = [](int k, Eigen::Matrix3i &m) { for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++)
      m(i, j) = k == Dense || (k == Diag && i == j) || (k == TriL && i >= j) || (k == TriU && i <= j); };
    Eigen::Matrix3i x, y, z; fill(a, x); fill(b, y); fill(mul(BlockKind(a), BlockKind(b)), z);
    Eigen::Matrix3i p = x * y;
    for (int i = 0; i < 9; i++) if (p(i) && !z(i)) { std::cout << a << " " << b << "\n"; return 1; }
  }
  return 0;
}
'''
