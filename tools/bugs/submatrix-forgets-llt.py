prop="C11"
needs="a sub-structure view taken after the structure has been eliminated, whose flag is then used"
breaks="the view of an already eliminated structure claims that it is not eliminated"
edits=[("src/block-kind.cpp","""  res.performed_llt = performed_llt;
""","")]
demo=r'''//PRELUDE
#include "proxsuite-nlp/linalg/block-kind.hpp"
int main() {
  namespace L = proxsuite::nlp::linalg;
  L::SymbolicBlockMatrix s(3, 3);
  for (int i = 0; i < 3; i++) {
    s.segment_lens[i] = 2;
    for (int j = 0; j < 3; j++) s(i, j) = i == j ? L::Diag : L::Dense;
  }
  if (!s.llt_in_place()) return 4;
  bool ok = s.performed_llt && s.submatrix(1, 2).performed_llt;
  L::isize id[3] = {0, 1, 2};
  (void)id;
  s.deallocate();
  return ok ? 0 : 1;
}
'''
