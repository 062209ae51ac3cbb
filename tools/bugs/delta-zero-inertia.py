prop="C08"
needs="a singular Lagrangian Hessian with dependent constraint gradients: exactly one pivot is zero and the others have the expected signs"
breaks="a signature with a zero pivot is accepted as the right inertia if no sign is wrong"
edits=[("include/proxsuite-nlp/prox-solver.hxx","""  bool zer_ok = numzer == 0;
  if (!(pos_ok && neg_ok && zer_ok)) {""","""  bool zer_ok = numpos + numneg + numzer == ndx + numc;
  if (!((pos_ok || numzer > 0) && neg_ok && zer_ok)) {""")]
demo=r'''//PRELUDE
int main() {
  Eigen::VectorXi a(3); a << 1, 0, -1;
  auto f = checkInertia(2, 1, a);
  std::cout << f << "\n";
  Eigen::VectorXi b(3); b << 1, 1, -1;
  return f == INERTIA_HAS_ZEROS && checkInertia(2, 1, b) == INERTIA_OK ? 0 : 1;
}
'''
