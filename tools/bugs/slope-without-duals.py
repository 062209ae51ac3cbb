prop="C03"
needs="the primal-dual system on a constrained problem"
breaks="the slope given to the linesearch forgets the multiplier part of the step, so accepted steps need not decrease the merit function as documented"
edits=[("include/proxsuite-nlp/prox-solver.hxx","""        workspace.merit_gradient.dot(workspace.prim_step) +
        workspace.merit_dual_gradient.dot(workspace.dual_step);""","""        workspace.merit_gradient.dot(workspace.prim_step);
    if (kkt_system_ == KKT_CLASSIC)
      workspace.dmerit_dir +=
          workspace.merit_dual_gradient.dot(workspace.dual_step);""")]
demo=r'''//PRELUDE
int main() {
  int n = 3;
  auto c = quad(M::Identity(n, n), V::Constant(n, -1.));
  using C = ConstraintObjectTpl<double>;
  Problem p(rn(n), c, std::vector<C>{C(aff(M::Ones(1, n), V::Constant(1, -1.)), mk<EqualityConstraintTpl<double>>())});
  Solver s(p, 1e-6, 1e-2, 0., QUIET);
  s.kkt_system_ = KKT_PRIMAL_DUAL;
  s.setup();
  double worst = 0; int k = 0;
  s.registerCallback(std::make_shared<CB>([&](const auto &w, const auto &) {
    if (k++ == 1) {
    double d = w.merit_gradient.dot(w.prim_step) + w.merit_dual_gradient.dot(w.dual_step);
    worst = std::max(worst, std::abs(d - w.dmerit_dir) / (1e-10 + std::abs(d))); }
  }));
  k = 1;
  V x = V::Constant(n, 3.); V l = V::Constant(1, 5.);
  s.solve(x, l);
  std::cout << worst << "\n";
  return worst < 1e-8 ? 0 : 1;
}
'''
