prop="C01"
needs="a warm start at a strictly feasible point with a nonzero multiplier which makes the Lagrangian stationary: the block is inactive, so its residual (here the complementarity error) is not computed"
breaks="the solver reports success at a point which is not complementary (not a KKT point)"
edits=[("include/proxsuite-nlp/prox-solver.hxx","""    auto displ_cstr = workspace.shift_cstr_values[i];
""","""    auto displ_cstr = workspace.shift_cstr_values[i];
    if (!results.active_set[i].any()) {
      // the shifted constraint is inside of the set: nothing is violated
      results.constraint_violations(long(i)) = 0.;
      continue;
    }
""")]
demo=r'''//PRELUDE
int main() {
  // min 1/2 |x|^2 - 2x  s.t. x <= 3 : solution 2, multiplier 0
  Problem prob(rn(1), quad(M::Identity(1, 1), V::Constant(1, -2)));
  prob.addConstraint(ConstraintObjectTpl<double>(aff(M::Identity(1, 1), V::Constant(1, -3)), mk<NegativeOrthantTpl<double>>()));
  Solver s(prob, 1e-6, 1e-2);
  s.setup();
  V x0 = V::Constant(1, 1.5), l0 = V::Constant(1, 0.5);
  auto f = s.solve(x0, l0);
  double x = s.results_->x_opt[0];
  std::cout << f << " " << x << "\n";
  return f == SUCCESS && std::abs(x - 2) < 1e-3 ? 0 : 1;
}
'''
