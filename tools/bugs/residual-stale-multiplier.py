prop="C06"
needs="an inequality whose shifted value is inside with one multiplier and outside with the other (outer multipliers differ from the inner ones)"
breaks="the primal residual uses the multipliers of the previous outer iteration, not the current ones"
edits=[("include/proxsuite-nlp/prox-solver.hxx","      workspace.data_cstr_values + mu_ * results.data_lams_opt;","      workspace.data_cstr_values + mu_ * workspace.data_lams_prev;")]
demo=r'''//PRELUDE
int main() {
  Problem prob(rn(1), quad(M::Identity(1, 1), V::Constant(1, -2)));
  prob.addConstraint(ConstraintObjectTpl<double>(aff(M::Identity(1, 1), V::Constant(1, -1)), mk<NegativeOrthantTpl<double>>()));
  Solver s(prob, 1e-6, 0.1);
  s.setup();
  auto &w = *s.workspace_; auto &r = *s.results_;
  w.data_cstr_values << -1;
  w.data_lams_prev << 0;
  r.data_lams_opt << 5;
  s.computePrimalResiduals(w, r);
  std::cout << r.prim_infeas << "\n";
  // c - proj(c + mu lam) = -1 - min(0, -0.5) = -0.5
  return std::abs(r.prim_infeas - 0.5) < 1e-12 ? 0 : 1;
}
'''
