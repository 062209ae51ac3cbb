prop="C03"
needs="an outer iteration which fails the feasibility test, with the tolerance schedule observed through the iterations which follow"
breaks="after a rejected outer iterate the tolerances are computed from the penalty parameter of the previous one"
edits=[("include/proxsuite-nlp/prox-solver.hxx","""      updatePenalty();
      updateToleranceFailure();
""","""      updateToleranceFailure();
      updatePenalty();
""")]
demo=r'''//PRELUDE
int main() {
  // weakly penalised equality: first outer iterate is rejected
  Problem prob(rn(1), quad(M::Identity(1, 1), V::Constant(1, 0)));
  prob.addConstraint(ConstraintObjectTpl<double>(aff(M::Identity(1, 1), V::Constant(1, -100)), mk<EqualityConstraintTpl<double>>()));
  Solver s(prob, 1e-8, 0.5);
  s.setup();
  int bad = 0, n = 0;
  double mu = 0.5;
  s.registerCallback(std::make_shared<CB>([&](const WorkspaceTpl<double> &, const ResultsTpl<double> &r) {
    if (r.mu < mu) { // after a decrease: a failure
      mu = r.mu; n++;
      double want = std::max(s.prim_tol0 * std::pow(mu, s.bcl_params.prim_alpha), s.target_tol);
      if (std::abs(s.prim_tol_ - want) > 1e-12) bad++;
    }
  }));
  s.solve(V::Zero(1), V::Zero(1));
  std::cout << n << " " << bad << "\n";
  return n && !bad ? 0 : 1;
}
'''
