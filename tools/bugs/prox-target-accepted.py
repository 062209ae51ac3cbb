prop="C03"
needs="a proximal parameter which is not zero and outer iterations which fail the feasibility test"
breaks="the proximal centre follows only some of the outer iterates, so the iterates are held back to an old point"
edits=[("include/proxsuite-nlp/prox-solver.hxx","""    // accept new primal iterate
    workspace.x_prev = results.x_opt;
    prox_penalty.updateTarget(workspace.x_prev);
""","""    // accept new primal iterate
    if (results.prim_infeas < prim_tol_)
      workspace.x_prev = results.x_opt;
    prox_penalty.updateTarget(workspace.x_prev);
""")]
demo=r'''//PRELUDE
int main() {
  Problem prob(rn(2), quad(M::Identity(2, 2), V::Constant(2, -1)));
  M A(1, 2); A << 1, 2;
  prob.addConstraint(ConstraintObjectTpl<double>(aff(A, V::Constant(1, -40)), mk<EqualityConstraintTpl<double>>()));
  Solver s(prob, 1e-6, 0.9, 10.);
  s.setup();
  std::size_t al = 0;
  V x; int bad = 0, n = 0;
  s.registerCallback(std::make_shared<CB>([&](const WorkspaceTpl<double> &w, const ResultsTpl<double> &r) {
    if (r.al_iters != al) { al = r.al_iters; n++; if ((V(s.prox_penalty.getTarget()) - x).norm() > 1e-12) bad++; }
    x = r.x_opt;
  }));
  s.solve(V::Zero(2), V::Zero(1));
  std::cout << n << " " << bad << "\n";
  return n && !bad ? 0 : 1;
}
'''
