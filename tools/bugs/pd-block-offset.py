prop="C29"
needs="the primal-dual linear system with constraint blocks of different sizes, the last one with an inactive row"
breaks="the correction of the lower-right block lands on the rows of another constraint: the step does not solve the Newton system"
edits=[("include/proxsuite-nlp/prox-solver.hxx","      int idx = problem_->getIndex(i);\n      int nr","      int idx = int(i) * problem_->getConstraintDim(0);\n      int nr")]
demo=r'''//PRELUDE
int main() {
  M A(2, 4), B(2,4), C(1,4); A << 1, 2, 0, 1, 0, 1, -1, 1; C << 1, 1, 1, 1; B << 1,-1,0,1, 2,0,1,1;
  M Q = M::Identity(4, 4); V q(4); q << -1, -2, -3, 1;
  Problem prob(rn(4), quad(Q, q));
  prob.addConstraint(ConstraintObjectTpl<double>(aff(C, V::Constant(1, -1)), mk<EqualityConstraintTpl<double>>()));
  prob.addConstraint(ConstraintObjectTpl<double>(aff(A, V::Constant(2, -1)), mk<NegativeOrthantTpl<double>>()));
  prob.addConstraint(ConstraintObjectTpl<double>(aff(A.topRows(1), V::Constant(1, 20)), mk<NegativeOrthantTpl<double>>()));
  Solver s(prob, 1e-6, 1e-2);
  s.kkt_system_ = KKT_PRIMAL_DUAL;
  s.setup();
  V d;
  s.assembleKktMatrix(*s.workspace_); // shifted values are zero: all inequality rows are inactive
  d = s.workspace_->kkt_matrix.diagonal().tail(4);
  std::cout << d.transpose() << "\n";
  V e(4); e << -1e-2, -0.5e-2, -0.5e-2, -0.5e-2;
  return (d - e).norm() < 1e-12 ? 0 : 1;
}
'''
